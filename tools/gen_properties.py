#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

WE = "pkg/webextensions/"
BB = "cmd/burl_backend/burl_backend.go"
INST = "cmd/burl_backend/install.go"
ARGS = "cmd/burl_backend/args.go"

p("C01", "Incoming frames decode the same however the bytes arrive",
  "However the byte stream from the peer is split into reads, the native messaging server and client decode exactly the messages the peer framed, in order, one JSON message per frame, including frames whose JSON text is surrounded by whitespace. End of the stream on a frame boundary ends the session cleanly after the last message.",
  ["inputs", "schedules"], "all splittings of the incoming stream into reads, all message sizes, both the server and the client side",
  "Existing tests use an in-process pipe where every write is seen as one read and messages are a few dozen bytes, so short reads, reads that stop inside a length header or just before the trailing newline of a message are never produced.",
  [WE + "frame.go", WE + "server.go", WE + "client.go"],
  [("length-limited reader reset by each header", WE + "frame.go"), ("codec reads the header before each message", WE + "server.go, client.go")],
  [("remaining bytes of the current frame", "how much the JSON decoder may still consume", WE + "frame.go")])

p("C02", "Outgoing messages are whole, correctly sized frames",
  "Everything written to the output stream is a concatenation of frames, each a 4-byte native-order length followed by exactly that many bytes holding one JSON message, no matter how many calls are in progress concurrently and whether an earlier message could not be encoded. If the output stream breaks at some byte, what the peer has received is a prefix of such a concatenation.",
  ["schedules", "inputs", "fault_sequences"], "all interleavings of concurrent handlers or callers, all message sequences including unencodable ones, every byte at which the output may break",
  "The tests run one lucky schedule of four calls on an unbreakable pipe and parse the output with the same package.",
  [WE + "frame.go", WE + "server.go", WE + "client.go"],
  [("buffered frame writer that emits size and body together", WE + "frame.go"), ("frame flushed by the codec after each message", WE + "server.go, client.go")],
  [("output buffer", "body of the frame being composed", WE + "frame.go")])

p("C03", "Every request gets exactly one reply with its own id and result",
  "For every interleaving of request arrival, handler completion and reply writing, every well-formed request receives exactly one reply carrying its own id and the result or error of its own call, and every call made through the Go client completes with its own result. All requests that arrived before the input ended are answered before the session closes its streams.",
  ["schedules", "histories"], "all interleavings (within a preemption bound) of several overlapping requests and of end of input, all completion orders",
  "TestParallelQueries observes one schedule chosen by the runtime; loss, duplication or cross-talk needs a particular interleaving.",
  [WE + "server.go", WE + "client.go", WE + "frame.go", BB],
  [("pending-id table and reply lock of net/rpc reached through the framing codec", WE + "server.go"), ("handlers awaited before the codec is closed", WE + "server.go")])

p("C04", "Broken input ends the session without damage",
  "When the input is truncated at any byte, announces a frame larger than the 1 GiB limit, or carries a frame body that does not begin with a complete JSON object, the backend ends the session by itself: it does not crash, hang or reserve memory for data it has not received. Requests framed before the damage are answered as usual and nothing at or after the damage is acted upon or answered.",
  ["inputs", "fault_sequences"], "every truncation point, every oversized length, every malformed body of a bounded alphabet, at every position of a request history",
  "No test feeds malformed input at all.",
  [WE + "frame.go", WE + "server.go", BB],
  [("size check against the limit", WE + "frame.go"), ("header errors stop the serving loop", WE + "server.go")])

p("C05", "Only published methods are callable and each request is answered",
  "Only the published method names (hello, capture, visit, urlMentions, linkSet with their burl. and linkremark. prefixes; bare names only for hello and capture) reach backend functionality. A request that names anything else or whose arguments have a wrong shape gets an error reply with its own id and has no effect, and the session keeps serving later requests.",
  ["inputs", "histories"], "all method names of an alphabet around the published ones, all parameter and id shapes, in all short sequences",
  "The tests use a test service with its real Go method name; the name map of the backend and its error paths are not executed by any test.",
  [BB, WE + "server.go", "pkg/burl_rpc/burl_rpc.go"],
  [("method name map wrapped around the JSON-RPC codec", WE + "server.go"), ("registered name table", BB)])

p("C06", "urlMentions reports exactly the recorded occurrences",
  "For every set of configured note files, urlMentions reports exactly those links of the files whose URL is one of the queried URLs (or an equivalent spelling): for each section each distinct matching URL once, with the file path as it is configured, the line number of its first occurrence in the section and the description of a bracket link, while totals count every occurrence. In Org files text that is not a link with a configured scheme is never reported, and no recognisable bracket, angle or plain link is missed.",
  ["inputs", "configurations"], "all note files built from a bounded alphabet of link spellings, non-links, separators and line ends, as Org and as plain text sources, and all file groups",
  "Tests cover extraction of link sets for five hand-picked Org snippets; the tree extraction, counting, line numbers, descriptions and the RPC method have no test.",
  ["pkg/burl_links/extract_org.go", "pkg/burl_links/extract_txt.go", "pkg/burl_links/urlmatch_txt.go", "pkg/burl_links/link_tree.go", "pkg/burl_links/node_count.go", "pkg/burl_links/link_source.go", BB],
  [("link regular expressions", "pkg/burl_links/extract_org.go, urlmatch_txt.go"), ("tree of files, headings and link groups with counts", "pkg/burl_links/link_tree.go, node_count.go"), ("variant filter", BB)])

p("C07", "Org links are attributed to their real enclosing headings",
  "Every reported link of an Org file appears below exactly the headings that enclose it in the outline, outermost first, each with its own line number and text, for every sequence of heading levels including skipped levels, any depth and blanks after the heading text. Each heading appears at most once, siblings keep document order, and links before the first heading belong to the file itself.",
  ["inputs"], "all sequences of headings of any level and link lines up to a bounded length",
  "No test builds a heading tree.",
  ["pkg/burl_links/extract_org.go", "pkg/burl_links/link_tree.go", "pkg/burl_links/node_count.go"],
  [("stack of current headings and stack of their tree nodes", "pkg/burl_links/extract_org.go")],
  [("current heading path", "headings enclosing the current line", "pkg/burl_links/extract_org.go")])

p("C08", "The result limit trims without lying",
  "For every count limit a client may send (any integer, or none, which means 8) urlMentions answers; it returns no more links than the limit, totals stay those of the unlimited result, the filtered number of every node equals the number of links actually present below it, and every returned link is one of the matches, in document order. With a limit of at least 1 and some match at least one link is returned, and with a limit not less than the number of matches every distinct match of every section is returned.",
  ["inputs"], "all limits including negative and huge ones, all small trees of files, headings and match counts",
  "No test calls the trimming code.",
  ["pkg/burl_links/node_count.go", "pkg/burl_links/link_tree.go", BB],
  [("proportional distribution of the limit over children", "pkg/burl_links/link_tree.go"), ("recount after trimming", "pkg/burl_links/node_count.go")])

p("C09", "An answer does not depend on other queries",
  "While the note files do not change, the reply to a request is the same whether it is the first one of a session, follows any sequence of other requests, or is processed concurrently with them. This includes several first queries at once that trigger the lazy reading of the files.",
  ["histories", "schedules"], "all request sequences up to a bounded length and all interleavings of concurrent requests within a preemption bound",
  "No test sends two different queries to one backend.",
  [BB, "pkg/burl_links/node_count.go", "pkg/burl_links/link_tree.go", "pkg/burl_url/url.go"],
  [("once-guarded lazy initialisation", BB), ("filtering copies the cached tree", "pkg/burl_links/node_count.go, link_tree.go")],
  [("cached link tree", "result of the only read of the files", BB)])

p("C10", "URL equivalence is exactly the stated one",
  "A recorded URL matches a queried URL exactly when it equals the queried URL or can be obtained from it by exchanging http: and https: at its start and/or cutting off some final part of its redundant tail, which is any run of slashes, then an optional empty query (? and stray &), then an optional empty fragment (#). No other difference is tolerated and nothing else of the URL is altered.",
  ["inputs"], "all URLs composed from a set of schemes, bodies (ASCII and not) and all tails over /?&#x up to a bounded length, against all recorded URLs of the same set",
  "No test covers URL variants.",
  ["pkg/burl_url/url.go", BB],
  [("tail stripping and scheme replacement", "pkg/burl_url/url.go"), ("exact comparison with recorded links", BB)])

p("C11", "linkSet returns exactly the links that start with a prefix",
  "linkSet returns, without duplicates, exactly the URLs of links in the configured files that begin with one of the requested prefixes; a bare scheme name stands for all links of that scheme and all other characters of a prefix are literal. A request with no prefix, with a malformed prefix or with more than 16 prefixes, and any linkSet request when the method is disabled, gets an error reply instead of a set.",
  ["inputs", "configurations"], "all prefix lists over a bounded alphabet of schemes and URL beginnings with regular-expression metacharacters, against files with all link spellings, in Org and plain text form",
  "Five examples per format; no prefix longer than a site root, no metacharacters, no error case.",
  ["pkg/burl_links/extract_org.go", "pkg/burl_links/extract_txt.go", "pkg/burl_links/link_source.go", BB],
  [("prefix validation and quoting", "pkg/burl_links/extract_org.go"), ("set accumulated over all sources", "pkg/burl_links/link_source.go")])

p("C12", "Only configured files and org-protocol URIs reach Emacs",
  "The backend runs the editor command only to capture an org-protocol: URI sent in org-protocol format without an error mark, or to visit a file whose name is exactly one of the configured sources; the URI or file is passed as one verbatim argument together with the configured extra arguments (and +LINE for a positive line). Any other request is refused without running anything for it, and success is reported only when every editor run needed for the request succeeded. An editor run is waited for however long it takes. The editor runs in the working directory and with the environment of the backend, so a relative file name means the same file to it.",
  ["inputs", "fault_sequences", "configurations"], "all capture and visit requests of a bounded alphabet of hostile values, all exit statuses and outputs of each editor run, all extra-argument configurations",
  "Nothing in this part is tested; it is what confines a possibly compromised add-on.",
  [BB, "pkg/burl_emacs/emacs.go"],
  [("file allow-list in visit", BB), ("scheme check and org-protocol probe", "pkg/burl_emacs/emacs.go")])

p("C13", "Concurrent editor requests do not mix",
  "When several capture and visit requests are processed concurrently, every editor process is started with the arguments of exactly one request and each request's URI or file is delivered exactly once. This holds for every interleaving and every number of configured extra editor arguments.",
  ["schedules", "configurations"], "all interleavings within a preemption bound of two or three overlapping capture/visit requests, with 0 to 5 configured extra arguments",
  "No test runs the editor command, and the failure needs a preemption between building and using the argument list.",
  ["pkg/burl_emacs/emacs.go", BB],
  [("argument list composed from shared defaults", "pkg/burl_emacs/emacs.go")],
  [("extra editor arguments", "list shared by all requests", "pkg/burl_emacs/emacs.go")])

p("C14", "hello advertises exactly what works",
  "The hello reply selects the org-protocol format with the version first offered for it, or is an error if that is not offered. It lists urlMentions and visit exactly when source files are configured and linkSet exactly when additionally it is not disabled, and the methods behave accordingly in the same session.",
  ["configurations", "inputs"], "all lists of offered formats up to a bounded length, all combinations of configured files and switches",
  "No test.", [BB, ARGS, "pkg/burl_rpc/burl_rpc.go"],
  [("capability list built from configuration", BB)])

p("C15", "The generated wrapper reproduces the command line",
  "Running the generated wrapper script with /bin/sh starts the backend with the same settings as given when it was generated: log destination, schemes, editor command and arguments, the linkSet switch, and the same files of the same kind in the same order as absolute real paths, for any characters in the values and in any locale. If the backend executable is missing, the wrapper instead writes exactly one well-formed native messaging frame with a JSON error.",
  ["inputs", "configurations"], "all option values over a bounded alphabet of shell-active, blank, control, quote and non-ASCII characters, all combinations of options, generation and execution locales",
  "No test.", [ARGS, INST, "pkg/burl_fileutil/escape_printf.go", "pkg/burl_util/multistring_flag.go"],
  [("shell quoting of each value", "pkg/burl_fileutil/escape_printf.go"), ("list of options that differ from defaults", ARGS), ("script template", INST)])

p("C16", "Installing never corrupts or clobbers a file",
  "At every point of writing a wrapper or manifest, whatever file operation fails or wherever the process is killed, the target path holds either its complete previous content or the complete new content, and files other than the targets are unaffected. Without -force an existing file with different content is never changed, with -force an existing regular file is replaced whatever it holds; success is reported only if the target has the new content (and is executable for a wrapper), and a reported failure leaves the target as it was and no temporary file behind.",
  ["crash_points", "fault_sequences", "configurations"], "every system call of the real program as a kill point or failure point, for all kinds of pre-existing targets, with and without -force",
  "No test; crash and I/O failures cannot be produced by ordinary tests.",
  ["pkg/burl_fileutil/fileutil.go", INST],
  [("compare, then temporary file and rename", "pkg/burl_fileutil/fileutil.go")])

p("C17", "Manifests are valid and consistent",
  "Whenever a manifest is generated it is valid JSON whose name equals the base name of the manifest file, whose path is the absolute path of the wrapper if one is requested and of the backend otherwise, whose type is stdio, and which has exactly one of allowed_extensions (Firefox) and allowed_origins (Chrome) with exactly the requested ids. Exactly the requested documents are written, at most one of them to the standard output. A request that cannot satisfy this, or that has custom backend options without a wrapper, fails and does not create that manifest.",
  ["inputs", "configurations"], "all combinations of target path forms, backend names, id lists, wrapper choices and custom options of a bounded alphabet",
  "No test.", [INST, WE + "manifest.go", "pkg/burl_fileutil/fileutil.go"],
  [("manifest self-check", WE + "manifest.go"), ("path and name derivation", "pkg/burl_fileutil/fileutil.go")])

p("C18", "Repeated list options compose predictably",
  "A repeated list option appends each value to its default list; an empty value discards everything so far, except that it is refused once values were appended to undiscarded defaults. The recorded list of changes, when given again, always recreates the same list and reports whether anything was changed at all.",
  ["histories"], "all sequences of option values up to a bounded length, over default lists of several lengths and spare capacities",
  "No test.", ["pkg/burl_util/multistring_flag.go", ARGS],
  [("three-state flag", "pkg/burl_util/multistring_flag.go")],
  [("state", "initial, appended, reset", "pkg/burl_util/multistring_flag.go")])

p("C19", "Fuzzy distance is the true best substring edit distance",
  "The approximate search distance between a pattern and a text is the minimum, over all substrings of the text, of the number of insertions, deletions, substitutions and swaps of neighbouring characters (each character edited at most once) that turn the pattern into that substring, ignoring letter case. It is computed per character, not per byte, and an empty pattern or text is no exception.",
  ["inputs"], "all pattern/text pairs over small alphabets up to a bounded length",
  "Seven examples; transposition and row-reuse mistakes show only for particular repetitions.",
  ["pkg/burl_fuzzy/approsearch.go"], [("row-reusing dynamic programming", "pkg/burl_fuzzy/approsearch.go")])

p("C20", "Fuzzy search keeps exactly the best matches",
  "Fuzzy search over any stream of candidate URLs returns exactly the requested number (or all, if fewer qualify) of best candidates whose summed distance (the number of edited characters ignoring letter case) to the query words is within the tolerance, ranked by distance, then length, then text. The outcome does not depend on the order in which the candidates are read.",
  ["inputs", "histories"], "all candidate sequences over a small word set up to a bounded length, all limits, tolerances and query lists of bounded alphabets",
  "No test covers ranking.",
  ["pkg/burl_fuzzy/rank.go"], [("bounded heap of worst-first candidates", "pkg/burl_fuzzy/rank.go")])

p("C21", "Client calls always complete, and never with a wrong result",
  "If the backend's output breaks or ends at any byte, or the backend dies at any point, every outstanding call of the Go client completes: with its correct result if its whole reply had arrived, otherwise with an error. Closing a client that launched a backend command ends that command and reports its failure status.",
  ["fault_sequences", "schedules"], "every truncation byte and damaged length of a reply stream, every number and order of outstanding calls, all exit statuses of the child",
  "Tests only close healthy connections.",
  [WE + "client.go", WE + "frame.go"], [("framed client codec", WE + "client.go"), ("command wrapper", WE + "client.go")])

p("C22", "The example add-on client settles each call once and correctly",
  "In the example add-on, every message sent through the RPC client is settled exactly once: resolved with the result of the reply with its own id, whatever JSON value that result is, rejected with the reported error, or rejected when the port disconnects. Replies in any order, foreign or repeated replies and reconnections never settle another call.",
  ["histories"], "all event sequences (send, reply of each kind in any order, stray reply, disconnect) up to a bounded length",
  "The JavaScript has no tests.",
  ["examples/webextensions_addon/rpc_client.js"], [("map of pending promises by id", "examples/webextensions_addon/rpc_client.js")])

p("C23", "Unreadable sources give errors, never silent partial answers",
  "If any configured source file cannot be opened or completely read (missing, not a regular file, I/O error, a line too long), every urlMentions and linkSet request gets an error reply rather than a result based on part of the data. Other methods keep working and the session continues; a read that merely returns data in small pieces or late changes nothing.",
  ["fault_sequences", "configurations"], "every position of a bad file among the sources, every read operation as failure point or short read",
  "No test.", ["pkg/burl_links/link_source.go", "pkg/burl_links/extract_org.go", "pkg/burl_links/extract_txt.go", BB],
  [("errors propagated from scanner and open", "pkg/burl_links/link_source.go"), ("stored initialisation error", BB)])

p("C24", "The command line tool applies the same URL filter",
  "burl_tool URL FILE... prints exactly the links of the files that match the URL or an equivalent spelling, with the same files, headings and line numbers as urlMentions would, at most 8 of them, and burl_tool -set PREFIX FILE... prints exactly the links linkSet would return. Standard input, given as -, is read like a file. A file it cannot read, or a result it cannot print, makes it fail with a non-zero status.",
  ["inputs"], "all note files and queries of a bounded alphabet",
  "No test.", ["cmd/burl_tool/burl_tool.go", "pkg/burl_links/flag.go", "pkg/burl_links/link_source.go"],
  [("variant filter", "cmd/burl_tool/burl_tool.go"), ("source kind by option or file suffix", "pkg/burl_links/flag.go")])

p("C25", "Configured schemes decide what is an Org link",
  "With any list of -scheme options, exactly the links of Org files whose URL starts with one of the configured schemes and a colon are found, in bracket, angle and plain form alike, whatever the order and spelling (with or without the final colon) of the list. Other schemes, and configured scheme names occurring elsewhere in a bracket link or inside of a word, are not treated as links.",
  ["configurations", "inputs"], "all scheme lists over a small set including a discarded default list, against files with all link spellings for each scheme",
  "The tests exercise only the default schemes and never a link of a foreign scheme in brackets.",
  ["pkg/burl_links/extract_org.go", ARGS, BB], [("regular expressions rebuilt from the scheme list", "pkg/burl_links/extract_org.go")])

p("C26", "Log output goes only where configured",
  "While serving, standard output carries nothing but message frames; diagnostics go to standard error by default, to nowhere with an empty -log value, and are appended to the named file otherwise, whose earlier content is kept. This holds also for requests that fail and for failing sources and editor runs.",
  ["configurations", "histories"], "all log destinations combined with all short request histories that produce diagnostics",
  "No test.", [BB, ARGS], [("log destination switch", BB)])

p("C27", "The command line client relays one request and reports its outcome",
  "burl_client starts exactly the given backend command with exactly its arguments and sends it exactly one request: the method of the subcommand with exactly the values given on the command line. It prints the received result, whatever JSON value (but null) it is and however large its numbers are, and succeeds exactly if a whole result arrived and has been printed and the backend then ended successfully. The client waits for the backend however long it takes. Wrong usage (then no request is sent), a backend that cannot be started or that ends or breaks off before its whole reply, an error reply and a failing backend make it fail with a non-zero status, and nothing is printed as a result unless a whole result arrived.",
  ["inputs", "fault_sequences"], "all command lines over a bounded alphabet, every byte at which the reply may break off and every way the backend may end",
  "No test.", ["tools/burl_client/burl_client.go", "pkg/webextensions/client.go"],
  [("subcommands and command line split at --", "tools/burl_client/burl_client.go"), ("client codec", "pkg/webextensions/client.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
