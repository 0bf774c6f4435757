"""technique and level_note texts of MANIFEST.json"""
_BB = "exhaustive enumeration of bounded %s on the real %s, each execution compared with an independent reference (explicit state exploration of the implementation)"
_FI = "exhaustive fault enumeration: a kill, an error and a short transfer at every system call of the real program under a ptrace injector (%s)"
_SCH = "stateless model checking of the instrumented real program under a controlled scheduler, all schedules up to a preemption bound"


def bb(space, what="burl_backend"):
    return _BB % (space, what)


TECH = {
    "C01": bb("deliveries (cuts, read sizes, whitespace, lengths)", "codecs and backend") + "; short reads injected at every read call of the backend",
    "C02": _SCH + "; plus all histories of messages and all break points of the output on the real codec and backend",
    "C03": _SCH + "; plus all orders of handler completion and of replies at the codec and sessions of 1..thousands of requests with the backend",
    "C04": "exhaustive fault enumeration: every truncation point, oversized length, damaged body and failing read after every short history of requests to the real backend",
    "C05": bb("sequences of requests over all method names, argument shapes and ids"),
    "C06": bb("note files composed of tokens with links known by construction"),
    "C07": bb("sequences of heading levels and link placements"),
    "C08": bb("section trees x every count limit"),
    "C09": _SCH + "; plus all sequences and ordered pairs of requests on the real backend",
    "C10": bb("pairs (queried URL, recorded URL)"),
    "C11": bb("prefix sets x configurations"),
    "C12": bb("requests x extra arguments x all sequences of outcomes of editor runs"),
    "C13": _SCH + "; plus all repeated patterns of outcomes in bursts and sequences of editor requests to the real backend",
    "C14": bb("lists of offered formats x configurations"),
    "C15": bb("command lines and characters in every value", "program and generated wrapper run by /bin/sh"),
    "C16": _FI % "wrapper and manifest targets, single faults and pairs",
    "C17": bb("combinations of install options and lists of ids"),
    "C18": bb("histories of option values (breadth first)", "option type"),
    "C19": bb("pairs (pattern, text) over small alphabets", "search function"),
    "C20": bb("candidate sets in every order", "ranking"),
    "C21": "exhaustive fault enumeration: the reply stream or the launched backend ends at every byte in every way; plus " + _SCH,
    "C22": bb("event sequences", "rpc_client.js in node"),
    "C23": bb("sequences of readable and unreadable sources") + "; " + _FI % "source files",
    "C24": bb("runs over generated files", "burl_tool"),
    "C25": bb("sequences of -scheme options"),
    "C26": bb("histories of requests x log destinations"),
    "C27": bb("command lines, reply streams broken off at every byte and ends of the backend", "burl_client"),
}
TECH = {k: "model checking: " + v for k, v in TECH.items()}
NOTE = {
    "C01": "bounds: 1..4 messages, bodies up to 2100 bytes each length and around powers of two up to 1 MiB and whitespace padding up to the 1 GiB limit, up to 2 arbitrary cuts; trusted: strict frame splitter of the harness",
    "C02": "bounds: histories of 4 messages; 2-4 concurrent requests, 1 preemption between any statements, 2 between shared accesses; only permanent failures of the output; standard library packages other than net/rpc are atomic",
    "C03": "bounds: 5 requests for completion orders, 2-4 requests for schedules with 1 (any statement) or 2 (shared access) preemptions",
    "C04": "bounds: histories of 3 requests before and 2 frames after a single damage; bodies that are a complete JSON object followed by garbage are excluded",
    "C05": "bounds: 509 kinds of wrong requests, pairs with right ones; effects observed through the stand-in editor and replies",
    "C06": "bounds: token alphabet, 3 tokens in a row, 3 files; links are known by construction; txt URLs restricted to what the plain text heuristic supports",
    "C07": "bounds: 5 headings of 3 levels, 4 of 6 levels, deep single chains",
    "C08": "bounds: small section trees and 2 files, all limits around the number of matches and extreme integers",
    "C09": "bounds: 3 requests in any order, every ordered pair of look-alikes, 2-3 concurrent first queries with 1 preemption between any statements (thorough: 2 between shared accesses)",
    "C10": "bounds: tails up to 6 characters over the redundant alphabet, all pairs",
    "C11": "bounds: prefixes of the URLs of fixed files, sets of up to 18 prefixes",
    "C12": "bounds: single requests in sessions, 4 editor runs with every outcome; the editor is a stand-in recording its arguments",
    "C13": "bounds: 2-3 concurrent requests, 0..5 extra arguments, 1 preemption between any statements, 2 between shared accesses; bursts of 1..257 requests, patterns of two kinds",
    "C14": "bounds: format lists of 3 (4) entries",
    "C15": "bounds: every byte value in 5 positions, pairs and triples of shell-active characters; locales C, C.UTF-8, POSIX, none; /bin/sh of this system (dash)",
    "C16": "single system calls are atomic with respect to a kill; loss of power and concurrent installers are not modelled",
    "C17": "bounds: option alphabets, lists of 3 (4) ids",
    "C18": "bounds: 7 values, defaults of 3 values, spare capacity 4",
    "C19": "bounds: patterns of 7 and texts of 8 characters over 2 letters, further alphabets; reference is the textbook recurrence minimised over substrings",
    "C20": "bounds: 5 (6) candidates in all orders, streams of 40 candidates in rotations; lower case ASCII",
    "C21": "bounds: 3 outstanding calls; replies with both result and error null are excluded (net/rpc/jsonrpc gives up on them)",
    "C22": "bounds: 7 events, 3 calls; known finding: falsy results are rejected",
    "C23": "bounds: 3 (4) sources, one fault per run; over-long lines count as unreadable",
    "C24": "bounds: files composed as in C06",
    "C25": "bounds: 3 (4) options out of 9 spellings; literal names only",
    "C26": "bounds: 2 (3) requests, two sessions sharing a file",
    "C27": "bounds: 3 (4) arguments out of 8; one request per run; the backend is a stand-in and, for 14 commands, the real one",
}
NA = {}
