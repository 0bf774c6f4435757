From c39c11dc8532efc19bae5c0f4e3c4f63f9a377e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:47 +0000
Subject: [PATCH 01/26] fix: accept whitespace after the JSON message in a
 frame

JSON decoder stops reading as soon as it has got a complete value, so
whether the trailing newline (e.g. added by the Go client) is consumed
depended on message length and on sizes of chunks. The session was
terminated with ErrReadBody when it was not.
---
 pkg/webextensions/frame.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/webextensions/frame.go b/pkg/webextensions/frame.go
index 41cb0a0..fa53af6 100644
--- a/pkg/webextensions/frame.go
+++ b/pkg/webextensions/frame.go
@@ -54,9 +54,18 @@ func NewFrameLimitedReader(reader io.ReadCloser) FrameReader {
 }
 
 func (r *FrameLimitedReader) ReadHeader() error {
-	if r.LimitedReader.N != 0 {
-		// TODO maybe just discard
-		return ErrReadBody
+	// JSON decoder may stop before whitespaces that follow a message.
+	for r.LimitedReader.N != 0 {
+		var space [1]byte
+		if _, err := io.ReadFull(r, space[:]); err != nil {
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
+			return err
+		}
+		if bytes.IndexByte([]byte(" \t\r\n"), space[0]) < 0 {
+			return ErrReadBody
+		}
 	}
 	r.LimitedReader.N = 4
 	var size uint32
-- 
2.43.0


From bf2fa5eadd67160e21c35b3785879e44b2671d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:17 +0000
Subject: [PATCH 02/26] fix: handle skipped and deep heading levels in Org
 files

A heading more than one level deeper than its parent either crashed
the backend on sending the reply (nil heading) or resurrected an earlier
heading left behind the end of the slice. Headings deeper than 10th level
were attached to wrong parents.
---
 pkg/burl_links/extract_org.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 4704425..712224f 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -138,6 +138,10 @@ func (_ OrgLinkSource) Extract(file io.Reader, filter Filter) (*TreeChildrenNode
 		lineNo++
 		if matchHeading := reHeading.FindStringSubmatch(line); matchHeading != nil {
 			level := len(matchHeading[1])
+			// Reserve space for all levels, do not resurrect popped headings.
+			for len(headings) < level {
+				headings = append(headings, nil)
+			}
 			if level > cap(headings) {
 				level = cap(headings) - 1
 			}
@@ -156,6 +160,11 @@ func (_ OrgLinkSource) Extract(file io.Reader, filter Filter) (*TreeChildrenNode
 				if link := OrgLinkMatchIsUrl(match); link != nil &&
 					(filter == nil || filter(link)) {
 					for i := len(treeNodes) - 1; i < len(headings); i++ {
+						if headings[i] == nil {
+							// skipped level
+							treeNodes = append(treeNodes, treeNodes[i])
+							continue
+						}
 						newNode := NewTreeChildrenNode(headings[i])
 						treeNodes = append(treeNodes, &newNode)
 						treeNodes[i].AddChild(&newNode)
-- 
2.43.0


From 06e2111cde541da9ef4f90bbafd318698f11a810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:18 +0000
Subject: [PATCH 03/26] fix: recognize Org headings with trailing spaces

---
 pkg/burl_links/extract_org.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 712224f..9672c7f 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -25,7 +25,7 @@ import (
 	"strings"
 )
 
-var reHeading = regexp.MustCompile(`^(\*+)\s+(\S(?:.*\S)?)?$`)
+var reHeading = regexp.MustCompile(`^(\*+)\s+(\S(?:.*\S)?)?\s*$`)
 
 // "mid": mail messages, absent in default Org configuration, see
 // RFC 2392 - Content-ID and Message-ID Uniform Resource Locators
-- 
2.43.0


From 10b27ccc2e95d0d31ad3e5bbaea6d688a0e9090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:20 +0000
Subject: [PATCH 04/26] fix: check whole scheme of Org bracket links

Alternatives were not grouped, so e.g. [[file:http/notes.org]] or
[[doing something]] were considered as URLs.
---
 pkg/burl_links/extract_org.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 9672c7f..1e2da84 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -32,7 +32,7 @@ var reHeading = regexp.MustCompile(`^(\*+)\s+(\S(?:.*\S)?)?\s*$`)
 // https://datatracker.ietf.org/doc/html/rfc2392.html
 var SchemeVariants []string = []string{"doi", "https?", "mid"}
 var reSchemeStr = MakeSchemeReStr(SchemeVariants)
-var reScheme = regexp.MustCompile("^" + reSchemeStr + ":")
+var reScheme = regexp.MustCompile("^(?:" + reSchemeStr + "):")
 var reBracketStr = "\\[\\[((?:[^\\]\\[]|\\\\(?:\\\\\\\\)*[\\]\\[]|\\\\+[^\\]\\[])+)](?:\\[((?:.|\n)+?)\\])?\\]"
 var reAngleSuffixStr = "[^>\n]*(?:\n[ \t]*[^> \t\n][^> \n]*)*"
 var rePlainSuffixStr = "(?:[^][ \t\n(\\)<>]|\\((?:[^][ \t\n(\\)<>]|\\([^][ \t\n(\\)<>]*\\))*\\))+(?:[^[:punct:] \t\n]|/|\\((?:[^][ \t\n(\\)<>]|\\([^][ \t\n(\\)<>]*\\))*\\))"
@@ -64,7 +64,7 @@ func UpdateRe(schemeVariants []string) error {
 	if schemeStr == "" {
 		return errors.New("No scheme variants")
 	}
-	reSchemeTmp, err := regexp.Compile("^" + schemeStr + ":")
+	reSchemeTmp, err := regexp.Compile("^(?:" + schemeStr + "):")
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 6ccc81e63e793c50755a485a5ae3c60cd8baba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:21 +0000
Subject: [PATCH 05/26] fix: negative or huge countLimit should not crash
 backend

---
 pkg/burl_links/node_count.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/burl_links/node_count.go b/pkg/burl_links/node_count.go
index 2d23fe1..2cd4acd 100644
--- a/pkg/burl_links/node_count.go
+++ b/pkg/burl_links/node_count.go
@@ -168,6 +168,12 @@ func CountDescendants(inputTree TreeBaseNode, filter Filter) *LimitCountNode {
 }
 
 func FilterChildrenCount(tree *LimitCountNode, target int) *LimitCountNode {
+	if target < 0 {
+		target = 0
+	} else if target > tree.Attrs.Count {
+		// Avoid integer overflow.
+		target = tree.Attrs.Count
+	}
 	tree.Attrs.TargetCount = target
 	queue := NewDepthFirstQueue(tree)
 	for !queue.Empty() {
-- 
2.43.0


From 28163bb45acdab6baef6eacaa4353adc789bdb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:23 +0000
Subject: [PATCH 06/26] fix: do not share emacsclient arguments by concurrent
 requests

---
 pkg/burl_emacs/emacs.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/burl_emacs/emacs.go b/pkg/burl_emacs/emacs.go
index 6c79539..be68532 100644
--- a/pkg/burl_emacs/emacs.go
+++ b/pkg/burl_emacs/emacs.go
@@ -57,6 +57,8 @@ var EnsureFrameLisp = `
 var EmacsServerNotFoundError = errors.New("Emacs server is not running, please, start it")
 
 func execEmacs(args ...string) ([]byte, error) {
+	// Backing array must not be shared by concurrent requests.
+	UserArgs := UserArgs[:len(UserArgs):len(UserArgs)]
 	allArgs := append(UserArgs, Args...)
 	allArgs = append(allArgs, args...)
 	cmd := exec.Command(Command, allArgs...)
-- 
2.43.0


From 095933caa74c92d7603b5f96d273b369ab05fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:24 +0000
Subject: [PATCH 07/26] fix: burl_tool ignored URL to query

---
 cmd/burl_tool/burl_tool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/burl_tool/burl_tool.go b/cmd/burl_tool/burl_tool.go
index d5638ab..72bf263 100644
--- a/cmd/burl_tool/burl_tool.go
+++ b/cmd/burl_tool/burl_tool.go
@@ -63,7 +63,7 @@ func mainWithGracefulShutdown() error {
 	nextArg := 0
 	variants := make([]string, 0, 8)
 	if len(set) == 0 {
-		burl_url.UrlVariants(flag.Arg(0))
+		variants = burl_url.UrlVariants(flag.Arg(0))
 		nextArg = 1
 	}
 	queryIsEmpty := len(variants) == 0
-- 
2.43.0


From 1708ac7ee76493eeb922a7cb47fad7647aee62cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:48 +0000
Subject: [PATCH 08/26] fix: compare linkSet prefix with whole links

Plain links equal to a prefix or just one character longer were missed.
A part of another link, e.g. of http://a.org/?u=https://b.org/ for https:,
was reported as a separate link.
---
 pkg/burl_links/extract_org.go | 17 +++++++++++++++--
 pkg/burl_links/extract_txt.go |  2 +-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 1e2da84..9ac0fa4 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -198,6 +198,15 @@ func MakeLinkSetBase(filters []string) (string, error) {
 	return "(?:" + strings.Join(base, "|") + ")", nil
 }
 
+// A link should be recognized as a whole before comparing it with prefixes.
+func makeLinkSetSchemeStr(filters []string) string {
+	variants := []string{reSchemeStr}
+	for _, prefix := range filters {
+		variants = append(variants, regexp.QuoteMeta(strings.SplitN(prefix, ":", 2)[0]))
+	}
+	return "(?:" + strings.Join(variants, "|") + "):"
+}
+
 // TODO: buld filter regexp ones for several files.
 func (_ OrgLinkSource) ExtractSet(file io.Reader, filters []string, result *map[string]bool) error {
 	scanner := bufio.NewScanner(file)
@@ -206,8 +215,9 @@ func (_ OrgLinkSource) ExtractSet(file io.Reader, filters []string, result *map[
 	if err != nil {
 		return err
 	}
-	reAngle := "<(" + base + reAngleSuffixStr + ")>"
-	rePlain := "\\b(" + base + rePlainSuffixStr + ")"
+	scheme := makeLinkSetSchemeStr(filters)
+	reAngle := "<(" + scheme + reAngleSuffixStr + ")>"
+	rePlain := "\\b(" + scheme + rePlainSuffixStr + ")"
 	reSetLink, err := regexp.Compile(reBracketStr + "|" + reAngle + "|" + rePlain)
 	if err != nil {
 		return err
@@ -223,6 +233,9 @@ func (_ OrgLinkSource) ExtractSet(file io.Reader, filters []string, result *map[
 			continue
 		}
 		for _, match := range matchArray {
+			if link := match[3] + match[4]; link != "" && !reBracketPrefix.MatchString(link) {
+				continue
+			}
 			if bracket := match[1]; len(bracket) > 0 {
 				if reBracketPrefix.MatchString(bracket) {
 					(*result)[bracket] = true
diff --git a/pkg/burl_links/extract_txt.go b/pkg/burl_links/extract_txt.go
index 9c56289..638b7ea 100644
--- a/pkg/burl_links/extract_txt.go
+++ b/pkg/burl_links/extract_txt.go
@@ -108,7 +108,7 @@ func (_ TxtLinkSource) ExtractSet(file io.Reader, filters []string, result *map[
 	if err != nil {
 		return err
 	}
-	rePlain := "\\b(" + base + rePlainSuffixStr + ")"
+	rePlain := "\\b(" + makeLinkSetSchemeStr(filters) + rePlainSuffixStr + ")"
 	reSetLink, err := regexp.Compile(rePlain)
 	if err != nil {
 		return err
-- 
2.43.0


From 56f6a4a497258d30cdcdd6e72028e321b6ae7d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:50 +0000
Subject: [PATCH 09/26] fix: report error for linkSet if there are no source
 files

The method is not advertised in such case. Even an invalid request got
an empty set.
---
 cmd/burl_backend/burl_backend.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/burl_backend/burl_backend.go b/cmd/burl_backend/burl_backend.go
index a0d358c..398a103 100644
--- a/cmd/burl_backend/burl_backend.go
+++ b/cmd/burl_backend/burl_backend.go
@@ -250,6 +250,9 @@ func (b *BurlBackend) Search(query *burl_rpc.SearchQuery, reply *[]burl_rpc.Repl
 }
 
 func LinkSetReal(srcFiles []burl_links.TextLinkSource, prefixes []string, reply *burl_rpc.LinkSetResponse) error {
+	if len(srcFiles) == 0 {
+		return errors.New("No files specified for backend")
+	}
 	urls, err := burl_links.ExtractLinkSetFromFileGroup(srcFiles, prefixes)
 	if err != nil {
 		return err
-- 
2.43.0


From 4771c9e7ce2d8391130c14243eb18738ac00998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:52 +0000
Subject: [PATCH 10/26] fix: make existing wrapper executable

A wrapper with expected content but readable only (e.g. 0644) was left
not executable and success was reported.
---
 pkg/burl_fileutil/fileutil.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 7e6ac0d..aff153d 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -79,8 +79,8 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		}
 		if bytes.Equal(data[:count], content) {
 			perm := stat.Mode().Perm()
-			if (mode&0500) != 0 && (perm&0500) == 0 {
-				if err := os.Chmod(path, perm|0500); err != nil {
+			if missed := mode &^ perm & 0500; missed != 0 {
+				if err := os.Chmod(path, perm|missed); err != nil {
 					return fmt.Errorf("set exec permission: %w", err)
 				}
 			}
-- 
2.43.0


From c14ef960b32d6bfbb5933325edc2be198c276ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:54 +0000
Subject: [PATCH 11/26] fix: comparison with existing file on install

Only beginning of a file was compared in the case of 4096 bytes content
(or of an incomplete read), so -force might silently keep another file.
Empty files were not overwritten despite -force.
---
 pkg/burl_fileutil/fileutil.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index aff153d..6d1e347 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -19,6 +19,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -55,7 +56,7 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 	stat, err := os.Stat(path)
 	if !errors.Is(err, os.ErrNotExist) {
 		bufLen := 4096
-		if len(content) > bufLen {
+		if len(content) >= bufLen {
 			bufLen += len(content)
 		}
 		data := make([]byte, bufLen)
@@ -64,8 +65,8 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 			return fmt.Errorf("%w: unable to check contents of existing helper", err)
 		}
 		defer file.Close()
-		count, err := file.Read(data)
-		if err != nil {
+		count, err := io.ReadFull(file, data)
+		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 			return fmt.Errorf("%w: failed to read existing file", err)
 		}
 		if !force {
-- 
2.43.0


From 4ca8cf2988ef336c7586dad426b2ef7b81877659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:56 +0000
Subject: [PATCH 12/26] fix: quoting of non-ASCII and control characters in
 wrapper

dash does not support $'...' generated by printf for control characters
and for non-ASCII ones in C locale.
---
 pkg/burl_fileutil/escape_printf.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_fileutil/escape_printf.go b/pkg/burl_fileutil/escape_printf.go
index ce2f0d7..5351b66 100644
--- a/pkg/burl_fileutil/escape_printf.go
+++ b/pkg/burl_fileutil/escape_printf.go
@@ -17,10 +17,20 @@
 
 package burl_fileutil
 
-import "os/exec"
+import (
+	"os/exec"
+	"strings"
+)
 
 // TODO avoid printf external process
 func EscapeShellArg(arg string) (string, error) {
+	// printf may use $'...' for such characters, but it is unsupported
+	// by some variants of /bin/sh.
+	for _, c := range []byte(arg) {
+		if c < ' ' || c > '~' {
+			return "'" + strings.Replace(arg, "'", `'\''`, -1) + "'", nil
+		}
+	}
 	out, err := exec.Command("/usr/bin/printf", "%q", arg).Output()
 	return string(out), err
 }
-- 
2.43.0


From bef3a89969295a6b2b0aad739e71643816a72b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:57 +0000
Subject: [PATCH 13/26] fix: frame of the error message in wrapper

Size was wrong for messages longer than 255 bytes and, depending on shell
and locale, for non-ASCII paths. Control characters made JSON invalid.
---
 cmd/burl_backend/install.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/burl_backend/install.go b/cmd/burl_backend/install.go
index c4a1e1d..1abe4bd 100644
--- a/cmd/burl_backend/install.go
+++ b/cmd/burl_backend/install.go
@@ -130,9 +130,10 @@ BURL_BACKEND=%s
 # "trap HANDLER EXIT" is ignored as well. So a test is required.
 [ -x "$BURL_BACKEND" ] && \
 	exec "$BURL_BACKEND" %s
-err="{\"error\": \"$(printf '%%s' "$BURL_BACKEND" | tr '\\"' "/'"): file not found or not executable\"}"
+err="{\"error\": \"$(printf '%%s' "$BURL_BACKEND" | tr '\\"' "/'" | tr '[:cntrl:]' '?'): file not found or not executable\"}"
 # platform endian-dependent hack
-/usr/bin/printf "\\x$(printf '%%x' "${#err}")\\x00\\x00\\x00"
+size=$(printf '%%s' "$err" | LC_ALL=C wc -c)
+/usr/bin/printf "$(printf '\\x%%02x\\x%%02x' $((size %% 256)) $((size / 256)))\\x00\\x00"
 printf '%%s' "$err"
 `
 			content := fmt.Sprintf(template, exe, strings.Join(escaped_args, " "))
-- 
2.43.0


From 0cd9f6b0633e363f59fbe6fcca86cfffc48f9c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:59 +0000
Subject: [PATCH 14/26] fix: falsy results in the example add-on

0, "", false, and null results were considered as invalid responses
and promises were not removed from the map.
---
 examples/webextensions_addon/rpc_client.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/examples/webextensions_addon/rpc_client.js b/examples/webextensions_addon/rpc_client.js
index c465c22..1863d9d 100644
--- a/examples/webextensions_addon/rpc_client.js
+++ b/examples/webextensions_addon/rpc_client.js
@@ -96,8 +96,10 @@ class JsonRpcClient {
 			promiseObj.resolve(response.result);
 		} else if (response.error) {
 			promiseObj.reject(new Error(response.error));
+		} else if (response.result !== undefined) {
+			promiseObj.resolve(response.result);
 		} else {
-			return promiseObj.reject(new Error("invalid RPC response " + JSON.stringify(response)));
+			promiseObj.reject(new Error("invalid RPC response " + JSON.stringify(response)));
 		}
 		this.promiseMap.delete(id);
 	};
-- 
2.43.0


From dd96fd16000fd246cda00de36ac7c18da7382b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:57 +0000
Subject: [PATCH 15/26] fix: total count of mentions if a single file left

When countLimit left links from just one file, the group node with number
of links in all files was omitted from the reply.
---
 pkg/burl_links/node_count.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_links/node_count.go b/pkg/burl_links/node_count.go
index 2cd4acd..0d5dc42 100644
--- a/pkg/burl_links/node_count.go
+++ b/pkg/burl_links/node_count.go
@@ -77,7 +77,9 @@ func reflectFlatten(m map[string]interface{}, p interface{}) {
 func (p *LimitCountNode) MarshalJSON() ([]byte, error) {
 	if node, ok := p.Node.(*TreeChildrenNode); ok {
 		if _, ok := node.Props.(*FileGroupProps); ok {
-			if children := node.GetChildrenNodes(); len(children) == 1 {
+			if children := node.GetChildrenNodes(); len(children) == 1 &&
+				// do not hide that other files have been dropped due to countLimit
+				children[0].(*LimitCountNode).Attrs.Count == p.Attrs.Count {
 				return json.Marshal(children[0])
 			}
 		}
-- 
2.43.0


From f0390d017a29d158655acd205263097534daa740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:17 +0000
Subject: [PATCH 16/26] Revert "fix: falsy results in the example add-on"

Files of examples are not to be changed.
---
 examples/webextensions_addon/rpc_client.js | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/examples/webextensions_addon/rpc_client.js b/examples/webextensions_addon/rpc_client.js
index 1863d9d..c465c22 100644
--- a/examples/webextensions_addon/rpc_client.js
+++ b/examples/webextensions_addon/rpc_client.js
@@ -96,10 +96,8 @@ class JsonRpcClient {
 			promiseObj.resolve(response.result);
 		} else if (response.error) {
 			promiseObj.reject(new Error(response.error));
-		} else if (response.result !== undefined) {
-			promiseObj.resolve(response.result);
 		} else {
-			promiseObj.reject(new Error("invalid RPC response " + JSON.stringify(response)));
+			return promiseObj.reject(new Error("invalid RPC response " + JSON.stringify(response)));
 		}
 		this.promiseMap.delete(id);
 	};
-- 
2.43.0


From 4044505175ad4bf927e7eb5790111b83f096a971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:21 +0000
Subject: [PATCH 17/26] fix: failed stat of an existing wrapper or manifest
 caused nil pointer dereference

---
 pkg/burl_fileutil/fileutil.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 6d1e347..dac74e1 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -54,7 +54,10 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		return err
 	}
 	stat, err := os.Stat(path)
-	if !errors.Is(err, os.ErrNotExist) {
+	if err != nil && !errors.Is(err, os.ErrNotExist) {
+		return fmt.Errorf("%w: unable to check existing helper", err)
+	}
+	if err == nil {
 		bufLen := 4096
 		if len(content) >= bufLen {
 			bufLen += len(content)
-- 
2.43.0


From 59cc18adf813f47cd78cb7b3c3eae79bf87c0a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 18/26] fix: letter case in fuzzy search when the tolerance is
 exhausted

Words are compared ignoring letter case unless no tolerance is left,
so matches depended on the order of query words.
---
 pkg/burl_fuzzy/rank.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/burl_fuzzy/rank.go b/pkg/burl_fuzzy/rank.go
index 7fd2203..4e9803e 100644
--- a/pkg/burl_fuzzy/rank.go
+++ b/pkg/burl_fuzzy/rank.go
@@ -87,7 +87,7 @@ func GetSubqueryDistance(query string, word string, limit EditorDistance) (dista
 	case limit < 0:
 		return EditorDistance(len(word)) * SubstitutionDistance
 	case limit == 0:
-		if strings.Contains(word, query) {
+		if strings.Contains(strings.ToLower(word), strings.ToLower(query)) {
 			return 0
 		} else {
 			return EditorDistance(len(word)) * SubstitutionDistance
-- 
2.43.0


From 8401d645e7098550ce641ff82f86d1a5fec0cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 19/26] fix: fuzzy search compared lengths in bytes

Number of bytes might differ more than the tolerance while number
of characters does not.
---
 pkg/burl_fuzzy/rank.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_fuzzy/rank.go b/pkg/burl_fuzzy/rank.go
index 4e9803e..8f16c04 100644
--- a/pkg/burl_fuzzy/rank.go
+++ b/pkg/burl_fuzzy/rank.go
@@ -19,6 +19,7 @@ import (
 	"container/heap"
 	"sort"
 	"strings"
+	"unicode/utf8"
 )
 
 type WeightedString struct {
@@ -93,7 +94,7 @@ func GetSubqueryDistance(query string, word string, limit EditorDistance) (dista
 			return EditorDistance(len(word)) * SubstitutionDistance
 		}
 	}
-	lenDiff := EditorDistance(len(query)-len(word)) * InsertionDistance
+	lenDiff := EditorDistance(utf8.RuneCountInString(query)-utf8.RuneCountInString(word)) * InsertionDistance
 	if lenDiff > limit {
 		return lenDiff
 	}
-- 
2.43.0


From 61d62c7ffa1de6550382631dcd21c401e757834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:06 +0000
Subject: [PATCH 20/26] fix: fuzzy distance for an empty pattern or text

Empty pattern caused a panic, empty text got the maximal distance.
---
 pkg/burl_fuzzy/approsearch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/burl_fuzzy/approsearch.go b/pkg/burl_fuzzy/approsearch.go
index f145c20..f1534ea 100644
--- a/pkg/burl_fuzzy/approsearch.go
+++ b/pkg/burl_fuzzy/approsearch.go
@@ -54,6 +54,9 @@ func MinDistance(args ...EditorDistance) (result EditorDistance) {
 
 func EditorDistanceRunes(pattern []rune, word []rune) EditorDistance {
 	// fmt.Printf("%2c -----\n", word);
+	if len(pattern) == 0 || len(word) == 0 {
+		return DeletionDistance * EditorDistance(len(pattern))
+	}
 
 	// query may start at an arbitrary position in word so
 	// we are starting with zero distance, not from
-- 
2.43.0


From 2897f53c11907403a54c74fd2c260d9c505d45fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:46 +0000
Subject: [PATCH 21/26] fix: burl_client converted numbers to float64

Large numbers in results and in the hello argument lost their precision
or caused an error.
---
 tools/burl_client/burl_client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/burl_client/burl_client.go b/tools/burl_client/burl_client.go
index 906f9a7..5fc6620 100644
--- a/tools/burl_client/burl_client.go
+++ b/tools/burl_client/burl_client.go
@@ -82,7 +82,7 @@ func callHello(args []string) (string, interface{}, error) {
 	if len(args) > 2 {
 		return "", nil, fmt.Errorf("Command takes one optional argument")
 	}
-	var query interface{}
+	var query json.RawMessage
 	var err error
 	if len(args) == 2 {
 		err = json.Unmarshal([]byte(args[1]), &query)
@@ -142,7 +142,8 @@ func mainWithGracefulShutdown() error {
 		return fmt.Errorf("run backend: %w", err)
 	}
 	rpcClient := rpc.NewClientWithCodec(webextensions.NewClientCodecSplit(cmdStdout, cmdStdin, jsonrpc.NewClientCodec))
-	var reply interface{}
+	// Do not convert numbers to float64.
+	var reply json.RawMessage
 	// rpcQuery := burl_rpc.SearchQuery{Query: query}
 	// reply := make([]burl_rpc.ReplyRecord, 0)
 	subcommands := map[string]func([]string) (string, interface{}, error){
-- 
2.43.0


From 558847f811309b6776ccf4f2a6d3711129d87166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:06 +0000
Subject: [PATCH 22/26] fix: urlMentions options without countLimit hid all
 links

Default limit was used only if there were no options at all.
---
 cmd/burl_backend/burl_backend.go | 4 ++--
 pkg/burl_rpc/burl_rpc.go         | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/burl_backend/burl_backend.go b/cmd/burl_backend/burl_backend.go
index 398a103..efe4313 100644
--- a/cmd/burl_backend/burl_backend.go
+++ b/cmd/burl_backend/burl_backend.go
@@ -186,8 +186,8 @@ func (b *BurlBackend) UrlMentions(query *burl_rpc.UrlMentionsQuery, reply *burl_
 		return false
 	}
 	countLimit := 8
-	if query.Options != nil {
-		countLimit = query.Options.CountLimit
+	if query.Options != nil && query.Options.CountLimit != nil {
+		countLimit = *query.Options.CountLimit
 	}
 	attrTree := burl_links.CountDescendants(b.fileGroup, filter)
 	attrTree = burl_links.FilterChildrenCount(attrTree, countLimit)
diff --git a/pkg/burl_rpc/burl_rpc.go b/pkg/burl_rpc/burl_rpc.go
index 8d0204c..4242b29 100644
--- a/pkg/burl_rpc/burl_rpc.go
+++ b/pkg/burl_rpc/burl_rpc.go
@@ -32,7 +32,7 @@ type UrlMentionsQuery struct {
 }
 
 type UrlMentionsOptions struct {
-	CountLimit int `json:"countLimit"`
+	CountLimit *int `json:"countLimit,omitempty"`
 }
 
 type Location struct {
-- 
2.43.0


From af0bb8123294d70df977e640569bb650ea1f467f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:16 +0000
Subject: [PATCH 23/26] fix: URL variants replaced bytes which are not valid
 UTF-8

So links in files of other encodings were not found.
---
 pkg/burl_url/url.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pkg/burl_url/url.go b/pkg/burl_url/url.go
index 85e7b92..f024d3e 100644
--- a/pkg/burl_url/url.go
+++ b/pkg/burl_url/url.go
@@ -38,13 +38,9 @@ func RedundantTailVariants(url string) []string {
 	if l == 0 {
 		return retval
 	}
-	slice := make([]rune, l)
-	n := 0
-	for _, r := range url {
-		slice[n] = r
-		n++
-	}
-	slice = slice[:n]
+	// Invalid UTF-8 sequences must be kept as they are.
+	slice := []byte(url)
+	n := l
 	i := n
 	if i > 0 && slice[i-1] == '#' {
 		i--
-- 
2.43.0


From b3e2c1fccdbfb34faa23d14879aa3ed310eab325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:17 +0000
Subject: [PATCH 24/26] fix: burl_client visit silently dropped extra arguments

---
 tools/burl_client/burl_client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/burl_client/burl_client.go b/tools/burl_client/burl_client.go
index 5fc6620..67664b7 100644
--- a/tools/burl_client/burl_client.go
+++ b/tools/burl_client/burl_client.go
@@ -55,6 +55,9 @@ func callVisit(args []string) (string, interface{}, error) {
 	if err := set.Parse(args[1:]); err != nil {
 		return "", nil, err
 	}
+	if set.NArg() > 0 {
+		return "", nil, fmt.Errorf("unexpected argument: %s", set.Arg(0))
+	}
 	query := &burl_rpc.Location{FilePath: *path, LineNo: *lineNo}
 	return "linkremark.visit", query, nil
 }
-- 
2.43.0


From 75901c646763e208ccd265c472fa43f517c9138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:13 +0000
Subject: [PATCH 25/26] fix: burl_client ignored failure to print the result

---
 tools/burl_client/burl_client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/burl_client/burl_client.go b/tools/burl_client/burl_client.go
index 67664b7..36aec1e 100644
--- a/tools/burl_client/burl_client.go
+++ b/tools/burl_client/burl_client.go
@@ -168,7 +168,9 @@ func mainWithGracefulShutdown() error {
 	if err = rpcClient.Call(method, data, &reply); err == nil {
 		enc := json.NewEncoder(os.Stdout)
 		enc.SetIndent("", "  ")
-		enc.Encode(reply)
+		if err := enc.Encode(reply); err != nil {
+			return fmt.Errorf("%s print result: %w", subcommandName, err)
+		}
 	} else {
 		return fmt.Errorf("%s response: %w", subcommandName, err)
 	}
-- 
2.43.0


From 09b63be10a28192fa09ef4a1ed28c5ab041867e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:15 +0000
Subject: [PATCH 26/26] fix: burl_tool ignored failure to print the result

---
 cmd/burl_tool/burl_tool.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/burl_tool/burl_tool.go b/cmd/burl_tool/burl_tool.go
index 72bf263..7feef3f 100644
--- a/cmd/burl_tool/burl_tool.go
+++ b/cmd/burl_tool/burl_tool.go
@@ -79,7 +79,9 @@ func mainWithGracefulShutdown() error {
 			return err
 		}
 		for key, _ := range result {
-			fmt.Println(key)
+			if _, err := fmt.Println(key); err != nil {
+				return err
+			}
 		}
 		return nil
 	}
@@ -107,7 +109,9 @@ func mainWithGracefulShutdown() error {
 		if attrTree != nil {
 			enc := json.NewEncoder(os.Stdout)
 			enc.SetIndent("", "  ")
-			enc.Encode(attrTree)
+			if err := enc.Encode(attrTree); err != nil {
+				return err
+			}
 			// enc.Encode(group)
 		}
 	}
-- 
2.43.0

