From dd05d17eeab832805e6088ec9db518bd9a9ea244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 01/26] fix: stop Merge at the posting list terminator

Merge copied the terminating 0xffffff entry of its inputs as if it were a
posting list and then wrote its own, so that every merge added one more
and merging the result of a few merges panicked with "no progress".
---
 index/merge.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/index/merge.go b/index/merge.go
index 55c5456..9d3fe22 100644
--- a/index/merge.go
+++ b/index/merge.go
@@ -347,6 +347,14 @@ func (r *postMapReader) load(force bool) {
 		r.offset += int(n2)
 		r.block = b
 	}
+	if r.trigram == invalidTrigram {
+		// The entry marking the end of the posting lists.
+		// Merge writes its own.
+		r.trigram = ^uint32(0)
+		r.count = 0
+		r.fileid = -1
+		return
+	}
 	if r.count == 0 {
 		r.fileid = -1
 		return
-- 
2.43.0


From 984fd78b24ff97fb626c6cfa5dfc7b4b8ccccb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 02/26] fix: cindex: index repeated and overlapping paths once

'cindex /a /a' and 'cindex /a /a/b' added the files below the repeated
path twice, out of order, and the next incremental run panicked with
"merge: inconsistent index".
---
 cmd/cindex/cindex.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index d82bf6c..d251d79 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -117,6 +117,17 @@ func main() {
 		slices.SortFunc(roots, index.Path.Compare)
 	}
 
+	// Drop repeated paths and paths below other paths:
+	// walking them again would add their files twice.
+	keep := roots[:0]
+	for _, root := range roots {
+		if len(keep) > 0 && root.HasPathPrefix(keep[len(keep)-1]) {
+			continue
+		}
+		keep = append(keep, root)
+	}
+	roots = keep
+
 	master := index.File()
 	if _, err := os.Stat(master); err != nil {
 		// Does not exist.
-- 
2.43.0


From ad2ea02116bf8562c97efeffb45d54ef18ea1d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 03/26] fix: merge indexes of the root directory

The paths below the root "/" do not have a slash after it, so Merge took
them to be outside of the root and panicked with "inconsistent index",
and the merged list of roots kept roots below "/".
---
 index/merge.go | 5 +++++
 index/path.go  | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/index/merge.go b/index/merge.go
index 9d3fe22..b062511 100644
--- a/index/merge.go
+++ b/index/merge.go
@@ -74,7 +74,12 @@ func Merge(dst, src1, src2 string) {
 		// but not food or fop. Slash compares equal to \x00,
 		// and if foo is a zip file, foo\x01 is a file in it,
 		// so use foo\x02 as the limit.
+		// If foo ends in a slash (it is the root directory),
+		// the slash before anything is already there.
 		limit := MakePath(root.String() + "\x02")
+		if s := root.String(); isSep(s[len(s)-1]) {
+			limit = MakePath(s[:len(s)-1] + "\x02")
+		}
 		for i1 < ix1.numName && name1.Compare(limit) < 0 {
 			names1.Next()
 			name1 = names1.Path()
diff --git a/index/path.go b/index/path.go
index d5b0f90..8d00bf9 100644
--- a/index/path.go
+++ b/index/path.go
@@ -33,7 +33,13 @@ func (p Path) HasPathPrefix(parent Path) bool {
 	return strings.HasPrefix(p.s, parent.s) &&
 		(p.s == parent.s ||
 			p.s[len(parent.s)] == '/' ||
-			p.s[len(parent.s)] == os.PathSeparator)
+			p.s[len(parent.s)] == os.PathSeparator ||
+			parent.s != "" && isSep(parent.s[len(parent.s)-1]))
+}
+
+// isSep reports whether c separates path elements.
+func isSep(c byte) bool {
+	return c == '/' || c == os.PathSeparator
 }
 
 // Compare returns the comparison of p and q.
-- 
2.43.0


From 55ad6200e4308ceb45507094fee5111a31db1aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 04/26] fix: do not report a match after the final newline

A regexp matching the empty string, like '^$', was reported to match a
non-existing line after the final newline of the input and of every
buffer-sized chunk of it.
---
 regexp/match.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index 7a90d1a..bd7324c 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -467,6 +467,12 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			if m1 < chunkStart {
 				break
 			}
+			lineStart := bytes.LastIndex(buf[chunkStart:m1], nl) + 1 + chunkStart
+			if lineStart == end {
+				// Matched the empty text after the final newline,
+				// which is not a line.
+				break
+			}
 			g.Match = true
 			if g.Limit > 0 && g.Matches >= g.Limit {
 				g.Limited = true
@@ -481,7 +487,6 @@ func (g *Grep) Reader(r io.Reader, name string) {
 				}
 				return
 			}
-			lineStart := bytes.LastIndex(buf[chunkStart:m1], nl) + 1 + chunkStart
 			lineEnd := m1 + 1
 			if lineEnd > end {
 				lineEnd = end
-- 
2.43.0


From 2d8aa22e7c6414316b88d7c946390c607acea313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 05/26] fix: count lines for the headers of context output

With -A, -B or -C but not -n every match was said to be at line 1.
---
 regexp/match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index bd7324c..5b0d4f6 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -435,7 +435,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 	}
 	var (
 		buf        = g.buf[:0]
-		needLineno = g.N || g.HTML
+		needLineno = g.N || g.HTML || g.PreContext+g.PostContext > 0
 		lineno     = 1
 		count      = 0
 		prefix     = ""
-- 
2.43.0


From badfdd1cde95e9ef58ea009202d5a18ad95b51e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 06/26] fix: csearch: list all files for -l and an empty regexp

The empty regexp matches every line but not an empty input: feed the
matcher a line instead.
---
 cmd/csearch/csearch.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/csearch/csearch.go b/cmd/csearch/csearch.go
index 58af5b8..b17be17 100644
--- a/cmd/csearch/csearch.go
+++ b/cmd/csearch/csearch.go
@@ -6,7 +6,6 @@ package main
 
 import (
 	"archive/zip"
-	"bytes"
 	"flag"
 	"fmt"
 	"log"
@@ -147,7 +146,7 @@ func Main() {
 	for _, fileid := range post {
 		name := ix.Name(fileid).String()
 		if g.L && (pat == "(?m)" || pat == "(?i)(?m)") {
-			g.Reader(bytes.NewReader(nil), name)
+			g.Reader(strings.NewReader("\n"), name)
 			continue
 		}
 		file, err := os.Open(string(name))
-- 
2.43.0


From dfebacda919fb5f116c383205ab915c59cca7409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 07/26] fix: fold case of all of Unicode

maxFold was the largest rune involved in folding in Unicode 6; runes
above it (Osage, Warang Citi, Adlam, ...) were not matched
case-insensitively.
---
 regexp/copy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/copy.go b/regexp/copy.go
index 9be1987..400e2d8 100644
--- a/regexp/copy.go
+++ b/regexp/copy.go
@@ -77,7 +77,7 @@ const (
 	// minimum and maximum runes involved in folding.
 	// checked during test.
 	minFold = 0x0041
-	maxFold = 0x1044f
+	maxFold = 0x1e943
 )
 
 // appendFoldedRange returns the result of appending the range lo-hi
-- 
2.43.0


From 47df19aa21e245e8579eb3a40c8667164f385f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 08/26] fix: csweb: escape regexp errors

The error message quotes the query, which could inject markup into the
page.
---
 cmd/csweb/web.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 4b46d92..70d0004 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -56,7 +56,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 	pat := "(?m)" + qarg
 	re, err := regexp.Compile(pat)
 	if err != nil {
-		fmt.Fprintf(w, "Bad query: %v\n", err)
+		fmt.Fprintf(w, "Bad query: %s\n", html.EscapeString(err.Error()))
 		return
 	}
 	g.Regexp = re
@@ -65,7 +65,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 	if farg != "" {
 		fre, err = regexp.Compile(farg)
 		if err != nil {
-			fmt.Fprintf(w, "Bad -f flag: %v\n", err)
+			fmt.Fprintf(w, "Bad -f flag: %s\n", html.EscapeString(err.Error()))
 			return
 		}
 	}
-- 
2.43.0


From 0ef93e617a9375e7be5cadeb8361839e031bd277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 09/26] fix: escape read errors in HTML output

The error repeats the name of the file (for example when an indexed file
has become a directory), which could inject markup into csweb's page.
---
 regexp/match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index 5b0d4f6..ed2434e 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -538,7 +538,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 		chunkStart = d
 		if endText && err != nil {
 			if err != io.EOF && err != io.ErrUnexpectedEOF {
-				fmt.Fprintf(g.Stderr, "%s: %v\n", g.esc(name), err)
+				fmt.Fprintf(g.Stderr, "%s: %s\n", g.esc(name), g.esc(err.Error()))
 			}
 			break
 		}
-- 
2.43.0


From fe84a3ba97f034144c846c6eb8116da6aae6c0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 10/26] fix: do not index zip entries with malformed names

Names of files are checked for control characters, which frame names in
the index, but names of zip entries were not.
---
 index/write.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/write.go b/index/write.go
index 185ed23..eaa9831 100644
--- a/index/write.go
+++ b/index/write.go
@@ -195,6 +195,10 @@ func (ix *IndexWriter) Add(name string, f io.Reader) error {
 			return cmp.Compare(len(x.Name), len(y.Name))
 		})
 		for _, file := range files {
+			if !isValidName(file.Name) {
+				log.Printf("%s: malformed name %q", name, file.Name)
+				continue
+			}
 			r, err := file.Open()
 			if err != nil {
 				println("no3", name)
-- 
2.43.0


From cb64c809428db68d681f943ecb56904c27ff7fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 11/26] fix: document the encoding of a zero delta that is in
 use

---
 index/read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/read.go b/index/read.go
index 1c8715b..14b8424 100644
--- a/index/read.go
+++ b/index/read.go
@@ -41,8 +41,8 @@ package index
 // encode the empty file ID list, but empty posting lists are usually
 // not recorded at all.  The list of posting lists ends with an entry
 // with trigram "\xff\xff\xff" and a delta list consisting a single zero.
-// In the γ-encoding, which cannot represent 0, 0 encodes as 31,
-// and all values v ≥ 31 encode as v+1.
+// In the γ-encoding, which cannot represent 0, 0 encodes as 16,
+// and all values v ≥ 16 encode as v+1.
 //
 // The indexes enable efficient random access to the lists.
 //
-- 
2.43.0


From e4e23a55ea8858eb7132265602a78026937fc90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 12/26] fix: cindex: do not crash on a missing path with a
 hidden name

---
 cmd/cindex/cindex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index d251d79..f81c75b 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -154,7 +154,7 @@ func main() {
 			if _, elem := filepath.Split(path); elem != "" {
 				// Skip various temporary or "hidden" files or directories.
 				if elem[0] == '.' || elem[0] == '#' || elem[0] == '~' || elem[len(elem)-1] == '~' {
-					if info.IsDir() {
+					if info != nil && info.IsDir() {
 						return filepath.SkipDir
 					}
 					return nil
-- 
2.43.0


From 16d6601483dfe5d876ee74ec240a257edf01dbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 13/26] fix: csweb: escape directory links as URLs

A file with %, ? or # in its name could not be reached from the listing
of its directory.
---
 cmd/csweb/web.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 70d0004..94642d7 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -14,6 +14,7 @@ import (
 	"io/fs"
 	"log"
 	"net/http"
+	"net/url"
 	"os"
 	"path"
 	"path/filepath"
@@ -225,7 +226,8 @@ func serveDir(file string, dir []fs.DirEntry) []byte {
 	for _, d := range dir {
 		// Note: file is the full path including mod@vers.
 		file := path.Join(file, d.Name())
-		fmt.Fprintf(&buf, "<a href=\"/show%s\">%s</a>\n", e(file), e(path.Base(file)))
+		link := url.URL{Path: "/show" + file}
+		fmt.Fprintf(&buf, "<a href=\"%s\">%s</a>\n", e(link.EscapedPath()), e(path.Base(file)))
 	}
 	return buf.Bytes()
 }
-- 
2.43.0


From f7c68f0ce6435afc15227c6e9ce9d45ae68fd53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 14/26] fix: do not encode surrogates in character classes

A class with a range ending among the surrogates or split there, such as
[\x{d000}-\x{e000}], was compiled using the encoding of U+FFFD and
matched runes outside of the class.
---
 regexp/utf.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/regexp/utf.go b/regexp/utf.go
index d587eaa..c5dc991 100644
--- a/regexp/utf.go
+++ b/regexp/utf.go
@@ -211,6 +211,13 @@ func (b *runeBuilder) addBranch(pc uint32) {
 }
 
 func (b *runeBuilder) addRange(lo, hi rune, fold bool) {
+	// Surrogates have no encoding.
+	if 0xD800 <= lo && lo <= 0xDFFF {
+		lo = 0xE000
+	}
+	if 0xD800 <= hi && hi <= 0xDFFF {
+		hi = 0xD7FF
+	}
 	if lo > hi {
 		return
 	}
-- 
2.43.0


From eed9024ecbdf08358ecd80120bf6aa8689aa1467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 15/26] fix: do not sort the exact set of an alternative in
 place

The union of x.exact with the prefixes of y can use spare capacity of
x.exact, which then holds part of the union when it is used again for the
suffixes and in addExact, and the query misses some alternatives.
---
 index/regexp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/regexp.go b/index/regexp.go
index 4f336fe..824f595 100644
--- a/index/regexp.go
+++ b/index/regexp.go
@@ -604,8 +604,8 @@ func alternate(x, y regexpInfo) (out regexpInfo) {
 	if x.exact.have() && y.exact.have() {
 		xy.exact = x.exact.union(y.exact, false)
 	} else if x.exact.have() {
-		xy.prefix = x.exact.union(y.prefix, false)
-		xy.suffix = x.exact.union(y.suffix, true)
+		xy.prefix = x.exact.copy().union(y.prefix, false)
+		xy.suffix = x.exact.copy().union(y.suffix, true)
 		x.addExact()
 	} else if y.exact.have() {
 		xy.prefix = x.prefix.union(y.exact, false)
-- 
2.43.0


From 3f697f5ca64b21411f16db2092302841c055beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 16/26] fix: do not split long lines that fit the grep buffer

Reader held back one line more than the context after a match needs.
When the buffer held no more than one newline, it then gave up and
scanned the trailing fragment of a line as if it were a line.
---
 regexp/match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index ed2434e..ea95fef 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -454,7 +454,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			// Stop scan before trailing fragment of a line;
 			// also stop before g.PostContext whole lines,
 			// so we know we'll have the context we need to print.
-			d := lineSuffixLen(buf, g.PostContext+1)
+			d := lineSuffixLen(buf, g.PostContext)
 			if d < len(buf) {
 				end = len(buf) - d
 			}
-- 
2.43.0


From fcd3f1e1568c5cd6f158b61ae5f57892ea5a13f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 17/26] fix: do not truncate non-ASCII case pairs to a byte
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The class é|[É] was matched as the single byte 0xC9.
---
 regexp/utf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/utf.go b/regexp/utf.go
index c5dc991..836951e 100644
--- a/regexp/utf.go
+++ b/regexp/utf.go
@@ -100,7 +100,7 @@ func oneByteRange(i *syntax.Inst) (lo, hi byte, fold, ok bool) {
 		}
 		return byte(i.Rune[0]), byte(i.Rune[1]), fold, true
 	}
-	if len(i.Rune) == 4 && i.Rune[0] == i.Rune[1] && i.Rune[2] == i.Rune[3] && unicode.SimpleFold(i.Rune[0]) == i.Rune[2] && unicode.SimpleFold(i.Rune[2]) == i.Rune[0] {
+	if len(i.Rune) == 4 && i.Rune[0] < utf8.RuneSelf && i.Rune[0] == i.Rune[1] && i.Rune[2] == i.Rune[3] && unicode.SimpleFold(i.Rune[0]) == i.Rune[2] && unicode.SimpleFold(i.Rune[2]) == i.Rune[0] {
 		return byte(i.Rune[0]), byte(i.Rune[0]), true, true
 	}
 
-- 
2.43.0


From 6240fdbbf231dd405de1540585db73306aa44326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 18/26] fix: escape names and queries in the links of results

Links to files with # % or ? in their names led elsewhere, and a # in the
query cut off the line number.
---
 regexp/match.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/regexp/match.go b/regexp/match.go
index ea95fef..b9b344d 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -11,11 +11,11 @@ import (
 	"fmt"
 	"html"
 	"io"
+	"net/url"
 	"os"
 	"regexp/syntax"
 	"sort"
 	"strconv"
-	"strings"
 
 	"github.com/google/codesearch/sparse"
 )
@@ -404,6 +404,12 @@ func (g *Grep) esc(s string) string {
 	return s
 }
 
+// showURL returns the escaped URL at which csweb shows the named file.
+func (g *Grep) showURL(name string) string {
+	u := url.URL{Path: "/show/" + name, RawQuery: "q=" + url.QueryEscape(g.Regexp.String())}
+	return g.esc(u.String())
+}
+
 func (g *Grep) File(name string) {
 	f, err := os.Open(name)
 	if err != nil {
@@ -481,7 +487,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			g.Matches++
 			if g.L {
 				if g.HTML {
-					fmt.Fprintf(g.Stdout, "<a href=\"show/%s\">%s</a>\n", g.esc(name), g.esc(name))
+					fmt.Fprintf(g.Stdout, "<a href=\"%s\">%s</a>\n", g.showURL(name), g.esc(name))
 				} else {
 					fmt.Fprintf(g.Stdout, "%s\n", name)
 				}
@@ -513,7 +519,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 					fmt.Fprintf(g.Stdout, "\t\t%s\n", line)
 				}
 			case g.HTML:
-				fmt.Fprintf(g.Stdout, "<a href=\"/show/%s?q=%s#L%d\">%s:%d</a>:%s%s", g.esc(strings.ReplaceAll(name, "#", ">")), g.esc(g.Regexp.String()), lineno, g.esc(name), lineno, g.esc(string(line)), nl)
+				fmt.Fprintf(g.Stdout, "<a href=\"%s#L%d\">%s:%d</a>:%s%s", g.showURL(name), lineno, g.esc(name), lineno, g.esc(string(line)), nl)
 			case g.N:
 				fmt.Fprintf(g.Stdout, "%s%d:%s%s", prefix, lineno, line, nl)
 			default:
@@ -545,7 +551,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 	}
 	if g.C && count > 0 {
 		if g.HTML {
-			fmt.Fprintf(g.Stdout, "<a href=\"show/%s?q=%s\">%s</a>: %d\n", g.esc(name), g.esc(g.Regexp.String()), g.esc(name), count)
+			fmt.Fprintf(g.Stdout, "<a href=\"%s\">%s</a>: %d\n", g.showURL(name), g.esc(name), count)
 		} else {
 			fmt.Fprintf(g.Stdout, "%s: %d\n", name, count)
 		}
-- 
2.43.0


From 22427d6334c817617f1ed4cff905b03a635be87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 19/26] fix: cindex does not start over when it cannot stat the
 index

Any error was taken for a missing index, and the existing index was
overwritten in place by one of the given paths only.
---
 cmd/cindex/cindex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index f81c75b..c92ede5 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -130,7 +130,9 @@ func main() {
 
 	master := index.File()
 	if _, err := os.Stat(master); err != nil {
-		// Does not exist.
+		if !os.IsNotExist(err) {
+			log.Fatal(err)
+		}
 		*resetFlag = true
 	}
 	file := master
-- 
2.43.0


From 66350a42352914d410389e5655542cce9aa8926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 20/26] fix: cindex reports that the index could not be
 replaced

---
 cmd/cindex/cindex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index c92ede5..137d917 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -188,7 +188,9 @@ func main() {
 			}
 		}
 		os.Remove(file)
-		os.Rename(file+"~", master)
+		if err := os.Rename(file+"~", master); err != nil {
+			log.Fatal(err)
+		}
 	} else {
 		if *checkFlag {
 			ix := index.Open(file)
-- 
2.43.0


From fb141a0341a3fbaf92da314845a0bceb4b2d09ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 21/26] fix: do not install an index with incomplete sections

When seeking in a temporary file failed, or copying it was reported
wrongly (io.Copy forgets what it copied when copy_file_range fails
halfway), the index had wrong offsets, and cindex reported success.
---
 index/write.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/index/write.go b/index/write.go
index eaa9831..7936d6b 100644
--- a/index/write.go
+++ b/index/write.go
@@ -372,6 +372,9 @@ func copyFile(dst, src *Buffer) {
 	if err != nil {
 		log.Fatalf("copying %s to %s: %v", src.name, dst.name, err)
 	}
+	if n != src.fileOff {
+		log.Fatalf("copying %s to %s: copied %d bytes of %d", src.name, dst.name, n, src.fileOff)
+	}
 	dst.fileOff += n
 }
 
@@ -691,7 +694,9 @@ func (b *Buffer) Flush() {
 func (b *Buffer) finish() *os.File {
 	b.Flush()
 	f := b.file
-	f.Seek(0, 0)
+	if _, err := f.Seek(0, 0); err != nil {
+		log.Fatalf("reading %s: %v", b.name, err)
+	}
 	return f
 }
 
-- 
2.43.0


From 0d231cf11707bce5158c8218258077aef38b319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 22/26] fix: csweb: escape the paths in the links of page
 headers

---
 cmd/csweb/web.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 94642d7..739e435 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -213,7 +213,8 @@ func printHeader(buf *bytes.Buffer, file string) {
 	f := ""
 	for _, elem := range strings.Split(file, "/") {
 		f += "/" + elem
-		fmt.Fprintf(buf, `/<a href="/show%s">%s</a>`, e(f), e(elem))
+		link := url.URL{Path: "/show" + f}
+		fmt.Fprintf(buf, `/<a href="%s">%s</a>`, e(link.EscapedPath()), e(elem))
 	}
 	fmt.Fprintf(buf, `</b> <small>(<a href="/">about</a>)</small>`)
 	fmt.Fprintf(buf, "\n\n")
-- 
2.43.0


From 80e03279f80beb6d6304909ec17b123024d72396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 23/26] fix: csweb: unmap the index when the search is over

Every search mapped the index and never unmapped it, so that csweb ended
('cannot allocate memory') after enough of them.
---
 cmd/csweb/web.go      |  1 +
 index/mmap_bsd.go     | 12 ++++++++++++
 index/mmap_linux.go   | 12 ++++++++++++
 index/mmap_windows.go | 13 +++++++++++++
 index/read.go         |  6 ++++++
 5 files changed, 44 insertions(+)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 739e435..10572e1 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -77,6 +77,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 
 	start := time.Now()
 	ix := index.Open(index.File())
+	defer ix.Close()
 	ix.Verbose = *verboseFlag
 	post := ix.PostingQuery(q)
 	if *verboseFlag {
diff --git a/index/mmap_bsd.go b/index/mmap_bsd.go
index ce1de14..b8f14bf 100644
--- a/index/mmap_bsd.go
+++ b/index/mmap_bsd.go
@@ -37,3 +37,15 @@ func mmapFile(f *os.File) mmapData {
 	}
 	return mmapData{f, data[:n]}
 }
+
+// close unmaps the data and closes the file.
+func (m *mmapData) close() error {
+	if m.d != nil {
+		// Munmap wants the whole slice that Mmap returned.
+		if err := syscall.Munmap(m.d[:cap(m.d)]); err != nil {
+			return err
+		}
+		m.d = nil
+	}
+	return m.f.Close()
+}
diff --git a/index/mmap_linux.go b/index/mmap_linux.go
index a3c961d..4c646a9 100644
--- a/index/mmap_linux.go
+++ b/index/mmap_linux.go
@@ -29,3 +29,15 @@ func mmapFile(f *os.File) mmapData {
 	}
 	return mmapData{f, data[:n]}
 }
+
+// close unmaps the data and closes the file.
+func (m *mmapData) close() error {
+	if m.d != nil {
+		// Munmap wants the whole slice that Mmap returned.
+		if err := syscall.Munmap(m.d[:cap(m.d)]); err != nil {
+			return err
+		}
+		m.d = nil
+	}
+	return m.f.Close()
+}
diff --git a/index/mmap_windows.go b/index/mmap_windows.go
index 38ae274..6ab72af 100644
--- a/index/mmap_windows.go
+++ b/index/mmap_windows.go
@@ -28,6 +28,8 @@ func mmapFile(f *os.File) mmapData {
 		log.Fatalf("CreateFileMapping %s: %v", f.Name(), err)
 	}
 
+	defer syscall.CloseHandle(h) // the view keeps the mapping
+
 	addr, err := syscall.MapViewOfFile(h, syscall.FILE_MAP_READ, 0, 0, 0)
 	if err != nil {
 		log.Fatalf("MapViewOfFile %s: %v", f.Name(), err)
@@ -35,3 +37,14 @@ func mmapFile(f *os.File) mmapData {
 	data := (*[1 << 30]byte)(unsafe.Pointer(addr))
 	return mmapData{f, data[:size]}
 }
+
+// close unmaps the data and closes the file.
+func (m *mmapData) close() error {
+	if m.d != nil {
+		if err := syscall.UnmapViewOfFile(uintptr(unsafe.Pointer(&m.d[0]))); err != nil {
+			return err
+		}
+		m.d = nil
+	}
+	return m.f.Close()
+}
diff --git a/index/read.go b/index/read.go
index 14b8424..424e1ea 100644
--- a/index/read.go
+++ b/index/read.go
@@ -241,6 +241,12 @@ func Open(file string) *Index {
 	return ix
 }
 
+// Close releases the resources held by the index.
+// The index must not be used after Close.
+func (ix *Index) Close() error {
+	return ix.data.close()
+}
+
 // slice returns the slice of index data starting at the given byte offset.
 // If n >= 0, the slice must have length at least n and is truncated to length n.
 func (ix *Index) slice(off int, n int) []byte {
-- 
2.43.0


From dc9dbb4397db4256fdaa1b10eb83720698a7cbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 24/26] fix: csweb: close the last archive of a search

---
 cmd/csweb/web.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 10572e1..c56146d 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -106,6 +106,11 @@ func home(w http.ResponseWriter, r *http.Request) {
 		zipReader *zip.ReadCloser
 		zipMap    map[string]*zip.File
 	)
+	defer func() {
+		if zipReader != nil {
+			zipReader.Close()
+		}
+	}()
 
 	for _, fileid := range post {
 		if g.Limited {
-- 
2.43.0


From 364fd446c2dc984757ebcd08f2ed06350093ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:59 +0000
Subject: [PATCH 25/26] fix: escape context output in HTML output

---
 regexp/match.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regexp/match.go b/regexp/match.go
index b9b344d..852d631 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -509,14 +509,14 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			case g.C:
 				count++
 			case g.PreContext+g.PostContext > 0:
-				fmt.Fprintf(g.Stdout, "%s%d:\n", prefix, lineno)
+				fmt.Fprintf(g.Stdout, "%s%d:\n", g.esc(prefix), lineno)
 				before, match, after := lineContext(g.PreContext, g.PostContext, buf, lineStart, lineEnd)
 				for _, line := range before {
-					fmt.Fprintf(g.Stdout, "\t\t%s\n", line)
+					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
-				fmt.Fprintf(g.Stdout, "\t>>\t%s\n", match)
+				fmt.Fprintf(g.Stdout, "\t>>\t%s\n", g.esc(string(match)))
 				for _, line := range after {
-					fmt.Fprintf(g.Stdout, "\t\t%s\n", line)
+					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
 			case g.HTML:
 				fmt.Fprintf(g.Stdout, "<a href=\"%s#L%d\">%s:%d</a>:%s%s", g.showURL(name), lineno, g.esc(name), lineno, g.esc(string(line)), nl)
-- 
2.43.0


From daacec697ab96003fd1c981940c5991bd12d88e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:19 +0000
Subject: [PATCH 26/26] fix: cindex -reset: report an index that cannot be
 removed

---
 cmd/cindex/cindex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index 137d917..2f6f093 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -96,7 +96,9 @@ func main() {
 	}
 
 	if *resetFlag && flag.NArg() == 0 {
-		os.Remove(index.File())
+		if err := os.Remove(index.File()); err != nil && !os.IsNotExist(err) {
+			log.Fatal(err)
+		}
 		return
 	}
 	var roots []index.Path
-- 
2.43.0

