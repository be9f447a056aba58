From bc07c8a4b54d4349320e94b7245c870179735dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 01/34] fix: give an opening bracket the line it stands on

The node of "(" and "{" was numbered with the line of the text buffered
before it, so a bracket could carry the line of an earlier row and
ParseScope could start a scope in the middle of a line.
---
 extractor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor.go b/extractor.go
index 88ef608..da5d286 100755
--- a/extractor.go
+++ b/extractor.go
@@ -177,7 +177,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 			if ee != nil && ee.IncludeOpen { // /* // " `
 				buf.WriteByte(char)
 			} else { // ( {
-				insertNode(NewNode(bufLine, string(char)))
+				insertNode(NewNode(*line, string(char)))
 			}
 			*i++
 			ns, err := ee.Run(text, buf, i, line)
-- 
2.43.0


From 53d3db46b85a39e78f210c8abe3a361576775dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 02/34] fix: end a string literal after an escaped backslash

Only the two bytes \\" were recognised as an escape, so the closing quote
of "\\\\" was taken for an escaped one and the literal swallowed the
following source.
---
 extractor.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/extractor.go b/extractor.go
index da5d286..8e9b424 100755
--- a/extractor.go
+++ b/extractor.go
@@ -66,7 +66,7 @@ var (
 		IncludeClose:      true,
 		SeparatorCharset:  nil,
 		ReturnKeyword:     "\"",
-		SkipReturnKeyword: "\\\"",
+		SkipReturnKeyword: "\\",
 	}
 
 	_multilineStringExtractor = &extractor{
@@ -189,9 +189,11 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 		}
 
 		trailing := text[:*i+1]
-		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) {
-			// skip return
+		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) && *i+1 < len(text) {
+			// an escape: neither this byte nor the next one can return
 			buf.WriteByte(char)
+			*i++
+			buf.WriteByte(text[*i])
 			lineStep()
 			continue
 		}
-- 
2.43.0


From d5c04ebfe9bba23206285bcf31b749e842257253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 03/34] fix: do not let the opening /* of a comment take part
 in its closing */

/*/ was taken for a complete comment.
---
 extractor.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/extractor.go b/extractor.go
index 8e9b424..bb74ea4 100755
--- a/extractor.go
+++ b/extractor.go
@@ -95,17 +95,17 @@ var (
 
 type deeperExtract map[string]*extractor
 
-func (de deeperExtract) PrefixFit(s []byte) (*extractor, bool) {
+func (de deeperExtract) PrefixFit(s []byte) (string, *extractor, bool) {
 	if de == nil {
-		return nil, false
+		return "", nil, false
 	}
 
 	for k, v := range de {
 		if helper.HasPrefix(s, k) {
-			return v, true
+			return k, v, true
 		}
 	}
-	return nil, false
+	return "", nil, false
 }
 
 type extractor struct {
@@ -128,6 +128,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 	)
 
 	bufLine := *line
+	start := *i
 
 	insertNode := func(n *Node) {
 		if n == nil {
@@ -171,11 +172,12 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 	for ; *i < len(text); *i++ {
 		char = text[*i]
 
-		if ee, ok := e.DeeperExtract().PrefixFit(text[*i:]); ok {
+		if open, ee, ok := e.DeeperExtract().PrefixFit(text[*i:]); ok {
 			// () {} /**/ "" `` //\n
 			pushNode(true)
 			if ee != nil && ee.IncludeOpen { // /* // " `
-				buf.WriteByte(char)
+				buf.WriteString(open)
+				*i += len(open) - 1
 			} else { // ( {
 				insertNode(NewNode(*line, string(char)))
 			}
@@ -188,7 +190,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 			continue
 		}
 
-		trailing := text[:*i+1]
+		trailing := text[start : *i+1] // never reaches back into the opening keyword
 		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) && *i+1 < len(text) {
 			// an escape: neither this byte nor the next one can return
 			buf.WriteByte(char)
-- 
2.43.0


From 7589498de259eeefce584e8e35706eb1956c5dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 04/34] fix: extract rune literals as one node

A quote, backquote, bracket or space in a rune literal ('"', '(', ' ')
was taken for the start of a string or nest and swallowed or misnumbered
the source after it.
---
 extractor.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/extractor.go b/extractor.go
index bb74ea4..430ecbf 100755
--- a/extractor.go
+++ b/extractor.go
@@ -78,6 +78,15 @@ var (
 		SkipReturnKeyword: "",
 	}
 
+	_runeExtractor = &extractor{
+		kind:              kind.Raw,
+		IncludeOpen:       true,
+		IncludeClose:      true,
+		SeparatorCharset:  nil,
+		ReturnKeyword:     "'",
+		SkipReturnKeyword: "\\",
+	}
+
 	_deeperExtractTable = map[*extractor]deeperExtract{
 		_commonExtractor:       _commonDeeperExtract,
 		_parenthesisExtractor:  _commonDeeperExtract,
@@ -90,6 +99,7 @@ var (
 		"/*": _innerCommentExtractor,
 		"\"": _stringExtractor,
 		"`":  _multilineStringExtractor,
+		"'":  _runeExtractor,
 	}
 )
 
-- 
2.43.0


From 079d46cd76cb22f08ef1930ab815b5fd977ab4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 05/34] fix: give a comment or literal that ends the text its
 kind and first line

A comment not followed by a newline became a Raw node, and an unfinished
multi-line literal was numbered with its last line.
---
 extractor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extractor.go b/extractor.go
index 430ecbf..f109d08 100755
--- a/extractor.go
+++ b/extractor.go
@@ -233,7 +233,12 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 
 		lineStep()
 	}
-	pushNode(true)
+	if e.IncludeOpen {
+		// the text ends inside a comment or literal
+		pushNode(false, e.Kind()...)
+	} else {
+		pushNode(true)
+	}
 	return head, nil
 }
 
-- 
2.43.0


From aef52a0b95ad56d04fcade9109d815ec1dbf5bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 06/34] fix: keep comments and repeated nodes when a type is
 joined

Joining the buffered nodes of a type dropped the comments between them
and repeated nodes that were buffered twice.
---
 kind_resetter_all.go  | 26 ++++++++++++++++++--------
 kind_resetter_func.go |  9 +--------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/kind_resetter_all.go b/kind_resetter_all.go
index 5938780..e2b37a6 100755
--- a/kind_resetter_all.go
+++ b/kind_resetter_all.go
@@ -105,6 +105,23 @@ func handleHook(n *Node, hooks ...func(*Node)) {
 // 	})
 // }
 
+// combineRuns joins every run of neighbouring nodes in nns into one node of kind k.
+//
+// Nodes between two runs, like comments, keep their place.
+func combineRuns(k kind.Kind, nns []*Node) {
+	for i := 0; i < len(nns); {
+		j := i + 1
+		for j < len(nns) && nns[j] != nil && nns[j-1].Next() == nns[j] {
+			j++
+		}
+
+		next := nns[j-1].Next()
+		n := nns[i].CombineNext(k, nns[i+1:j]...)
+		n.ReplaceNext(next)
+		i = j
+	}
+}
+
 type paramResetter struct {
 	skip        bool
 	resetKind   kind.Kind
@@ -128,14 +145,7 @@ func (r paramResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 
 	returnKindSet := charset.New(r.returnKinds...)
 
-	defer func() {
-		if len(buf) != 0 {
-			n := buf[0]
-			next := buf[len(buf)-1].Next()
-			n = n.CombineNext(r.resetKind, buf[1:]...)
-			n.ReplaceNext(next)
-		}
-	}()
+	defer func() { combineRuns(r.resetKind, buf) }()
 
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 4c6484c..84fa0b8 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -248,14 +248,7 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 		buf []*Node
 	)
 
-	defer func() {
-		if len(buf) != 0 {
-			n := buf[0]
-			next := buf[len(buf)-1].Next()
-			n = n.CombineNext(kind.ParamType, buf[1:]...)
-			n.ReplaceNext(next)
-		}
-	}()
+	defer func() { combineRuns(kind.ParamType, buf) }()
 
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
-- 
2.43.0


From 474d7d0d32c33d69ed6765b8f55752632bceae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 07/34] fix: start a scope at a whole keyword only

An identifier that begins with a keyword, like a label "type1:" in
column 0, started a scope.
---
 scope.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scope.go b/scope.go
index 4e10c51..994fc61 100755
--- a/scope.go
+++ b/scope.go
@@ -176,11 +176,12 @@ func newScopeKind(s string) scope.Kind {
 
 func isScopeKind(s string, k scope.Kind) bool {
 	ks := string(k)
-	if len(s) < len(ks) {
-		return false
+	switch k {
+	case scope.Comment, scope.InnerComment:
+		return len(s) >= len(ks) && s[:len(ks)] == ks
+	default:
+		return s == ks
 	}
-
-	return s[:len(ks)] == ks
 }
 
 func (d *scopeStruct) GetFuncName() (string, bool) {
-- 
2.43.0


From 57b923be14837f5d79100d7407c17c36931716a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 08/34] fix: count lines from the start line in ParseScope

The start line was ignored by the node lines, and with start line 1 the
declaration on the first line was not found.
---
 extractor.go | 9 ++++++++-
 scope.go     | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/extractor.go b/extractor.go
index f109d08..6163b39 100755
--- a/extractor.go
+++ b/extractor.go
@@ -9,11 +9,18 @@ import (
 )
 
 // extract parses file text content into nodes.
-func extract(text []byte) (*Node, error) {
+//
+// Lines are counted from startLine, or from 0 without it.
+func extract(text []byte, startLine ...int) (*Node, error) {
 	var (
 		i, line int
 		buf     strings.Builder
 	)
+
+	if len(startLine) != 0 {
+		line = startLine[0]
+	}
+
 	node, err := _commonExtractor.Run(text, &buf, &i, &line)
 	if err != nil {
 		return nil, err
diff --git a/scope.go b/scope.go
index 994fc61..7db9f97 100755
--- a/scope.go
+++ b/scope.go
@@ -61,7 +61,7 @@ func NewScope(line int, kind scope.Kind, node *Node) Scope {
 
 // ParseScope parses the given text into scopes.
 func ParseScope(startLine int, text []byte) ([]Scope, error) {
-	node, err := extract(text)
+	node, err := extract(text, startLine)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From cbed2664a8aa5346f3add933060e4011a46fd548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 09/34] fix: report the package name whatever identifier it is

A package named like a basic type ("package string") was reported as the
empty name or as the next identifier of the file.
---
 ast.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ast.go b/ast.go
index 586f659..8114f28 100755
--- a/ast.go
+++ b/ast.go
@@ -109,17 +109,21 @@ func findPackageName(scs []Scope) (string, error) {
 
 	packageKeywordAppeared := false
 	result := packageScope.Node().IterNext(func(n *Node) bool {
-		if packageKeywordAppeared && n.Kind() == kind.Raw {
-			return false
-		}
-
-		if n.Kind() == kind.Package {
+		switch n.Kind() {
+		case kind.Package:
 			packageKeywordAppeared = true
+			return true
+		case kind.Space, kind.Tab, kind.NewLine, kind.Separator, kind.Comment:
+			return true
+		default:
+			return !packageKeywordAppeared
 		}
-
-		return true
 	})
 
+	if result == nil {
+		return "", ErrNoPackage
+	}
+
 	return result.Text(), nil
 }
 
-- 
2.43.0


From 2ef769dc5f8cc163c4ee2af8c46e05a880744a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:46 +0000
Subject: [PATCH 10/34] fix: give the combined node its kind with a nil
 receiver

With a nil receiver the first argument took its place without getting
the kind, and a nil first argument panicked.
---
 node.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/node.go b/node.go
index dee965b..5f47705 100755
--- a/node.go
+++ b/node.go
@@ -280,17 +280,17 @@ func (n *Node) RemoveNext() *Node {
 //
 // e.g. (nn3 - nn2 - nn1 - n)
 func (n *Node) CombinePrev(k kind.Kind, nns ...*Node) *Node {
+	for n == nil && len(nns) != 0 {
+		n = nns[0]
+		nns = nns[1:]
+	}
+
 	n.SetKind(k)
 
 	if len(nns) == 0 {
 		return n
 	}
 
-	if n == nil {
-		n = nns[0]
-		nns = nns[1:]
-	}
-
 	buf := make([]string, 0, len(nns)+1)
 	buf = append(buf, n.Text())
 	for _, nn := range nns {
@@ -315,17 +315,17 @@ func (n *Node) CombinePrev(k kind.Kind, nns ...*Node) *Node {
 //
 // e.g. (n - nn1 - nn2 - nn3)
 func (n *Node) CombineNext(k kind.Kind, nns ...*Node) *Node {
+	for n == nil && len(nns) != 0 {
+		n = nns[0]
+		nns = nns[1:]
+	}
+
 	n.SetKind(k)
 
 	if len(nns) == 0 {
 		return n
 	}
 
-	if n == nil {
-		n = nns[0]
-		nns = nns[1:]
-	}
-
 	buf := make([]string, 0, len(nns)+1)
 	buf = append(buf, n.Text())
 	for _, nn := range nns {
-- 
2.43.0


From 355aab6d2dbfff03065696d73dc7611f845d9eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:46 +0000
Subject: [PATCH 11/34] fix: count the newlines of the first text in NewNodes

---
 node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index 5f47705..ef57406 100755
--- a/node.go
+++ b/node.go
@@ -31,10 +31,10 @@ func NewNodes(startLine int, texts ...string) *Node {
 
 	head := NewNode(startLine, texts[0])
 	cur := head
-	for _, text := range texts[1:] {
+	for i, text := range texts[1:] {
+		startLine += strings.Count(texts[i], "\n")
 		cur.InsertNext(NewNode(startLine, text))
 		cur = cur.Next()
-		startLine += strings.Count(text, "\n")
 	}
 
 	return head
-- 
2.43.0


From 49a30b2a30b7364d04d48ccaef7ee2e8a451b2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 12/34] fix: keep the values of prefixes when a text is added
 to the trie

Adding a text reset the value of every stored prefix of it, and only the
first byte of each multi-byte character was stored.
---
 trie.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trie.go b/trie.go
index 50be38f..75da58f 100755
--- a/trie.go
+++ b/trie.go
@@ -23,8 +23,12 @@ func (t *trie_[T]) AddText(s string, value T) *trie_[T] {
 
 	var zero T
 	n := t
-	for i := range s {
-		n = n.Insert(s[i], zero)
+	for i := 0; i < len(s); i++ {
+		next, ok := n.Next(s[i])
+		if !ok {
+			next = n.Insert(s[i], zero)
+		}
+		n = next
 	}
 	n.value = value
 	return n
-- 
2.43.0


From a981a2cde1e2fa9f7274c9a8cbd96a9b9d79e6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 13/34] fix: look up every byte of a text in the trie

---
 trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie.go b/trie.go
index 75da58f..0c67e22 100755
--- a/trie.go
+++ b/trie.go
@@ -59,7 +59,7 @@ func (t *trie_[T]) FindText(s string) (T, bool) {
 
 	n := t
 	ok := false
-	for i := range s {
+	for i := 0; i < len(s); i++ {
 		n, ok = n.Next(s[i])
 		if !ok {
 			return n.Value(), false
-- 
2.43.0


From 01e2c2bc7d6fb55e62424e816c29fce749399331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 14/34] fix: compare every byte in HasPrefix

Ranging over the prefix string skipped the continuation bytes of
multi-byte characters.
---
 helper/helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helper/helper.go b/helper/helper.go
index a1cda9a..054dc42 100755
--- a/helper/helper.go
+++ b/helper/helper.go
@@ -109,7 +109,7 @@ func HasPrefix(s []byte, prefix string) bool {
 		return false
 	}
 
-	for i := range prefix {
+	for i := 0; i < len(prefix); i++ {
 		if s[i] != prefix[i] {
 			return false
 		}
-- 
2.43.0


From 072c92e611f468232220d237e2744a7aa2c95d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 15/34] fix: report a failing close when saving a file

---
 helper/helper.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/helper/helper.go b/helper/helper.go
index 054dc42..6e357d5 100755
--- a/helper/helper.go
+++ b/helper/helper.go
@@ -95,12 +95,16 @@ func SaveFile(file string, data []byte, autoImport ...bool) error {
 	if err != nil {
 		return fmt.Errorf("create file %s, err: %w", file, err)
 	}
-	defer f.Close()
 
 	if _, err := f.Write(formatted); err != nil {
+		f.Close()
 		return fmt.Errorf("write file %s, err: %w", file, err)
 	}
 
+	if err := f.Close(); err != nil {
+		return fmt.Errorf("close file %s, err: %w", file, err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 9318b3833bf370919e3bc6e680257b1c28c7a096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 16/34] fix: name the 1-based line in the scope description

---
 scope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scope.go b/scope.go
index 7db9f97..7f4304d 100755
--- a/scope.go
+++ b/scope.go
@@ -146,7 +146,7 @@ func (d *scopeStruct) Description() string {
 		return ""
 	}
 
-	return fmt.Sprintf("%d .... *Scope.%s", d.Line()+1, d.kind.String())
+	return fmt.Sprintf("%d .... *Scope.%s", d.Line(), d.kind.String())
 }
 
 func (d *scopeStruct) Print() {
-- 
2.43.0


From 8c4dd9eb57e41b6dcc761bae84d2675cb872c694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 17/34] fix: take only the declared type for a struct or
 interface

Any struct or interface keyword inside a type declaration, like a field
of type interface{} or a map[string]struct{}, made GetInterfaceName or
GetStructName report the type as one.
---
 scope.go | 55 ++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/scope.go b/scope.go
index 7f4304d..42bea51 100755
--- a/scope.go
+++ b/scope.go
@@ -231,16 +231,9 @@ func (d *scopeStruct) GetStructName() (string, bool) {
 		return "", false
 	}
 
-	isStruct := false
-
-	d.Node().IterNext(func(n *Node) bool {
-		isStruct = n.Kind() == kind.Struct
-		return !isStruct
-	})
-
 	typeName, _ := d.GetTypeName()
 
-	return typeName, isStruct
+	return typeName, d.definitionKind() == kind.Struct
 }
 
 func (d *scopeStruct) GetInterfaceName() (string, bool) {
@@ -248,16 +241,48 @@ func (d *scopeStruct) GetInterfaceName() (string, bool) {
 		return "", false
 	}
 
-	isInterface := false
+	typeName, _ := d.GetTypeName()
 
-	d.Node().IterNext(func(n *Node) bool {
-		isInterface = n.Kind() == kind.Interface
-		return !isInterface
-	})
+	return typeName, d.definitionKind() == kind.Interface
+}
 
-	typeName, _ := d.GetTypeName()
+// definitionKind returns the kind of the first node of the type which a type
+// declaration gives to its name, behind the type parameters.
+func (d *scopeStruct) definitionKind() kind.Kind {
+	var (
+		named  bool
+		spaced bool
+		nest   int
+	)
+
+	return d.Node().IterNext(func(n *Node) bool {
+		if !named {
+			named = n.Kind() == kind.TypeName
+			return true
+		}
+
+		switch n.Kind() {
+		case kind.Comment:
+			return true
+		case kind.Space, kind.Tab, kind.NewLine, kind.Separator:
+			spaced = true
+			return true
+		case kind.SquareBracketLeft:
+			// type parameters follow the name directly, an array does not
+			if nest != 0 || !spaced {
+				nest++
+				return true
+			}
+		case kind.SquareBracketRight:
+			if nest != 0 {
+				nest--
+				spaced = true
+				return true
+			}
+		}
 
-	return typeName, isInterface
+		return nest != 0 || n.Text() == "="
+	}).Kind()
 }
 
 func (d *scopeStruct) GetMethodName() (string, bool) {
-- 
2.43.0


From 98404511d495c5228991bb6aa956b88c562176a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 18/34] fix: classify unnamed composite parameters as types

The element type of an unnamed parameter or result like []T, map[K]V or
chan T was classified as a name, and the method of an unnamed generic
receiver (R[T]) was not found.
---
 kind_resetter_parenthesis.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index 7b19243..6b830a8 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -74,19 +74,34 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 		typeKind = kind.MethodReceiverType
 	}
 
-	validParamCount := 0
+	// a name is an identifier with a type apart from it, so 'a []T' has a name
+	// but '[]T', 'chan T' and 'R[T]' have not
+	var first, second *Node
+	apart := false
 	head.IterNext(func(n *Node) bool {
 		switch n.Kind() {
 		case kind.Comma, kind.ParenthesisRight:
 			return false
 		case kind.Space, kind.Tab, kind.Comment, kind.NewLine:
+			apart = first != nil
 			return true
 		default:
-			validParamCount++
-			return true
+			if first == nil {
+				first = n
+				return true
+			}
+			second = n
+			return false
 		}
 	})
 
+	isTypeOnly := second == nil || !apart
+	switch first.Kind() {
+	case kind.Raw, kind.ParamType, kind.ParamName:
+	default:
+		isTypeOnly = true
+	}
+
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
 		if skipAll {
@@ -114,7 +129,7 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 			skipAll = jumpTo == nil
 			return true
 		case kind.Raw, kind.ParamType /* for struct resetter */, kind.ParamName /* for struct resetter */ :
-			if validParamCount == 1 {
+			if isTypeOnly {
 				n.SetKind(typeKind)
 				return true
 			}
-- 
2.43.0


From ccf7c9e36d909de4cf2fe700820bd87f2a2d974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 19/34] fix: classify an embedded field with a tag or comment
 as a type

---
 kind_resetter_type.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index c703357..499be47 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -282,8 +282,8 @@ func (r structResetter) getRowNameCount(head *Node) int {
 
 	_ = head.IterNext(func(n *Node) bool {
 		switch n.Kind() {
-		case kind.NewLine: // return kind
-			if hasSpaceOrAfterRaw {
+		case kind.NewLine, kind.String, kind.CurlyBracketRight: // return kind
+			if hasSpaceOrAfterRaw && rawCount > 1 {
 				nameCount = cacheNameCount
 			}
 			return false
-- 
2.43.0


From 8111178dcb229c8e7f8f998695e158e1c145bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 20/34] fix: classify the result of a func type as a type

---
 kind_resetter_func.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 84fa0b8..691a5bd 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -162,7 +162,11 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 			return true
 		case kind.Raw:
 			if !isFuncNameAssigned {
-				n.SetKind(kind.FuncName)
+				if r.isNotMethod && isFuncParamHandled {
+					n.SetKind(kind.ParamType) // result of a func without a name
+				} else {
+					n.SetKind(kind.FuncName)
+				}
 				isFuncNameAssigned = true
 			}
 			return true
-- 
2.43.0


From 5049db6b4b270a476d68af8b79b583e1f8c49b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 21/34] fix: keep the results of a func parameter inside its
 type

The closing parenthesis of the results ended the parameter list, so the
following parameters were taken for a result type and joined with the
closing parenthesis.
---
 kind_resetter_func.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 691a5bd..4e04293 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -221,11 +221,22 @@ func (r funcResetter) handleParameterFunc(head *Node, hooks ...func(*Node)) *Nod
 	defer helper.DebugPrint("funcResetter.handleParameterFunc.Returned")
 
 	n := r.handleGeneralFunc(head, []kind.Kind{kind.Comma, kind.ParenthesisRight, kind.NewLine}, hooks...)
-	if n.Kind() == kind.ParenthesisRight {
-		handleHook(n, hooks...)
-		return n.Next()
+	if n.Kind() != kind.ParenthesisRight {
+		return n
 	}
-	return n
+
+	handleHook(n, hooks...)
+	n = n.Next()
+
+	// results in parentheses belong to the func
+	result := n.findNext([]kind.Kind{kind.Space, kind.Tab, kind.Comment}, findNodeOption{TargetReverse: true}, hooks...)
+	if result.Kind() != kind.ParenthesisLeft {
+		return n
+	}
+
+	n = parenthesisResetter{}.Run(result, hooks...)
+	handleHook(n, hooks...)
+	return n.Next()
 }
 
 // handleSingleReturnType starts with '\s', ends with '\n' and '\s' and '{'
-- 
2.43.0


From ff5911aeba252b78dbc20b75bf408572ecaa0099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 22/34] fix: report a declared name that is also a basic type

A func, method or type named like a basic type, for example a method
"string", was not found or another identifier was reported.
---
 kind_resetter_func.go | 10 ++++++++--
 kind_resetter_type.go |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 4e04293..4a27eb5 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -85,7 +85,7 @@ func (r funcResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 		// determine func or method
 		if !foundFuncOrMethod {
 			switch n.Kind() {
-			case kind.Raw:
+			case kind.Raw, kind.Basic /* a name like a basic type's */ :
 				foundFuncOrMethod = true
 			case kind.ParenthesisLeft:
 				foundFuncOrMethod = true
@@ -107,7 +107,7 @@ func (r funcResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 		case kind.NewLine: // return kind
 			return false
 		default:
-			jumpTo = r.handleGeneralFunc(head, []kind.Kind{kind.NewLine}, hooks...)
+			jumpTo = r.handleGeneralFunc(n, []kind.Kind{kind.NewLine}, hooks...)
 			skipAll = jumpTo == nil
 			return true
 		}
@@ -160,6 +160,12 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 		switch n.Kind() {
 		case kind.Comment:
 			return true
+		case kind.Basic: // a name like a basic type's
+			if !isFuncNameAssigned && !isFuncParamHandled {
+				n.SetKind(kind.FuncName)
+				isFuncNameAssigned = true
+			}
+			return true
 		case kind.Raw:
 			if !isFuncNameAssigned {
 				if r.isNotMethod && isFuncParamHandled {
diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 499be47..1d8c46f 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -43,7 +43,7 @@ func (r typeResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 			switch n.Kind() {
 			case kind.CurlyBracketRight, kind.NewLine: // return kind
 				return false
-			case kind.Raw:
+			case kind.Raw, kind.Basic /* a name like a basic type's */ :
 				n.SetKind(kind.TypeName)
 				isTypeNameAssigned = true
 				return true
-- 
2.43.0


From aa48aeb7af75ab11c94b42a3db135db0a7e78a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 23/34] fix: find the package clause behind a comment on its
 line

A package clause that follows a /* */ comment on the same line belongs to
a comment scope, and was reported as missing.
---
 ast.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 8114f28..bb54079 100755
--- a/ast.go
+++ b/ast.go
@@ -97,7 +97,7 @@ func ParseAst(file string) (Ast, error) {
 func findPackageName(scs []Scope) (string, error) {
 	var packageScope Scope
 	for _, sc := range scs {
-		if sc.Kind() == scope.Package {
+		if isPackageScope(sc) {
 			packageScope = sc
 			break
 		}
@@ -127,6 +127,21 @@ func findPackageName(scs []Scope) (string, error) {
 	return result.Text(), nil
 }
 
+// isPackageScope reports whether the scope holds the package clause, which can
+// share its line with the comment in front of it.
+func isPackageScope(sc Scope) bool {
+	switch sc.Kind() {
+	case scope.Package:
+		return true
+	case scope.Comment, scope.InnerComment:
+		return sc.Node().IterNext(func(n *Node) bool {
+			return n.Kind() != kind.Package
+		}) != nil
+	default:
+		return false
+	}
+}
+
 type ast struct {
 	file  string
 	dir   string
-- 
2.43.0


From 347566beb0e153ea98a384ca2d11d840e6242fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 24/34] fix: append scopes without writing into a shared slice

Two trees made from one list of scopes, or the caller who went on using
the list, shared its spare capacity, so appending to one replaced the
scopes appended to the other.
---
 ast.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index bb54079..8d4c56e 100755
--- a/ast.go
+++ b/ast.go
@@ -224,7 +224,8 @@ func (f *ast) SetScope(scope []Scope) Ast {
 }
 
 func (f *ast) AppendScope(scs ...Scope) {
-	f.scope = append(f.scope, scs...)
+	// never write behind the scopes, another ast or the caller may share them
+	f.scope = append(f.scope[:len(f.scope):len(f.scope)], scs...)
 }
 
 func (f *ast) Description() string {
-- 
2.43.0


From 62f0cfda01cdc39975bde80501de152cfe788dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:39 +0000
Subject: [PATCH 25/34] fix: end an interface method at the closing bracket of
 its interface

In an interface written on one line the "}" was taken for the result type
of the method in front of it.
---
 kind_resetter_func.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 4a27eb5..593a7f8 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -39,7 +39,7 @@ func (r funcResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 	}
 
 	if r.isInterfaceDefinition {
-		return r.handleGeneralFunc(head, []kind.Kind{kind.NewLine}, hooks...)
+		return r.handleGeneralFunc(head, []kind.Kind{kind.NewLine, kind.CurlyBracketRight}, hooks...)
 	}
 
 	if r.isTemporaryFunc(head) {
@@ -189,7 +189,7 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 			skipAll = jumpTo == nil
 			return true
 		case kind.CurlyBracketLeft:
-			jumpTo = curlyBracketResetter{skip: true}.Run(n, hooks...)
+			jumpTo = curlyBracketResetter{skip: true}.Run(n, hooks...).Next()
 			skipAll = jumpTo == nil
 			return true
 		case kind.SquareBracketLeft:
@@ -274,7 +274,7 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
 		switch n.Kind() {
-		case kind.NewLine, kind.Space, kind.CurlyBracketLeft: // return kind
+		case kind.NewLine, kind.Space, kind.CurlyBracketLeft, kind.CurlyBracketRight: // return kind
 			return false
 		case kind.Comment:
 			return true
-- 
2.43.0


From f8f6679b7bc7d6768d19b2b6f3a0206d48e448c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 26/34] fix: end a parameter behind the brackets of its
 anonymous type

A "," or ")" inside an interface or struct type of a parameter ended the
parameter or the whole list, so the parameters behind it were not
classified.
---
 kind_resetter_parenthesis.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index 6b830a8..e56fb20 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -65,6 +65,7 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 		jumpTo  *Node
 
 		named bool
+		nest  int // brackets of an anonymous struct or interface type
 	)
 
 	nameKind := kind.ParamName
@@ -116,13 +117,22 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 		}
 
 		switch n.Kind() {
-		case kind.Comma, kind.ParenthesisRight: // return kind
-			return false
+		case kind.Comma: // return kind
+			return nest != 0
+		case kind.ParenthesisRight: // return kind
+			nest--
+			return nest >= 0
+		case kind.ParenthesisLeft, kind.CurlyBracketLeft:
+			nest++
+			return true
+		case kind.CurlyBracketRight:
+			nest--
+			return true
 		case kind.SquareBracketLeft: // ignore including generic
 			jumpTo = squareBracketResetter{}.Run(n, hooks...)
 			skipAll = jumpTo == nil
 			return true
-		case kind.Comment, kind.ParenthesisLeft, kind.Tab, kind.NewLine, kind.Space:
+		case kind.Comment, kind.Tab, kind.NewLine, kind.Space:
 			return true
 		case kind.Func:
 			jumpTo = funcResetter{isParameter: true}.Run(n, hooks...)
-- 
2.43.0


From 2467dcc979107723a6586989d2ac08ac627e958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:05 +0000
Subject: [PATCH 27/34] fix: classify the parameters of func types behind other
 type syntax

The parameters of "...func(a T)", "*func(a T)" and of results like
"[]func(a T)" or "map[K]func(a T)" were all taken for types.
---
 kind_resetter_all.go         |  9 +++++++++
 kind_resetter_func.go        | 20 ++++++++++++++++----
 kind_resetter_parenthesis.go |  7 +++++++
 kind_resetter_type.go        | 25 ++++++++++++++++++++-----
 4 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/kind_resetter_all.go b/kind_resetter_all.go
index e2b37a6..7fbe9b5 100755
--- a/kind_resetter_all.go
+++ b/kind_resetter_all.go
@@ -1,6 +1,8 @@
 package goast
 
 import (
+	"strings"
+
 	"github.com/yanun0323/goast/charset"
 	"github.com/yanun0323/goast/helper"
 	"github.com/yanun0323/goast/kind"
@@ -105,6 +107,13 @@ func handleHook(n *Node, hooks ...func(*Node)) {
 // 	})
 // }
 
+// isPrefixedFunc tells whether n is the 'func' of a type like '*func()' or
+// '...func()', which is one node together with the signs in front of it.
+func isPrefixedFunc(n *Node) bool {
+	text := n.Text()
+	return len(text) > len("func") && strings.TrimLeft(text, "*.") == "func"
+}
+
 // combineRuns joins every run of neighbouring nodes in nns into one node of kind k.
 //
 // Nodes between two runs, like comments, keep their place.
diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 593a7f8..31458e0 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -261,26 +261,38 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 	switch found.Kind() {
 	case kind.ParenthesisLeft:
 		return parenthesisResetter{}.Run(head, hooks...)
-	case kind.Func:
-		return r.handleParameterFunc(head, hooks...)
 	}
 
 	var (
-		buf []*Node
+		buf        []*Node
+		resultFunc *Node
 	)
 
 	defer func() { combineRuns(kind.ParamType, buf) }()
 
-	return head.IterNext(func(n *Node) bool {
+	end := head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
 		switch n.Kind() {
+		case kind.Func: // of 'func()', '[]func()' or 'map[K]func()'
+			resultFunc = n
+			return false
 		case kind.NewLine, kind.Space, kind.CurlyBracketLeft, kind.CurlyBracketRight: // return kind
 			return false
 		case kind.Comment:
 			return true
 		default:
 			buf = helper.AppendUnrepeatable(buf, n)
+			if isPrefixedFunc(n) {
+				resultFunc = n.Next()
+				return false
+			}
 			return true
 		}
 	})
+
+	if resultFunc == nil {
+		return end
+	}
+
+	return r.handleParameterFunc(resultFunc, hooks...)
 }
diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index e56fb20..1f156d5 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -139,6 +139,13 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 			skipAll = jumpTo == nil
 			return true
 		case kind.Raw, kind.ParamType /* for struct resetter */, kind.ParamName /* for struct resetter */ :
+			if isPrefixedFunc(n) {
+				n.SetKind(typeKind)
+				jumpTo = funcResetter{isParameter: true}.Run(n.Next(), hooks...)
+				skipAll = jumpTo == nil
+				return true
+			}
+
 			if isTypeOnly {
 				n.SetKind(typeKind)
 				return true
diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 1d8c46f..c09c474 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -80,6 +80,13 @@ func (r typeResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 			skipAll = jumpTo == nil
 			return true
 		case kind.Raw:
+			if isPrefixedFunc(n) {
+				n.SetKind(kind.ParamType)
+				jumpTo = funcResetter{isNotMethod: true}.Run(n.Next(), hooks...)
+				skipAll = jumpTo == nil
+				return true
+			}
+
 			jumpTo = paramResetter{resetKind: kind.ParamType, returnKinds: []kind.Kind{kind.NewLine}}.Run(n, hooks...)
 			skipAll = jumpTo == nil
 			return true
@@ -226,6 +233,14 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 		paramNameCount = r.getRowNameCount(head)
 	)
 
+	handleFieldFunc := func(head *Node) *Node {
+		return funcResetter{isParameter: true}.Run(head, func(n *Node) {
+			if n.Kind() == kind.Raw {
+				n.SetKind(kind.ParamType)
+			}
+		})
+	}
+
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
 		if skipAll {
@@ -252,15 +267,15 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 			}
 
 			n.SetKind(kind.ParamType)
+			if isPrefixedFunc(n) {
+				jumpTo = handleFieldFunc(n.Next())
+				skipAll = jumpTo == nil
+			}
 			// jumpTo = paramResetter{resetKind: kind.ParamType, returnKinds: []kind.Kind{kind.NewLine}}.Run(n, hooks...)
 			// skipAll = jumpTo == nil
 			return true
 		case kind.Func:
-			jumpTo = funcResetter{isParameter: true}.Run(n, func(n *Node) {
-				if n.Kind() == kind.Raw {
-					n.SetKind(kind.ParamType)
-				}
-			})
+			jumpTo = handleFieldFunc(n)
 			skipAll = jumpTo == nil
 			return true
 		default:
-- 
2.43.0


From f36fe6995977223f44b3d356fa2378ff6368524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 28/34] fix: find the struct or interface behind a comment
 before type parameters

The "[" of type parameters behind a comment was taken for the one of an
array type, so the name of a generic struct was not reported.
---
 scope.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scope.go b/scope.go
index 42bea51..1afeeb9 100755
--- a/scope.go
+++ b/scope.go
@@ -252,6 +252,7 @@ func (d *scopeStruct) definitionKind() kind.Kind {
 	var (
 		named  bool
 		spaced bool
+		noted  bool
 		nest   int
 	)
 
@@ -263,13 +264,15 @@ func (d *scopeStruct) definitionKind() kind.Kind {
 
 		switch n.Kind() {
 		case kind.Comment:
+			noted = noted || nest == 0
 			return true
 		case kind.Space, kind.Tab, kind.NewLine, kind.Separator:
 			spaced = true
 			return true
 		case kind.SquareBracketLeft:
-			// type parameters follow the name directly, an array does not
-			if nest != 0 || !spaced {
+			// type parameters follow the name directly, an array does not, and
+			// behind a comment only type parameters have a space after them
+			if nest != 0 || !spaced || noted && n.Next().skipNestNext(kind.SquareBracketLeft, kind.SquareBracketRight).Next().Kind() == kind.Space {
 				nest++
 				return true
 			}
-- 
2.43.0


From 0bcce60ee43dd5a6854ec6c3ae53fce088db1c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:01 +0000
Subject: [PATCH 29/34] fix: take the blank identifier for a name

'_' is a symbol by its text, so the resetters passed over it: 'func _() T'
was named T, 'type _ T' was named T, and a parameter or field '_' was no
name.
---
 kind_resetter_all.go         | 10 ++++++++++
 kind_resetter_func.go        |  4 ++--
 kind_resetter_parenthesis.go |  4 ++--
 kind_resetter_type.go        |  6 +++---
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/kind_resetter_all.go b/kind_resetter_all.go
index 7fbe9b5..7c3d541 100755
--- a/kind_resetter_all.go
+++ b/kind_resetter_all.go
@@ -107,6 +107,16 @@ func handleHook(n *Node, hooks ...func(*Node)) {
 // 	})
 // }
 
+// identifierKind returns the kind of n, and of an identifier without letters, like
+// '_' or '*__', which is a symbol by its text, the kind of other identifiers.
+func identifierKind(n *Node) kind.Kind {
+	if n.Kind() == kind.Symbol && strings.Trim(strings.TrimLeft(n.Text(), "*."), "_") == "" && strings.HasSuffix(n.Text(), "_") {
+		return kind.Raw
+	}
+
+	return n.Kind()
+}
+
 // isPrefixedFunc tells whether n is the 'func' of a type like '*func()' or
 // '...func()', which is one node together with the signs in front of it.
 func isPrefixedFunc(n *Node) bool {
diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 31458e0..ffbc3ba 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -84,7 +84,7 @@ func (r funcResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 
 		// determine func or method
 		if !foundFuncOrMethod {
-			switch n.Kind() {
+			switch identifierKind(n) {
 			case kind.Raw, kind.Basic /* a name like a basic type's */ :
 				foundFuncOrMethod = true
 			case kind.ParenthesisLeft:
@@ -157,7 +157,7 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 			return !isFuncParamHandled
 		}
 
-		switch n.Kind() {
+		switch identifierKind(n) {
 		case kind.Comment:
 			return true
 		case kind.Basic: // a name like a basic type's
diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index 1f156d5..e067184 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -97,7 +97,7 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 	})
 
 	isTypeOnly := second == nil || !apart
-	switch first.Kind() {
+	switch identifierKind(first) {
 	case kind.Raw, kind.ParamType, kind.ParamName:
 	default:
 		isTypeOnly = true
@@ -116,7 +116,7 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 			jumpTo = nil
 		}
 
-		switch n.Kind() {
+		switch identifierKind(n) {
 		case kind.Comma: // return kind
 			return nest != 0
 		case kind.ParenthesisRight: // return kind
diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index c09c474..ed1d73d 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -40,7 +40,7 @@ func (r typeResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 		}
 
 		if !isTypeNameAssigned {
-			switch n.Kind() {
+			switch identifierKind(n) {
 			case kind.CurlyBracketRight, kind.NewLine: // return kind
 				return false
 			case kind.Raw, kind.Basic /* a name like a basic type's */ :
@@ -254,7 +254,7 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 			jumpTo = nil
 		}
 
-		switch n.Kind() {
+		switch identifierKind(n) {
 		case kind.NewLine: // return kind
 			return false
 		case kind.Comment, kind.NewLine, kind.Tab, kind.Space, kind.Comma:
@@ -296,7 +296,7 @@ func (r structResetter) getRowNameCount(head *Node) int {
 	)
 
 	_ = head.IterNext(func(n *Node) bool {
-		switch n.Kind() {
+		switch identifierKind(n) {
 		case kind.NewLine, kind.String, kind.CurlyBracketRight: // return kind
 			if hasSpaceOrAfterRaw && rawCount > 1 {
 				nameCount = cacheNameCount
-- 
2.43.0


From 60be0b5f99e3282508dec66ad416f39c2d8cd260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 30/34] fix: classify the methods of a field's interface type

The rows of an interface over several lines were taken for fields of the
struct around it, so their names and parameters were types.
---
 kind_resetter_type.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index ed1d73d..07d4ece 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -278,6 +278,10 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 			jumpTo = handleFieldFunc(n)
 			skipAll = jumpTo == nil
 			return true
+		case kind.Interface:
+			jumpTo = interfaceResetter{}.Run(n, hooks...)
+			skipAll = jumpTo == nil
+			return true
 		default:
 			// jumpTo = paramResetter{resetKind: kind.ParamType, returnKinds: []kind.Kind{kind.NewLine}}.Run(n, hooks...)
 			// skipAll = jumpTo == nil
-- 
2.43.0


From 29161c5c28175acea573b9069988120a3b8f0872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:49 +0000
Subject: [PATCH 31/34] fix: assertions take nil funcs for nil and do not panic
 on arrays

---
 assert/assert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assert/assert.go b/assert/assert.go
index f5edca9..9901285 100755
--- a/assert/assert.go
+++ b/assert/assert.go
@@ -156,7 +156,7 @@ func (Assert) isNil(i any) bool {
 		return true
 	}
 	switch reflect.TypeOf(i).Kind() {
-	case reflect.Ptr, reflect.Map, reflect.Array, reflect.Chan, reflect.Slice:
+	case reflect.Ptr, reflect.Map, reflect.Func, reflect.Chan, reflect.Slice, reflect.UnsafePointer:
 		return reflect.ValueOf(i).IsNil()
 	}
 	return false
-- 
2.43.0


From f1f767a5a5c6740573c53d8cf17ccff4078a413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:51 +0000
Subject: [PATCH 32/34] fix: ignore a byte order mark in front of the first
 declaration

Go ignores it, but here it became a part of the first word, so that the
package clause of such a file was not found and the first scope was lost.
---
 scope.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scope.go b/scope.go
index 1afeeb9..b5632f8 100755
--- a/scope.go
+++ b/scope.go
@@ -1,6 +1,7 @@
 package goast
 
 import (
+	"bytes"
 	"fmt"
 
 	"github.com/yanun0323/goast/kind"
@@ -61,6 +62,8 @@ func NewScope(line int, kind scope.Kind, node *Node) Scope {
 
 // ParseScope parses the given text into scopes.
 func ParseScope(startLine int, text []byte) ([]Scope, error) {
+	text = bytes.TrimPrefix(text, []byte("\xef\xbb\xbf")) // byte order mark
+
 	node, err := extract(text, startLine)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From bdcdd430a110eb4dfef959c46df85c36c4102872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:42 +0000
Subject: [PATCH 33/34] fix: find a package name behind a comment that starts a
 line

---
 ast.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/ast.go b/ast.go
index 8d4c56e..fa379c9 100755
--- a/ast.go
+++ b/ast.go
@@ -95,20 +95,8 @@ func ParseAst(file string) (Ast, error) {
 }
 
 func findPackageName(scs []Scope) (string, error) {
-	var packageScope Scope
-	for _, sc := range scs {
-		if isPackageScope(sc) {
-			packageScope = sc
-			break
-		}
-	}
-
-	if packageScope == nil {
-		return "", ErrNoPackage
-	}
-
 	packageKeywordAppeared := false
-	result := packageScope.Node().IterNext(func(n *Node) bool {
+	findName := func(n *Node) bool {
 		switch n.Kind() {
 		case kind.Package:
 			packageKeywordAppeared = true
@@ -118,7 +106,24 @@ func findPackageName(scs []Scope) (string, error) {
 		default:
 			return !packageKeywordAppeared
 		}
-	})
+	}
+
+	var result *Node
+	for _, sc := range scs {
+		if packageKeywordAppeared {
+			// a comment at the start of a line can part the keyword from the name
+			if sc.Kind() != scope.Comment && sc.Kind() != scope.InnerComment {
+				break
+			}
+		} else if !isPackageScope(sc) {
+			continue
+		}
+
+		result = sc.Node().IterNext(findName)
+		if result != nil {
+			break
+		}
+	}
 
 	if result == nil {
 		return "", ErrNoPackage
-- 
2.43.0


From ce1a084a23e6d93d90d995edf63e97a8fae444a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:37 +0000
Subject: [PATCH 34/34] fix: classify every name of parameters that share a
 type

---
 kind_resetter_parenthesis.go | 72 ++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 27 deletions(-)

diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index e067184..4b8adf3 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -75,33 +75,7 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 		typeKind = kind.MethodReceiverType
 	}
 
-	// a name is an identifier with a type apart from it, so 'a []T' has a name
-	// but '[]T', 'chan T' and 'R[T]' have not
-	var first, second *Node
-	apart := false
-	head.IterNext(func(n *Node) bool {
-		switch n.Kind() {
-		case kind.Comma, kind.ParenthesisRight:
-			return false
-		case kind.Space, kind.Tab, kind.Comment, kind.NewLine:
-			apart = first != nil
-			return true
-		default:
-			if first == nil {
-				first = n
-				return true
-			}
-			second = n
-			return false
-		}
-	})
-
-	isTypeOnly := second == nil || !apart
-	switch identifierKind(first) {
-	case kind.Raw, kind.ParamType, kind.ParamName:
-	default:
-		isTypeOnly = true
-	}
+	isTypeOnly := !r.hasParamName(head)
 
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
@@ -164,6 +138,50 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 	})
 }
 
+// hasParamName tells whether the parameter that starts with head has a name.
+//
+// A name is an identifier with a type apart from it, so 'a []T' has a name but
+// '[]T', 'chan T' and 'R[T]' have not. A lone identifier is a name if it shares
+// the type of a later one, like 'a' in 'a, b T'.
+func (r parenthesisResetter) hasParamName(head *Node) bool {
+	for {
+		var first, second *Node
+		apart := false
+		end := head.IterNext(func(n *Node) bool {
+			switch n.Kind() {
+			case kind.Comma, kind.ParenthesisRight:
+				return false
+			case kind.Space, kind.Tab, kind.Comment, kind.NewLine:
+				apart = first != nil
+				return true
+			default:
+				if first == nil {
+					first = n
+					return true
+				}
+				second = n
+				return false
+			}
+		})
+
+		switch identifierKind(first) {
+		case kind.Raw, kind.ParamType, kind.ParamName:
+		default:
+			return false
+		}
+
+		if second != nil {
+			return apart
+		}
+
+		if end.Kind() != kind.Comma {
+			return false
+		}
+
+		head = end.Next()
+	}
+}
+
 // curlyBracketResetter starts with '{', ends with '}'
 type curlyBracketResetter struct {
 	skip bool
-- 
2.43.0

