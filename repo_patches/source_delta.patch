From 269e3a38571e2ec82ce4187da52131310b12c66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 01/18] fix: opening bracket nodes carry the line they stand on

---
 extractor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor.go b/extractor.go
index 88ef608..da5d286 100755
--- a/extractor.go
+++ b/extractor.go
@@ -177,7 +177,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 			if ee != nil && ee.IncludeOpen { // /* // " `
 				buf.WriteByte(char)
 			} else { // ( {
-				insertNode(NewNode(bufLine, string(char)))
+				insertNode(NewNode(*line, string(char)))
 			}
 			*i++
 			ns, err := ee.Run(text, buf, i, line)
-- 
2.43.0


From 838846becccc48bcddbc5558098b7b4e287b34e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 02/18] fix: text ended by end of input keeps its kind and its
 starting line

---
 extractor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor.go b/extractor.go
index da5d286..e348bbe 100755
--- a/extractor.go
+++ b/extractor.go
@@ -219,7 +219,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 
 		lineStep()
 	}
-	pushNode(true)
+	pushNode(!e.IncludeOpen, e.Kind()...)
 	return head, nil
 }
 
-- 
2.43.0


From 4efc93a0b2059a5b9163b5fee7878ab38cdbe2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 03/18] fix: a string literal ending in an escaped backslash
 ends at its quote

---
 extractor.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/extractor.go b/extractor.go
index e348bbe..0e21105 100755
--- a/extractor.go
+++ b/extractor.go
@@ -189,7 +189,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 		}
 
 		trailing := text[:*i+1]
-		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) {
+		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) && isEscaped(trailing) {
 			// skip return
 			buf.WriteByte(char)
 			lineStep()
@@ -223,6 +223,16 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 	return head, nil
 }
 
+// isEscaped tells whether the last byte of text follows an odd number of backslashes.
+func isEscaped(text []byte) bool {
+	escaped := false
+	for i := len(text) - 2; i >= 0 && text[i] == '\\'; i-- {
+		escaped = !escaped
+	}
+
+	return escaped
+}
+
 func (e *extractor) Kind() []kind.Kind {
 	if e == nil || e.kind == kind.Raw {
 		return nil
-- 
2.43.0


From a3929507b4443d233e4ee1da9e54edfbe9d622b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 04/18] fix: quotes and brackets inside a rune literal are not
 delimiters

---
 extractor.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/extractor.go b/extractor.go
index 0e21105..e3dff78 100755
--- a/extractor.go
+++ b/extractor.go
@@ -69,6 +69,15 @@ var (
 		SkipReturnKeyword: "\\\"",
 	}
 
+	_runeExtractor = &extractor{
+		kind:              kind.Raw,
+		IncludeOpen:       true,
+		IncludeClose:      true,
+		SeparatorCharset:  nil,
+		ReturnKeyword:     "'",
+		SkipReturnKeyword: "\\'",
+	}
+
 	_multilineStringExtractor = &extractor{
 		kind:              kind.String,
 		IncludeOpen:       true,
@@ -89,6 +98,7 @@ var (
 		"//": _commentExtractor,
 		"/*": _innerCommentExtractor,
 		"\"": _stringExtractor,
+		"'":  _runeExtractor,
 		"`":  _multilineStringExtractor,
 	}
 )
-- 
2.43.0


From 7fe7e3dcac37f1ea4887cd0e39da057dfd1d68f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 05/18] fix: the opener of a block comment does not close it

---
 extractor.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/extractor.go b/extractor.go
index e3dff78..6a6e193 100755
--- a/extractor.go
+++ b/extractor.go
@@ -105,17 +105,17 @@ var (
 
 type deeperExtract map[string]*extractor
 
-func (de deeperExtract) PrefixFit(s []byte) (*extractor, bool) {
+func (de deeperExtract) PrefixFit(s []byte) (string, *extractor, bool) {
 	if de == nil {
-		return nil, false
+		return "", nil, false
 	}
 
 	for k, v := range de {
 		if helper.HasPrefix(s, k) {
-			return v, true
+			return k, v, true
 		}
 	}
-	return nil, false
+	return "", nil, false
 }
 
 type extractor struct {
@@ -138,6 +138,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 	)
 
 	bufLine := *line
+	begin := *i
 
 	insertNode := func(n *Node) {
 		if n == nil {
@@ -181,15 +182,15 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 	for ; *i < len(text); *i++ {
 		char = text[*i]
 
-		if ee, ok := e.DeeperExtract().PrefixFit(text[*i:]); ok {
+		if open, ee, ok := e.DeeperExtract().PrefixFit(text[*i:]); ok {
 			// () {} /**/ "" `` //\n
 			pushNode(true)
 			if ee != nil && ee.IncludeOpen { // /* // " `
-				buf.WriteByte(char)
+				buf.WriteString(open)
 			} else { // ( {
-				insertNode(NewNode(*line, string(char)))
+				insertNode(NewNode(*line, open))
 			}
-			*i++
+			*i += len(open)
 			ns, err := ee.Run(text, buf, i, line)
 			if err != nil {
 				return nil, err
@@ -198,7 +199,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 			continue
 		}
 
-		trailing := text[:*i+1]
+		trailing := text[begin : *i+1]
 		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) && isEscaped(trailing) {
 			// skip return
 			buf.WriteByte(char)
-- 
2.43.0


From 8b9582b4a8fbf38f076a83ebb770d33f232f52dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 06/18] fix: only a whole keyword starts a declaration scope

---
 scope.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scope.go b/scope.go
index 4e10c51..583ba03 100755
--- a/scope.go
+++ b/scope.go
@@ -176,6 +176,10 @@ func newScopeKind(s string) scope.Kind {
 
 func isScopeKind(s string, k scope.Kind) bool {
 	ks := string(k)
+	if k != scope.Comment && k != scope.InnerComment {
+		return s == ks
+	}
+
 	if len(s) < len(ks) {
 		return false
 	}
-- 
2.43.0


From 4f27622198fea7386c08d32e1facbbb30c67fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 07/18] fix: ParseScope counts lines from the given start line

---
 extractor.go | 7 ++++++-
 scope.go     | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/extractor.go b/extractor.go
index 6a6e193..6d4f7e8 100755
--- a/extractor.go
+++ b/extractor.go
@@ -9,11 +9,16 @@ import (
 )
 
 // extract parses file text content into nodes.
-func extract(text []byte) (*Node, error) {
+func extract(text []byte, startLine ...int) (*Node, error) {
 	var (
 		i, line int
 		buf     strings.Builder
 	)
+
+	if len(startLine) != 0 {
+		line = startLine[0]
+	}
+
 	node, err := _commonExtractor.Run(text, &buf, &i, &line)
 	if err != nil {
 		return nil, err
diff --git a/scope.go b/scope.go
index 583ba03..2b74401 100755
--- a/scope.go
+++ b/scope.go
@@ -61,7 +61,7 @@ func NewScope(line int, kind scope.Kind, node *Node) Scope {
 
 // ParseScope parses the given text into scopes.
 func ParseScope(startLine int, text []byte) ([]Scope, error) {
-	node, err := extract(text)
+	node, err := extract(text, startLine)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From aa796d8fac116ef1d5d44092f109665b78feded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 08/18] fix: combining onto a nil node adopts the first
 incoming node and the kind

---
 node.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/node.go b/node.go
index dee965b..5f47705 100755
--- a/node.go
+++ b/node.go
@@ -280,17 +280,17 @@ func (n *Node) RemoveNext() *Node {
 //
 // e.g. (nn3 - nn2 - nn1 - n)
 func (n *Node) CombinePrev(k kind.Kind, nns ...*Node) *Node {
+	for n == nil && len(nns) != 0 {
+		n = nns[0]
+		nns = nns[1:]
+	}
+
 	n.SetKind(k)
 
 	if len(nns) == 0 {
 		return n
 	}
 
-	if n == nil {
-		n = nns[0]
-		nns = nns[1:]
-	}
-
 	buf := make([]string, 0, len(nns)+1)
 	buf = append(buf, n.Text())
 	for _, nn := range nns {
@@ -315,17 +315,17 @@ func (n *Node) CombinePrev(k kind.Kind, nns ...*Node) *Node {
 //
 // e.g. (n - nn1 - nn2 - nn3)
 func (n *Node) CombineNext(k kind.Kind, nns ...*Node) *Node {
+	for n == nil && len(nns) != 0 {
+		n = nns[0]
+		nns = nns[1:]
+	}
+
 	n.SetKind(k)
 
 	if len(nns) == 0 {
 		return n
 	}
 
-	if n == nil {
-		n = nns[0]
-		nns = nns[1:]
-	}
-
 	buf := make([]string, 0, len(nns)+1)
 	buf = append(buf, n.Text())
 	for _, nn := range nns {
-- 
2.43.0


From bf64b3edb4725cacb5dd05183c399308e7dfbae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 09/18] fix: NewNodes counts the lines of its first text

---
 node.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/node.go b/node.go
index 5f47705..0d9fb89 100755
--- a/node.go
+++ b/node.go
@@ -31,6 +31,7 @@ func NewNodes(startLine int, texts ...string) *Node {
 
 	head := NewNode(startLine, texts[0])
 	cur := head
+	startLine += strings.Count(texts[0], "\n")
 	for _, text := range texts[1:] {
 		cur.InsertNext(NewNode(startLine, text))
 		cur = cur.Next()
-- 
2.43.0


From df72946848c9b64dc44b0fd7a3439af76bb2c24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 10/18] fix: HasPrefix compares every byte of the prefix

---
 helper/helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helper/helper.go b/helper/helper.go
index a1cda9a..3ec729d 100755
--- a/helper/helper.go
+++ b/helper/helper.go
@@ -109,7 +109,7 @@ func HasPrefix(s []byte, prefix string) bool {
 		return false
 	}
 
-	for i := range prefix {
+	for i := range len(prefix) {
 		if s[i] != prefix[i] {
 			return false
 		}
-- 
2.43.0


From f199381ef93bb2df58920e512638e2a2634b8934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 11/18] fix: trie keys keep their own value and are matched
 byte by byte

---
 trie.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trie.go b/trie.go
index 50be38f..c97a80a 100755
--- a/trie.go
+++ b/trie.go
@@ -21,10 +21,10 @@ func (t *trie_[T]) AddText(s string, value T) *trie_[T] {
 		return nil
 	}
 
-	var zero T
 	n := t
-	for i := range s {
-		n = n.Insert(s[i], zero)
+	for i := range len(s) {
+		next, _ := n.Next(s[i])
+		n = n.Insert(s[i], next.Value())
 	}
 	n.value = value
 	return n
@@ -55,7 +55,7 @@ func (t *trie_[T]) FindText(s string) (T, bool) {
 
 	n := t
 	ok := false
-	for i := range s {
+	for i := range len(s) {
 		n, ok = n.Next(s[i])
 		if !ok {
 			return n.Value(), false
-- 
2.43.0


From 4dd7864071103658cea1a8a2fb3f46b3e0420ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 12/18] fix: AppendScope never writes into a slice shared with
 another ast

---
 ast.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 586f659..c7aa5fd 100755
--- a/ast.go
+++ b/ast.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"os"
 	"path/filepath"
+	"slices"
 	"strings"
 
 	"github.com/yanun0323/goast/helper"
@@ -205,7 +206,7 @@ func (f *ast) SetScope(scope []Scope) Ast {
 }
 
 func (f *ast) AppendScope(scs ...Scope) {
-	f.scope = append(f.scope, scs...)
+	f.scope = append(slices.Clip(f.scope), scs...)
 }
 
 func (f *ast) Description() string {
-- 
2.43.0


From b66ece5af3222bf30267ea716ccb5fc1ff235f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 13/18] fix: scope description names the line of the scope

---
 scope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scope.go b/scope.go
index 2b74401..ffa3561 100755
--- a/scope.go
+++ b/scope.go
@@ -146,7 +146,7 @@ func (d *scopeStruct) Description() string {
 		return ""
 	}
 
-	return fmt.Sprintf("%d .... *Scope.%s", d.Line()+1, d.kind.String())
+	return fmt.Sprintf("%d .... *Scope.%s", d.Line(), d.kind.String())
 }
 
 func (d *scopeStruct) Print() {
-- 
2.43.0


From 171252582fb2795b554d7326086268a54da4b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 14/18] fix: scope getters return no name when they find none

---
 scope.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/scope.go b/scope.go
index ffa3561..bec013d 100755
--- a/scope.go
+++ b/scope.go
@@ -221,8 +221,9 @@ func (d *scopeStruct) GetTypeName() (string, bool) {
 	)
 
 	d.Node().IterNext(func(n *Node) bool {
-		found = n.Kind() == kind.TypeName
-		name = n.Text()
+		if found = n.Kind() == kind.TypeName; found {
+			name = n.Text()
+		}
 		return !found
 	})
 
@@ -278,8 +279,9 @@ func (d *scopeStruct) GetMethodName() (string, bool) {
 	}
 
 	d.Node().IterNext(func(n *Node) bool {
-		found = n.Kind() == kind.FuncName
-		name = n.Text()
+		if found = n.Kind() == kind.FuncName; found {
+			name = n.Text()
+		}
 		return !found
 	})
 
@@ -297,8 +299,9 @@ func (d *scopeStruct) GetMethodReceiver() (string, bool) {
 	)
 
 	d.Node().IterNext(func(n *Node) bool {
-		found = n.Kind() == kind.MethodReceiverType
-		name = n.Text()
+		if found = n.Kind() == kind.MethodReceiverType; found {
+			name = n.Text()
+		}
 		return !found
 	})
 
-- 
2.43.0


From 16194c4b8b31369020c69eab6898513f085132ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 15/18] fix: only a declared struct or interface has a struct
 or interface name

---
 scope.go | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/scope.go b/scope.go
index bec013d..e80fd89 100755
--- a/scope.go
+++ b/scope.go
@@ -230,21 +230,34 @@ func (d *scopeStruct) GetTypeName() (string, bool) {
 	return name, found
 }
 
+// declaredType returns the first node of the type that the scope gives its name to,
+// behind the type name, its type parameters and an alias sign.
+func (d *scopeStruct) declaredType() *Node {
+	n := d.Node().IterNext(func(n *Node) bool { return n.Kind() != kind.TypeName }).Next()
+	if n.Kind() == kind.SquareBracketLeft {
+		n = n.skipNestNext(kind.SquareBracketLeft, kind.SquareBracketRight).Next()
+	}
+
+	return n.IterNext(func(n *Node) bool {
+		switch n.Kind() {
+		case kind.Space, kind.Tab, kind.NewLine, kind.Comment:
+			return true
+		default:
+			return n.Text() == "="
+		}
+	})
+}
+
 func (d *scopeStruct) GetStructName() (string, bool) {
 	if d.Kind() != scope.Type {
 		return "", false
 	}
 
-	isStruct := false
-
-	d.Node().IterNext(func(n *Node) bool {
-		isStruct = n.Kind() == kind.Struct
-		return !isStruct
-	})
-
-	typeName, _ := d.GetTypeName()
+	if d.declaredType().Kind() != kind.Struct {
+		return "", false
+	}
 
-	return typeName, isStruct
+	return d.GetTypeName()
 }
 
 func (d *scopeStruct) GetInterfaceName() (string, bool) {
@@ -252,16 +265,11 @@ func (d *scopeStruct) GetInterfaceName() (string, bool) {
 		return "", false
 	}
 
-	isInterface := false
-
-	d.Node().IterNext(func(n *Node) bool {
-		isInterface = n.Kind() == kind.Interface
-		return !isInterface
-	})
-
-	typeName, _ := d.GetTypeName()
+	if d.declaredType().Kind() != kind.Interface {
+		return "", false
+	}
 
-	return typeName, isInterface
+	return d.GetTypeName()
 }
 
 func (d *scopeStruct) GetMethodName() (string, bool) {
-- 
2.43.0


From de2f64fd5a9b4abf825585a6c6bf42b9bf0b2387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 16/18] fix: nil assertions accept arrays and recognise nil
 functions

---
 assert/assert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assert/assert.go b/assert/assert.go
index f5edca9..9901285 100755
--- a/assert/assert.go
+++ b/assert/assert.go
@@ -156,7 +156,7 @@ func (Assert) isNil(i any) bool {
 		return true
 	}
 	switch reflect.TypeOf(i).Kind() {
-	case reflect.Ptr, reflect.Map, reflect.Array, reflect.Chan, reflect.Slice:
+	case reflect.Ptr, reflect.Map, reflect.Func, reflect.Chan, reflect.Slice, reflect.UnsafePointer:
 		return reflect.ValueOf(i).IsNil()
 	}
 	return false
-- 
2.43.0


From 362ff48987080186c8cbdb01fe37536e3d7050e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 17/18] fix: naming a type never drops the text between its
 parts

---
 kind_resetter_all.go  | 28 ++++++++++++++++++++++------
 kind_resetter_func.go |  7 +------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/kind_resetter_all.go b/kind_resetter_all.go
index 5938780..856d30e 100755
--- a/kind_resetter_all.go
+++ b/kind_resetter_all.go
@@ -26,6 +26,27 @@ func handleHook(n *Node, hooks ...func(*Node)) {
 	}
 }
 
+// combineAdjacent combines the leading nodes that directly follow each other into the first one.
+//
+// It stops at the first gap, so no text between the given nodes (e.g. a comment) gets lost.
+func combineAdjacent(k kind.Kind, nodes []*Node) {
+	if len(nodes) == 0 {
+		return
+	}
+
+	n := nodes[0]
+	n.SetKind(k)
+	for _, nn := range nodes[1:] {
+		if nn == nil || nn != n.Next() {
+			return
+		}
+
+		next := nn.Next()
+		n.CombineNext(k, nn)
+		n.ReplaceNext(next)
+	}
+}
+
 // func generalResetter() kindResetter {
 // 	return &genericResetter{
 // 		DeeperResetterTable: map[kind.Kind]kindResetter{
@@ -129,12 +150,7 @@ func (r paramResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 	returnKindSet := charset.New(r.returnKinds...)
 
 	defer func() {
-		if len(buf) != 0 {
-			n := buf[0]
-			next := buf[len(buf)-1].Next()
-			n = n.CombineNext(r.resetKind, buf[1:]...)
-			n.ReplaceNext(next)
-		}
+		combineAdjacent(r.resetKind, buf)
 	}()
 
 	return head.IterNext(func(n *Node) bool {
diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 4c6484c..3ae0e91 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -249,12 +249,7 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 	)
 
 	defer func() {
-		if len(buf) != 0 {
-			n := buf[0]
-			next := buf[len(buf)-1].Next()
-			n = n.CombineNext(kind.ParamType, buf[1:]...)
-			n.ReplaceNext(next)
-		}
+		combineAdjacent(kind.ParamType, buf)
 	}()
 
 	return head.IterNext(func(n *Node) bool {
-- 
2.43.0


From c0a58c0a77ee750ce0965547fdea375859e54065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 18/18] fix: a package clause without a usable name is reported
 as ErrNoPackage

---
 ast.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index c7aa5fd..fd2d61f 100755
--- a/ast.go
+++ b/ast.go
@@ -110,7 +110,7 @@ func findPackageName(scs []Scope) (string, error) {
 
 	packageKeywordAppeared := false
 	result := packageScope.Node().IterNext(func(n *Node) bool {
-		if packageKeywordAppeared && n.Kind() == kind.Raw {
+		if packageKeywordAppeared && (n.Kind() == kind.Raw || n.Kind() == kind.Basic) {
 			return false
 		}
 
@@ -121,6 +121,10 @@ func findPackageName(scs []Scope) (string, error) {
 		return true
 	})
 
+	if result == nil {
+		return "", ErrNoPackage
+	}
+
 	return result.Text(), nil
 }
 
-- 
2.43.0

