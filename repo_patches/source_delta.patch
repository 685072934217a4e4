From 83766c859d682a4e57d683d22b9b7c4f1e2cfa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 01/38] fix: an escaped backslash does not keep a string
 literal open

---
 extractor.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extractor.go b/extractor.go
index 88ef608..6db8a46 100755
--- a/extractor.go
+++ b/extractor.go
@@ -189,9 +189,11 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 		}
 
 		trailing := text[:*i+1]
-		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) {
-			// skip return
+		if len(e.SkipReturnKeyword) != 0 && char == e.SkipReturnKeyword[0] && *i+1 < len(text) {
+			// skip return: the byte after a backslash never closes the literal
 			buf.WriteByte(char)
+			*i++
+			buf.WriteByte(text[*i])
 			lineStep()
 			continue
 		}
-- 
2.43.0


From f870263c0e255a95f1c7caea4c20a81db1c9f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 02/38] fix: a rune literal is one node, so a quote or bracket
 in it opens nothing

---
 extractor.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/extractor.go b/extractor.go
index 6db8a46..aa7461f 100755
--- a/extractor.go
+++ b/extractor.go
@@ -69,6 +69,15 @@ var (
 		SkipReturnKeyword: "\\\"",
 	}
 
+	_runeExtractor = &extractor{
+		kind:              kind.Raw,
+		IncludeOpen:       true,
+		IncludeClose:      true,
+		SeparatorCharset:  nil,
+		ReturnKeyword:     "'",
+		SkipReturnKeyword: "\\'",
+	}
+
 	_multilineStringExtractor = &extractor{
 		kind:              kind.String,
 		IncludeOpen:       true,
@@ -90,6 +99,7 @@ var (
 		"/*": _innerCommentExtractor,
 		"\"": _stringExtractor,
 		"`":  _multilineStringExtractor,
+		"'":  _runeExtractor,
 	}
 )
 
-- 
2.43.0


From 4520d7d51e496f8a409f6d5e40186679a2ac33fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 03/38] fix: /*/ opens a comment and does not close it

---
 extractor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/extractor.go b/extractor.go
index aa7461f..f9d3bdc 100755
--- a/extractor.go
+++ b/extractor.go
@@ -198,6 +198,13 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 			continue
 		}
 
+		if e.IncludeClose && buf.Len()+1 < 2*len(e.ReturnKeyword) {
+			// the opening and the closing keyword share no byte: /*/ is still open
+			buf.WriteByte(char)
+			lineStep()
+			continue
+		}
+
 		trailing := text[:*i+1]
 		if len(e.SkipReturnKeyword) != 0 && char == e.SkipReturnKeyword[0] && *i+1 < len(text) {
 			// skip return: the byte after a backslash never closes the literal
-- 
2.43.0


From 08752295db05c063b72ab6eb6b1d826b0424141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 04/38] fix: a comment that ends the text without newline is a
 comment

---
 extractor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extractor.go b/extractor.go
index f9d3bdc..713ca52 100755
--- a/extractor.go
+++ b/extractor.go
@@ -238,6 +238,10 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 
 		lineStep()
 	}
+	if e.IncludeOpen {
+		// the text ends inside of a comment or literal
+		pushNode(false, e.Kind()...)
+	}
 	pushNode(true)
 	return head, nil
 }
-- 
2.43.0


From 37c7613a8540a503357eaa6d29b9fcee9fb48b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 05/38] fix: an opening bracket that starts its line has the
 number of that line

---
 extractor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extractor.go b/extractor.go
index 713ca52..c65c2df 100755
--- a/extractor.go
+++ b/extractor.go
@@ -187,6 +187,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 			if ee != nil && ee.IncludeOpen { // /* // " `
 				buf.WriteByte(char)
 			} else { // ( {
+				bufLine = *line
 				insertNode(NewNode(bufLine, string(char)))
 			}
 			*i++
-- 
2.43.0


From 41a3ebfc07b495b207668ee755a4a8ad5de114d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 06/38] fix: only a top level line starting with a whole
 keyword or a comment starts a scope

---
 scope.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/scope.go b/scope.go
index 4e10c51..8e95631 100755
--- a/scope.go
+++ b/scope.go
@@ -88,7 +88,20 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 		}
 	}
 
+	depth := 0
 	_ = node.IterNext(func(n *Node) bool {
+		switch n.Kind() {
+		case kind.ParenthesisLeft, kind.CurlyBracketLeft, kind.SquareBracketLeft:
+			depth++
+		case kind.ParenthesisRight, kind.CurlyBracketRight, kind.SquareBracketRight:
+			depth = max(depth-1, 0)
+		}
+
+		// only a top level line starts a scope
+		if depth != 0 || (n.Prev() != nil && n.Prev().Kind() != kind.NewLine) {
+			return true
+		}
+
 		if n.Line() == line {
 			return true
 		}
@@ -180,6 +193,10 @@ func isScopeKind(s string, k scope.Kind) bool {
 		return false
 	}
 
+	if k != scope.Comment && k != scope.InnerComment {
+		return s == ks // a keyword, and not an identifier which starts like one
+	}
+
 	return s[:len(ks)] == ks
 }
 
-- 
2.43.0


From 8e4ce9809561b22eb15f345a75581b49d3598da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 07/38] fix: ParseScope counts lines from startLine and does
 not skip the first line

---
 scope.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scope.go b/scope.go
index 8e95631..0ba74bf 100755
--- a/scope.go
+++ b/scope.go
@@ -66,6 +66,12 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 		return nil, err
 	}
 
+	// lines are counted from startLine on
+	_ = node.IterNext(func(n *Node) bool {
+		n.line += startLine
+		return true
+	})
+
 	scs := []Scope{}
 	nodesToResetKind := []*Node{}
 
-- 
2.43.0


From 105c8b6054a48c0a74b4d867d4a8aa93d7ecf5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 08/38] fix: combining the nodes of a type does not drop a
 comment between them

---
 kind_resetter_all.go  | 18 ++++++++++++++++++
 kind_resetter_func.go |  1 +
 2 files changed, 19 insertions(+)

diff --git a/kind_resetter_all.go b/kind_resetter_all.go
index 5938780..8bd2299 100755
--- a/kind_resetter_all.go
+++ b/kind_resetter_all.go
@@ -105,6 +105,23 @@ func handleHook(n *Node, hooks ...func(*Node)) {
 // 	})
 // }
 
+// fillGaps returns every node from the first to the last node of the buffer,
+// so that combining them drops nothing (e.g. a comment) in between.
+func fillGaps(buf []*Node) []*Node {
+	last := buf[len(buf)-1]
+	result := make([]*Node, 0, len(buf))
+	end := buf[0].IterNext(func(n *Node) bool {
+		result = append(result, n)
+		return n != last
+	})
+
+	if end == nil {
+		return buf
+	}
+
+	return result
+}
+
 type paramResetter struct {
 	skip        bool
 	resetKind   kind.Kind
@@ -130,6 +147,7 @@ func (r paramResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 
 	defer func() {
 		if len(buf) != 0 {
+			buf = fillGaps(buf)
 			n := buf[0]
 			next := buf[len(buf)-1].Next()
 			n = n.CombineNext(r.resetKind, buf[1:]...)
diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 4c6484c..2168429 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -250,6 +250,7 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 
 	defer func() {
 		if len(buf) != 0 {
+			buf = fillGaps(buf)
 			n := buf[0]
 			next := buf[len(buf)-1].Next()
 			n = n.CombineNext(kind.ParamType, buf[1:]...)
-- 
2.43.0


From 78b15f38b832183b7aac761d349ed7cd8a151448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 09/38] fix: a single return type ends at the bracket or comma
 that encloses the func

---
 kind_resetter_func.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 2168429..da090e3 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -258,6 +258,7 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 		}
 	}()
 
+	depth := 0
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
 		switch n.Kind() {
@@ -265,9 +266,18 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 			return false
 		case kind.Comment:
 			return true
-		default:
-			buf = helper.AppendUnrepeatable(buf, n)
-			return true
+		case kind.ParenthesisLeft, kind.SquareBracketLeft:
+			depth++
+		case kind.ParenthesisRight, kind.SquareBracketRight, kind.CurlyBracketRight, kind.Comma:
+			if depth == 0 { // belongs to what encloses the func
+				return false
+			}
+			if n.Kind() != kind.Comma {
+				depth--
+			}
 		}
+
+		buf = helper.AppendUnrepeatable(buf, n)
+		return true
 	})
 }
-- 
2.43.0


From 83751eea36e05408613d6ae1ea26dd2e6e485182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 10/38] fix: a func name may be blank or equal to a basic type,
 and only what precedes the parameters is a name

---
 kind_resetter_all.go  | 11 +++++++++++
 kind_resetter_func.go | 23 ++++++++++++-----------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/kind_resetter_all.go b/kind_resetter_all.go
index 8bd2299..5b4f19b 100755
--- a/kind_resetter_all.go
+++ b/kind_resetter_all.go
@@ -105,6 +105,17 @@ func handleHook(n *Node, hooks ...func(*Node)) {
 // 	})
 // }
 
+// isName reports whether the node can be a declared name, which is an identifier
+// and may be blank or equal to the name of a basic type.
+func isName(n *Node) bool {
+	switch n.Kind() {
+	case kind.Raw, kind.Basic:
+		return true
+	default:
+		return n.Text() == "_"
+	}
+}
+
 // fillGaps returns every node from the first to the last node of the buffer,
 // so that combining them drops nothing (e.g. a comment) in between.
 func fillGaps(buf []*Node) []*Node {
diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index da090e3..b8abed2 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -84,10 +84,10 @@ func (r funcResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 
 		// determine func or method
 		if !foundFuncOrMethod {
-			switch n.Kind() {
-			case kind.Raw:
+			switch {
+			case isName(n):
 				foundFuncOrMethod = true
-			case kind.ParenthesisLeft:
+			case n.Kind() == kind.ParenthesisLeft:
 				foundFuncOrMethod = true
 				isMethod = true
 			default:
@@ -107,7 +107,7 @@ func (r funcResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 		case kind.NewLine: // return kind
 			return false
 		default:
-			jumpTo = r.handleGeneralFunc(head, []kind.Kind{kind.NewLine}, hooks...)
+			jumpTo = r.handleGeneralFunc(n, []kind.Kind{kind.NewLine}, hooks...)
 			skipAll = jumpTo == nil
 			return true
 		}
@@ -157,17 +157,18 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 			return !isFuncParamHandled
 		}
 
+		// only what precedes the parameters is a name
+		if !isFuncNameAssigned && !isFuncParamHandled && isName(n) {
+			n.SetKind(kind.FuncName)
+			isFuncNameAssigned = true
+			return true
+		}
+
 		switch n.Kind() {
 		case kind.Comment:
 			return true
-		case kind.Raw:
-			if !isFuncNameAssigned {
-				n.SetKind(kind.FuncName)
-				isFuncNameAssigned = true
-			}
-			return true
 		case kind.Space:
-			if isFuncNameAssigned && isFuncParamHandled {
+			if isFuncParamHandled {
 				jumpTo = r.handleSingleReturnType(n, hooks...)
 				skipAll = jumpTo == nil
 				return true
-- 
2.43.0


From 55ba1b3c17839760ea3946d700c6ce70fe15df1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 11/38] fix: the name of a parameter or receiver is its first
 node and may be blank or equal to a basic type

---
 kind_resetter_parenthesis.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index 7b19243..2b2ee0b 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -65,6 +65,7 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 		jumpTo  *Node
 
 		named bool
+		typed bool // the type has started
 	)
 
 	nameKind := kind.ParamName
@@ -108,27 +109,28 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 			skipAll = jumpTo == nil
 			return true
 		case kind.Comment, kind.ParenthesisLeft, kind.Tab, kind.NewLine, kind.Space:
+			typed = true
 			return true
 		case kind.Func:
 			jumpTo = funcResetter{isParameter: true}.Run(n, hooks...)
 			skipAll = jumpTo == nil
+			typed = true
 			return true
-		case kind.Raw, kind.ParamType /* for struct resetter */, kind.ParamName /* for struct resetter */ :
-			if validParamCount == 1 {
-				n.SetKind(typeKind)
-				return true
-			}
+		}
 
-			if !named {
-				n.SetKind(nameKind)
-				named = true
-				return true
-			}
-			n.SetKind(typeKind)
-			return true
-		default:
+		// a name is followed by its type, and a type by its type arguments at once
+		isFirst := !named && !typed
+		isAlone := validParamCount == 1 || n.Next().Kind() == kind.SquareBracketLeft
+		switch {
+		case isFirst && !isAlone && (isName(n) || n.Kind() == kind.ParamType || n.Kind() == kind.ParamName):
+			n.SetKind(nameKind)
+			named = true
 			return true
+		case n.Kind() == kind.Raw, n.Kind() == kind.ParamType /* for struct resetter */, n.Kind() == kind.ParamName /* for struct resetter */ :
+			n.SetKind(typeKind)
 		}
+		typed = true
+		return true
 	})
 }
 
-- 
2.43.0


From 85b339aaff7717e1e3359efc815837f9e46da853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 12/38] fix: a type scope is a struct or an interface only when
 the declared type is one, and its name may be blank

---
 kind_resetter_type.go |  6 +++---
 scope.go              | 36 ++++++++++++++++++++++--------------
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index c703357..0cf3b6f 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -40,10 +40,10 @@ func (r typeResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 		}
 
 		if !isTypeNameAssigned {
-			switch n.Kind() {
-			case kind.CurlyBracketRight, kind.NewLine: // return kind
+			switch {
+			case n.Kind() == kind.CurlyBracketRight, n.Kind() == kind.NewLine: // return kind
 				return false
-			case kind.Raw:
+			case isName(n):
 				n.SetKind(kind.TypeName)
 				isTypeNameAssigned = true
 				return true
diff --git a/scope.go b/scope.go
index 0ba74bf..12bfd89 100755
--- a/scope.go
+++ b/scope.go
@@ -253,16 +253,9 @@ func (d *scopeStruct) GetStructName() (string, bool) {
 		return "", false
 	}
 
-	isStruct := false
-
-	d.Node().IterNext(func(n *Node) bool {
-		isStruct = n.Kind() == kind.Struct
-		return !isStruct
-	})
-
 	typeName, _ := d.GetTypeName()
 
-	return typeName, isStruct
+	return typeName, d.typeNode().Kind() == kind.Struct
 }
 
 func (d *scopeStruct) GetInterfaceName() (string, bool) {
@@ -270,16 +263,31 @@ func (d *scopeStruct) GetInterfaceName() (string, bool) {
 		return "", false
 	}
 
-	isInterface := false
+	typeName, _ := d.GetTypeName()
 
-	d.Node().IterNext(func(n *Node) bool {
-		isInterface = n.Kind() == kind.Interface
-		return !isInterface
+	return typeName, d.typeNode().Kind() == kind.Interface
+}
+
+// typeNode returns the first node of the type which a type scope declares,
+// that is what follows the type name and its type parameters.
+func (d *scopeStruct) typeNode() *Node {
+	name := d.Node().IterNext(func(n *Node) bool {
+		return n.Kind() != kind.TypeName
 	})
 
-	typeName, _ := d.GetTypeName()
+	n := name.Next()
+	if n.Kind() == kind.SquareBracketLeft { // type parameters, as an array type does not follow at once
+		n = n.skipNestNext(kind.SquareBracketLeft, kind.SquareBracketRight).Next()
+	}
 
-	return typeName, isInterface
+	return n.IterNext(func(n *Node) bool {
+		switch n.Kind() {
+		case kind.Space, kind.Tab, kind.NewLine, kind.Comment:
+			return true
+		default:
+			return n.Text() == "=" // alias
+		}
+	})
 }
 
 func (d *scopeStruct) GetMethodName() (string, bool) {
-- 
2.43.0


From ddf0e1797691d8684ee08b8d40d3aa896cde9ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 13/38] fix: grouped parameter names are names, and the type of
 a parameter is skipped to its end

---
 kind_resetter_all.go         |  8 ++--
 kind_resetter_parenthesis.go | 90 ++++++++++++++++++++++++------------
 2 files changed, 66 insertions(+), 32 deletions(-)

diff --git a/kind_resetter_all.go b/kind_resetter_all.go
index 5b4f19b..b9ea85d 100755
--- a/kind_resetter_all.go
+++ b/kind_resetter_all.go
@@ -1,6 +1,8 @@
 package goast
 
 import (
+	"go/token"
+
 	"github.com/yanun0323/goast/charset"
 	"github.com/yanun0323/goast/helper"
 	"github.com/yanun0323/goast/kind"
@@ -109,10 +111,10 @@ func handleHook(n *Node, hooks ...func(*Node)) {
 // and may be blank or equal to the name of a basic type.
 func isName(n *Node) bool {
 	switch n.Kind() {
-	case kind.Raw, kind.Basic:
-		return true
+	case kind.Raw, kind.Basic, kind.Symbol, kind.ParamType, kind.ParamName:
+		return token.IsIdentifier(n.Text())
 	default:
-		return n.Text() == "_"
+		return false
 	}
 }
 
diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index 2b2ee0b..28f1044 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -27,6 +27,7 @@ func (r parenthesisResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 	var (
 		skipAll bool
 		jumpTo  *Node
+		isNamed = r.isNamedList(head)
 	)
 
 	return head.IterNext(func(n *Node) bool {
@@ -48,15 +49,58 @@ func (r parenthesisResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 		case kind.Comment, kind.Comma, kind.ParenthesisLeft, kind.Tab, kind.NewLine, kind.Space:
 			return true
 		default:
-			jumpTo = r.handleParenthesisParam(n, r.isReceiver, hooks...)
+			jumpTo = r.handleParenthesisParam(n, r.isReceiver, isNamed, hooks...)
 			skipAll = jumpTo == nil
 			return true
 		}
 	})
 }
 
+// isNamedList starts with '(', and reports whether the parameters have names.
+//
+// Either all of them have one or none, and with names at least the last one
+// is a name which is followed by a type.
+func (r parenthesisResetter) isNamedList(head *Node) bool {
+	var (
+		depth int
+		first *Node // first node of the current parameter
+		named bool
+	)
+
+	_ = head.IterNext(func(n *Node) bool {
+		switch n.Kind() {
+		case kind.Space, kind.Tab, kind.NewLine, kind.Comment:
+			return true
+		case kind.ParenthesisLeft, kind.SquareBracketLeft, kind.CurlyBracketLeft:
+			depth++
+			if depth == 1 {
+				return true
+			}
+		case kind.ParenthesisRight, kind.SquareBracketRight, kind.CurlyBracketRight:
+			depth--
+			return depth > 0
+		case kind.Comma:
+			if depth == 1 {
+				first = nil
+			}
+			return true
+		}
+
+		if first == nil {
+			first = n
+			return true
+		}
+
+		// a type is followed by its type arguments at once, a name is not
+		named = isName(first) && first.Next().Kind() != kind.SquareBracketLeft
+		return !named
+	})
+
+	return named
+}
+
 // handleParenthesisParam starts with next of '(' and ',', ends with ',' and ')'
-func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool, hooks ...func(*Node)) *Node {
+func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver, isNamed bool, hooks ...func(*Node)) *Node {
 	helper.DebugPrint("parenthesisResetter.handleParenthesisParam", "\t\t....", head.debugText(5))
 	defer helper.DebugPrint("parenthesisResetter.handleParenthesisParam.Returned")
 
@@ -64,8 +108,7 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 		skipAll bool
 		jumpTo  *Node
 
-		named bool
-		typed bool // the type has started
+		isFirstHandled bool
 	)
 
 	nameKind := kind.ParamName
@@ -75,19 +118,6 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 		typeKind = kind.MethodReceiverType
 	}
 
-	validParamCount := 0
-	head.IterNext(func(n *Node) bool {
-		switch n.Kind() {
-		case kind.Comma, kind.ParenthesisRight:
-			return false
-		case kind.Space, kind.Tab, kind.Comment, kind.NewLine:
-			return true
-		default:
-			validParamCount++
-			return true
-		}
-	})
-
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
 		if skipAll {
@@ -107,29 +137,31 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 		case kind.SquareBracketLeft: // ignore including generic
 			jumpTo = squareBracketResetter{}.Run(n, hooks...)
 			skipAll = jumpTo == nil
+			isFirstHandled = true
 			return true
 		case kind.Comment, kind.ParenthesisLeft, kind.Tab, kind.NewLine, kind.Space:
-			typed = true
+			return true
+		case kind.CurlyBracketLeft:
+			jumpTo = curlyBracketResetter{skip: true}.Run(n, hooks...)
+			skipAll = jumpTo == nil
+			isFirstHandled = true
 			return true
 		case kind.Func:
 			jumpTo = funcResetter{isParameter: true}.Run(n, hooks...)
 			skipAll = jumpTo == nil
-			typed = true
+			isFirstHandled = true
 			return true
 		}
 
-		// a name is followed by its type, and a type by its type arguments at once
-		isFirst := !named && !typed
-		isAlone := validParamCount == 1 || n.Next().Kind() == kind.SquareBracketLeft
-		switch {
-		case isFirst && !isAlone && (isName(n) || n.Kind() == kind.ParamType || n.Kind() == kind.ParamName):
-			n.SetKind(nameKind)
-			named = true
-			return true
-		case n.Kind() == kind.Raw, n.Kind() == kind.ParamType /* for struct resetter */, n.Kind() == kind.ParamName /* for struct resetter */ :
+		switch n.Kind() {
+		case kind.Raw, kind.ParamType /* for struct resetter */, kind.ParamName /* for struct resetter */ :
 			n.SetKind(typeKind)
 		}
-		typed = true
+
+		if isNamed && !isFirstHandled {
+			n.SetKind(nameKind)
+		}
+		isFirstHandled = true
 		return true
 	})
 }
-- 
2.43.0


From 3a2a60b9eb91f31e44810ca5fcf671f81e6e46a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 14/38] fix: the results of a func literal are its own, and its
 closing bracket belongs to the enclosing list

---
 kind_resetter_func.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index b8abed2..6018e35 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -176,7 +176,7 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 			return true
 		case kind.ParenthesisLeft:
 			isFuncParamHandled = true
-			jumpTo = parenthesisResetter{}.Run(n, hooks...)
+			jumpTo = parenthesisResetter{}.Run(n, hooks...).Next() // skip ')', which may be a return kind
 			skipAll = jumpTo == nil
 			return true
 		case kind.CurlyBracketLeft:
@@ -217,12 +217,7 @@ func (r funcResetter) handleParameterFunc(head *Node, hooks ...func(*Node)) *Nod
 	helper.DebugPrint("funcResetter.handleParameterFunc", "\t\t....", head.debugText(5))
 	defer helper.DebugPrint("funcResetter.handleParameterFunc.Returned")
 
-	n := r.handleGeneralFunc(head, []kind.Kind{kind.Comma, kind.ParenthesisRight, kind.NewLine}, hooks...)
-	if n.Kind() == kind.ParenthesisRight {
-		handleHook(n, hooks...)
-		return n.Next()
-	}
-	return n
+	return r.handleGeneralFunc(head, []kind.Kind{kind.Comma, kind.ParenthesisRight, kind.NewLine}, hooks...)
 }
 
 // handleSingleReturnType starts with '\s', ends with '\n' and '\s' and '{'
@@ -240,7 +235,7 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 	found := head.findNext([]kind.Kind{kind.Comment}, findNodeOption{TargetReverse: true}, hooks...)
 	switch found.Kind() {
 	case kind.ParenthesisLeft:
-		return parenthesisResetter{}.Run(head, hooks...)
+		return parenthesisResetter{}.Run(found, hooks...).Next() // skip ')'
 	case kind.Func:
 		return r.handleParameterFunc(head, hooks...)
 	}
-- 
2.43.0


From a5d89b8fd5ff710a557b0971052f5e9a83bf1a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 15/38] fix: the name of a struct field may be blank or equal
 to a basic type

---
 kind_resetter_type.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 0cf3b6f..7023c35 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -244,13 +244,17 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 			return false
 		case kind.Comment, kind.NewLine, kind.Tab, kind.Space, kind.Comma:
 			return true
-		case kind.Raw:
-			if paramNameCount != 0 {
+		case kind.Raw, kind.Basic, kind.Symbol:
+			if paramNameCount != 0 && isName(n) {
 				paramNameCount--
 				n.SetKind(kind.ParamName)
 				return true
 			}
 
+			if n.Kind() != kind.Raw {
+				return true
+			}
+
 			n.SetKind(kind.ParamType)
 			// jumpTo = paramResetter{resetKind: kind.ParamType, returnKinds: []kind.Kind{kind.NewLine}}.Run(n, hooks...)
 			// skipAll = jumpTo == nil
@@ -289,7 +293,7 @@ func (r structResetter) getRowNameCount(head *Node) int {
 			return false
 		case kind.Comment, kind.Tab:
 			return true
-		case kind.Raw:
+		case kind.Raw, kind.Basic, kind.Symbol:
 			rawCount++
 			return true
 		case kind.Space:
-- 
2.43.0


From 8813d5ddb03b1c55a3bddccd947a9343a92dad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 16/38] fix: an embedded struct field with a tag or comment has
 no name

---
 kind_resetter_type.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 7023c35..d60009a 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -286,8 +286,8 @@ func (r structResetter) getRowNameCount(head *Node) int {
 
 	_ = head.IterNext(func(n *Node) bool {
 		switch n.Kind() {
-		case kind.NewLine: // return kind
-			if hasSpaceOrAfterRaw {
+		case kind.NewLine, kind.String: // return kind
+			if hasSpaceOrAfterRaw && rawCount > 1 { // an embedded type has no name
 				nameCount = cacheNameCount
 			}
 			return false
-- 
2.43.0


From 52f0fee145b7b1a4615df8a613165c02a6dd3709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 17/38] fix: a struct tag after a func field is not part of its
 result type

---
 kind_resetter_func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 6018e35..8d8f7e9 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -258,7 +258,7 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
 		switch n.Kind() {
-		case kind.NewLine, kind.Space, kind.CurlyBracketLeft: // return kind
+		case kind.NewLine, kind.Space, kind.CurlyBracketLeft, kind.String /* struct tag */ : // return kind
 			return false
 		case kind.Comment:
 			return true
-- 
2.43.0


From 3396b8f2bd922f279430949e1d0251ad166748be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 18/38] fix: appending a scope does not overwrite the scopes of
 another ast

---
 ast.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 586f659..fa387c5 100755
--- a/ast.go
+++ b/ast.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"os"
 	"path/filepath"
+	"slices"
 	"strings"
 
 	"github.com/yanun0323/goast/helper"
@@ -205,7 +206,8 @@ func (f *ast) SetScope(scope []Scope) Ast {
 }
 
 func (f *ast) AppendScope(scs ...Scope) {
-	f.scope = append(f.scope, scs...)
+	// never write into an array which another ast or the caller may share
+	f.scope = append(slices.Clip(f.scope), scs...)
 }
 
 func (f *ast) Description() string {
-- 
2.43.0


From 1aa34795959cb93c3444fbaff476d6fd00e8f243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 19/38] fix: a package may be named like a basic type, and a
 package scope without a name has none

---
 ast.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index fa387c5..622880a 100755
--- a/ast.go
+++ b/ast.go
@@ -110,7 +110,7 @@ func findPackageName(scs []Scope) (string, error) {
 
 	packageKeywordAppeared := false
 	result := packageScope.Node().IterNext(func(n *Node) bool {
-		if packageKeywordAppeared && n.Kind() == kind.Raw {
+		if packageKeywordAppeared && isName(n) {
 			return false
 		}
 
@@ -121,6 +121,10 @@ func findPackageName(scs []Scope) (string, error) {
 		return true
 	})
 
+	if result == nil {
+		return "", ErrNoPackage
+	}
+
 	return result.Text(), nil
 }
 
-- 
2.43.0


From d5ddcddd6512410e09ccfa118ebf48cce4d06e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 20/38] fix: inserting no node does not cut the chain

---
 node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index dee965b..ae8f227 100755
--- a/node.go
+++ b/node.go
@@ -150,7 +150,7 @@ func (n *Node) Last() *Node {
 // InsertPrev inserts incoming node into current node's before,
 // then returns old previous/next node of incoming node.
 func (n *Node) InsertPrev(nn *Node) (insertedOldPrev *Node, insertedOldNext *Node) {
-	if n == nn || n.Prev() == nn {
+	if nn == nil || n == nn || n.Prev() == nn {
 		return
 	}
 
@@ -172,7 +172,7 @@ func (n *Node) InsertPrev(nn *Node) (insertedOldPrev *Node, insertedOldNext *Nod
 // InsertNext inserts incoming node into current node's after,
 // then returns old previous/next node of incoming node.
 func (n *Node) InsertNext(nn *Node) (insertedOldPrev *Node, insertedOldNext *Node) {
-	if n == nn || n.Next() == nn {
+	if nn == nil || n == nn || n.Next() == nn {
 		return
 	}
 
-- 
2.43.0


From d90f38f0522d84603577d62af4375f16620504bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 21/38] fix: combining into no node takes the first node and
 gives it the kind

---
 node.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/node.go b/node.go
index ae8f227..f16977c 100755
--- a/node.go
+++ b/node.go
@@ -280,17 +280,17 @@ func (n *Node) RemoveNext() *Node {
 //
 // e.g. (nn3 - nn2 - nn1 - n)
 func (n *Node) CombinePrev(k kind.Kind, nns ...*Node) *Node {
+	for n == nil && len(nns) != 0 {
+		n = nns[0]
+		nns = nns[1:]
+	}
+
 	n.SetKind(k)
 
 	if len(nns) == 0 {
 		return n
 	}
 
-	if n == nil {
-		n = nns[0]
-		nns = nns[1:]
-	}
-
 	buf := make([]string, 0, len(nns)+1)
 	buf = append(buf, n.Text())
 	for _, nn := range nns {
@@ -315,17 +315,17 @@ func (n *Node) CombinePrev(k kind.Kind, nns ...*Node) *Node {
 //
 // e.g. (n - nn1 - nn2 - nn3)
 func (n *Node) CombineNext(k kind.Kind, nns ...*Node) *Node {
+	for n == nil && len(nns) != 0 {
+		n = nns[0]
+		nns = nns[1:]
+	}
+
 	n.SetKind(k)
 
 	if len(nns) == 0 {
 		return n
 	}
 
-	if n == nil {
-		n = nns[0]
-		nns = nns[1:]
-	}
-
 	buf := make([]string, 0, len(nns)+1)
 	buf = append(buf, n.Text())
 	for _, nn := range nns {
-- 
2.43.0


From 4d4e9fa666a7ac8156165c8ed017209ed9125f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 22/38] fix: NewNodes counts the line breaks of the first text

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index f16977c..b26bee4 100755
--- a/node.go
+++ b/node.go
@@ -32,9 +32,9 @@ func NewNodes(startLine int, texts ...string) *Node {
 	head := NewNode(startLine, texts[0])
 	cur := head
 	for _, text := range texts[1:] {
+		startLine += strings.Count(cur.Text(), "\n")
 		cur.InsertNext(NewNode(startLine, text))
 		cur = cur.Next()
-		startLine += strings.Count(text, "\n")
 	}
 
 	return head
-- 
2.43.0


From c39b77007255c36ecaaee0591a47eb4e557ed6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 23/38] fix: HasPrefix compares every byte of a prefix with
 multi-byte characters

---
 helper/helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helper/helper.go b/helper/helper.go
index a1cda9a..e463f6c 100755
--- a/helper/helper.go
+++ b/helper/helper.go
@@ -109,7 +109,7 @@ func HasPrefix(s []byte, prefix string) bool {
 		return false
 	}
 
-	for i := range prefix {
+	for i := range len(prefix) { // every byte, and not every rune
 		if s[i] != prefix[i] {
 			return false
 		}
-- 
2.43.0


From f6ac83937fe0a0cd867ac25d9c7c88aeb82a21e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 24/38] fix: the description of a scope has its line number

---
 scope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scope.go b/scope.go
index 12bfd89..0897ac3 100755
--- a/scope.go
+++ b/scope.go
@@ -165,7 +165,7 @@ func (d *scopeStruct) Description() string {
 		return ""
 	}
 
-	return fmt.Sprintf("%d .... *Scope.%s", d.Line()+1, d.kind.String())
+	return fmt.Sprintf("%d .... *Scope.%s", d.Line(), d.kind.String())
 }
 
 func (d *scopeStruct) Print() {
-- 
2.43.0


From a64251575a5ed74242c9337ad360a31e68aad168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 25/38] fix: Nil and NotNil do not panic on an array and know a
 nil func

---
 assert/assert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assert/assert.go b/assert/assert.go
index f5edca9..abed5f8 100755
--- a/assert/assert.go
+++ b/assert/assert.go
@@ -156,7 +156,7 @@ func (Assert) isNil(i any) bool {
 		return true
 	}
 	switch reflect.TypeOf(i).Kind() {
-	case reflect.Ptr, reflect.Map, reflect.Array, reflect.Chan, reflect.Slice:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Slice, reflect.Func:
 		return reflect.ValueOf(i).IsNil()
 	}
 	return false
-- 
2.43.0


From d40acbb2ba0cdab237686a2f6563f04ca38f2675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 26/38] fix: mark a receiver type named like a symbol or a
 basic type

---
 kind_resetter_parenthesis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index 28f1044..38754f8 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -156,6 +156,10 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver, isNa
 		switch n.Kind() {
 		case kind.Raw, kind.ParamType /* for struct resetter */, kind.ParamName /* for struct resetter */ :
 			n.SetKind(typeKind)
+		case kind.Symbol, kind.Basic:
+			if isReceiver { // a type named like one
+				n.SetKind(typeKind)
+			}
 		}
 
 		if isNamed && !isFirstHandled {
-- 
2.43.0


From 296b2ba19c6c4dc55455850ca651adec98344d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 27/38] fix: an interface element with braces or parentheses is
 not the end or a method

---
 kind_resetter_type.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index d60009a..b207db8 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -139,28 +139,47 @@ func (r interfaceResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 				n.SetKind(kind.TypeName)
 			}
 
-			jumpTo = n.findNext([]kind.Kind{kind.NewLine, kind.CurlyBracketRight}, findNodeOption{
-				IsOutsideParenthesis:   true,
-				IsOutsideCurlyBracket:  true,
-				IsOutsideSquareBracket: true,
-			}, hooks...)
+			jumpTo = r.findElementEnd(n, hooks...)
 			skipAll = jumpTo == nil
 			return true
 		}
 	})
 }
 
+// findElementEnd starts with an embedded element, ends with the '\n' or the '}' after it
+func (interfaceResetter) findElementEnd(head *Node, hooks ...func(*Node)) *Node {
+	depth := 0
+	return head.IterNext(func(n *Node) bool {
+		handleHook(n, hooks...)
+		switch n.Kind() {
+		case kind.ParenthesisLeft, kind.CurlyBracketLeft, kind.SquareBracketLeft:
+			depth++
+		case kind.ParenthesisRight, kind.CurlyBracketRight, kind.SquareBracketRight:
+			depth--
+			return depth >= 0
+		case kind.NewLine:
+			return depth != 0
+		}
+		return true
+	})
+}
+
+// isThisLineFunction reports whether head is a name which is followed by '('
 func (interfaceResetter) isThisLineFunction(head *Node) bool {
+	if !isName(head) {
+		return false
+	}
+
 	result := false
-	_ = head.IterNext(func(n *Node) bool {
+	_ = head.Next().IterNext(func(n *Node) bool {
 		switch n.Kind() {
 		case kind.ParenthesisLeft:
 			result = true
 			return false
-		case kind.NewLine:
-			return false
-		default:
+		case kind.Comment, kind.Space, kind.Tab:
 			return true
+		default:
+			return false
 		}
 	})
 	return result
-- 
2.43.0


From 50fc8a0d908079029e85501e81e42d7f35a898cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 28/38] fix: parentheses within the type of a parameter or a
 receiver do not end the list

---
 kind_resetter_parenthesis.go | 46 ++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index 38754f8..9a5a604 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -46,9 +46,13 @@ func (r parenthesisResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 		switch n.Kind() {
 		case kind.ParenthesisRight: // return kind
 			return false
-		case kind.Comment, kind.Comma, kind.ParenthesisLeft, kind.Tab, kind.NewLine, kind.Space:
+		case kind.Comment, kind.Comma, kind.Tab, kind.NewLine, kind.Space:
 			return true
 		default:
+			if n == head { // '('
+				return true
+			}
+
 			jumpTo = r.handleParenthesisParam(n, r.isReceiver, isNamed, hooks...)
 			skipAll = jumpTo == nil
 			return true
@@ -109,6 +113,7 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver, isNa
 		jumpTo  *Node
 
 		isFirstHandled bool
+		depth          int // of the parentheses within the type
 	)
 
 	nameKind := kind.ParamName
@@ -132,14 +137,21 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver, isNa
 		}
 
 		switch n.Kind() {
-		case kind.Comma, kind.ParenthesisRight: // return kind
-			return false
+		case kind.Comma: // return kind
+			return depth != 0
+		case kind.ParenthesisRight: // return kind
+			depth--
+			return depth >= 0
+		case kind.ParenthesisLeft:
+			depth++
+			isFirstHandled = true
+			return true
 		case kind.SquareBracketLeft: // ignore including generic
 			jumpTo = squareBracketResetter{}.Run(n, hooks...)
 			skipAll = jumpTo == nil
 			isFirstHandled = true
 			return true
-		case kind.Comment, kind.ParenthesisLeft, kind.Tab, kind.NewLine, kind.Space:
+		case kind.Comment, kind.Tab, kind.NewLine, kind.Space:
 			return true
 		case kind.CurlyBracketLeft:
 			jumpTo = curlyBracketResetter{skip: true}.Run(n, hooks...)
@@ -166,10 +178,36 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver, isNa
 			n.SetKind(nameKind)
 		}
 		isFirstHandled = true
+
+		if isReceiver {
+			r.combineReceiver(n)
+		}
 		return true
 	})
 }
 
+// combineReceiver starts with '*', and takes a following type in parentheses into it
+func (r parenthesisResetter) combineReceiver(star *Node) {
+	if star.Text() != "*" || star.Next().Kind() != kind.ParenthesisLeft {
+		return
+	}
+
+	end := star.Next().skipNestNext(kind.ParenthesisLeft, kind.ParenthesisRight)
+	if end == nil {
+		return
+	}
+
+	var buf []*Node
+	next := end.Next()
+	_ = star.Next().IterNext(func(n *Node) bool {
+		buf = append(buf, n)
+		return n != end
+	})
+
+	star.CombineNext(star.Kind(), buf...)
+	star.ReplaceNext(next)
+}
+
 // curlyBracketResetter starts with '{', ends with '}'
 type curlyBracketResetter struct {
 	skip bool
-- 
2.43.0


From 8bd493fe57178d8b59bf0ba78308a83e1f6bbaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:24 +0000
Subject: [PATCH 29/38] fix: brackets nested millions deep do not overflow the
 stack of the extractor

---
 extractor.go | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/extractor.go b/extractor.go
index c65c2df..51355d8 100755
--- a/extractor.go
+++ b/extractor.go
@@ -29,20 +29,6 @@ var (
 		SkipReturnKeyword: "",
 	}
 
-	_parenthesisExtractor = &extractor{
-		kind:              kind.Raw,
-		SeparatorCharset:  charset.SeparatorCharset,
-		ReturnKeyword:     ")",
-		SkipReturnKeyword: "",
-	}
-
-	_curlyBracketExtractor = &extractor{
-		kind:              kind.Raw,
-		SeparatorCharset:  charset.SeparatorCharset,
-		ReturnKeyword:     "}",
-		SkipReturnKeyword: "",
-	}
-
 	_commentExtractor = &extractor{
 		kind:              kind.Comment,
 		IncludeOpen:       true,
@@ -88,13 +74,11 @@ var (
 	}
 
 	_deeperExtractTable = map[*extractor]deeperExtract{
-		_commonExtractor:       _commonDeeperExtract,
-		_parenthesisExtractor:  _commonDeeperExtract,
-		_curlyBracketExtractor: _commonDeeperExtract,
+		_commonExtractor: _commonDeeperExtract,
 	}
+
+	// brackets are separators, and no matter how deep they are nested
 	_commonDeeperExtract = deeperExtract{
-		"(":  _parenthesisExtractor,
-		"{":  _curlyBracketExtractor,
 		"//": _commentExtractor,
 		"/*": _innerCommentExtractor,
 		"\"": _stringExtractor,
-- 
2.43.0


From 93425d928930d0c0d5db28257606b698485f96af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 30/38] fix: copying a chain of nodes does not recurse over its
 length

---
 node.go | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/node.go b/node.go
index b26bee4..677b19c 100755
--- a/node.go
+++ b/node.go
@@ -60,7 +60,7 @@ func (n *Node) Copy(copyRelativeNode ...bool) *Node {
 	}
 
 	if len(copyRelativeNode) != 0 && copyRelativeNode[0] {
-		return n.deepCopy(nil, nil)
+		return n.deepCopy()
 	}
 
 	return &Node{
@@ -70,27 +70,25 @@ func (n *Node) Copy(copyRelativeNode ...bool) *Node {
 	}
 }
 
-func (n *Node) deepCopy(prev, next *Node) *Node {
-	if n == nil {
-		return nil
-	}
+// deepCopy copies node by node in both directions, as a chain may be too long to recurse.
+func (n *Node) deepCopy() *Node {
+	nn := n.Copy()
 
-	nn := &Node{
-		line: n.line,
-		kind: n.kind,
-		text: n.text,
-	}
-
-	if prev == nil {
-		prev = n.Prev().deepCopy(nil, nn)
-	}
-
-	if next == nil {
-		next = n.Next().deepCopy(nn, nil)
-	}
+	cur := nn
+	n.Prev().IterPrev(func(prev *Node) bool {
+		cur.prev = prev.Copy()
+		cur.prev.next = cur
+		cur = cur.prev
+		return true
+	})
 
-	nn.prev = prev
-	nn.next = next
+	cur = nn
+	n.Next().IterNext(func(next *Node) bool {
+		cur.next = next.Copy()
+		cur.next.prev = cur
+		cur = cur.next
+		return true
+	})
 
 	return nn
 }
-- 
2.43.0


From 6803615bd323ea96b82f2c740764aeb25d6adedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:52 +0000
Subject: [PATCH 31/38] fix: a comment between type and the name of the type
 does not hide the name

---
 kind_resetter_type.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index b207db8..b9f5ea9 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -21,6 +21,7 @@ func (r typeResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 
 	var (
 		isTypeNameAssigned   bool
+		isGroup              bool
 		isSpaceAfterTypeName bool
 		skipAll              bool
 		jumpTo               *Node
@@ -41,8 +42,11 @@ func (r typeResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 
 		if !isTypeNameAssigned {
 			switch {
-			case n.Kind() == kind.CurlyBracketRight, n.Kind() == kind.NewLine: // return kind
+			case n.Kind() == kind.CurlyBracketRight, isGroup && n.Kind() == kind.NewLine: // return kind
 				return false
+			case n.Kind() == kind.ParenthesisLeft:
+				isGroup = true
+				return true
 			case isName(n):
 				n.SetKind(kind.TypeName)
 				isTypeNameAssigned = true
-- 
2.43.0


From 107b21240d1e9c66be35a6969cd6d910f037836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 32/38] fix: comments within a receiver's type, or before type
 parameters, do not hide them

---
 kind_resetter_parenthesis.go | 13 ++++++++++---
 node.go                      | 12 ++++++++++++
 scope.go                     | 36 +++++++++++++++++++++++++-----------
 3 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index 9a5a604..0d20418 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -186,13 +186,20 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver, isNa
 	})
 }
 
-// combineReceiver starts with '*', and takes a following type in parentheses into it
+// combineReceiver starts with '*', and takes a following type which is in parentheses
+// or behind a comment into it
 func (r parenthesisResetter) combineReceiver(star *Node) {
-	if star.Text() != "*" || star.Next().Kind() != kind.ParenthesisLeft {
+	if star.Text() != "*" {
 		return
 	}
 
-	end := star.Next().skipNestNext(kind.ParenthesisLeft, kind.ParenthesisRight)
+	end := star.Next().skipBlanks()
+	if end.Kind() == kind.ParenthesisLeft {
+		end = end.skipNestNext(kind.ParenthesisLeft, kind.ParenthesisRight)
+	} else if !isName(end) {
+		end = nil
+	}
+
 	if end == nil {
 		return
 	}
diff --git a/node.go b/node.go
index 677b19c..eee10a0 100755
--- a/node.go
+++ b/node.go
@@ -341,6 +341,18 @@ func (n *Node) CombineNext(k kind.Kind, nns ...*Node) *Node {
 	return n
 }
 
+// skipBlanks returns the first node from n on which is neither blank nor a comment.
+func (n *Node) skipBlanks() *Node {
+	return n.IterNext(func(n *Node) bool {
+		switch n.Kind() {
+		case kind.Space, kind.Tab, kind.NewLine, kind.Comment:
+			return true
+		default:
+			return false
+		}
+	})
+}
+
 // Isolated disconnects current node from others.
 func (n *Node) Isolate() {
 	n.Prev().setNext(nil)
diff --git a/scope.go b/scope.go
index 0897ac3..786ede9 100755
--- a/scope.go
+++ b/scope.go
@@ -2,6 +2,7 @@ package goast
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/yanun0323/goast/kind"
 	"github.com/yanun0323/goast/scope"
@@ -275,19 +276,32 @@ func (d *scopeStruct) typeNode() *Node {
 		return n.Kind() != kind.TypeName
 	})
 
-	n := name.Next()
-	if n.Kind() == kind.SquareBracketLeft { // type parameters, as an array type does not follow at once
-		n = n.skipNestNext(kind.SquareBracketLeft, kind.SquareBracketRight).Next()
+	n := name.Next().skipBlanks()
+	if n.Kind() == kind.SquareBracketLeft && (n == name.Next() || isTypeParams(n)) { // an array type does not follow at once
+		n = n.skipNestNext(kind.SquareBracketLeft, kind.SquareBracketRight).Next().skipBlanks()
 	}
 
-	return n.IterNext(func(n *Node) bool {
-		switch n.Kind() {
-		case kind.Space, kind.Tab, kind.NewLine, kind.Comment:
-			return true
-		default:
-			return n.Text() == "=" // alias
-		}
-	})
+	if n.Text() == "=" { // alias
+		n = n.Next().skipBlanks()
+	}
+
+	return n
+}
+
+// isTypeParams starts with '[', and reports whether it begins type parameters, which
+// unlike an array length hold a name and a constraint or another name.
+func isTypeParams(n *Node) bool {
+	first := n.Next().skipBlanks()
+	second := first.Next().skipBlanks()
+
+	switch {
+	case second.Kind() == kind.Comma:
+		return true
+	case !isName(first), second == first.Next(), second.Kind() == kind.SquareBracketRight:
+		return false
+	default:
+		return strings.Trim(second.Text(), "+-*/%&|^<>=!") != "" // operator
+	}
 }
 
 func (d *scopeStruct) GetMethodName() (string, bool) {
-- 
2.43.0


From e08c0770553abfbaae21b899afe43b05edaefa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:35 +0000
Subject: [PATCH 33/38] fix: type arguments and comments within the rows of a
 struct do not change which names are fields

---
 kind_resetter_type.go | 49 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index b9f5ea9..fe25249 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -1,6 +1,8 @@
 package goast
 
 import (
+	"strings"
+
 	"github.com/yanun0323/goast/helper"
 	"github.com/yanun0323/goast/kind"
 )
@@ -243,8 +245,9 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 	defer helper.DebugPrint("funcResetter.handleStructRow.Returned")
 
 	var (
-		skipAll bool
-		jumpTo  *Node
+		skipAll    bool
+		jumpTo     *Node
+		bracketEnd *Node
 
 		paramNameCount = r.getRowNameCount(head)
 	)
@@ -262,9 +265,24 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 			jumpTo = nil
 		}
 
+		if n == bracketEnd {
+			bracketEnd = nil
+		}
+
 		switch n.Kind() {
 		case kind.NewLine: // return kind
 			return false
+		case kind.SquareBracketLeft:
+			if bracketEnd != nil { // nested
+				return true
+			}
+
+			bracketEnd = n.skipNestNext(kind.SquareBracketLeft, kind.SquareBracketRight)
+			if bracketEnd.Line() != n.Line() { // the line breaks between do not end the row
+				jumpTo = bracketEnd
+				skipAll = jumpTo == nil
+			}
+			return true
 		case kind.Comment, kind.NewLine, kind.Tab, kind.Space, kind.Comma:
 			return true
 		case kind.Raw, kind.Basic, kind.Symbol:
@@ -298,7 +316,22 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 	})
 }
 
+// isTypeArgs starts with '[', and reports whether it ends the type of its row, which an
+// array length does not.
+func (r structResetter) isTypeArgs(n *Node) bool {
+	next := n.skipNestNext(kind.SquareBracketLeft, kind.SquareBracketRight).Next().IterNext(func(n *Node) bool {
+		return n.Kind() == kind.Space || n.Kind() == kind.Tab || n.Kind() == kind.Comment
+	})
+
+	return next == nil || next.Kind() == kind.NewLine || next.Kind() == kind.String || next.Kind() == kind.CurlyBracketRight
+}
+
 func (r structResetter) getRowNameCount(head *Node) int {
+	first := head.skipBlanks()
+	if !isName(first) || strings.HasPrefix(first.Next().skipBlanks().Text(), ".") { // an embedded type
+		return 0
+	}
+
 	var (
 		rawCount           int
 		hasComma           bool
@@ -335,12 +368,16 @@ func (r structResetter) getRowNameCount(head *Node) int {
 			cacheNameCount++
 			nameCount = cacheNameCount
 			return true
-		default:
-			if hasSpaceOrAfterRaw {
-				nameCount = cacheNameCount
+		case kind.SquareBracketLeft:
+			if rawCount == 1 && !hasComma && r.isTypeArgs(n) { // an embedded type
+				return false
 			}
-			return false
 		}
+
+		if hasSpaceOrAfterRaw {
+			nameCount = cacheNameCount
+		}
+		return false
 	})
 
 	return nameCount
-- 
2.43.0


From 6236a29d828c5b00ad0b3253f02266e4d1d20eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:05 +0000
Subject: [PATCH 34/38] fix: the line a text starts on does not change what an
 unclosed bracket in a struct's row hides

---
 kind_resetter_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index fe25249..2dcd8c1 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -278,7 +278,7 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 			}
 
 			bracketEnd = n.skipNestNext(kind.SquareBracketLeft, kind.SquareBracketRight)
-			if bracketEnd.Line() != n.Line() { // the line breaks between do not end the row
+			if bracketEnd == nil || bracketEnd.Line() != n.Line() { // the line breaks between do not end the row
 				jumpTo = bracketEnd
 				skipAll = jumpTo == nil
 			}
-- 
2.43.0


From 65aa516cc0e102964ba3f7a750189f220d40f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:56 +0000
Subject: [PATCH 35/38] fix: reports of NoPanic and Panic show any panic value,
 and no formatting error

---
 assert/assert.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/assert/assert.go b/assert/assert.go
index abed5f8..b57f539 100755
--- a/assert/assert.go
+++ b/assert/assert.go
@@ -124,14 +124,14 @@ func (a Assert) Require(ok bool, msg ...string) {
 func (a Assert) NoPanic(fn func()) {
 	a.t.Helper()
 	if ok, msg, _ := a.Call(fn); ok {
-		a.t.Fatalf("%s: should be no panic, err: %s", a.t.Name(), msg)
+		a.t.Fatalf("%s: should be no panic, err: %v", a.t.Name(), msg)
 	}
 }
 
 func (a Assert) Panic(fn func()) {
 	a.t.Helper()
 	if ok, msg, _ := a.Call(fn); !ok {
-		a.t.Fatalf("%s: should be panic, err: %s", a.t.Name(), msg)
+		a.t.Fatalf("%s: should be panic, err: %v", a.t.Name(), msg)
 	}
 }
 
-- 
2.43.0


From fbf6540a85c51114c0eda8a76c8fa5aaa0146c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:52 +0000
Subject: [PATCH 36/38] fix: a prefix tree keeps the values of a text's
 prefixes and takes every byte of a text

---
 trie.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trie.go b/trie.go
index 50be38f..06b49fb 100755
--- a/trie.go
+++ b/trie.go
@@ -23,8 +23,12 @@ func (t *trie_[T]) AddText(s string, value T) *trie_[T] {
 
 	var zero T
 	n := t
-	for i := range s {
-		n = n.Insert(s[i], zero)
+	for i := range len(s) { // every byte, and not every rune
+		next, ok := n.Next(s[i])
+		if !ok {
+			next = n.Insert(s[i], zero)
+		}
+		n = next // a prefix keeps its value
 	}
 	n.value = value
 	return n
@@ -55,7 +59,7 @@ func (t *trie_[T]) FindText(s string) (T, bool) {
 
 	n := t
 	ok := false
-	for i := range s {
+	for i := range len(s) { // every byte, and not every rune
 		n, ok = n.Next(s[i])
 		if !ok {
 			return n.Value(), false
-- 
2.43.0


From 7926d760cf33eaba7621cbccd742f99763fec42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:40 +0000
Subject: [PATCH 37/38] fix: the embedded type of a struct on one line has no
 name

---
 kind_resetter_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 2dcd8c1..1586dfb 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -342,7 +342,7 @@ func (r structResetter) getRowNameCount(head *Node) int {
 
 	_ = head.IterNext(func(n *Node) bool {
 		switch n.Kind() {
-		case kind.NewLine, kind.String: // return kind
+		case kind.NewLine, kind.String, kind.CurlyBracketRight: // return kind
 			if hasSpaceOrAfterRaw && rawCount > 1 { // an embedded type has no name
 				nameCount = cacheNameCount
 			}
-- 
2.43.0


From 931c00b747a29ea08d4d92c0367d47a21b578a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:40 +0000
Subject: [PATCH 38/38] fix: a comment between an unnamed parameter or receiver
 and its type arguments does not make it a name

---
 kind_resetter_parenthesis.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index 0d20418..5bb1aa0 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -66,9 +66,10 @@ func (r parenthesisResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 // is a name which is followed by a type.
 func (r parenthesisResetter) isNamedList(head *Node) bool {
 	var (
-		depth int
-		first *Node // first node of the current parameter
-		named bool
+		depth  int
+		first  *Node // first node of the current parameter
+		isType bool  // and whether it belongs to a type
+		named  bool
 	)
 
 	_ = head.IterNext(func(n *Node) bool {
@@ -92,17 +93,28 @@ func (r parenthesisResetter) isNamedList(head *Node) bool {
 
 		if first == nil {
 			first = n
+			isType = !isName(n) || r.isTypeArgs(n.Next().skipBlanks())
 			return true
 		}
 
-		// a type is followed by its type arguments at once, a name is not
-		named = isName(first) && first.Next().Kind() != kind.SquareBracketLeft
+		named = !isType
 		return !named
 	})
 
 	return named
 }
 
+// isTypeArgs starts with the node behind the first name of a parameter, and reports whether
+// it opens the type arguments of it, behind which nothing follows.
+func (r parenthesisResetter) isTypeArgs(n *Node) bool {
+	if n.Kind() != kind.SquareBracketLeft {
+		return false
+	}
+
+	next := n.skipNestNext(kind.SquareBracketLeft, kind.SquareBracketRight).Next().skipBlanks()
+	return next.Kind() == kind.Comma || next.Kind() == kind.ParenthesisRight
+}
+
 // handleParenthesisParam starts with next of '(' and ',', ends with ',' and ')'
 func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver, isNamed bool, hooks ...func(*Node)) *Node {
 	helper.DebugPrint("parenthesisResetter.handleParenthesisParam", "\t\t....", head.debugText(5))
-- 
2.43.0

