package checks

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/scanner"
	"go/token"
	"strings"
	"time"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"
)

// program is a gofmt-formatted source text with the standard library's view of it.
type program struct {
	src  []byte
	fset *token.FileSet
	file *ast.File
	toks []ref.Tok
	offs map[int]int // byte offset -> token index
}

func (p *program) off(pos token.Pos) int  { return p.fset.Position(pos).Offset }
func (p *program) line(pos token.Pos) int { return p.fset.PositionFor(pos, false).Line }
func (p *program) text(n ast.Node) string { return string(p.src[p.off(n.Pos()):p.off(n.End())]) }

// load formats and parses a generated text. Texts that are not Go programs are
// outside the quantifier.
func load(c []byte) (*program, error) {
	src, err := format.Source(c)
	if err != nil {
		return nil, core.Skip
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, core.Skip
	}
	p := &program{src: src, fset: fset, file: f, toks: ref.Lex(string(src)), offs: map[int]int{}}
	for i, t := range p.toks {
		p.offs[t.Off] = i
	}
	if err := lexerAgrees(p); err != nil {
		return nil, core.Internal{Err: err}
	}
	return p, nil
}

// lexerAgrees validates the reference lexer against go/scanner: every comment,
// string and rune literal that the standard scanner sees is exactly one token of
// the reference lexer, and the reference lexer has no others.
func lexerAgrees(p *program) error {
	var s scanner.Scanner
	fset := token.NewFileSet()
	s.Init(fset.AddFile("x.go", -1, len(p.src)), p.src, nil, scanner.ScanComments)
	n := 0
	for {
		pos, tok, lit := s.Scan()
		if tok == token.EOF {
			break
		}
		if tok != token.COMMENT && tok != token.STRING && tok != token.CHAR {
			continue
		}
		n++
		i, ok := p.offs[fset.PositionFor(pos, false).Offset]
		if !ok || p.toks[i].Text != lit {
			return fmt.Errorf("reference lexer and go/scanner disagree on %q in %q", lit, p.src)
		}
	}
	m := 0
	for _, t := range p.toks {
		if t.Kind == kind.Comment || t.Kind == kind.String || t.Text[0] == '\'' {
			m++
		}
	}
	if n != m {
		return fmt.Errorf("reference lexer sees %d literals and comments, go/scanner %d, in %q", m, n, p.src)
	}
	return nil
}

// located is a node of the real code with its byte offset.
type located struct {
	ref.NodeView
	off   int
	scope int
}

// locate maps the real nodes to byte offsets; it requires that no text was lost.
func locate(p *program, vs []ref.ScopeView) ([]located, error) {
	if got := ref.Join(vs); got != string(p.src) {
		return nil, fmt.Errorf("the nodes' text is not the source text:\n got %q\nwant %q", got, p.src)
	}
	var ls []located
	off := 0
	for i, v := range vs {
		for _, n := range v.Nodes {
			ls = append(ls, located{NodeView: n, off: off, scope: i})
			off += len(n.Text)
		}
	}
	return ls, nil
}

func withProgram(fn func(p *program, vs []ref.ScopeView, o *core.Obs) error) func([]byte, *core.Obs) error {
	return func(c []byte, o *core.Obs) error {
		p, err := load(c)
		if err != nil {
			return err
		}
		vs, err := parse(p.src)
		if err != nil {
			return err
		}
		o.Outcome(ref.Dump(vs))
		o.Logf("source:\n%s\nparsed:\n%s", p.src, ref.Dump(vs))
		return fn(p, vs, o)
	}
}

func genFile(comments bool) func(*core.G) []byte {
	return func(g *core.G) []byte {
		p := &gen.P{G: g, Comments: comments}
		return []byte(p.File())
	}
}

// ---- oracles ----------------------------------------------------------------

func losslessProgram(p *program, vs []ref.ScopeView, o *core.Obs) error {
	_, err := locate(p, vs)
	return err
}

func tokensProgram(p *program, vs []ref.ScopeView, o *core.Obs) error {
	ls, err := locate(p, vs)
	if err != nil {
		return err
	}
	for _, l := range ls {
		i, ok := p.offs[l.off]
		if !ok {
			return fmt.Errorf("node %q (line %d) starts inside of a token", l.Text, l.Line)
		}
		t := p.toks[i]
		if len(l.Text) < len(t.Text) {
			return fmt.Errorf("node %q (line %d) ends inside of the token %q", l.Text, l.Line, t.Text)
		}
		sk := vs[l.scope].Kind
		exact := sk != scope.Func && sk != scope.Type
		if !exact && len(l.Text) > len(t.Text) {
			if !isTypeNode(l.NodeView) {
				return fmt.Errorf("node %q (line %d, kind %s) spans several tokens and is not a type", l.Text, l.Line, l.Kind)
			}
			continue
		}
		if l.Text != t.Text {
			return fmt.Errorf("node %q (line %d): the token there is %q", l.Text, l.Line, t.Text)
		}
		if exact || sep(t.Kind) || t.Kind == kind.Comment || t.Kind == kind.String {
			// a bracket or space within a type may be part of it
			if l.Kind != t.Kind && (exact || !sep(t.Kind) || !isTypeNode(l.NodeView)) {
				return fmt.Errorf("node %q (line %d) has kind %s, its token is a %s", l.Text, l.Line, l.Kind, t.Kind)
			}
		}
	}
	return nil
}

func sep(k kind.Kind) bool {
	switch k {
	case kind.Tab, kind.Space, kind.Comma, kind.Colon, kind.NewLine, kind.Semicolon, kind.ParenthesisLeft, kind.ParenthesisRight,
		kind.CurlyBracketLeft, kind.CurlyBracketRight, kind.SquareBracketLeft, kind.SquareBracketRight, kind.Separator:
		return true
	}
	return false
}

func linesProgram(p *program, vs []ref.ScopeView, o *core.Obs) error {
	ls, err := locate(p, vs)
	if err != nil {
		return err
	}
	want := 0
	for _, l := range ls {
		if l.Line != want {
			return fmt.Errorf("node %q has line %d, it starts on line %d", l.Text, l.Line, want)
		}
		want += strings.Count(l.Text, "\n")
	}
	for _, v := range vs {
		if v.Line != v.Nodes[0].Line+1 {
			return fmt.Errorf("scope %s has line %d, its first node starts on line %d", v.Kind, v.Line, v.Nodes[0].Line+1)
		}
	}
	return nil
}

func scopesProgram(p *program, vs []ref.ScopeView, o *core.Obs) error {
	want := ref.Starts(p.toks)
	if err := startsAgree(p, want); err != nil {
		return core.Internal{Err: err}
	}
	if len(want) != len(vs) {
		return fmt.Errorf("%d scopes, want %d:\n%s", len(vs), len(want), ref.Dump(vs))
	}
	off := 0
	for i, v := range vs {
		w := want[i]
		if v.Kind != w.Kind || off != w.Off || v.Line != w.Line+1 {
			return fmt.Errorf("scope %d: %s at offset %d line %d, want %s at offset %d line %d", i, v.Kind, off, v.Line, w.Kind, w.Off, w.Line+1)
		}
		off += len(v.Text())
	}
	return nil
}

// startsAgree validates the reference scoping against go/parser: the declaration
// scopes that start a line are exactly the package clause and the declarations.
func startsAgree(p *program, ss []ref.ScopeStart) error {
	want := map[int]scope.Kind{p.off(p.file.Package): scope.Package}
	for _, d := range p.file.Decls {
		o := p.off(d.Pos())
		if o > 0 && p.src[o-1] != '\n' {
			continue // does not start its line
		}
		switch d := d.(type) {
		case *ast.FuncDecl:
			want[o] = scope.Func
		case *ast.GenDecl:
			want[o] = map[token.Token]scope.Kind{token.IMPORT: scope.Import, token.VAR: scope.Variable, token.CONST: scope.Const, token.TYPE: scope.Type}[d.Tok]
		}
	}
	if o := p.off(p.file.Package); o > 0 && p.src[o-1] != '\n' {
		delete(want, o)
	}
	n := 0
	for _, s := range ss {
		if s.Kind == scope.Comment || s.Kind == scope.InnerComment || inDecl(p, s.Off) {
			continue // by lines, a declaration may hold the start of another scope
		}
		n++
		if want[s.Off] != s.Kind {
			return fmt.Errorf("reference scoping puts %s at offset %d, go/parser %q, in %q", s.Kind, s.Off, want[s.Off], p.src)
		}
	}
	if n != len(want) {
		return fmt.Errorf("reference scoping has %d declarations, go/parser %d, in %q", n, len(want), p.src)
	}
	return nil
}

// inDecl tells whether the offset is behind the start of a declaration or of the
// package clause, within it.
func inDecl(p *program, off int) bool {
	if off > p.off(p.file.Package) && off < p.off(p.file.Name.End()) {
		return true
	}
	for _, d := range p.file.Decls {
		if off > p.off(d.Pos()) && off < p.off(d.End()) {
			return true
		}
	}
	return false
}

// wholeDecls tells whether every declaration is one scope: a line of it that starts
// outside of brackets with a comment or a keyword starts a scope of its own.
func wholeDecls(p *program) bool {
	for _, s := range ref.Starts(p.toks) {
		if inDecl(p, s.Off) {
			return false
		}
	}
	return true
}

// commentEndsLine tells whether a comment stands for a semicolon by its line breaks,
// which is outside of the properties about the parts of declarations.
func commentEndsLine(p *program) bool {
	var s scanner.Scanner
	fset := token.NewFileSet()
	f := fset.AddFile("x.go", -1, len(p.src))
	s.Init(f, p.src, nil, 0)
	for {
		pos, tok, lit := s.Scan()
		if tok == token.EOF {
			return false
		}
		if tok != token.SEMICOLON || lit != "\n" || f.Offset(pos) == len(p.src) {
			continue
		}
		if _, ok := p.offs[f.Offset(pos)]; !ok { // the line break is not a token of its own
			return true
		}
	}
}

// declAt finds the declaration that a scope starts with.
func declsByLine(p *program) map[int]ast.Decl {
	m := map[int]ast.Decl{}
	for _, d := range p.file.Decls {
		o := p.off(d.Pos())
		if o == 0 || p.src[o-1] == '\n' {
			m[p.line(d.Pos())] = d
		}
	}
	return m
}

type getter struct {
	name string
	fn   func(goast.Scope) (string, bool)
}

var getters = []getter{
	{"GetFuncName", func(s goast.Scope) (string, bool) { return s.GetFuncName() }},
	{"GetMethodName", func(s goast.Scope) (string, bool) { return s.GetMethodName() }},
	{"GetMethodReceiver", func(s goast.Scope) (string, bool) { return s.GetMethodReceiver() }},
	{"GetTypeName", func(s goast.Scope) (string, bool) { return s.GetTypeName() }},
	{"GetStructName", func(s goast.Scope) (string, bool) { return s.GetStructName() }},
	{"GetInterfaceName", func(s goast.Scope) (string, bool) { return s.GetInterfaceName() }},
}

func expectNames(v ref.ScopeView, want map[string]string) error {
	for _, g := range getters {
		got, ok := g.fn(v.S)
		w, wok := want[g.name]
		if ok != wok || (ok && got != w) {
			return fmt.Errorf("scope %s on line %d: %s is (%q, %v), want (%q, %v)\n%s", v.Kind, v.Line, g.name, got, ok, w, wok, v.Text())
		}
	}
	return nil
}

// receiverType is the receiver's type as written, up to its type arguments.
func receiverType(p *program, fd *ast.FuncDecl) string {
	t := fd.Recv.List[0].Type
	e := t
	if star, ok := e.(*ast.StarExpr); ok {
		e = star.X
	}
	end := t.End()
	switch x := e.(type) {
	case *ast.IndexExpr:
		end = x.X.End()
	case *ast.IndexListExpr:
		end = x.X.End()
	}
	return string(p.src[p.off(t.Pos()):p.off(end)])
}

// receiverBase tells whether an expression can be a method's receiver type: a name,
// perhaps starred, parenthesised and with type arguments. The parser accepts more
// (func (a [1]T) m()), which no compiler does: those are outside of
// the quantifier.
func receiverBase(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.StarExpr:
		for x := e.X; ; {
			switch p := x.(type) {
			case *ast.ParenExpr:
				x = p.X
				continue
			case *ast.StarExpr:
				return false
			}
			return receiverBase(x)
		}
	case *ast.ParenExpr:
		return receiverBase(e.X)
	case *ast.IndexExpr:
		_, ok := e.Index.(*ast.Ident)
		return ok && receiverBase(e.X)
	case *ast.IndexListExpr:
		for _, i := range e.Indices {
			if _, ok := i.(*ast.Ident); !ok {
				return false
			}
		}
		return receiverBase(e.X)
	}
	return false
}

func legalReceivers(p *program) bool {
	for _, d := range p.file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok && fd.Recv != nil && (len(fd.Recv.List) != 1 || len(fd.Recv.List[0].Names) > 1 || !receiverBase(fd.Recv.List[0].Type)) {
			return false
		}
	}
	return true
}

func funcNames(p *program, vs []ref.ScopeView, o *core.Obs) error {
	if !legalReceivers(p) || !wholeDecls(p) {
		return core.Skip
	}
	ds := declsByLine(p)
	n := 0
	for _, v := range vs {
		if v.Kind == scope.Type {
			continue
		}
		want := map[string]string{}
		if fd, ok := ds[v.Line].(*ast.FuncDecl); ok && v.Kind == scope.Func {
			n++
			want["GetFuncName"] = fd.Name.Name
			if fd.Recv != nil {
				want["GetMethodName"] = fd.Name.Name
				want["GetMethodReceiver"] = receiverType(p, fd)
			}
		}
		if err := expectNames(v, want); err != nil {
			return err
		}
	}
	if n == 0 {
		o.Trivial()
	}
	return nil
}

func typeNames(p *program, vs []ref.ScopeView, o *core.Obs) error {
	if !wholeDecls(p) {
		return core.Skip
	}
	ds := declsByLine(p)
	n := 0
	for _, v := range vs {
		if v.Kind == scope.Func {
			continue
		}
		want := map[string]string{}
		if gd, ok := ds[v.Line].(*ast.GenDecl); ok && v.Kind == scope.Type {
			if gd.Lparen.IsValid() {
				continue
			}
			n++
			ts := gd.Specs[0].(*ast.TypeSpec)
			want["GetTypeName"] = ts.Name.Name
			switch ts.Type.(type) {
			case *ast.StructType:
				want["GetStructName"] = ts.Name.Name
			case *ast.InterfaceType:
				want["GetInterfaceName"] = ts.Name.Name
			}
		}
		if err := expectNames(v, want); err != nil {
			return err
		}
	}
	if n == 0 {
		o.Trivial()
	}
	return nil
}

func genRows(few bool) func(*core.G) []byte {
	return func(g *core.G) []byte { return []byte((&gen.P{G: g}).Rows(few)) }
}

func programSpaces(fn func(p *program, vs []ref.ScopeView, o *core.Obs) error) []*core.Space {
	return []*core.Space{
		{Name: "program-families", About: "families of programs that repeat or nest one unit, at every size up to 24 (thorough: 80) and at 31-33, 64, 65, 127-129, 255-257 (thorough: 1000 too) where they are valid",
			Explore: exploreFamilies(24, 80, []int{31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257}, []int{1000}), Run: onFamily(withProgram(fn)), HangAfter: 100 * time.Second},
		corpus(20000, 300000, withProgram(fn)),
		{Name: "rows", About: "every declaration with two members from all rows of the grammar (struct fields, interface elements, statements, parameters and results of every type; quick: one of two fields or elements out of 37), and every type of nesting 2 in 12 positions",
			GenTier: byTier(genRows(true), genRows(false)), Run: withProgram(fn)},
		{Name: "words", About: "every keyword, basic type and 50 other words (also with 14 affixes) in each of the name, type, literal and body positions of 40 programs", Gen: genWords, Run: withProgram(fn)},
		{Name: "gaps", About: "84 declarations with one of 11 comments and line breaks in each gap between tokens, and one of 3 in every two (thorough: three) gaps", GenTier: byTier(genGaps(2), genGaps(3)), Run: withProgram(fn)},
		{Name: "programs", About: "file grammar, no comments inside declarations", Gen: genFile(false), Quick: 3, Thorough: 4, Run: withProgram(fn)},
		{Name: "programs-comments", About: "file grammar with comments at every gap", Gen: genFile(true), Quick: 3, Thorough: 4, Run: withProgram(fn)},
	}
}

// wordPrograms have one open position each.
var wordPrograms = []string{
	"func @() {}", "func @(a int) error { return nil }", "func (r T) @() {}", "func (@ T) m() {}", "func (r @) m() {}", "func (r *@) m() {}", "func (@ *@) @(@ @) @ {}", "func (*@) m() {}",
	"func f(@ int) {}", "func f(a @) {}", "func f(a, @ int) {}", "func f(a *@) {}", "func f(a ...@) {}", "func f(a []@) {}", "func f(a pkg.@) {}", "func f(@) {}", "func f(@, @) {}", "func f(a map[@]@) {}", "func f(a func(@ @) @) {}", "func f(a chan @) {}",
	"func f() @ {}", "func f() *@ {}", "func f() (@ int, err @) {}", "func f() (@, error) {}", "func f() []@ {}", "func f() pkg.@ {}", "func f() func(@) @ {}", "func f[@ any](a @) {}", "func f[K @](a K) {}",
	"type @ int", "type T @", "type @ struct{}", "type @ interface{}", "type T = @", "type T *@", "type T []@", "type T map[@]@", "type T func(@ @) @", "type T pkg.@", "type @[K any] struct {\n\tA K\n}",
	"type T struct {\n\t@ int\n}", "type T struct {\n\tA @\n}", "type T struct {\n\t@\n}", "type T struct {\n\t*@\n\tB int\n}", "type T struct {\n\tA, @ int\n}", "type T struct {\n\t@ func(@ @) @\n\tC @ `t`\n}", "type T struct {\n\tA *@ // c\n}", "type T struct {\n\tA pkg.@\n}",
	"type T interface {\n\t@()\n}", "type T interface {\n\t@(a int) error\n\tN() @\n}", "type T interface {\n\t@\n}", "type T interface {\n\tM(@ int)\n}", "type T interface {\n\tM(a @)\n}", "type T interface {\n\tM(@, @) (@ @)\n}",
	"var @ int", "var x @", "var x = @", "const @ = 1", "var (\n\t@ = 1\n)", "type (\n\t@ int\n)", "import @ \"fmt\"", "var x = @{}", "var x = []T{\n\t@,\n\t{@, 1},\n}", "var x = @(1)",
	"func f() {\n\t@ := 1\n}", "func f() {\n\t@()\n}", "func f() {\n\tx = @\n}", "func f() {\n\t@\n}", "func f() {\n@:\n\tfor {\n\t}\n}", "func f() {\n\tgo @.@()\n}", "func f() {\n\tvar @ @\n}", "func f() {\n\t_ = func(@ @) @ { return @ }\n}", "func f() {\n\t_ = \"@\"\n}", "func f() {\n\t// @\n}", "// @", "/* @ */", "/*\n@ x\n*/", "// c\n// @ x", "var x = `\n@ x\n`", "func f() {\n\t_ = `\n@ x`\n}",
}

var wordList = func() []string {
	ws := append(append([]string{}, goKeywords...), basicTypes...)
	ws = append(ws, "any", "error", "comparable", "nil", "true", "iota", "len", "make", "init", "main", "x", "X", "_", "__", "_x", "x_", "π", "Ünï", "日本", "a1", "l", "O0", "fmt", "T", "pkg", "a", "r", "\"s\"", "`r`", "'c'", "'\"'", "'\\''", "1", "0x1F", "1.5", "1e9", "1_000", "0b1", "2i", "-1", "!x", "&x", "*x", "<-x", "a.b", "a.b.c", "a[1]", "a[1:2]", "f(x)", "x+y", "x==y", "x.(T)", "[]int", "map[string]int", "func()", "struct{}", "interface{}", "chan int", "*T", "[2]T", "G[int]", "//", "/*", "{", "}", "(", ")", "\\n")
	for _, k := range []string{"func", "type", "var", "const", "import", "package", "struct", "interface", "map", "chan", "int", "string", "return"} {
		for _, a := range []string{"%s1", "%s_", "%sX", "x%s", "_%s", "%s%s", "%sé"} {
			if strings.Count(a, "%s") == 2 {
				ws = append(ws, k+k)
			} else {
				ws = append(ws, fmt.Sprintf(a, k))
			}
		}
		ws = append(ws, strings.ToUpper(k), k[:len(k)-1], strings.ToUpper(k[:1])+k[1:])
	}
	return ws
}()

func genWords(g *core.G) []byte {
	t := wordPrograms[g.All(len(wordPrograms))]
	w := wordList[g.All(len(wordList))]
	return []byte("package p\n\n" + strings.ReplaceAll(t, "@", w) + "\n" + g.AllS("", "\nvar last int\n"))
}
