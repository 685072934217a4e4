package checks

import (
	"go/scanner"
	"go/token"
	"strings"

	"verifmc/core"
)

// gapDecls are declarations that between them hold every construct of Go's
// declaration grammar; a comment goes into each of their gaps.
var gapDecls = []string{
	"func f() {}", "func f(a int) error { return nil }", "func f(a, b T, c *pkg.U) (x, y int, err error) {\n\treturn\n}", "func f(int, *T, ...string) (T, error) {}", "func f(a func(x int) (y T), b map[string][]*T) func(int) T {}",
	"func f[K any, V comparable](a K, b G[K, V]) (c []V) {}", "func f[K ~int | ~[]T](a chan K, b <-chan K) {}", "func f(\n\ta int,\n\tb ...T,\n) (\n\tc error,\n) {\n}", "func f() struct{ a int } { return x }", "func f() (func(), interface{ M() }) {}",
	"func f() *T { return &T{a: 1} }", "func f() map[string]struct{} {}", "func f() [3]T {}", "func f()", "func f(a int) (b T)", "func f() pkg.G[int, T] {}",
	"func (t T) m() {}", "func (t *T) m(a int) error {}", "func (T) m() T {}", "func (*T) m(a, b int) (c T) {}", "func (t *T[K, V]) m(k K) V {}", "func (_ T) _() {}", "func (t *(T)) m() {}", "func (\n\tt *T,\n) m() {}",
	"type T int", "type T struct{}", "type T struct{ a int }", "type T struct {\n\ta G[func(x int) T, K]\n\tb map[K]G[[]T]\n\tc chan<- G[K, T]\n\td T\n}", "type T struct {\n\tpkg.F\n\tG[int]\n\tpkg.G[int, K]\n\t*G[int]\n\ta G[int]\n\tb [3]T\n\tc *pkg.U\n}", "type T struct {\n\ta, b int\n\t_ *T\n\tE\n\t*pkg.F\n\tc func(a int) T `json:\"c\"`\n\td map[string]struct{ e int }\n}", "type T[K any, V ~int | string] struct {\n\ta K\n\tb []V\n}", "type T = struct{ a T }",
	"type T interface{}", "type T interface{ M() }", "type T interface {\n\tM(a int, b T) (c error)\n\tN() func(x int) T\n\tE\n\tpkg.F\n\t~int | ~[]T\n}", "type T[K any] interface{ M(K) }", "type T = interface{ M() T }",
	"type T func(a int, b T) (c error)", "type T func(int) func() T", "type T map[string]func(a int) T", "type T []struct{ a int }", "type T *pkg.U", "type T = pkg.U", "type T chan<- T", "type T <-chan []T", "type T [3]map[K]V", "type T G[int, pkg.U]", "type T (U)", "type T[K interface{ ~int }] []K", "type T [N + 1]int",
	"type (\n\tT int\n\tU struct {\n\t\ta T\n\t}\n)", "var x int", "var x, y = 1, f(2)", "var x T = T{\n\ta: 1,\n\tb: []int{1, 2},\n}", "var (\n\tx = 1\n\ty T\n)", "var x = func(a int) (b T) {\n\treturn\n}", "var x interface{ M(a T) }", "const x = 1", "const x, y T = iota, \"s\"", "const (\n\tx = 'a'\n\ty\n)",
	"import \"fmt\"", "import x \"fmt\"", "import (\n\t\"fmt\"\n\t. \"os\"\n)", "func f() {\n\tfor i := range x {\n\t\tg(func() {}, i)\n\t}\n}", "func f() {\n\tswitch x := y.(type) {\n\tcase T:\n\tdefault:\n\t\treturn\n\t}\n}", "func f() {\n\ttype t struct{ a int }\n\tvar x = `a`\n\tgo func() {}()\n}", "func f() { func(a T) {}(x) }",
	"func (T[K]) m() {}", "func (*T[K, V]) m()", "func f(G[int], pkg.G[int, K]) G[T]", "func f(a [N]int, b []T, G [3]K)",
	"type T struct{ E }", "type T struct{ *pkg.E }", "type T struct{ G[int] }", "type T struct{ a, b T }", "type T struct{ a []T }", "type T struct{ f func(a int) T }", "type T struct{ e struct{ a T } }", "type T struct{ _ [N]int }",
	"type T interface{ E }", "type T interface{ ~int | E }", "type T interface{ pkg.G[int] }", "type T interface{ M(a T) (b int) }", "type T interface{ m() T }",
}

var gapFills = []string{"/* c */", " // c\n", " /* c\nd */ ", "/**/", " // ( { [ \" '\n", " /* func x( { */ ", " //\n", "\n", " // c\n // d\n", "/* c *//* d */", " // type x struct {\n\n"}

// gapOffsets are the places between the tokens of a text, in order.
func gapOffsets(src string) []int {
	var s scanner.Scanner
	fset := token.NewFileSet()
	f := fset.AddFile("x.go", -1, len(src))
	s.Init(f, []byte(src), nil, 0)
	var offs []int
	for {
		pos, tok, lit := s.Scan()
		if tok == token.EOF {
			return append(offs, len(src))
		}
		if tok == token.SEMICOLON && lit == "\n" {
			continue
		}
		offs = append(offs, f.Offset(pos))
	}
}

var gapCache = func() [][]int {
	var all [][]int
	for _, d := range gapDecls {
		all = append(all, gapOffsets(d))
	}
	return all
}()

// genGaps puts up to n comments into the gaps of a declaration.
func genGaps(n int) func(*core.G) []byte {
	return func(g *core.G) []byte {
		i := g.All(len(gapDecls))
		d, offs := gapDecls[i], gapCache[i]
		k := 1 + g.All(n)
		fills := gapFills
		if k > 1 {
			fills = gapFills[:3]
		}
		var b strings.Builder
		b.WriteString("package p\n\n")
		at, from := 0, 0
		for ; k > 0 && from < len(offs); k-- {
			from += g.All(len(offs) - from)
			b.WriteString(d[at:offs[from]] + g.AllS(fills...))
			at = offs[from]
			from++
		}
		b.WriteString(d[at:] + "\n\nfunc last(a int) {\n}\n")
		return []byte(b.String())
	}
}
