package gen

import "strings"

// types is every type expression of the grammar up to a nesting depth.
func types(depth int) []string {
	ts := []string{"int", "T", "string", "error", "pkg.T", "*T", "any"}
	if depth == 0 {
		return ts
	}
	for _, t := range types(depth - 1) {
		ts = append(ts, "[]"+t, "map[string]"+t, "[3]"+t, "chan "+t, "<-chan "+t, "chan<- "+t, "func("+t+") "+t,
			"func(a int, b "+t+") (c "+t+", err error)", "G["+t+"]", "pkg.G["+t+", int]", "struct{ A "+t+" }", "interface{ M(int) "+t+" }", "func(..."+t+")", "**"+t)
	}
	return append(ts, "*pkg.T", "func()", "interface{}", "struct{}", "map[[2]int]T", "map[T]int", "(T)", "*(T)", "[len(x)]T", "[N + 1]*T")
}

func cross(as []string, mid string, bs []string) (out []string) {
	for _, a := range as {
		for _, b := range bs {
			out = append(out, a+mid+b)
		}
	}
	return out
}

var (
	types1 = types(1)
	types2 = types(2)

	structRows = append(append(cross([]string{"A", "A, B", "_"}, " ", types1),
		"E", "*E", "pkg.E", "*pkg.E", "G[int]", "*G[int]", "pkg.G[int, T]", "*pkg.G[func(a int)]", "error", "any", "string",
		"A struct {\n\t\tX int\n\t\tY T\n\t}", "A func(\n\t\ta int,\n\t\tb T,\n\t) error", "A interface {\n\t\tM(a int) T\n\t\tN()\n\t}", "A map[string]struct {\n\t\tX int\n\t}",
		"A []func(\n\t\ta int,\n\t)", "A struct {\n\t\tX struct {\n\t\t\tY int\n\t\t}\n\t\tZ int\n\t}", "A func() struct {\n\t\tX int\n\t}", "A [3]struct{ A, B int }",
		"// A is a comment", "/* A int */", "/*\nA int\n*/", "string int", "type_ T", "A, _, B T", "π int", "any T", "error T"),
		cross([]string{"A T", "A, B int", "E", "*pkg.E", "A []T", "A func(a int) T", "A struct{ B int }", "_ int"}, " ", []string{"`json:\"a\"`", "// c", "/* c */", "\"tag\"", "`a` // c", "/*\nc\n*/"})...)

	interfaceRows = append(append(cross([]string{"M(", "M(a ", "M(a, b ", "M(a ..."}, "", cross(types1, "", []string{")"})), cross([]string{"M()", "M(a int)"}, " ", types1)...),
		append(append([]string{}, elements...), "M()", "M() (int, error)", "M() (a int, err error)", "M(\n\t\ta int,\n\t\tb T,\n\t) error", "// M()", "/* M() */", "M() // c", "M(a int) /* c */", "E // c",
			"fmt.Stringer", "E", "G[int]", "pkg.G[T, int]", "comparable", "error", "G[func(a int)]", "string() T", "M /* c */ (a int)", "M( /* c */ )", "M() /* c */ (int, T)")...)

	bodies = []string{"return", "x := 1", "s := \"a } ) \\\" b\"", "s := \"\\\\\"", "s := `raw\nfunc x() {\n`", "r := '\"'", "r := '{'", "r := '\\''", "r := '`'", "r := '}'", "r := '\\\\'",
		"x := []T{\n\t\t{typeA, 1},\n\t\t{funcB(), 2},\n\t}", "(func() {\n\t\t_ = 1\n\t})()", "func(a int) { _ = a }(5)", "// var x int", "/*\nvar x int\n*/", "{\n\t\tx++\n\t}", "var x int",
		"type y struct{ a int }", "const z = 1", "f := func(a, b int) (c error) { return }", "if x := (1); x > 0 {\n\t} else {\n\t}", "switch x {\n\tcase 1:\n\tdefault:\n\t}",
		"m := map[string]func(int) error{}", "_ = a[1:2]", "_ = 'a' + 'b'", "_ = \"/* no */ // no\"", "_ = `\"`", "go func() {}()", "x = y /* c\nd */ + z", "_ = /*\n*/ func() {}", "_ = 'é'",
		"defer func() {\n\t}()", "var (\n\t\ta int\n\t)", "type (\n\t\tb int\n\t)", "for i := 0; i < n; i++ {\n\t}", "for {\n\t}", "loop:\n\tfor range x {\n\t}", "_ = struct{ A int }{1}", "_ = interface{}(nil)", "_ = <-ch",
		"ch <- 1", "_ = x.(type)", "_ = &T{\n\t\tA: 1,\n\t}", "import_ := 1", "package_ := `\npackage q\n`", "_ = `}`", "_ = \"`\"", "/* } */", "// {", "x, y := 1, 2 // }", "_ = `a` + `b`", "_ = `\n`"}

	paramNames = []string{"", "a ", "_ ", "string ", "a /* c */ "}
)

// Rows is a program with a declaration of two members, each chosen freely from
// every one in the grammar.
//
// With core set, one of two members comes from a small part of the rows.
func (p *P) Rows(core bool) string {
	var b strings.Builder
	b.WriteString("package p\n\n")
	two := func(open string, rows []string, close string) {
		as, bs := rows, rows
		if core && len(rows) > 100 {
			var few []string
			for i := 0; i < len(rows); i += len(rows)/37 + 1 {
				few = append(few, rows[i])
			}
			if p.All(2) == 0 {
				as = few
			} else {
				bs = few
			}
		}
		b.WriteString(open + "\n\t" + p.AllS(as...) + "\n\t" + p.AllS(bs...) + "\n" + close + "\n")
	}
	switch p.All(10) {
	case 9:
		if p.All(2) == 0 {
			b.WriteString("type T" + p.AllS(" ", " = ", "[K any] ") + "struct{ " + p.AllS(structRows...) + " }" + p.AllS("\n", " // c\n"))
		} else {
			b.WriteString("type T" + p.AllS(" ", " = ", "[K any] ") + "interface{ " + p.AllS(interfaceRows...) + " }" + p.AllS("\n", " // c\n"))
		}
	case 8:
		b.WriteString("func " + p.AllS("", "(r T) ", "(r *T) ", "(T) ", "(*T) ", "(r *T[K]) ", "(_ T) ") + "f" + p.AllS("()", "(a int)", "(a func())", "(a, b T)", "(T)", "(...T)", "[K any](a K)") +
			p.AllS("", " T", " *T", " (T)", " (T, error)", " (a T)", " func()", " func() func(a int) T", " struct{}", " map[string]struct{}", " interface{ M() }", " (func())", " []func(int) (a T)") + " " + p.AllS(oneLine...) + p.AllS("\n", " // c\n"))
	case 0:
		two("type T struct {", structRows, "}")
	case 1:
		two("type T interface {", interfaceRows, "}")
	case 2:
		two("func f() {", bodies, "}")
	case 3:
		nm := p.AllS(paramNames...)
		b.WriteString("func f(" + nm + p.AllS(types1...) + ", " + strings.Replace(nm, "a", "b", 1) + p.AllS(types1...) + ") {\n}\n")
	case 4:
		b.WriteString("func (t T) f(a " + p.AllS(types1...) + ") " + p.AllS(types1...) + " {\n}\n")
	case 5:
		b.WriteString("func f() (" + p.AllS(types1...) + ", " + p.AllS(types1...) + ")\n")
	case 6:
		b.WriteString("type T" + p.AllS(" ", " = ", "[K any] ", "[K ~[]T, V interface{ M(a int) }] ") + p.AllS(types2...) + "\n")
	case 7:
		b.WriteString(p.AllS("func f(a ", "func f(", "func f() ", "func f() (a ", "func f(x, y ", "type F func(a int, b ", "type F func(", "type F func() ", "func (a ", "type T struct {\n\tA ", "type I interface {\n\tM(a ", "var x ") + p.AllS(types2...) + p.AllS("", ")", " {\n}", ") {\n}", "\n}", ")\n}", ") T {\n}", ", b T) (c int, d pkg.T) {\n}", ") m(b T) int {\n}") + "\n")
	}
	b.WriteString("\nfunc g() {\n}\n")
	return b.String()
}
