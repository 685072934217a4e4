package checks

import (
	"bytes"
	"fmt"
	"strings"

	"verifmc/core"
)

// Every place of a declaration, and units that are repeated or nested there.

var places = []struct{ pre, post string }{
	{"func (r ", ") m() {}"},
	{"func (", ") m() {}"},
	{"func ", "f() {}"},
	{"func f", "() {}"},
	{"func f[A ", "](a A) {}"},
	{"func f(a ", ") {}"},
	{"func f(", ") {}"},
	{"func f(a int, b ", ") {}"},
	{"func f() ", " {}"},
	{"func f() (x ", ", err error) {}"},
	{"func f() {", "}"},
	{"type ", "T int"},
	{"type T ", ""},
	{"type T = ", ""},
	{"type T[K ", "] struct{ A K }"},
	{"type T struct {\n\tA ", "\n\tB int\n}"},
	{"type T struct {\n\t", "A int\n\tB int\n}"},
	{"type T struct {\n\t", "\n\tB int\n}"},
	{"type T struct{ A ", " }"},
	{"type I interface {\n\tM(a ", ")\n\tN()\n}"},
	{"type I interface {\n\tM() ", "\n\tN()\n}"},
	{"type I interface {\n\t", "\n\tN()\n}"},
	{"var x ", ""},
	{"const x = ", ""},
	{"type (\n\t", "\n)"},
	{"import ", "\"a\""},
	{"", ""},
}

// units: what opens and what closes. The last ones make nested func types, which take
// quadratic time, see quadratic.
var units = [][2]string{
	{"(", ")"}, {"[", "]"}, {"{", "}"}, {"(", ""}, {"[", ""}, {"{", ""}, {"", ")"}, {"", "]"}, {"", "}"},
	{"()", ""}, {"[]", ""}, {"{}", ""}, {"*", ""}, {"a", ""}, {"a ", ""}, {"a, ", ""}, {"a.", ""}, {",", ""}, {" ", ""}, {"\n", ""}, {"a\n", ""}, {";", ""},
	{"map[a]", ""}, {"chan ", ""}, {"func ", ""}, {"struct{ A ", " }"}, {"struct {\nA ", "\n}"}, {"interface{ M(a ", ") }"}, {"interface{", "}"}, {"interface {\n", "\n}"},
	{"G[", "]"}, {"G[a, ", "]"}, {"/**/ ", ""}, {"// c\n", ""}, {"\"s\" ", ""}, {"'c' ", ""}, {"`s`", ""}, {"| ~", ""}, {"...", ""}, {"= ", ""}, {"type ", ""},
	{"a int\n", ""}, {"a, b int\n", ""}, {"M()\n", ""}, {"E\n", ""}, {"a [", "]"}, {"a (", ")"}, {"\t", ""}, {"1 ", ""}, {"(a, ", ")"}, {"struct{}", ""}, {"interface{}", ""}, {"func()", ""},
	{"[a]b, ", ""}, {"a b, ", ""}, {"a /**/ b, ", ""}, {"\r\n", ""}, {"é", ""},
	{"func(", ")"}, {"func() ", ""}, {"func(a) (", ")"},
}

const nQuadratic = 3

func placed(p int, open, close string) []byte {
	return []byte("package p\n\n" + places[p].pre + open + "int" + close + places[p].post + "\n\nvar z int\n")
}

// genPlaced: up to n units within each other at every place.
func genPlaced(n int) func(g *core.G) []byte {
	return func(g *core.G) []byte {
		p := g.All(len(places))
		open, close := "", ""
		for k := g.All(n + 1); k > 0; k-- {
			u := units[g.All(len(units))]
			open, close = open+u[0], u[1]+close
		}
		return placed(p, open, close)
	}
}

// explorePlaced: every unit at every place, repeated n times.
func explorePlaced(n, nT int) func(x *core.X) {
	return func(x *core.X) {
		n := n
		if x.Tier == "thorough" {
			n = nT
		}
		x.Pool(func(submit func([]byte) bool) {
			for u := range units[:len(units)-nQuadratic] {
				for p := range places {
					if !submit([]byte(fmt.Sprintf("%d %d %d", p, u, n))) {
						return
					}
				}
			}
		})
	}
}

func runPlaced(c []byte, o *core.Obs) error {
	var p, u, n int
	if _, err := fmt.Sscan(string(bytes.TrimSpace(c)), &p, &u, &n); err != nil {
		return core.Internal{Err: err}
	}
	if err := runHuge(placed(p, strings.Repeat(units[u][0], n), strings.Repeat(units[u][1], n)), o); err != nil {
		m := err.Error()
		if len(m) > 1500 {
			m = m[:700] + " ... " + m[len(m)-700:]
		}
		return fmt.Errorf("%q repeated %d times in %q: %s", units[u], n, places[p], m)
	}
	return nil
}
