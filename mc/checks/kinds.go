package checks

import (
	"fmt"
	"go/token"
	"strings"

	"github.com/yanun0323/goast/charset"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"

	"verifmc/core"
	"verifmc/ref"
)

// keywordKind are the keywords that have a kind of their own.
var keywordKind = map[string]kind.Kind{"import": kind.Import, "var": kind.Var, "const": kind.Const, "map": kind.Map, "chan": kind.Channel,
	"func": kind.Func, "type": kind.Type, "struct": kind.Struct, "interface": kind.Interface, "package": kind.Package}

var basicTypes = strings.Fields("bool string byte rune int uint int8 uint8 int16 uint16 int32 uint32 int64 uint64 uintptr float32 float64 complex64 complex128")

var separators = map[string]kind.Kind{"\t": kind.Tab, " ": kind.Space, ",": kind.Comma, ":": kind.Colon, "\n": kind.NewLine, ";": kind.Semicolon,
	"(": kind.ParenthesisLeft, ")": kind.ParenthesisRight, "{": kind.CurlyBracketLeft, "}": kind.CurlyBracketRight,
	"[": kind.SquareBracketLeft, "]": kind.SquareBracketRight, "\r": kind.Separator}

// operator bytes of Go, and the blank identifier
const symbolBytes = "+-*/%&|^<>=!()[]{},;.:~_"

var goKeywords = func() (ks []string) {
	for t := token.BREAK; t <= token.VAR; t++ {
		ks = append(ks, t.String())
	}
	return
}()

// wantKind is the kind of a text, from the Go specification's token classes.
func wantKind(s string) kind.Kind {
	if s == "" {
		return kind.None
	}
	if k, ok := separators[s]; ok {
		return k
	}
	if k, ok := keywordKind[s]; ok {
		return k
	}
	all := func(set string) bool {
		for i := 0; i < len(s); i++ {
			if strings.IndexByte(set, s[i]) < 0 {
				return false
			}
		}
		return true
	}
	if all("0123456789") {
		return kind.Number
	}
	if s[0] == '"' || s[0] == '`' {
		return kind.String
	}
	if token.IsKeyword(s) {
		return kind.Keyword
	}
	for _, b := range basicTypes {
		if s == b {
			return kind.Basic
		}
	}
	if all(symbolBytes) {
		return kind.Symbol
	}
	return kind.Raw
}

func runKind(c []byte, o *core.Obs) error {
	s := string(c)
	got, want := kind.New(s), wantKind(s)
	o.Outcome(want.String())
	if want == kind.Raw {
		o.Trivial()
	}
	if got != want {
		return fmt.Errorf("kind.New(%q) is %s, want %s", s, got, want)
	}
	if cl := ref.Classify(s); cl != want {
		return core.Internal{Err: fmt.Errorf("the two references differ on %q: %s and %s", s, cl, want)}
	}
	return nil
}

func exploreKinds(x *core.X) {
	x.Pool(func(submit func([]byte) bool) {
		var rec func(b []byte, n int, set []byte) bool
		rec = func(b []byte, n int, set []byte) bool {
			if !submit(append([]byte{}, b...)) {
				return false
			}
			if n == 0 {
				return true
			}
			for _, c := range set {
				if !rec(append(b[:len(b):len(b)], c), n-1, set) {
					return false
				}
			}
			return true
		}
		bytes := make([]byte, 256)
		for i := range bytes {
			bytes[i] = byte(i)
		}
		n3, n4 := 3, 5
		if x.Tier == "thorough" {
			n4 = 6
		} else {
			n3 = 2
		}
		if !rec(nil, n3, bytes) { // every string of up to 2 (thorough 3) bytes
			return
		}
		if !rec(nil, n4, []byte("+-&.=_01a\" `")) {
			return
		}
		// every symbol byte in strings of up to 3
		if !rec(nil, 3, []byte(symbolBytes+"#$?@0x\"`' ")) {
			return
		}
	})
}

// exploreNeighbours: every keyword and basic type, and every string at edit
// distance one from it, over all bytes.
func exploreNeighbours(x *core.X) {
	words := append(append([]string{}, goKeywords...), basicTypes...)
	words = append(words, "any", "error", "comparable", "complex", "float", "true", "nil", "iota", "make", "len", "0", "42", "1234567890", "\"s\"", "`r`", "'c'", "...", "<<=", "&^=", "//", "/*")
	x.Pool(func(submit func([]byte) bool) {
		for _, w := range words {
			for i := 0; i <= len(w); i++ {
				for b := 0; b < 256; b++ {
					if !submit([]byte(w[:i] + string([]byte{byte(b)}) + w[i:])) {
						return
					}
					if i < len(w) && !submit([]byte(w[:i]+string([]byte{byte(b)})+w[i+1:])) {
						return
					}
				}
				if i < len(w) && !submit([]byte(w[:i]+w[i+1:])) {
					return
				}
			}
			for _, v := range words {
				if !submit([]byte(w + v)) {
					return
				}
			}
			if !submit([]byte(strings.ToUpper(w))) || !submit([]byte(w)) {
				return
			}
		}
		for n := 1; n <= 300; n++ {
			for _, s := range []string{"9", "+", "x", "\"", "_"} {
				if !submit([]byte(strings.Repeat(s, n))) || !submit([]byte(strings.Repeat(s, n)+"a")) || !submit([]byte(strings.Repeat(s, n)+"5")) {
					return
				}
			}
		}
	})
}

// runTables checks the finite tables: names, closers, scope kinds and charsets.
func runTables(c []byte, o *core.Obs) error {
	closers := map[kind.Kind]kind.Kind{kind.ParenthesisLeft: kind.ParenthesisRight, kind.CurlyBracketLeft: kind.CurlyBracketRight, kind.SquareBracketLeft: kind.SquareBracketRight,
		kind.ParenthesisRight: kind.ParenthesisLeft, kind.CurlyBracketRight: kind.CurlyBracketLeft, kind.SquareBracketRight: kind.SquareBracketLeft}
	names := map[string]bool{}
	for _, k := range allKinds {
		w, ok := closers[k]
		g, gok := k.GetClose()
		if g != w || ok != gok {
			return fmt.Errorf("%s.GetClose() is (%s, %v), want (%s, %v)", k, g, gok, w, ok)
		}
		if names[k.String()] {
			return fmt.Errorf("two kinds are called %q", k.String())
		}
		names[k.String()] = true
		if k != kind.None && k.String() == "" {
			return fmt.Errorf("kind %q has no name", k[0])
		}
		kk := k
		if kk.PointerString() != k.String() {
			return fmt.Errorf("PointerString of %s is %q", k, kk.PointerString())
		}
		// a kind that stands for one spelling is the kind of that spelling
		if k[0] != "" && k != kind.Pointer && k != kind.Address && kind.New(k[0]) != k {
			return fmt.Errorf("kind.New(%q) is %s, want %s", k[0], kind.New(k[0]), k)
		}
	}
	var none *kind.Kind
	if none.PointerString() != "" {
		return fmt.Errorf("PointerString of nil is %q", none.PointerString())
	}
	scs := []struct {
		k    scope.Kind
		name string
		kind kind.Kind
	}{{scope.Unknown, "Unknown", kind.Raw}, {scope.Package, "Package", kind.Package}, {scope.Comment, "Comment", kind.Comment}, {scope.InnerComment, "InnerComment", kind.Comment},
		{scope.Import, "Import", kind.Import}, {scope.Variable, "Variable", kind.Var}, {scope.Const, "Const", kind.Const}, {scope.Type, "Type", kind.Type}, {scope.Func, "Func", kind.Func},
		{"other", "", kind.None}, {"Package", "", kind.None}, {"/", "", kind.None}}
	for _, s := range scs {
		if s.k.String() != s.name || s.k.ToKind() != s.kind {
			return fmt.Errorf("scope kind %q is called %q with kind %s, want %q and %s", string(s.k), s.k.String(), s.k.ToKind(), s.name, s.kind)
		}
	}
	for b := 0; b < 256; b++ {
		s := string([]byte{byte(b)})
		_, isSep := separators[s]
		if charset.SeparatorCharset.Contain(byte(b)) != isSep {
			return fmt.Errorf("separator charset is wrong for %q", s)
		}
		if charset.NumberCharset.Contain(byte(b)) != (b >= '0' && b <= '9') {
			return fmt.Errorf("number charset is wrong for %q", s)
		}
		if charset.GolangSymbol.Contain(byte(b)) != (strings.IndexByte(symbolBytes, byte(b)) >= 0) {
			return fmt.Errorf("symbol charset is wrong for %q", s)
		}
	}
	if len(charset.GolangKeywords) != len(goKeywords) || len(charset.GolangBasicType) != len(basicTypes) {
		return fmt.Errorf("%d keywords and %d basic types, want %d and %d", len(charset.GolangKeywords), len(charset.GolangBasicType), len(goKeywords), len(basicTypes))
	}
	for _, w := range goKeywords {
		if !charset.GolangKeywords.Contain(w) {
			return fmt.Errorf("keyword %q is missing", w)
		}
	}
	for _, w := range basicTypes {
		if !charset.GolangBasicType.Contain(w) {
			return fmt.Errorf("basic type %q is missing", w)
		}
	}
	return nil
}

// runSet checks charset.New, NewSlice and Contain on one subset of 0..5, given in
// any order with repetitions, split into slices at every position.
func runSet(c []byte, o *core.Obs) error {
	var els []byte
	var slices [][]byte
	cur := []byte{}
	for _, b := range c {
		if b == '|' {
			slices = append(slices, cur)
			cur = []byte{}
			continue
		}
		els = append(els, b)
		cur = append(cur, b)
	}
	slices = append(slices, cur)
	in := map[byte]bool{}
	for _, b := range els {
		in[b] = true
	}
	a, b := charset.New(els...), charset.NewSlice(slices...)
	o.Outcome(fmt.Sprint(in))
	for e := byte('0'); e < '6'; e++ {
		if a.Contain(e) != in[e] || b.Contain(e) != in[e] {
			return fmt.Errorf("set of %q: New says %v, NewSlice says %v for %q, want %v", c, a.Contain(e), b.Contain(e), e, in[e])
		}
	}
	if len(a) != len(in) || len(b) != len(in) {
		return fmt.Errorf("set of %q has %d/%d elements, want %d", c, len(a), len(b), len(in))
	}
	var none charset.Set[byte]
	if none.Contain('0') {
		return fmt.Errorf("the nil set has elements")
	}
	return nil
}

func one(s string) func(*core.G) []byte {
	return func(g *core.G) []byte { g.All(1); return []byte(s) }
}

func init() {
	reg("C15", "every case is one text (or one table); the kind that the library gives it is compared with the token classes of the Go specification (go/token for keywords) by two independent references. Non-trivial: distinct kinds.",
		[]string{"the kinds of texts are those of the library's documentation: digits only is a number, operator bytes only a symbol, the 19 basic types without any/error"},
		[]*core.Space{
			{Name: "strings", About: "every string of up to 2 (thorough: 3) bytes; of up to 5 (6) out of 12 bytes; of up to 3 out of all operator bytes and 10 others", Explore: exploreKinds, Run: runKind},
			{Name: "neighbours", About: "every keyword, basic type and 22 other words, every string at edit distance one over all bytes, every pair of words, long repetitions", Explore: exploreNeighbours, Run: runKind},
			{Name: "tables", About: "every kind and scope kind: names, closing brackets, conversions; every byte in every charset", Gen: one("tables"), Run: runTables},
			{Name: "sets", About: "sets of every sequence of up to 5 of 6 elements, split into slices", Gen: func(g *core.G) []byte {
				b := []byte{}
				n := g.All(6)
				for i := 0; i < n; i++ {
					b = append(b, "012345|"[g.All(7)])
				}
				return b
			}, Run: runSet},
		})
}
