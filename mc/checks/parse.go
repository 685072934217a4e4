package checks

import (
	"fmt"
	"strings"
	"time"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"

	"verifmc/core"
	"verifmc/ref"
)

// parse runs the real parser on a private copy of the text.
func parse(text []byte) ([]ref.ScopeView, error) {
	return parseAt(0, text)
}

func parseAt(line int, text []byte) ([]ref.ScopeView, error) {
	buf := append([]byte{}, text...)
	scs, err := goast.ParseScope(line, buf)
	if err != nil {
		return nil, fmt.Errorf("ParseScope returned an error: %v", err)
	}
	return ref.View(scs)
}

// The alphabet of the token-sequence spaces: one representative per branch of a
// lexer or of the kind assignment, simplest first.
var tokenAlphabet = []string{
	" ", "\n", "x", "(", ")", "{", "}", "[", "]", ",", "int", "T", "*T", "func", "type", "var",
	"// c\n", "/* c */", "\"s\"", "`r`", "\t", "struct", "interface", "map", "chan", "pkg.T", "...", "_", "=", "1",
	":", ";", "/*\n*/", "`\n`", "'\"'", "\"\\\\\"", "const", "import", "package", "\r", "/", "\"", "'", "`", "\\", "é", "//", "/*/", "func1",
}

var tokenContexts = []string{
	"", "func f", "func (r R) m(", "func f(a T) ", "type T ", "type T struct {\n\t", "type T interface {\n\t", "var x = ", "import (\n\t", "package p\n\nfunc ",
	"func f() {\n", "type T struct {\n\tF func", "type T interface {\n\tM(",
}

// lexContexts puts the explored bytes into every lexical state.
var lexContexts = []string{"", "var x = ", "var x = \"", "var x = `", "var x = '", "// c", "/* c", "func f() {\n\t", "type T", "\n", "var x = \"\\", "package p"}

func tokenSeq(n int, contexts, alphabet []string, suffixes []string) func(*core.G) []byte {
	return func(g *core.G) []byte {
		var b strings.Builder
		b.WriteString(contexts[g.All(len(contexts))])
		l := g.All(n + 1)
		for i := 0; i < l; i++ {
			b.WriteString(alphabet[g.All(len(alphabet))])
		}
		b.WriteString(suffixes[g.All(len(suffixes))])
		return []byte(b.String())
	}
}

// byteSeq is every sequence of n bytes in every lexical context.
func byteSeq(n int) func(*core.G) []byte {
	suffixes := []string{"", "\nvar y int\n"}
	return func(g *core.G) []byte {
		b := []byte(lexContexts[g.All(len(lexContexts))])
		for i := 0; i < n; i++ {
			b = append(b, byte(g.All(256)))
		}
		return append(b, suffixes[g.All(len(suffixes))]...)
	}
}

// lexAlphabet are the bytes that change a lexer's state, and one that does not.
var lexAlphabet = []string{"x", "\n", "\"", "`", "'", "\\", "/", "*", "{", "}", "(", " ", "é"}

func byTier(q, t func(*core.G) []byte) func(string) func(*core.G) []byte {
	return func(tier string) func(*core.G) []byte {
		if tier == "thorough" {
			return t
		}
		return q
	}
}

func withRaw(fn func(text string, toks []ref.Tok, vs []ref.ScopeView, o *core.Obs) error) func([]byte, *core.Obs) error {
	return func(c []byte, o *core.Obs) error {
		vs, err := parse(c)
		if err != nil {
			return err
		}
		toks := ref.Lex(string(c))
		if len(toks) == 0 {
			o.Trivial()
		}
		o.Outcome(ref.Dump(vs))
		o.Logf("text: %q\nparsed:\n%s", c, ref.Dump(vs))
		return fn(string(c), toks, vs, o)
	}
}

// covered is the part of the text that lies in a scope.
func covered(text string, toks []ref.Tok) (string, int) {
	ss := ref.Starts(toks)
	if len(ss) == 0 {
		return "", len(text)
	}
	return text[ss[0].Off:], ss[0].Off
}

func losslessRaw(text string, toks []ref.Tok, vs []ref.ScopeView, o *core.Obs) error {
	want, _ := covered(text, toks)
	if got := ref.Join(vs); got != want {
		return fmt.Errorf("text lost or changed:\n got %q\nwant %q", got, want)
	}
	return nil
}

func scopesRaw(text string, toks []ref.Tok, vs []ref.ScopeView, o *core.Obs) error {
	want := ref.Starts(toks)
	if len(want) != len(vs) {
		return fmt.Errorf("%d scopes, want %d:\n%s", len(vs), len(want), ref.Dump(vs))
	}
	_, off := covered(text, toks)
	for i, v := range vs {
		w := want[i]
		if v.Kind != w.Kind || off != w.Off || v.Line != w.Line+1 {
			return fmt.Errorf("scope %d: %s at offset %d line %d, want %s at offset %d line %d", i, v.Kind, off, v.Line, w.Kind, w.Off, w.Line+1)
		}
		off += len(v.Text())
	}
	return nil
}

func linesRaw(text string, toks []ref.Tok, vs []ref.ScopeView, o *core.Obs) error {
	_, off := covered(text, toks)
	want := strings.Count(text[:off], "\n")
	for _, v := range vs {
		for _, n := range v.Nodes {
			if n.Line != want {
				return fmt.Errorf("node %q has line %d, it starts on line %d", n.Text, n.Line, want)
			}
			if !strings.HasPrefix(text[off:], n.Text) {
				return fmt.Errorf("node %q is not at offset %d", n.Text, off)
			}
			off += len(n.Text)
			want += strings.Count(n.Text, "\n")
		}
	}
	return nil
}

// isTypeNode tells whether a node that spans several tokens is a type: one of a
// parameter, or a receiver's in parentheses.
func isTypeNode(n ref.NodeView) bool {
	return n.Kind == kind.ParamType || n.Kind == kind.MethodReceiverType && strings.HasPrefix(n.Text, "*")
}

func tokensRaw(text string, toks []ref.Tok, vs []ref.ScopeView, o *core.Obs) error {
	_, off := covered(text, toks)
	at := map[int]int{}
	for i, t := range toks {
		at[t.Off] = i
	}
	for _, v := range vs {
		exact := v.Kind != scope.Func && v.Kind != scope.Type
		for _, n := range v.Nodes {
			i, ok := at[off]
			if !ok {
				return fmt.Errorf("node %q (line %d) starts inside of a token", n.Text, n.Line)
			}
			end := off + len(n.Text)
			if _, ok := at[end]; !ok && end != len(text) {
				return fmt.Errorf("node %q (line %d) ends inside of a token", n.Text, n.Line)
			}
			if exact && n.Text != toks[i].Text {
				return fmt.Errorf("node %q (line %d): the token there is %q", n.Text, n.Line, toks[i].Text)
			}
			if exact && n.Kind != toks[i].Kind {
				return fmt.Errorf("node %q (line %d) has kind %s, its token is a %s", n.Text, n.Line, n.Kind, toks[i].Kind)
			}
			if !exact && n.Text != toks[i].Text && !isTypeNode(n) {
				return fmt.Errorf("node %q (line %d, kind %s) spans several tokens and is not a type", n.Text, n.Line, n.Kind)
			}
			off = end
		}
	}
	return nil
}

func rawSpaces(fn func(text string, toks []ref.Tok, vs []ref.ScopeView, o *core.Obs) error) []*core.Space {
	run := withRaw(fn)
	return []*core.Space{
		{Name: "families", About: "families of texts that repeat or nest one unit, at every size up to 40 (thorough: 150) and at 100, 127-129, 255-257, 511-513, 1000, 1023-1025, 4097",
			Explore: exploreFamilies(40, 150, []int{100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4097}, nil), Run: onFamily(run), HangAfter: 100 * time.Second},
		{Name: "long", About: "the families whose size costs linear time, at 32769 and 65537 (thorough: 32767-32769, 65535-65537, 100000)",
			Explore: exploreLong([]int{32769, 65537}, []int{32767, 32768, 32769, 65535, 65536, 65537, 100000}), Run: onFamily(run), HangAfter: 100 * time.Second},
		corpusCuts(500, 1500, run),
		{Name: "places", About: "every sequence of up to 2 (thorough: 3) of 61 units, one within the other, at 27 places of declarations", GenTier: byTier(genPlaced(2), genPlaced(3)), Run: run},
		{Name: "tokens", About: "every sequence of up to 3 (thorough: 4) tokens out of 49 in 13 contexts, with and without a body after it",
			GenTier: byTier(tokenSeq(3, tokenContexts, tokenAlphabet, []string{"", " {}\n"}), tokenSeq(4, tokenContexts, tokenAlphabet, []string{"", " {}\n"})), Run: run},
		{Name: "bytes", About: "every pair of bytes in 12 lexical contexts, with and without a declaration after it", Gen: byteSeq(2), Run: run},
		{Name: "lexer", About: "every sequence of up to 5 (thorough: 6) of the 13 bytes that drive a lexer, followed by nothing or a declaration",
			GenTier: byTier(tokenSeq(5, []string{"var x = "}, lexAlphabet, []string{"", "\nvar y int\n"}), tokenSeq(6, []string{"var x = "}, lexAlphabet, []string{"", "\nvar y int\n"})), Run: run},
	}
}
