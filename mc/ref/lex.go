// Package ref holds the reference models: deliberately boring, written from the
// language specification and the documented behaviour, sharing no code with the
// implementation they judge.
package ref

import (
	"strings"

	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
)

// Tok is one lexical token of the reference lexer.
type Tok struct {
	Text string
	Kind kind.Kind
	Line int // newlines before its first byte
	Off  int
	// Closed is false for a comment or literal that the text ends in.
	Closed bool
}

const separators = " []()" + "{},:;\n\t\r"

func isSep(c byte) bool { return strings.IndexByte(separators, c) >= 0 }

// Lex splits text into the nodes that a parser of this library has to produce:
// every comment, string and rune literal is one node, every separator byte is one
// node, and what lies between those is one node per run.
func Lex(text string) []Tok {
	var toks []Tok
	line := 0
	add := func(from, to int, k kind.Kind, closed bool) {
		if from == to {
			return
		}
		t := text[from:to]
		toks = append(toks, Tok{Text: t, Kind: k, Line: line, Off: from, Closed: closed})
		line += strings.Count(t, "\n")
	}
	run := 0
	flush := func(to int) {
		if run < to {
			add(run, to, Classify(text[run:to]), true)
		}
	}
	quoted := func(i int, q byte, esc bool) (int, bool) {
		for j := i + 1; j < len(text); j++ {
			switch {
			case esc && text[j] == '\\':
				j++
			case text[j] == q:
				return j + 1, true
			}
		}
		return len(text), false
	}
	for i := 0; i < len(text); {
		c := text[i]
		switch {
		case strings.HasPrefix(text[i:], "//"):
			flush(i)
			j := strings.IndexByte(text[i:], '\n')
			closed := true
			if j < 0 {
				j, closed = len(text)-i, true
			}
			add(i, i+j, kind.Comment, closed)
			i += j
			run = i
		case strings.HasPrefix(text[i:], "/*"):
			flush(i)
			j := strings.Index(text[i+2:], "*/")
			e, closed := len(text), false
			if j >= 0 {
				e, closed = i+2+j+2, true
			}
			add(i, e, kind.Comment, closed)
			i, run = e, e
		case c == '"' || c == '`':
			flush(i)
			e, closed := quoted(i, c, c == '"')
			add(i, e, kind.String, closed)
			i, run = e, e
		case c == '\'':
			flush(i)
			e, closed := quoted(i, c, true)
			add(i, e, Classify(text[i:e]), closed)
			i, run = e, e
		case isSep(c):
			flush(i)
			add(i, i+1, Classify(text[i:i+1]), true)
			i++
			run = i
		default:
			i++
		}
	}
	flush(len(text))
	return toks
}

var sepKinds = map[string]kind.Kind{
	"\t": kind.Tab, " ": kind.Space, ",": kind.Comma, ":": kind.Colon, "\n": kind.NewLine, ";": kind.Semicolon,
	"(": kind.ParenthesisLeft, ")": kind.ParenthesisRight, "{": kind.CurlyBracketLeft, "}": kind.CurlyBracketRight,
	"[": kind.SquareBracketLeft, "]": kind.SquareBracketRight, "\r": kind.Separator,
}

var wordKinds = map[string]kind.Kind{
	"import": kind.Import, "var": kind.Var, "const": kind.Const, "map": kind.Map, "chan": kind.Channel, "func": kind.Func,
	"type": kind.Type, "struct": kind.Struct, "interface": kind.Interface, "package": kind.Package,
}

func init() {
	for _, w := range strings.Fields("break default select case defer go else goto switch fallthrough if range continue for return") {
		wordKinds[w] = kind.Keyword
	}
	for _, w := range strings.Fields("bool string byte rune int uint int8 uint8 int16 uint16 int32 uint32 int64 uint64 uintptr float32 float64 complex64 complex128") {
		wordKinds[w] = kind.Basic
	}
}

func all(s, set string) bool {
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(set, s[i]) < 0 {
			return false
		}
	}
	return true
}

// Classify is the documented lexical kind of a piece of text.
func Classify(s string) kind.Kind {
	if s == "" {
		return kind.None
	}
	if k, ok := sepKinds[s]; ok {
		return k
	}
	if k, ok := wordKinds[s]; ok {
		return k
	}
	if all(s, "0123456789") {
		return kind.Number
	}
	if s[0] == '"' || s[0] == '`' {
		return kind.String
	}
	if all(s, "+&=!()-|<>[]*^{}/:,;%.~_") {
		return kind.Symbol
	}
	return kind.Raw
}

// ScopeStart is where a scope has to begin.
type ScopeStart struct {
	Tok  int // index into the tokens
	Off  int
	Line int
	Kind scope.Kind
}

var declWords = map[string]scope.Kind{
	"package": scope.Package, "import": scope.Import, "var": scope.Variable, "const": scope.Const, "type": scope.Type, "func": scope.Func,
}

// Starts lists the scopes of a token sequence: one for every token that is the
// first of its line, outside all brackets, and is a comment or a declaration
// keyword.
func Starts(toks []Tok) []ScopeStart {
	var ss []ScopeStart
	depth := 0
	for i, t := range toks {
		switch t.Kind {
		case kind.ParenthesisLeft, kind.CurlyBracketLeft, kind.SquareBracketLeft:
			depth++
			continue
		case kind.ParenthesisRight, kind.CurlyBracketRight, kind.SquareBracketRight:
			if depth > 0 {
				depth--
			}
			continue
		}
		if depth > 0 || (i > 0 && toks[i-1].Kind != kind.NewLine) {
			continue
		}
		k, ok := declWords[t.Text]
		if t.Kind == kind.Comment {
			k, ok = scope.Comment, true
			if strings.HasPrefix(t.Text, "/*") {
				k = scope.InnerComment
			}
		}
		if ok {
			ss = append(ss, ScopeStart{Tok: i, Off: t.Off, Line: t.Line, Kind: k})
		}
	}
	return ss
}
