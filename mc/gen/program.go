// Package gen enumerates Go programs. Every decision goes through core.G; the
// default program is small, and each departure from it costs one deviation.
package gen

import (
	"strings"

	"verifmc/core"
)

// P generates pieces of a program.
type P struct {
	*core.G
	Comments bool // insert comments at token gaps (each a deviation)
	Simple   bool // restrict signatures to the ones whose roles are specified
}

func (p *P) gap() string {
	if !p.Comments {
		return " "
	}
	return p.PickS(" ", " /* c */ ", " /* c\nd */ ")
}

// gap1 is a gap without a line break (which would end a struct field).
func (p *P) gap1() string {
	if !p.Comments {
		return " "
	}
	return p.PickS(" ", " /* c */ ")
}

// soft is a gap that may be empty.
func (p *P) soft() string {
	if !p.Comments {
		return ""
	}
	return p.PickS("", "/* c */", " // c\n")
}

func (p *P) inl() string {
	if !p.Comments {
		return ""
	}
	return p.PickS("", " /* c */ ")
}

// File is a whole file: package clause, optional imports, one declaration chosen
// freely, and up to two more.
func (p *P) File() string {
	var b strings.Builder
	b.WriteString(p.PickS("", "// header\n\n", "/* header */\n\n", "// doc\n", "/*\nlong\n*/\n", "//go:build linux\n\n", "// a\n// b\n", "/* func x() */\n\n"))
	b.WriteString("package" + p.gap() + p.PickS("p", "main", "funcs", "p_1", "π") + p.PickS("\n", " // c\n", " /* c */\n") + "\n")
	b.WriteString(p.PickS("", "import \"fmt\"\n\n", "import (\n\t\"fmt\"\n\tx \"os\"\n)\n\n", "import _ \"embed\" // c\n\n", "import (\n\t// c\n\t. \"fmt\"\n\n\t\"os\"\n)\n\n"))
	b.WriteString(p.Decl(p.All(nDecl)))
	n := p.Pick(3)
	for i := 0; i < n; i++ {
		b.WriteString(p.PickS("\n", "", "\n// between\n", "\n\n/* between */\n\n", "/*\nbetween\n*/\n"))
		b.WriteString(p.Decl(p.Pick(nDecl)))
	}
	b.WriteString(p.PickS("", "\n// trailer", "\n/* trailer */\n", "\n\n"))
	return b.String()
}

const nDecl = 9

// Decl is one top level declaration, ending in a newline.
func (p *P) Decl(which int) string {
	switch which {
	case 0:
		return p.FuncDecl()
	case 1:
		return p.StructDecl()
	case 2:
		return p.InterfaceDecl()
	case 3:
		return p.TypeDecl()
	case 4:
		return p.VarDecl()
	case 5:
		return p.ConstDecl()
	case 6:
		return p.GroupDecl()
	case 7:
		return p.PickS("// comment\n", "/* comment */\n", "// a\n// b\n", "/*\nfunc x() {}\nvar y int\n*/\n", "//\n", "/**/\n", "// \"\n", "/* ` ' \" { ( */\n", "//go:generate x\n", "/*/ x */\n", "/***/\n", "// \\\n", "// */\n", "/* // */\n")
	default:
		return p.MethodDecl()
	}
}

func (p *P) name() string {
	return p.PickS("f", "F1", "funcX", "type_", "_", "string", "varé", "π", "packageName", "importer", "constant", "structs", "mapper", "x2y", "aLongerIdentifierThanUsual")
}

func (p *P) typeName() string {
	return p.PickS("T", "t", "funcT", "Type1", "structX", "Ünï", "interfaceX", "mapT", "_")
}

// Type is a type expression. depth bounds nesting.
func (p *P) Type(depth int) string {
	simple := []string{"int", "T", "string", "error", "pkg.T", "*T", "any"}
	if depth <= 0 {
		return p.PickS(simple...)
	}
	i := p.Pick(len(simple) + 16)
	if i < len(simple) {
		return simple[i]
	}
	switch i - len(simple) {
	case 0:
		return "[]" + p.Type(depth-1)
	case 1:
		return "map[" + p.PickS("string", "T", "int", "[2]int") + "]" + p.Type(depth-1)
	case 2:
		return "*pkg.T"
	case 3:
		return "[3]" + p.Type(depth-1)
	case 4:
		return "chan " + p.Type(depth-1)
	case 5:
		return "<-chan " + p.Type(depth-1)
	case 6:
		return "chan<- " + p.Type(depth-1)
	case 7:
		return "func()"
	case 8:
		return "func(" + p.Type(depth-1) + ") " + p.Type(depth-1)
	case 9:
		return "func(a int, b " + p.Type(depth-1) + ") (c " + p.Type(depth-1) + ", err error)"
	case 10:
		return "interface{}"
	case 11:
		return "struct{}"
	case 12:
		return "G[" + p.Type(depth-1) + "]"
	case 13:
		return "pkg.G[" + p.Type(depth-1) + ", int]"
	case 14:
		return "struct{ A " + p.Type(depth-1) + " }"
	default:
		return "interface{ M(int) " + p.Type(depth-1) + " }"
	}
}

func (p *P) typeParams() string {
	return p.PickS("", "[K any]", "[K any, V comparable]", "[K ~int | ~string]", "[K interface{ ~int }]", "[K, V any]", "[K []int]", "[K interface{ M(x int) T }]", "[K ~struct{ a int }]", "[K ~[]V, V any]", "[K G[int], V G[K]]", "[K func(a int) T]", "[K interface{ ~int }, V interface{ ~int | pkg.T }]", "[K interface{ *T | E }]", "[\n\tK any,\n\tV any,\n]", "[K,\n\tV any]", "[K interface {\n\tM()\n}]")
}

// Params is a parameter list, with its parentheses.
func (p *P) Params() string {
	n := p.Pick(4)
	named := p.Pick(3) // 0: named, 1: unnamed, 2: grouped names
	if n == 0 {
		return "(" + p.inl() + ")"
	}
	multi := p.Pick(2) == 1
	names := []string{"a", "b", "c"}
	var b strings.Builder
	b.WriteString("(")
	if multi {
		b.WriteString(p.PickS("", " // c") + "\n\t")
	}
	b.WriteString(p.inl())
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(",")
			if multi {
				b.WriteString(p.PickS("\n\t", " // c\n\t"))
			} else {
				b.WriteString(" ")
			}
			b.WriteString(p.inl())
		}
		nm := p.PickS(names[i], "_", "string", "funcX")
		if nm == "string" || nm == "funcX" {
			nm += names[i]
		}
		switch named {
		case 0:
			b.WriteString(nm + p.gap())
		case 2:
			if i < n-1 {
				b.WriteString(nm)
				continue
			}
			b.WriteString(nm + p.gap())
		}
		if i == n-1 && p.Bool() {
			b.WriteString("...")
		}
		b.WriteString(p.Type(2))
		b.WriteString(p.inl())
	}
	if multi {
		b.WriteString(",\n")
	}
	b.WriteString(")")
	return b.String()
}

// Results is a result list, with a leading space when there is one.
func (p *P) Results() string {
	switch p.Pick(6) {
	case 0:
		return ""
	case 1:
		return " " + p.inl() + p.Type(2)
	case 2:
		return " (" + p.inl() + p.Type(2) + p.inl() + "," + " " + "error" + p.inl() + ")"
	case 3:
		return " (x " + p.Type(2) + ", err error)"
	case 4:
		return " (x, y " + p.Type(2) + ")"
	default:
		return " (" + p.Type(2) + ")"
	}
}

// oneLine are bodies of one line.
var oneLine = []string{"{}", "{\n}", "{ return }", "{ func() {}() }", "{ func(a int) { _ = a }(1) }", "{ defer func() {}() }", "{ return func() {}() }", "{ return T{} }", "{ return T{}.m() }", "{ return []T{{1}} }", "{ return struct{}{} }",
	"{ return '{' }", "{ return \"}\" }", "{ return `a` }", "{ x := func(a int) (b T) { return }; _ = x }", "{ /* c */ }", "{ return (1) }", "{ return map[string]func(int) T{} }", "{ (func() {})() }", "{ type x struct{ A int } }", "{ var x int }", "{ _ = a[1:2] }", "{ return x.(interface{ M() }) }"}

// Body is a function body, with braces.
func (p *P) Body() string {
	items := []string{"",
		"return",
		"x := 1",
		"typeLoop:\n\tfor {\n\t\tbreak typeLoop\n\t}",
		"s := \"a } ) \\\" b\"",
		"s := \"\\\\\"",
		"s := `raw\nfunc x() {\n`",
		"r := '\"'",
		"r := '{'",
		"r := '\\''",
		"r := '`'",
		"x := []T{\n\t\t{typeA, 1},\n\t\t{funcB(), 2},\n\t}",
		"(func() {\n\t\t_ = 1\n\t})()",
		"func(a int) { _ = a }(5)",
		"// var x int",
		"/*\nvar x int\n*/",
		"{\n\t\tx++\n\t}",
		"var x int",
		"type y struct{ a int }",
		"const z = 1",
		"f := func(a, b int) (c error) { return }",
		"if x := (1); x > 0 {\n\t} else {\n\t}",
		"switch x {\n\tcase 1:\n\tdefault:\n\t}",
		"m := map[string]func(int) error{}",
		"_ = a[1:2]",
		"_ = 'a' + 'b'",
		"_ = \"/* no */ // no\"",
		"_ = `\"`",
		"//line x.go:1",
		"go func() {}()",
		"x = y /* c\nd */ + z",
		"_ = /*\n*/ func() {}",
		"_ = 'é'",
		"_ = \"tab\\t\\n\\u00e9\"",
	}
	n := p.Pick(3)
	if n == 0 {
		return p.PickS(oneLine...)
	}
	var b strings.Builder
	b.WriteString("{" + p.soft() + "\n")
	for i := 0; i < n; i++ {
		b.WriteString("\t" + items[p.Pick(len(items))] + p.PickS("", " // c", " /* c */") + "\n")
	}
	b.WriteString("}")
	return b.String()
}

func (p *P) FuncDecl() string {
	return "func" + p.gap() + p.name() + p.typeParams() + p.inl() + p.Params() + p.Results() + " " + p.inl() + p.Body() + p.PickS("\n", " // c\n")
}

func (p *P) MethodDecl() string {
	recv := p.PickS("r T", "r *T", "T", "*T", "_ T", "_ *T", "r T[K]", "r *T[K]", "r *T[K, V]", "T[K]", "*T[K, V]", "string T", "typeX *funcT", "r Ünï")
	return "func" + p.gap() + "(" + p.inl() + strings.Replace(recv, " ", p.gap(), 1) + p.inl() + ")" + p.gap() + p.name() + p.Params() + p.Results() + " " + p.Body() + "\n"
}

func (p *P) StructDecl() string {
	var b strings.Builder
	b.WriteString("type" + p.gap() + p.typeName() + p.typeParams() + p.gap() + p.PickS("", "= ") + "struct" + p.inl() + " {")
	n := p.Pick(4)
	if n == 0 {
		b.WriteString(p.PickS("}\n", "\n}\n", "\n\t// c\n}\n"))
		return b.String()
	}
	b.WriteString(p.PickS("", " // c") + "\n")
	for i := 0; i < n; i++ {
		nm := string(rune('A' + i))
		b.WriteString("\t" + p.inl())
		switch p.Pick(10) {
		case 7:
			b.WriteString(nm + p.PickS(" interface {\n\t\tM(a int) T\n\t\tN()\n\t}", " map[string]struct {\n\t\tX int\n\t}", " []func(\n\t\ta int,\n\t)", " struct {\n\t\tX struct {\n\t\t\tY int\n\t\t}\n\t\tZ int\n\t}", " func() struct {\n\t\tX int\n\t}", " [3]struct{ A, B int }"))
		case 8:
			b.WriteString(p.PickS("string", "type_", "_, "+nm, nm+", _, "+nm+"2", "π", "any", "error") + " " + p.Type(1))
		case 9:
			b.WriteString(nm + p.PickS(" [K]T", " [3]T", " []T", " *T", " [2]*T", " (T)", " [N + 1]T", " [len(x)]T", "[int]", " func(int) func(a int) T", " *[]*map[K]*T"))
		case 0:
			b.WriteString(nm + p.gap1() + p.Type(2))
		case 1:
			b.WriteString(nm + ", " + nm + "2" + p.gap1() + p.Type(2))
		case 2:
			b.WriteString(p.PickS("E", "*E", "pkg.E", "*pkg.E", "G[int]", "*G[int]", "pkg.G[int, T]", "*pkg.G[func(a int)]", "error", "any", "string"))
		case 3:
			b.WriteString("_ " + p.Type(1))
		case 4:
			b.WriteString(nm + " struct {\n\t\tX int\n\t\tY " + p.Type(1) + "\n\t}")
		case 5:
			b.WriteString(nm + " func(" + "\n\t\ta int,\n\t\tb " + p.Type(1) + ",\n\t) error")
		default:
			b.WriteString("// " + nm + " is a comment")
			b.WriteString("\n")
			continue
		}
		b.WriteString(p.PickS("", " `json:\"a\"`", " // c", " /* c */", " \"tag\""))
		b.WriteString("\n" + p.PickS("", "\n", "\t// c\n", "\t/*\nvar x\n*/\n"))
	}
	b.WriteString("}\n")
	return b.String()
}

// elements are the type elements of an interface (and of a constraint).
var elements = []string{
	"~int | ~string", "int", "~[]T", "~struct{ a int }", "~struct{ a int } | int", "int | ~struct{ a int }",
	"interface{ M() }", "interface{ M() } | int", "interface{}", "[]struct{ f func() }", "map[K]func(int) string", "func(a int)", "func(a int) (b T)",
	"chan<- int", "<-chan int", "*T | E", "pkg.G[int] | T", "~int |\n\t\t~string", "struct {\n\t\tX int\n\t}", "interface {\n\t\tM(x int)\n\t}",
	"[3]int", "[]func() | ~[]T", "~map[string]T", "(int)", "pkg.T | pkg.U",
}

func (p *P) InterfaceDecl() string {
	var b strings.Builder
	b.WriteString("type" + p.gap() + p.typeName() + p.typeParams() + p.gap() + "interface" + p.inl() + " {")
	n := p.Pick(4)
	if n == 0 {
		b.WriteString(p.PickS("}\n", "\n}\n", "\n\t// c\n}\n"))
		return b.String()
	}
	b.WriteString(p.PickS("", " // c") + "\n")
	for i := 0; i < n; i++ {
		nm := string(rune('A' + i))
		b.WriteString("\t")
		switch p.Pick(4) {
		case 0:
			b.WriteString(nm + p.inl() + p.Params() + p.Results())
		case 1:
			b.WriteString(p.PickS("fmt.Stringer", "E", "G[int]", "pkg.G[T, int]", "comparable", "error", "G[func(a int)]"))
		case 2:
			b.WriteString(p.PickS(elements...))
		default:
			b.WriteString("// " + nm + "(x int)")
		}
		b.WriteString(p.PickS("", " // c", " /* c */") + "\n" + p.PickS("", "\n"))
	}
	b.WriteString("}\n")
	return b.String()
}

func (p *P) TypeDecl() string {
	return "type" + p.gap() + p.typeName() + p.PickS("", "[K any]", "[K any, V comparable]") + p.gap() + p.PickS("", "= ") + p.Type(2) + p.PickS("\n", " // c\n", " /* c */\n")
}

func (p *P) VarDecl() string {
	return "var" + p.gap() + p.PickS("x", "x, y", "_", "funcX") + p.PickS(" int", " = 1", " T = T{}", " = []T{\n\t{typeA, 1},\n\t{\n\t\tvarB,\n\t},\n}", " = func(a int) error {\n\treturn nil\n}", " = `raw\nvar y\n`", " = \"\\\\\"", " = '\"'", " = /*\n*/ func() {}", " = \"s\" +\n\t\"t\"", " map[string]struct{ A int }", " = map[string]int{\n\t\"a\": 1,\n}", " interface {\n\tM()\n}", " = (1 +\n\t2)", " = '\\''", " = \"\\\"\"", " = '\\\\'") + p.PickS("\n", " // c\n", " /* c */\n", " /* c\nd */\n")
}

func (p *P) ConstDecl() string {
	return "const" + p.gap() + p.PickS("x = 1", "x, y = 1, 2", "x T = iota", "x = \"s\"", "x = 'a'", "x = 1 << 10", "x = `r`") + p.PickS("\n", " // c\n")
}

func (p *P) GroupDecl() string {
	kw := p.PickS("var", "const", "type")
	var b strings.Builder
	b.WriteString(kw + p.gap() + "(" + p.PickS("", " // c") + "\n")
	n := p.Pick(3)
	for i := 0; i < n; i++ {
		nm := string(rune('A' + i))
		b.WriteString("\t")
		switch kw {
		case "var":
			b.WriteString(nm + p.PickS(" int", " = 1", " = func() {\n\t}", " = `\nvar z\n`", " = []T{\n\t\t{1},\n\t}"))
		case "const":
			b.WriteString(nm + p.PickS(" = iota", " = 1", " T = \"s\""))
		default:
			b.WriteString(nm + " " + p.PickS("int", "struct {\n\t\tX int\n\t}", "interface {\n\t\tM()\n\t}", "func(a int) error", "= T"))
		}
		b.WriteString(p.PickS("", " // c") + "\n" + p.PickS("", "\n", "\t// c\n", "\t/*\nfunc\n*/\n"))
	}
	b.WriteString(")\n")
	return b.String()
}
