package checks

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/helper"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"
)

// ---- C03: start lines

var startLines = []int{-1000000, -3, -2, -1, 1, 2, 7, 1 << 40}

// runStartLines: from any start line on, the same scopes result with that many lines more.
func runStartLines(c []byte, o *core.Obs) error {
	base, err := parse(c)
	if err != nil {
		return err
	}
	if err := linesRaw(string(c), ref.Lex(string(c)), base, o); err != nil {
		return err
	}
	o.Outcome(ref.Dump(base))
	for _, s := range startLines {
		scs, err := goast.ParseScope(s, append([]byte{}, c...))
		if err != nil {
			return fmt.Errorf("start line %d: %v", s, err)
		}
		vs, err := ref.View(scs)
		if err != nil {
			return fmt.Errorf("start line %d: %v", s, err)
		}
		for i := range vs {
			vs[i].Line -= s
			for j := range vs[i].Nodes {
				vs[i].Nodes[j].Line -= s
			}
		}
		if got, want := ref.Dump(vs), ref.Dump(base); got != want {
			return fmt.Errorf("start line %d, less that many lines:\n got %s\nwant %s", s, got, want)
		}
	}
	return nil
}

var chainTexts = []string{"a", "\n", "\n\n", "`x\ny`", "", "\r\n", "// c\n", "\nfunc", "x\r"}

func genChain(n int) func(*core.G) []byte {
	return func(g *core.G) []byte {
		var b []byte
		b = append(b, "0136"[g.All(4)])
		l := g.All(n + 1)
		for i := 0; i < l; i++ {
			b = append(b, byte('a'+g.All(len(chainTexts))))
		}
		return b
	}
}

// runChain: a chain from texts has these texts, their kinds, and their lines.
func runChain(c []byte, o *core.Obs) error {
	start := int(c[0]-'0') - 1
	var ts []string
	for _, b := range c[1:] {
		ts = append(ts, chainTexts[b-'a'])
	}
	n := goast.NewNodes(start, ts...)
	o.Outcome(string(c))
	if len(ts) == 0 {
		if n != nil {
			return errors.New("no texts yield a node")
		}
		return nil
	}
	ns, at := chainOf(n)
	if at != 0 || len(ns) != len(ts) {
		return fmt.Errorf("%d nodes for %d texts %q, beginning at %d", len(ns), len(ts), ts, at)
	}
	line := start
	for i, m := range ns {
		if m.Text() != ts[i] || m.Line() != line || m.Kind() != kind.New(ts[i]) {
			return fmt.Errorf("node %d of the texts %q from line %d: %q, line %d, kind %v; want %q, line %d, kind %v", i, ts, start, m.Text(), m.Line(), m.Kind(), ts[i], line, kind.New(ts[i]))
		}
		one := goast.NewNode(line, ts[i])
		if one.Text() != ts[i] || one.Line() != line || one.Kind() != kind.New(ts[i]) {
			return fmt.Errorf("NewNode(%d, %q) is %q, line %d, kind %v", line, ts[i], one.Text(), one.Line(), one.Kind())
		}
		s := goast.NewScope(line, scope.Func, m)
		if s.Line() != line+1 || s.Node() != m || s.Kind() != scope.Func {
			return fmt.Errorf("NewScope(%d): line %d, kind %v", line, s.Line(), s.Kind())
		}
		line += strings.Count(ts[i], "\n")
	}
	return nil
}

func genLineProgram(g *core.G) []byte { return []byte((&gen.P{G: g, Comments: true}).File()) }

func lineSpaces() []*core.Space {
	return []*core.Space{
		{Name: "start-lines", About: "every sequence of up to 2 (thorough: 3) tokens out of 49 in 13 contexts, with and without a declaration after it, from 9 start lines (also negative and large)",
			GenTier: byTier(tokenSeq(2, tokenContexts, tokenAlphabet, []string{"", "\nvar y int\n"}), tokenSeq(3, tokenContexts, tokenAlphabet, []string{"", "\nvar y int\n"})), Run: runStartLines},
		{Name: "start-lines-programs", About: "programs of the file grammar with comments, from 9 start lines", Gen: genLineProgram, Quick: 2, Thorough: 3, Run: runStartLines},
		{Name: "chains", About: "every sequence of up to 5 (thorough: 6) of 9 texts from 4 start lines, as a chain of nodes, single nodes and scopes", GenTier: byTier(genChain(5), genChain(6)), Run: runChain},
	}
}

// ---- C16: lists of scopes

var scopeTexts = []string{
	"package p\n", "package q // c\n", "package\n", "// package x\n", "import \"package\"\n", "var x int\n", "func f() {\n\tpackage y\n}\n", "package /* r */ s;\n",
}

func makeScope(i int) (goast.Scope, scope.Kind, string, error) {
	if i == len(scopeTexts) { // made by hand; a scope's kind is what it is made with
		return goast.NewScope(0, scope.Package, goast.NewNodes(0, "package", " ", "r", "\n")), scope.Package, "r", nil
	}
	scs, err := goast.ParseScope(0, []byte(scopeTexts[i]))
	if err != nil || len(scs) != 1 {
		return nil, "", "", fmt.Errorf("%q yields %d scopes, %v", scopeTexts[i], len(scs), err)
	}
	name := map[int]string{0: "p", 1: "q", 7: "s"}[i]
	return scs[0], scs[0].Kind(), name, nil
}

func genScopeList(n int) func(*core.G) []byte {
	return func(g *core.G) []byte {
		b := []byte{byte('0' + g.All(3))}
		l := g.All(n + 1)
		for i := 0; i < l; i++ {
			b = append(b, byte('a'+g.All(len(scopeTexts)+1)))
		}
		return b
	}
}

// runScopeList: an ast of any list of scopes has the name of the first package scope.
func runScopeList(c []byte, o *core.Obs) error {
	var list []goast.Scope
	name, found := "", false
	for _, b := range c[1:] {
		s, k, n, err := makeScope(int(b - 'a'))
		if err != nil {
			return err
		}
		list = append(list, s)
		if k == scope.Package && !found {
			name, found = n, true
		}
	}
	var a goast.Ast
	var err error
	first, _, _, _ := makeScope(0)
	switch c[0] {
	case '0':
		a, err = goast.NewAst(list...)
		if (err == nil) != (name != "") || err != nil && (!errors.Is(err, goast.ErrNoPackage) || a != nil) {
			return fmt.Errorf("NewAst of %q says (%v, %v), the package is %q", c[1:], a, err, name)
		}
	case '1':
		a, err = goast.NewAst(first)
		if err == nil {
			a = a.SetScope(list)
		}
	case '2':
		a, err = goast.NewAst(first)
		if err == nil {
			a = a.SetScope(nil)
			a.AppendScope(list...)
		}
	}
	o.Outcome(string(c))
	if a == nil {
		return nil
	}
	for _, b := range []goast.Ast{a, a.Copy()} {
		got, err := b.Package()
		if got != name || (err == nil) != (name != "") || err != nil && !errors.Is(err, goast.ErrNoPackage) {
			return fmt.Errorf("list %q: the package is (%q, %v), want %q", c, got, err, name)
		}
	}
	return nil
}

// ---- C11: names of files to save to

var saveNames = []string{"x", "x.go", "x.v2", "x.GO", "x.go.go", "a b", "sub/x", "sub/deep/x.go", "./x", "there/../x", "there/x", "π", ".x", ".go", "", "x.", "go", "xgo", "x.goo", "x.g", "x.go.txt", "x_test", "-x", "x.go/y", "x.go~", "there//x.go"}

// runSaveName: saving writes one file, with the suffix added where it is missing.
func runSaveName(dir string, c []byte, o *core.Obs) error {
	how, old, name := c[0], c[1], string(c[2:])
	base := filepath.Join(dir, "root")
	if err := os.MkdirAll(filepath.Join(base, "there"), 0o777); err != nil {
		return core.Internal{Err: err}
	}
	if err := put(filepath.Join(base, "other.go"), []byte("package other\n")); err != nil {
		return err
	}
	full := base + "/" + name
	file := full
	if !strings.HasSuffix(file, ".go") {
		file += ".go"
	}
	if old == '1' {
		if err := os.MkdirAll(filepath.Dir(file), 0o777); err != nil {
			return core.Internal{Err: err}
		}
		if err := put(file, []byte("package old\n\n// "+strings.Repeat("old ", 50)+"\n")); err != nil {
			return err
		}
	}
	text := "package p\n\nvar   x int\n"
	want := "package p\n\nvar x int\n"
	var err error
	switch how {
	case '0':
		err = helper.SaveFile(full, []byte(text))
	case '1':
		var scs []goast.Scope
		if scs, err = goast.ParseScope(0, []byte(text)); err != nil {
			return err
		}
		var a goast.Ast
		if a, err = goast.NewAst(scs...); err != nil {
			return err
		}
		err = a.Save(full)
	case '2':
		err = helper.SaveFile(full, []byte(text), true)
	}
	o.Outcome(string(c))
	if err != nil {
		return fmt.Errorf("saving to %q: %v", name, err)
	}
	got, err := os.ReadFile(file)
	if err != nil || string(got) != want {
		return fmt.Errorf("saving to %q: the file %q holds %q (%v)", name, file[len(base):], got, err)
	}
	var files []string
	_ = filepath.Walk(base, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			files = append(files, p[len(base):])
		}
		return nil
	})
	if len(files) != 2 {
		return fmt.Errorf("saving to %q: the files are %q", name, files)
	}
	if b, err := os.ReadFile(filepath.Join(base, "other.go")); err != nil || string(b) != "package other\n" {
		return fmt.Errorf("saving to %q changed another file", name)
	}
	if a, err := goast.ParseAst(full); err != nil {
		return fmt.Errorf("parsing %q again: %v", name, err)
	} else if p, err := a.Package(); p != "p" || err != nil {
		return fmt.Errorf("parsing %q again: package (%q, %v)", name, p, err)
	}
	return nil
}

func genSaveName(g *core.G) []byte {
	return []byte(g.AllS("0", "1", "2") + g.AllS("0", "1") + saveNames[g.All(len(saveNames))])
}
