package checks

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"

	"verifmc/core"
)

// C10: asts as values. A case is a history "op;op;..." over up to four asts:
//
//	nL   NewAst(list L)              -> a new ast
//	siL  ast i .SetScope(list L)     -> a new ast
//	Sij  ast i .SetScope(ast j .Scope()) -> a new ast sharing the slice
//	aiL  ast i .AppendScope(list L)
//	Aij  ast i .AppendScope(ast j .Scope()...)
//	ci   ast i .Copy()               -> a new ast
//	ki   the caller appends a scope to ast i .Scope() and keeps the result
//	ei   edits the last node's text of the last scope of ast i
//	ri   renames the package in the first package scope of ast i
//	pN   instead of nL: ast of a parsed file (N: which path), which has a path

var astLists = [][]int{{0}, {0, 1}, {1, 0, 2}, {}, {3}, {1, 2}, {4, 0}}

type mScope struct {
	real goast.Scope
	text string // the text of its nodes
}

type mAst struct {
	real goast.Ast
	scs  []*mScope
	path string // of the file it was parsed from
}

func astScope(i int) *mScope {
	mk := func(k scope.Kind, texts ...string) *mScope {
		return &mScope{real: goast.NewScope(i, k, goast.NewNodes(i, texts...)), text: strings.Join(texts, "")}
	}
	switch i {
	case 0:
		return mk(scope.Package, "package", " ", "p", "\n")
	case 1:
		return mk(scope.Variable, "var", " ", "x", " ", "int", "\n")
	case 2:
		return mk(scope.Comment, "// c", "\n")
	case 3:
		return mk(scope.Package, "package", " ", "q", "\n")
	default:
		return mk(scope.Package, "package", "\n") // a clause without a name
	}
}

func scopeText(s goast.Scope) string {
	var b strings.Builder
	s.Node().IterNext(func(n *goast.Node) bool { b.WriteString(n.Text()); return true })
	return b.String()
}

func pkgName(scs []*mScope) (string, error) {
	for _, s := range scs {
		if s.real.Kind() == scope.Package {
			f := strings.Fields(s.text)
			if len(f) < 2 {
				return "", goast.ErrNoPackage
			}
			return f[1], nil
		}
	}
	return "", goast.ErrNoPackage
}

func (m *mAst) check(i int) error {
	got := m.real.Scope()
	if len(got) != len(m.scs) {
		return fmt.Errorf("ast %d has %d scopes, want %d", i, len(got), len(m.scs))
	}
	var desc strings.Builder
	for k, s := range m.scs {
		if got[k] != s.real {
			return fmt.Errorf("ast %d: scope %d is not the one that was set (%q, want %q)", i, k, scopeText(got[k]), s.text)
		}
		if t := scopeText(got[k]); t != s.text {
			return fmt.Errorf("ast %d: scope %d has text %q, want %q", i, k, t, s.text)
		}
		desc.WriteString(s.real.Description())
		s.real.Node().IterNext(func(n *goast.Node) bool { desc.WriteString(n.Description()); return true })
	}
	if d := m.real.Description(); d != desc.String() {
		return fmt.Errorf("ast %d: description %q, want %q", i, d, desc.String())
	}
	for stop := 0; stop <= len(m.scs); stop++ {
		n := 0
		bad := false
		m.real.IterScope(func(s goast.Scope) bool {
			bad = bad || n >= len(m.scs) || s != m.scs[n].real
			n++
			return n <= stop
		})
		if bad || n != min(stop+1, len(m.scs)) {
			return fmt.Errorf("ast %d: IterScope stopped at %d visited %d scopes (wrong order: %v)", i, stop, n, bad)
		}
	}
	want := []string{m.path, filepath.Dir(m.path), filepath.Base(m.path), filepath.Ext(m.path)}
	if m.path == "" {
		want = []string{"", "", "", ""}
	}
	if got := []string{m.real.File(), m.real.Dir(), m.real.Filename(), m.real.Ext()}; !slices.Equal(got, want) {
		return fmt.Errorf("ast %d: file, dir, name and extension are %q, want %q", i, got, want)
	}
	name, err := m.real.Package()
	wName, wErr := pkgName(m.scs)
	if name != wName || !errors.Is(err, wErr) {
		return fmt.Errorf("ast %d: package is (%q, %v), want (%q, %v)", i, name, err, wName, wErr)
	}
	return nil
}

var astPaths = []string{"a.go", "sub/b", "./sub/../c.x.go"}

func runAstHistory(c []byte, o *core.Obs) error {
	if c[0] == 'p' {
		return withScratch(runAstOps)(c, o)
	}
	return runAstOps("", c, o)
}

func runAstOps(dir string, c []byte, o *core.Obs) error {
	pool := make([]*mScope, 5)
	for i := range pool {
		pool[i] = astScope(i)
	}
	list := func(b byte) (ms []*mScope, rs []goast.Scope) {
		for _, i := range astLists[b-'0'] {
			ms = append(ms, pool[i])
			rs = append(rs, pool[i].real)
		}
		return
	}
	var asts []*mAst
	type kept struct {
		got  []goast.Scope
		want []goast.Scope
	}
	var keeps []kept
	ops := strings.Split(string(c), ";")
	for k, op := range ops {
		o.AddStates(1)
		o.AddTransitions(1)
		switch op[0] {
		case 'n':
			ms, rs := list(op[1])
			a, err := goast.NewAst(rs...)
			_, wErr := pkgName(ms)
			if !errors.Is(err, wErr) || (err == nil) != (wErr == nil) {
				return fmt.Errorf("step %d %s: NewAst returned %v, want %v", k, op, err, wErr)
			}
			if err == nil {
				asts = append(asts, &mAst{a, ms, ""})
			}
		case 'p':
			path := dir + "/" + astPaths[op[1]-'0']
			if err := os.MkdirAll(filepath.Join(dir, "sub"), 0o777); err != nil {
				return core.Internal{Err: err}
			}
			if err := put(strings.TrimSuffix(path, ".go")+".go", []byte("package p\n\nvar x int\n")); err != nil {
				return err
			}
			a, err := goast.ParseAst(path)
			if err != nil {
				return fmt.Errorf("ParseAst: %w", err)
			}
			m := &mAst{real: a, path: path}
			for i, s := range a.Scope() {
				m.scs = append(m.scs, &mScope{s, []string{"package p\n\n", "var x int\n"}[i]})
			}
			asts = append(asts, m)
		case 's':
			ms, rs := list(op[2])
			asts = append(asts, &mAst{asts[op[1]-'0'].real.SetScope(rs), ms, asts[op[1]-'0'].path})
		case 'S':
			b := asts[op[2]-'0']
			asts = append(asts, &mAst{asts[op[1]-'0'].real.SetScope(b.real.Scope()), append([]*mScope{}, b.scs...), asts[op[1]-'0'].path})
		case 'a':
			ms, rs := list(op[2])
			a := asts[op[1]-'0']
			a.real.AppendScope(rs...)
			a.scs = append(append([]*mScope{}, a.scs...), ms...)
		case 'A':
			a, b := asts[op[1]-'0'], asts[op[2]-'0']
			a.real.AppendScope(b.real.Scope()...)
			a.scs = append(append([]*mScope{}, a.scs...), b.scs...)
		case 'c':
			a := asts[op[1]-'0']
			cp := &mAst{real: a.real.Copy(), path: a.path}
			rs := cp.real.Scope()
			if len(rs) != len(a.scs) {
				return fmt.Errorf("step %d %s: the copy has %d scopes, want %d", k, op, len(rs), len(a.scs))
			}
			for i, s := range a.scs {
				if rs[i] == s.real || sameNodes([]goast.Scope{rs[i]}, []goast.Scope{s.real}) || scopeDump(rs[i]) != scopeDump(s.real) {
					return fmt.Errorf("step %d %s: scope %d of the copy is shared or differs", k, op, i)
				}
				cp.scs = append(cp.scs, &mScope{rs[i], s.text})
			}
			asts = append(asts, cp)
		case 'k':
			a := asts[op[1]-'0'].real
			want := append(append([]goast.Scope{}, a.Scope()...), pool[2].real)
			keeps = append(keeps, kept{append(a.Scope(), pool[2].real), want})
		case 'r':
			for _, s := range asts[op[1]-'0'].scs {
				if s.real.Kind() != scope.Package {
					continue
				}
				f := strings.Fields(s.text)
				if len(f) < 2 {
					return core.Skip
				}
				s.real.Node().IterNext(func(n *goast.Node) bool {
					if n.Text() == f[1] {
						n.SetText(f[1] + "2")
						return false
					}
					return true
				})
				s.text = strings.Replace(s.text, f[1]+"\n", f[1]+"2\n", 1)
				break
			}
		case 'e':
			a := asts[op[1]-'0']
			if len(a.scs) == 0 {
				return core.Skip
			}
			n := a.scs[len(a.scs)-1].real.Node()
			old := n.Last().Text()
			n.Last().SetText(old + "\n")
			n.Last().SetKind(kind.NewLine)
			s := a.scs[len(a.scs)-1]
			s.text += "\n"
		}
		for i, a := range asts {
			if err := a.check(i); err != nil {
				return fmt.Errorf("step %d (%s): %w", k, op, err)
			}
		}
		for _, kp := range keeps {
			for i := range kp.want {
				if kp.got[i] != kp.want[i] {
					return fmt.Errorf("step %d (%s): a slice that the caller had appended to was overwritten at %d", k, op, i)
				}
			}
		}
	}
	var fin []string
	for _, a := range asts {
		for _, s := range a.scs {
			fin = append(fin, s.text)
		}
		fin = append(fin, "|")
	}
	o.Outcome(fin...)
	return nil
}

func genAstHistory(depth int) func(g *core.G) []byte {
	return func(g *core.G) []byte {
		var ops []string
		n := 0
		add := func(s string) { ops = append(ops, s) }
		if l := g.All(len(astLists) + len(astPaths)); l >= len(astLists) {
			add(fmt.Sprintf("p%d", l-len(astLists)))
			n++
		} else {
			add(fmt.Sprintf("n%d", l))
			if l != 3 && l != 5 && l != 6 {
				n++
			}
		}
		for d := 0; d < depth && n > 0; d++ {
			i := g.All(n)
			switch g.All(8) {
			case 0:
				add(fmt.Sprintf("a%d%d", i, g.All(len(astLists))))
			case 1:
				add(fmt.Sprintf("s%d%d", i, g.All(len(astLists))))
				n++
			case 2:
				add(fmt.Sprintf("S%d%d", i, g.All(n)))
				n++
			case 3:
				add(fmt.Sprintf("A%d%d", i, g.All(n)))
			case 4:
				add(fmt.Sprintf("c%d", i))
				n++
			case 5:
				add(fmt.Sprintf("k%d", i))
			case 6:
				add(fmt.Sprintf("r%d", i))
			default:
				add(fmt.Sprintf("e%d", i))
			}
		}
		return []byte(strings.Join(ops, ";"))
	}
}

// runAstLength: "N K": N times, both of two asts that share their scopes get K more.
func runAstLength(c []byte, o *core.Obs) error {
	var n, k int
	fmt.Sscan(string(c), &n, &k)
	pool := []*mScope{astScope(0), astScope(1), astScope(2)}
	a, err := goast.NewAst(pool[0].real)
	if err != nil {
		return err
	}
	wa := []goast.Scope{pool[0].real}
	same := func(a goast.Ast, want []goast.Scope) bool { return slices.Equal(a.Scope(), want) }
	for i := 0; i < n; i++ {
		b := a.SetScope(a.Scope())
		wb := slices.Clone(wa)
		for j := 0; j < k; j++ {
			wb = append(wb, pool[(i+j)%3].real)
		}
		b.AppendScope(wb[len(wa):]...)
		old := len(wa)
		for j := 0; j < k; j++ {
			wa = append(wa, pool[(i+j+1)%3].real)
		}
		a.AppendScope(wa[old:]...)
		if !same(a, wa) || !same(b, wb) {
			return fmt.Errorf("after %d times %d more scopes for each of two asts, one of them is wrong", i+1, k)
		}
	}
	seen := 0
	a.IterScope(func(s goast.Scope) bool {
		if s != wa[seen] {
			return false
		}
		seen++
		return true
	})
	if seen != len(wa) {
		return fmt.Errorf("iterating over %d scopes goes wrong at %d", len(wa), seen)
	}
	if p, err := a.Package(); p != "p" || err != nil {
		return fmt.Errorf("package of %d scopes is (%q, %v)", len(wa), p, err)
	}
	if cp := a.Copy(); len(cp.Scope()) != len(wa) {
		return fmt.Errorf("the copy of %d scopes has %d", len(wa), len(cp.Scope()))
	}
	o.AddTransitions(int64(n))
	o.Outcome(string(c))
	return nil
}

func exploreAstLengths(x *core.X) {
	n := 600
	if x.Tier == "thorough" {
		n = 5000
	}
	x.Pool(func(submit func([]byte) bool) {
		for _, k := range []int{0, 1, 2, 3, 7} {
			if !submit([]byte(fmt.Sprintf("%d %d", n, k))) {
				return
			}
		}
	})
}

func init() {
	reg("C10", "every leaf is a history of ast operations; after every step each ast's scopes (by identity and text), iteration with every early stop, package name, description, and every slice a caller holds are compared with a list model. Non-trivial: distinct final states.",
		nil,
		[]*core.Space{
			{Name: "histories", About: "every history of a NewAst and 3 (thorough: 4) of SetScope, AppendScope, Copy, slice sharing, caller-side append and edits and renamings over up to 4 (5) asts, 7 scope lists and 3 parsed files",
				GenTier: byTier(genAstHistory(3), genAstHistory(4)), Run: runAstHistory},
			{Name: "lengths", About: "two asts that share their scopes, each then appended to by 1, 2, 3 or 7 scopes at a time, up to 600 (thorough: 5000) times", Explore: exploreAstLengths, Run: runAstLength},
		})
}
