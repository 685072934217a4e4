// Package instr writes an overlay of the code under test with a schedule point
// before every statement and a controlled order for every iteration over a map.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Module     *struct{ Path string }
}

const module = "github.com/yanun0323/goast"

// Overlay writes the instrumented files and overlay.json to out.
func Overlay(out string) error {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Module", "verifmc/checks")
	var se bytes.Buffer
	cmd.Stderr = &se
	b, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v\n%s", err, se.String())
	}
	exports := map[string]string{}
	var own []pkgInfo
	for dec := json.NewDecoder(bytes.NewReader(b)); ; {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == module {
			own = append(own, p)
		}
	}
	replace := map[string]string{}
	for _, p := range own {
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		srcs := map[string][]byte{}
		for _, f := range p.GoFiles {
			path := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			a, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return err
			}
			files, names, srcs[path] = append(files, a), append(names, path), src
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) { return os.Open(exports[path]) })}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			return err
		}
		for i, a := range files {
			res := instrument(fset, a, srcs[names[i]], info, i == 0)
			dst := filepath.Join(out, strings.ReplaceAll(strings.Trim(names[i], "/"), "/", "_"))
			if err := os.WriteFile(dst, res, 0o666); err != nil {
				return err
			}
			replace[names[i]] = dst
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	return os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o666)
}

type edit struct {
	at   int
	text string
}

func instrument(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, first bool) []byte {
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	edits := []edit{{off(f.Name.End()), "; import verifsched \"verifmc/sched\""}}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			edits = append(edits, edit{off(s.Pos()), "verifsched.Point(); "})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			return n.Body != nil
		case *ast.SwitchStmt:
			for _, c := range n.Body.List {
				stmts(c.(*ast.CaseClause).Body)
			}
		case *ast.TypeSwitchStmt:
			for _, c := range n.Body.List {
				stmts(c.(*ast.CaseClause).Body)
			}
		case *ast.SelectStmt:
			for _, c := range n.Body.List {
				stmts(c.(*ast.CommClause).Body)
			}
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(n.List)
		case *ast.RangeStmt:
			if tv, ok := info.Types[n.X]; ok {
				if _, ok := tv.Type.Underlying().(*types.Map); ok && !isTypeParam(tv.Type) {
					edits = append(edits, edit{off(n.X.Pos()), "verifsched.Map("}, edit{off(n.X.End()), ")"})
				}
			}
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var b bytes.Buffer
	at := 0
	for _, e := range edits {
		b.Write(src[at:e.at])
		b.WriteString(e.text)
		at = e.at
	}
	b.Write(src[at:])
	b.WriteString("\n\nvar _ = verifsched.Point\n")
	if first {
		b.WriteString("\nfunc init() { verifsched.Instrumented = true }\n")
	}
	return b.Bytes()
}

func isTypeParam(t types.Type) bool {
	_, ok := t.(*types.TypeParam)
	return ok
}
