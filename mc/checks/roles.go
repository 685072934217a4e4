package checks

import (
	"fmt"
	"go/ast"
	"go/token"

	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"

	"verifmc/core"
	"verifmc/ref"
)

// roles is what the declared role of each source position has to be, derived from
// go/ast.
type roles struct {
	p    *program
	want map[int]kind.Kind // the token at this offset has exactly this kind
	typ  [][2]int          // inside of a type: its lexical kind or ParamType
	recv [][2]int          // inside of a receiver's type: so or MethodReceiverType
	free [][2]int          // nested struct or interface: a member's own roles
}

func (r *roles) name(id *ast.Ident, k kind.Kind) { r.want[r.p.off(id.Pos())] = k }

func within(rs [][2]int, off int) bool {
	for _, t := range rs {
		if off >= t[0] && off < t[1] {
			return true
		}
	}
	return false
}

// typeExpr registers a type. plain says that the type's own node has to carry k.
func (r *roles) typeExpr(e ast.Expr, k kind.Kind, must bool) {
	r.typ = append(r.typ, [2]int{r.p.off(e.Pos()), r.p.off(e.End())})
	if must {
		base := e
		for {
			if s, ok := base.(*ast.StarExpr); ok {
				base = s.X
				continue
			}
			break
		}
		switch b := base.(type) {
		case *ast.Ident, *ast.SelectorExpr, *ast.Ellipsis:
			i, ok := r.p.offs[r.p.off(e.Pos())]
			if ok && r.p.toks[i].Kind == kind.Raw {
				r.want[r.p.off(e.Pos())] = k
			}
		case *ast.IndexExpr:
			r.typeExpr(b.X, k, e == base)
		case *ast.IndexListExpr:
			r.typeExpr(b.X, k, e == base)
		}
	}
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncType:
			if n == e {
				r.funcType(n)
			} else {
				// so are the parameters of a func within another type
				r.free = append(r.free, [2]int{r.p.off(n.Pos()), r.p.off(n.End())})
			}
			return false
		case *ast.StructType, *ast.InterfaceType:
			// the members of a nested struct or interface are outside of the property
			r.free = append(r.free, [2]int{r.p.off(n.Pos()), r.p.off(n.End())})
			return false
		}
		return true
	})
}

func (r *roles) funcType(ft *ast.FuncType) {
	for _, fl := range []*ast.FieldList{ft.Params, ft.Results} {
		if fl == nil {
			continue
		}
		for _, f := range fl.List {
			for _, n := range f.Names {
				r.name(n, kind.ParamName)
			}
			r.typeExpr(f.Type, kind.ParamType, true)
		}
	}
}

func (r *roles) structType(st *ast.StructType) {
	for _, f := range st.Fields.List {
		for _, n := range f.Names {
			r.name(n, kind.ParamName)
		}
		r.typeExpr(f.Type, kind.ParamType, len(f.Names) > 0)
	}
}

func (r *roles) interfaceType(it *ast.InterfaceType) {
	for _, f := range it.Methods.List {
		if ft, ok := f.Type.(*ast.FuncType); ok && len(f.Names) == 1 {
			r.name(f.Names[0], kind.FuncName)
			r.funcType(ft)
			continue
		}
		// an embedded element
		r.free = append(r.free, [2]int{r.p.off(f.Type.Pos()), r.p.off(f.Type.End())})
		r.typ = append(r.typ, [2]int{r.p.off(f.Type.Pos()), r.p.off(f.Type.End())})
		switch f.Type.(type) {
		case *ast.Ident, *ast.SelectorExpr:
			if i := r.p.offs[r.p.off(f.Type.Pos())]; r.p.toks[i].Kind == kind.Raw {
				r.want[r.p.off(f.Type.Pos())] = kind.TypeName
			}
		}
	}
}

func rolesOf(p *program) *roles {
	r := &roles{p: p, want: map[int]kind.Kind{}}
	for _, d := range p.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			r.name(d.Name, kind.FuncName)
			if d.Recv != nil {
				f := d.Recv.List[0]
				for _, n := range f.Names {
					r.name(n, kind.MethodReceiverName)
				}
				r.want[p.off(f.Type.Pos())] = kind.MethodReceiverType
				r.recv = append(r.recv, [2]int{p.off(f.Type.Pos()), p.off(f.Type.End())})
			}
			r.funcType(d.Type)
		case *ast.GenDecl:
			if d.Tok != token.TYPE || d.Lparen.IsValid() {
				continue
			}
			ts := d.Specs[0].(*ast.TypeSpec)
			r.name(ts.Name, kind.TypeName)
			switch t := ts.Type.(type) {
			case *ast.StructType:
				r.structType(t)
			case *ast.InterfaceType:
				r.interfaceType(t)
			default:
				r.typeExpr(t, kind.ParamType, false)
			}
		}
	}
	return r
}

func rolesProgram(p *program, vs []ref.ScopeView, o *core.Obs) error {
	if !legalReceivers(p) || !wholeDecls(p) || commentEndsLine(p) {
		return core.Skip
	}
	ls, err := locate(p, vs)
	if err != nil {
		return err
	}
	r := rolesOf(p)
	if len(r.want) == 0 {
		o.Trivial()
	}
	hit := 0
	for _, l := range ls {
		i, ok := p.offs[l.off]
		if !ok {
			return fmt.Errorf("node %q (line %d) starts inside of a token", l.Text, l.Line)
		}
		lex := p.toks[i].Kind
		sk := vs[l.scope].Kind
		if sk != scope.Func && sk != scope.Type {
			if l.Kind != lex {
				return fmt.Errorf("node %q (line %d) in a %s scope has kind %s, want %s", l.Text, l.Line, sk, l.Kind, lex)
			}
			continue
		}
		if k, ok := r.want[l.off]; ok {
			hit++
			if l.Kind != k {
				return fmt.Errorf("node %q (line %d) has kind %s, want %s", l.Text, l.Line, l.Kind, k)
			}
			continue
		}
		if l.Kind == lex {
			continue
		}
		if within(r.typ, l.off) && l.Kind == kind.ParamType {
			continue
		}
		if within(r.recv, l.off) && l.Kind == kind.MethodReceiverType {
			continue
		}
		if within(r.free, l.off) && lex == kind.Raw && (l.Kind == kind.ParamName || l.Kind == kind.FuncName || l.Kind == kind.TypeName) {
			continue
		}
		return fmt.Errorf("node %q (line %d) has kind %s, want %s", l.Text, l.Line, l.Kind, lex)
	}
	return nil
}
