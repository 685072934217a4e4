package ref

import (
	"fmt"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
)

// NodeView and ScopeView are plain copies of what the real code returned.
type NodeView struct {
	Text string
	Kind kind.Kind
	Line int
	N    *goast.Node
}

type ScopeView struct {
	Kind  scope.Kind
	Line  int
	Nodes []NodeView
	S     goast.Scope
}

func (s ScopeView) Text() string {
	var b strings.Builder
	for _, n := range s.Nodes {
		b.WriteString(n.Text)
	}
	return b.String()
}

// View reads scopes through the public interface and checks on the way that each
// chain is well linked: it starts at a node without predecessor, every node's
// successor points back at it, no node is reached twice, and no two scopes share
// a node.
func View(scs []goast.Scope) ([]ScopeView, error) {
	seen := map[*goast.Node]bool{}
	var out []ScopeView
	for i, s := range scs {
		v := ScopeView{Kind: s.Kind(), Line: s.Line(), S: s}
		h := s.Node()
		if h == nil {
			return nil, fmt.Errorf("scope %d has no node", i)
		}
		if h.Prev() != nil {
			return nil, fmt.Errorf("scope %d: its first node %q has a predecessor %q", i, h.Text(), h.Prev().Text())
		}
		for n := h; n != nil; n = n.Next() {
			if seen[n] {
				return nil, fmt.Errorf("scope %d: node %q is reached twice", i, n.Text())
			}
			seen[n] = true
			if nx := n.Next(); nx != nil && nx.Prev() != n {
				return nil, fmt.Errorf("scope %d: the successor %q of node %q does not point back at it", i, nx.Text(), n.Text())
			}
			v.Nodes = append(v.Nodes, NodeView{Text: n.Text(), Kind: n.Kind(), Line: n.Line(), N: n})
		}
		out = append(out, v)
	}
	return out, nil
}

// Join is the text of all scopes.
func Join(vs []ScopeView) string {
	var b strings.Builder
	for _, v := range vs {
		b.WriteString(v.Text())
	}
	return b.String()
}

// Dump writes scopes out for comparison and for people.
func Dump(vs []ScopeView) string {
	var b strings.Builder
	for _, v := range vs {
		fmt.Fprintf(&b, "scope %s line %d\n", v.Kind.String(), v.Line)
		for _, n := range v.Nodes {
			fmt.Fprintf(&b, "  %d %s %q\n", n.Line, n.Kind.String(), n.Text)
		}
	}
	return b.String()
}
