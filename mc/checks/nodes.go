package checks

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"

	"verifmc/core"
)

// The model of C08: a state is a set of lists over the nodes 0..k-1.
type lists [][]int

func (l lists) find(n int) (c, i int) {
	for c := range l {
		for i, m := range l[c] {
			if m == n {
				return c, i
			}
		}
	}
	panic("model: no such node")
}

func (l lists) at(c, i int) int {
	if i < 0 || i >= len(l[c]) {
		return -1
	}
	return l[c][i]
}

func (l lists) prev(n int) int {
	if n < 0 {
		return -1
	}
	c, i := l.find(n)
	return l.at(c, i-1)
}

func (l lists) next(n int) int {
	if n < 0 {
		return -1
	}
	c, i := l.find(n)
	return l.at(c, i+1)
}

// replace puts the lists r in the place of the lists in the set drop.
func (l lists) replace(drop map[int]bool, r ...[]int) lists {
	var out lists
	for c := range l {
		if !drop[c] {
			out = append(out, l[c])
		}
	}
	for _, x := range r {
		if len(x) > 0 {
			out = append(out, append([]int{}, x...))
		}
	}
	return out
}

func cat(ls ...[]int) []int {
	var out []int
	for _, l := range ls {
		out = append(out, l...)
	}
	return out
}

func (l lists) extract(m int) lists {
	c, i := l.find(m)
	return l.replace(map[int]bool{c: true}, l[c][:i], []int{m}, l[c][i+1:])
}

func (l lists) cutAfter(n int) lists {
	c, i := l.find(n)
	return l.replace(map[int]bool{c: true}, l[c][:i+1], l[c][i+1:])
}

func (l lists) cutBefore(n int) lists {
	c, i := l.find(n)
	return l.replace(map[int]bool{c: true}, l[c][:i], l[c][i:])
}

// join connects the list that ends in a with the list that starts with b.
func (l lists) join(a, b int) lists {
	ca, _ := l.find(a)
	cb, _ := l.find(b)
	return l.replace(map[int]bool{ca: true, cb: true}, cat(l[ca], l[cb]))
}

var errUnspecified = errors.New("unspecified")

// step is one edit in the model: the new state and the nodes it returns.
func (l lists) step(op byte, n, m int) (lists, []int, error) {
	switch op {
	case 'N', 'P': // InsertNext, InsertPrev
		if n < 0 && m >= 0 {
			return nil, nil, errUnspecified
		}
		if m < 0 || n == m || (op == 'N' && l.next(n) == m) || (op == 'P' && l.prev(n) == m) {
			return l, []int{-1, -1}, nil
		}
		ret := []int{l.prev(m), l.next(m)}
		s := l.extract(m)
		if op == 'N' {
			after := s.next(n)
			s = s.cutAfter(n).join(n, m)
			if after >= 0 {
				s = s.join(m, after)
			}
		} else {
			before := s.prev(n)
			s = s.cutBefore(n).join(m, n)
			if before >= 0 {
				s = s.join(before, m)
			}
		}
		return s, ret, nil
	case 'X': // ReplaceNext
		if n < 0 {
			return nil, nil, errUnspecified
		}
		if n == m || (m >= 0 && l.next(n) == m) {
			return l, []int{-1, -1}, nil
		}
		ret := []int{l.prev(m), l.next(n)}
		s := l.cutAfter(n)
		if m >= 0 {
			s = s.cutBefore(m)
			cn, _ := s.find(n)
			if cm, _ := s.find(m); cm == cn {
				return nil, nil, errUnspecified // the list would close to a ring
			}
			s = s.join(n, m)
		}
		return s, ret, nil
	case 'Y': // ReplacePrev
		if n < 0 {
			return nil, nil, errUnspecified
		}
		if n == m || (m >= 0 && l.prev(n) == m) {
			return l, []int{-1, -1}, nil
		}
		ret := []int{l.prev(n), l.next(m)}
		s := l.cutBefore(n)
		if m >= 0 {
			s = s.cutAfter(m)
			cn, _ := s.find(n)
			if cm, _ := s.find(m); cm == cn {
				return nil, nil, errUnspecified
			}
			s = s.join(m, n)
		}
		return s, ret, nil
	case 't', 'T': // TakePrev, TakeNext
		r := l.prev(n)
		if op == 'T' {
			r = l.next(n)
		}
		if r < 0 {
			return l, []int{-1}, nil
		}
		p, q := l.prev(r), l.next(r)
		s := l.extract(r)
		if p >= 0 && q >= 0 {
			s = s.join(p, q)
		}
		return s, []int{r}, nil
	case 'r': // RemovePrev
		if n < 0 {
			return l, []int{-1}, nil
		}
		return l.cutBefore(n), []int{l.prev(n)}, nil
	case 'R': // RemoveNext
		if n < 0 {
			return l, []int{-1}, nil
		}
		return l.cutAfter(n), []int{l.next(n)}, nil
	case 'I':
		if n < 0 {
			return l, nil, nil
		}
		return l.extract(n), nil, nil
	}
	panic("model: no such operation " + string(op))
}

var nodeOps = map[byte]string{'N': "InsertNext", 'P': "InsertPrev", 'X': "ReplaceNext", 'Y': "ReplacePrev", 't': "TakePrev", 'T': "TakeNext", 'r': "RemovePrev", 'R': "RemoveNext", 'I': "Isolate"}

func realStep(op byte, n, m *goast.Node) []*goast.Node {
	switch op {
	case 'N':
		a, b := n.InsertNext(m)
		return []*goast.Node{a, b}
	case 'P':
		a, b := n.InsertPrev(m)
		return []*goast.Node{a, b}
	case 'X':
		a, b := n.ReplaceNext(m)
		return []*goast.Node{a, b}
	case 'Y':
		a, b := n.ReplacePrev(m)
		return []*goast.Node{a, b}
	case 't':
		return []*goast.Node{n.TakePrev()}
	case 'T':
		return []*goast.Node{n.TakeNext()}
	case 'r':
		return []*goast.Node{n.RemovePrev()}
	case 'R':
		return []*goast.Node{n.RemoveNext()}
	case 'I':
		n.Isolate()
		return nil
	}
	panic("no such operation")
}

// attribute schemes: what the nodes of a state hold
var allKinds = []kind.Kind{kind.Raw, kind.Comment, kind.Number, kind.Symbol, kind.Basic, kind.Separator, kind.Keyword, kind.Tab, kind.Space, kind.Comma, kind.Colon,
	kind.NewLine, kind.Semicolon, kind.ParenthesisLeft, kind.ParenthesisRight, kind.CurlyBracketLeft, kind.CurlyBracketRight, kind.SquareBracketLeft, kind.SquareBracketRight,
	kind.Pointer, kind.Address, kind.Import, kind.Var, kind.Const, kind.Map, kind.Channel, kind.Func, kind.Type, kind.Struct, kind.Interface, kind.Package,
	kind.FuncName, kind.TypeName, kind.TypeAliasType, kind.ParamName, kind.ParamType, kind.MethodReceiverName, kind.MethodReceiverType, kind.String, kind.Method, kind.None}

const nAttr = 5

type attrs struct {
	line int
	text string
	kind kind.Kind
}

func attr(scheme, i int) attrs {
	switch scheme {
	case 1: // all equal
		return attrs{3, "x", kind.Raw}
	case 2: // all empty
		return attrs{0, "", kind.None}
	case 3: // every kind, separators first
		k := allKinds[(i*7+9)%len(allKinds)]
		return attrs{i % 2, k[0], k}
	case 4: // negative and descending lines, line breaks in texts
		return attrs{-i, strings.Repeat("\n", i%3) + "é", allKinds[i%len(allKinds)]}
	default:
		return attrs{i, "n" + strconv.Itoa(i), kind.Raw}
	}
}

// world is a set of real nodes next to its model.
type world struct {
	nodes []*goast.Node
	want  []attrs
	l     lists
}

// newWorld builds chains of the given lengths.
func newWorld(sizes []int, scheme int) *world {
	w := &world{}
	for _, sz := range sizes {
		var c []int
		var last *goast.Node
		for j := 0; j < sz; j++ {
			i := len(w.nodes)
			a := attr(scheme, i)
			n := goast.NewNode(a.line, a.text, a.kind)
			if last != nil {
				last.InsertNext(n)
			}
			last = n
			w.nodes = append(w.nodes, n)
			w.want = append(w.want, a)
			c = append(c, i)
		}
		w.l = append(w.l, c)
	}
	return w
}

func (w *world) node(i int) *goast.Node {
	if i < 0 {
		return nil
	}
	return w.nodes[i]
}

func (w *world) name(n *goast.Node) string {
	if n == nil {
		return "nil"
	}
	for i, m := range w.nodes {
		if n == m {
			return string(rune('a' + i))
		}
	}
	return "foreign"
}

func (w *world) check() error {
	for i, n := range w.nodes {
		if n.Prev() != w.node(w.l.prev(i)) || n.Next() != w.node(w.l.next(i)) {
			return fmt.Errorf("node %c has neighbours (%s, %s), the list model %v says (%s, %s)", 'a'+i, w.name(n.Prev()), w.name(n.Next()), w.l, w.name(w.node(w.l.prev(i))), w.name(w.node(w.l.next(i))))
		}
		a := w.want[i]
		if n.Line() != a.line || n.Text() != a.text || n.Kind() != a.kind {
			return fmt.Errorf("node %c is (%d, %q, %v), it was (%d, %q, %v)", 'a'+i, n.Line(), n.Text(), n.Kind(), a.line, a.text, a.kind)
		}
	}
	return nil
}

// queries checks every read access of every node.
func (w *world) queries() error {
	for i, n := range w.nodes {
		c, at := w.l.find(i)
		l := w.l[c]
		if n.First() != w.nodes[l[0]] || n.Last() != w.nodes[l[len(l)-1]] {
			return fmt.Errorf("node %c: First/Last are (%s, %s), list %v", 'a'+i, w.name(n.First()), w.name(n.Last()), l)
		}
		fwd := l[at:]
		var bwd []int
		for j := at; j >= 0; j-- {
			bwd = append(bwd, l[j])
		}
		for _, it := range []struct {
			name string
			fn   func(func(*goast.Node) bool) *goast.Node
			want []int
		}{{"IterNext", n.IterNext, fwd}, {"IterPrev", n.IterPrev, bwd}} {
			for stop := 0; stop <= len(it.want); stop++ {
				var buf [32]*goast.Node
				seen := buf[:0]
				ret := it.fn(func(m *goast.Node) bool {
					seen = append(seen, m)
					return len(seen) <= stop && len(seen) < 100
				})
				wantN := min(stop+1, len(it.want))
				ok := len(seen) == wantN
				for j := 0; ok && j < wantN; j++ {
					ok = seen[j] == w.nodes[it.want[j]]
				}
				var wantRet *goast.Node
				if stop < len(it.want) {
					wantRet = w.nodes[it.want[stop]]
				}
				if !ok || ret != wantRet {
					var names []string
					for _, m := range seen {
						names = append(names, w.name(m))
					}
					return fmt.Errorf("node %c: %s stopped at %d visits %v and returns %s, list %v", 'a'+i, it.name, stop, names, w.name(ret), l)
				}
			}
		}
	}
	var none *goast.Node
	if none.Prev() != nil || none.Next() != nil || none.First() != nil || none.Last() != nil || none.IterNext(func(*goast.Node) bool { return true }) != nil ||
		none.IterPrev(func(*goast.Node) bool { return false }) != nil || none.Text() != "" || none.Kind() != kind.None || none.Copy() != nil || none.Copy(true) != nil {
		return errors.New("the nil node has contents")
	}
	return nil
}

func idx(b byte) int {
	if b == '.' {
		return -1
	}
	return int(b - 'a')
}

func letter(i int) byte {
	if i < 0 {
		return '.'
	}
	return byte('a' + i)
}

// A case is "sizes|scheme|ops": "2,1|0|Nab;Tc." has the chains a-b and c.
func parseNodeCase(c []byte) (sizes []int, scheme int, ops []string) {
	p := strings.Split(string(c), "|")
	for _, s := range strings.Split(p[0], ",") {
		n, _ := strconv.Atoi(s)
		sizes = append(sizes, n)
	}
	scheme, _ = strconv.Atoi(p[1])
	if p[2] != "" {
		ops = strings.Split(p[2], ";")
	}
	return
}

func runNodeEdit(c []byte, o *core.Obs) error {
	sizes, scheme, ops := parseNodeCase(c)
	w := newWorld(sizes, scheme)
	if err := w.check(); err != nil {
		return fmt.Errorf("building the chains: %w", err)
	}
	for k, op := range ops {
		n, m := idx(op[1]), idx(op[2])
		s, ret, err := w.l.step(op[0], n, m)
		if err != nil {
			if k < len(ops)-1 {
				return core.Skip
			}
			// unspecified result; it must still not panic
			realStep(op[0], w.node(n), w.node(m))
			return core.Skip
		}
		got := realStep(op[0], w.node(n), w.node(m))
		o.AddTransitions(1)
		o.AddStates(1)
		o.Logf("%s(%c, %c): %v -> %v", nodeOps[op[0]], op[1], op[2], w.l, s)
		for i := range ret {
			if got[i] != w.node(ret[i]) {
				return fmt.Errorf("step %d, %s of %c and %c on %v: result %d is %s, want %s", k+1, nodeOps[op[0]], op[1], op[2], w.l, i, w.name(got[i]), w.name(w.node(ret[i])))
			}
		}
		before := w.l
		w.l = s
		if err := w.check(); err != nil {
			return fmt.Errorf("step %d, %s of %c and %c on %v: %w", k+1, nodeOps[op[0]], op[1], op[2], before, err)
		}
	}
	var key [32]byte
	for i := range w.nodes {
		key[i] = letter(w.l.next(i))
	}
	o.Outcome(string(key[:len(w.nodes)]), strconv.Itoa(scheme))
	return w.queries()
}

// runIterEdit: "sizes|>a|0Nab;2Tc.": an iteration from node a in the direction >
// or <, with edits inside of its callback: one during visit 0, one during visit 2.
// It goes on along the links as they then are.
func runIterEdit(c []byte, o *core.Obs) error {
	p := strings.Split(string(c), "|")
	sizes, _, _ := parseNodeCase([]byte(p[0] + "|0|"))
	w := newWorld(sizes, 0)
	start := idx(p[1][1])
	next, iter := lists.next, w.nodes[start].IterNext
	if p[1][0] == '<' {
		next, iter = lists.prev, w.nodes[start].IterPrev
	}
	edits := map[int]string{}
	for _, e := range strings.Split(p[2], ";") {
		edits[int(e[0]-'0')] = e[1:]
	}
	// in the model
	var want []int
	l := w.l
	done := 0
	for n := start; n >= 0; n = next(l, n) {
		want = append(want, n)
		if len(want) > 4*len(w.nodes) {
			return core.Skip // it goes round
		}
		if op, ok := edits[len(want)-1]; ok {
			s, _, err := l.step(op[0], idx(op[1]), idx(op[2]))
			if err != nil {
				return core.Skip
			}
			l = s
			done++
		}
	}
	if done < len(edits) {
		return core.Skip // the visit does not take place
	}
	var got []*goast.Node
	ret := iter(func(m *goast.Node) bool {
		got = append(got, m)
		if op, ok := edits[len(got)-1]; ok {
			realStep(op[0], w.node(idx(op[1])), w.node(idx(op[2])))
		}
		return len(got) <= len(want)
	})
	ok := len(got) == len(want) && ret == nil
	for i := 0; ok && i < len(got); i++ {
		ok = got[i] == w.nodes[want[i]]
	}
	name := func(i int) string { return string(letter(i)) }
	var key strings.Builder
	for _, n := range want {
		key.WriteString(name(n))
	}
	o.Outcome(key.String(), fmt.Sprint(l))
	if !ok {
		var names []string
		for _, m := range got {
			names = append(names, w.name(m))
		}
		return fmt.Errorf("with edits %v during the visits, the iteration visits %v and returns %s, want %s", edits, names, w.name(ret), key.String())
	}
	w.l = l
	return w.check()
}

func exploreIterEdits(kQ, kT int) func(x *core.X) {
	return func(x *core.X) {
		maxK := kQ
		if x.Tier == "thorough" {
			maxK = kT
		}
		x.Pool(func(submit func([]byte) bool) {
			for k := 1; k <= maxK; k++ {
				ops := allOps(k)
				partitions(k, k, nil, func(sz []int) {
					for a := 0; a < k; a++ {
						for _, dir := range "><" {
							head := sizesText(sz) + "|" + string(dir) + string(letter(a)) + "|"
							for j := 0; j < k; j++ {
								for _, op := range ops {
									e := strconv.Itoa(j) + op
									if !submit([]byte(head + e)) {
										return
									}
									if k > 3 && x.Tier != "thorough" || k > 4 {
										continue
									}
									for j2 := j + 1; j2 < k+2; j2++ {
										for _, op2 := range ops {
											if !submit([]byte(head + e + ";" + strconv.Itoa(j2) + op2)) {
												return
											}
										}
									}
								}
							}
						}
					}
				})
			}
		})
	}
}

// partitions yields the integer partitions of k, largest part first.
func partitions(k, maxPart int, pre []int, fn func([]int)) {
	if k == 0 {
		fn(pre)
		return
	}
	for p := min(k, maxPart); p >= 1; p-- {
		partitions(k-p, p, append(pre[:len(pre):len(pre)], p), fn)
	}
}

func sizesText(sz []int) string {
	var s []string
	for _, n := range sz {
		s = append(s, strconv.Itoa(n))
	}
	return strings.Join(s, ",")
}

// allOps are the edits over k nodes, nil included.
func allOps(k int) (ops []string) {
	for _, op := range "NPXY" {
		for n := -1; n < k; n++ {
			for m := -1; m < k; m++ {
				ops = append(ops, string([]byte{byte(op), letter(n), letter(m)}))
			}
		}
	}
	for _, op := range "tTrRI" {
		for n := -1; n < k; n++ {
			ops = append(ops, string([]byte{byte(op), letter(n), '.'}))
		}
	}
	return
}

// exploreShapes: every set of chains up to k nodes (up to renaming), every
// attribute scheme, every single edit.
func exploreShapes(maxQ, maxT int) func(x *core.X) {
	return func(x *core.X) {
		maxK := maxQ
		if x.Tier == "thorough" {
			maxK = maxT
		}
		x.Pool(func(submit func([]byte) bool) {
			for k := 1; k <= maxK; k++ {
				ops := append([]string{""}, allOps(k)...)
				partitions(k, k, nil, func(sz []int) {
					x.AddStates(1)
					for sch := 0; sch < nAttr; sch++ {
						for _, op := range ops {
							if x.Stopped() || !submit([]byte(sizesText(sz)+"|"+strconv.Itoa(sch)+"|"+op)) {
								return
							}
						}
					}
				})
			}
		})
	}
}

// exploreHistories: every sequence of edits up to a depth on live nodes.
func exploreHistories(kQ, depthQ, kT, depthT int) func(x *core.X) {
	return func(x *core.X) {
		k, depth := kQ, depthQ
		if x.Tier == "thorough" {
			k, depth = kT, depthT
		}
		var ops []string // nil arguments are covered by the shapes
		for _, op := range allOps(k) {
			if op[1] != '.' && (op[2] != '.' || !strings.Contains("NPXY", op[:1])) {
				ops = append(ops, op)
			}
		}
		x.Pool(func(submit func([]byte) bool) {
			partitions(k, k, nil, func(sz []int) {
				head := sizesText(sz) + "|0|"
				l := newWorld(sz, 0).l
				var rec func(l lists, pre string, d int) bool
				rec = func(l lists, pre string, d int) bool {
					for _, op := range ops {
						s, _, err := l.step(op[0], idx(op[1]), idx(op[2]))
						if err != nil {
							continue // single unspecified edits are covered by the shapes
						}
						if d == 1 {
							if !submit([]byte(head + pre + op)) {
								return false
							}
						} else if !rec(s, pre+op+";", d-1) {
							return false
						}
					}
					return true
				}
				rec(l, "", depth)
			})
		})
	}
}

// exploreStates is a breadth-first search over all reachable labelled states,
// with every transition replayed on real nodes that took the whole path there.
func exploreStates(kQ, kT int) func(x *core.X) {
	return func(x *core.X) {
		k := kQ
		if x.Tier == "thorough" {
			k = kT
		}
		ops := allOps(k)
		type st struct {
			l    lists
			path string
		}
		key := func(l lists) string {
			b := make([]byte, k)
			for i := range b {
				b[i] = letter(l.next(i))
			}
			return string(b)
		}
		ones := make([]int, k)
		for i := range ones {
			ones[i] = 1
		}
		head := sizesText(ones) + "|0|"
		start := st{l: newWorld(ones, 0).l}
		seen := map[string]bool{key(start.l): true}
		queue := []st{start}
		x.Pool(func(submit func([]byte) bool) {
			for len(queue) > 0 {
				s := queue[0]
				queue = queue[1:]
				x.AddStates(1)
				for _, op := range ops {
					t, _, err := s.l.step(op[0], idx(op[1]), idx(op[2]))
					if err != nil {
						continue
					}
					if !submit([]byte(head + s.path + op)) {
						return
					}
					if kk := key(t); !seen[kk] {
						seen[kk] = true
						queue = append(queue, st{t, s.path + op + ";"})
					}
				}
			}
		})
	}
}

// ---- C09: copies ---------------------------------------------------------------

// runCopy: "sizes|scheme|Cxy;op": copies node x (y: '0' alone, '1' with its
// relatives) and then applies op to the copies; originals must not change, and
// the other way round.
func runCopy(c []byte, o *core.Obs) error {
	sizes, scheme, ops := parseNodeCase(c)
	w := newWorld(sizes, scheme)
	at := idx(ops[0][1])
	deep := ops[0][2] == '1'
	var cp *goast.Node
	switch ops[0][2] {
	case '1':
		cp = w.nodes[at].Copy(true)
	case '0':
		cp = w.nodes[at].Copy(false)
	default:
		cp = w.nodes[at].Copy()
	}
	if err := w.check(); err != nil {
		return fmt.Errorf("Copy changed the original: %w", err)
	}
	ci, i := w.l.find(at)
	want := []int{at}
	if deep {
		want = w.l[ci]
	} else {
		i = 0
	}
	if cp == nil {
		return errors.New("the copy is nil")
	}
	// the copy has the same list, values and position, made of new nodes
	v := &world{}
	first := cp
	for k := 0; k < i; k++ {
		first = first.Prev()
		if first == nil {
			return fmt.Errorf("the copy of node %c has %d nodes before it, want %d", 'a'+at, k, i)
		}
	}
	if first.Prev() != nil {
		return fmt.Errorf("the copy of node %c has too many nodes before it, want %d", 'a'+at, i)
	}
	n := first
	for k, orig := range want {
		if n == nil {
			return fmt.Errorf("the copy of node %c ends after %d nodes, want %d", 'a'+at, k, len(want))
		}
		for j, on := range w.nodes {
			if on == n {
				return fmt.Errorf("the copy of node %c holds the original node %c", 'a'+at, 'a'+j)
			}
		}
		v.nodes = append(v.nodes, n)
		v.want = append(v.want, w.want[orig])
		n = n.Next()
	}
	if n != nil {
		return fmt.Errorf("the copy of node %c has more than %d nodes", 'a'+at, len(want))
	}
	all := make([]int, len(want))
	for k := range all {
		all[k] = k
	}
	v.l = lists{all}
	if err := v.check(); err != nil {
		return fmt.Errorf("the copy: %w", err)
	}
	o.Outcome(string(c))
	for k, op := range ops[1:] {
		t, other := v, w
		if op[0] == 'o' { // edit the originals
			t, other = w, v
		}
		op = op[1:]
		a, b := idx(op[1]), idx(op[2])
		if a >= len(t.nodes) || b >= len(t.nodes) {
			return core.Skip
		}
		switch op[0] {
		case 's':
			t.nodes[a].SetText("changed")
			t.nodes[a].SetKind(kind.Method)
			t.want[a].text, t.want[a].kind = "changed", kind.Method
		default:
			s, _, err := t.l.step(op[0], a, b)
			if err != nil {
				return core.Skip
			}
			realStep(op[0], t.node(a), t.node(b))
			t.l = s
		}
		if err := t.check(); err != nil {
			return fmt.Errorf("step %d: %w", k+1, err)
		}
		if err := other.check(); err != nil {
			return fmt.Errorf("step %d on one side changed the other side: %w", k+1, err)
		}
	}
	return nil
}

func exploreCopies(maxQ, maxT int) func(x *core.X) {
	return func(x *core.X) {
		maxK := maxQ
		if x.Tier == "thorough" {
			maxK = maxT
		}
		x.Pool(func(submit func([]byte) bool) {
			for k := 1; k <= maxK; k++ {
				var edits []string
				for a := 0; a < k; a++ {
					edits = append(edits, string([]byte{'s', letter(a), '.'}))
				}
				edits = append(edits, allOps(k)...)
				partitions(k, k, nil, func(sz []int) {
					for sch := 0; sch < nAttr; sch++ {
						for at := 0; at < k; at++ {
							for _, m := range "01d" {
								head := sizesText(sz) + "|" + strconv.Itoa(sch) + "|C" + string(letter(at)) + string(m)
								if x.Stopped() || !submit([]byte(head)) {
									return
								}
								if sch != 0 || m == 'd' {
									continue
								}
								for _, side := range "oc" {
									for _, e := range edits {
										if e[1] == '.' {
											continue
										}
										if !submit([]byte(head + ";" + string(side) + e)) {
											return
										}
									}
								}
							}
						}
					}
				})
			}
		})
	}
}

func init() {
	reg("C08", "every case is a set of chains of real nodes and a sequence of edits; each edit runs on the real nodes and on the list model, and links, returned nodes, values and all read accesses are compared. Non-trivial: distinct resulting states.",
		[]string{"edits whose result the API does not specify are outside of the quantifier: a nil receiver with a node to insert, and a replacement that would close a list to a ring"},
		[]*core.Space{
			{Name: "states", About: "breadth-first search over every reachable labelled state of 5 (thorough: 6) nodes; every edit in every state, on real nodes that took the path there", Explore: exploreStates(5, 6), Run: runNodeEdit},
			{Name: "shapes", About: "every set of chains of up to 9 (thorough: 12) nodes up to renaming, 5 attribute schemes, every single edit incl. nil arguments", Explore: exploreShapes(9, 12), Run: runNodeEdit},
			{Name: "histories", About: "every sequence of 3 edits on live sets of chains of 4 (thorough: 5) nodes", Explore: exploreHistories(4, 3, 5, 3), Run: runNodeEdit},
			{Name: "iterations", About: "every iteration over every set of chains of up to 6 (thorough: 8) nodes with every edit at every visit, and with every two edits over up to 3 (thorough: 4) nodes", Explore: exploreIterEdits(6, 8), Run: runIterEdit},
		})
	reg("C09", "every case is a set of chains (or a parsed program), a copy of one node, scope or ast, and an edit of one side; values, links and positions of the copy are compared with the original's, no node is shared, and an edit of one side must leave the other as it was. Non-trivial: distinct cases by result.",
		nil,
		[]*core.Space{
			{Name: "nodes", About: "every set of chains of up to 6 (thorough: 8) nodes, 5 attribute schemes, every copied node, alone and with its relatives, and every single edit of either side", Explore: exploreCopies(6, 8), Run: runCopy},
			{Name: "lengths", About: "chains of every length up to 300 (thorough: 2000) and 1000, 10000, 100000, copied at every position up to 40, else at 5 positions", Explore: exploreCopyLengths, Run: runCopyLength},
			{Name: "huge", About: "a chain of ten million nodes, copied at both ends", Serial: true, HangAfter: 200 * time.Second, Run: runCopyLength, Explore: func(x *core.X) {
				_ = x.Exec([]byte("10000000|0")) && x.Exec([]byte("10000000|9999999"))
			}},
			{Name: "scopes", About: "scopes and asts of the programs of the file grammar: copy, compare, edit every node of one side", Gen: genFile(true), Quick: 2, Thorough: 3, Run: runScopeCopy},
			corpus(3000, 20000, runScopeCopy),
			{Name: "made-scopes", About: "scopes made of every chain of up to 5 nodes at every position, every scope kind and line", Gen: genMadeScope, Run: runMadeScope},
		})
}

func exploreCopyLengths(x *core.X) {
	maxL := 300
	if x.Tier == "thorough" {
		maxL = 2000
	}
	var ls []int
	for l := 1; l <= maxL; l++ {
		ls = append(ls, l)
	}
	ls = append(ls, 1000, 4096, 10000, 100000)
	x.Pool(func(submit func([]byte) bool) {
		for _, l := range ls {
			at := []int{0, 1, l / 2, l - 2, l - 1}
			if l <= 40 {
				at = nil
				for i := 0; i < l; i++ {
					at = append(at, i)
				}
			}
			for _, a := range at {
				if a >= 0 && a < l && !submit([]byte(fmt.Sprintf("%d|%d", l, a))) {
					return
				}
			}
		}
	})
}

func runCopyLength(c []byte, o *core.Obs) error {
	var l, at int
	if _, err := fmt.Sscanf(string(c), "%d|%d", &l, &at); err != nil {
		return core.Internal{Err: err}
	}
	text := strconv.Itoa
	if l > 1000000 {
		text = func(i int) string { return strconv.Itoa(i % 100) } // not allocated
	}
	nodes := make([]*goast.Node, l)
	for i := range nodes {
		nodes[i] = goast.NewNode(i, text(i), allKinds[i%len(allKinds)])
		if i > 0 {
			nodes[i-1].InsertNext(nodes[i])
		}
	}
	cp := nodes[at].Copy(true)
	o.Outcome(string(c))
	cmp := func(cp *goast.Node, i int) error {
		if cp == nil || cp == nodes[i] || cp.Line() != i || cp.Text() != text(i) || cp.Kind() != allKinds[i%len(allKinds)] {
			return fmt.Errorf("chain of %d copied at %d: node %d of the copy is wrong", l, at, i)
		}
		if nodes[i].Line() != i || (i > 0 && nodes[i].Prev() != nodes[i-1]) || (i < l-1 && nodes[i].Next() != nodes[i+1]) {
			return fmt.Errorf("chain of %d copied at %d: the original changed at %d", l, at, i)
		}
		return nil
	}
	n := cp
	for i := at; i < l; i++ {
		if err := cmp(n, i); err != nil {
			return err
		}
		if nn := n.Next(); nn != nil && nn.Prev() != n {
			return fmt.Errorf("chain of %d copied at %d: links of the copy at %d are not symmetric", l, at, i)
		}
		n = n.Next()
	}
	if n != nil {
		return fmt.Errorf("chain of %d copied at %d: the copy is longer", l, at)
	}
	n = cp
	for i := at; i >= 0; i-- {
		if err := cmp(n, i); err != nil {
			return err
		}
		n = n.Prev()
	}
	if n != nil {
		return fmt.Errorf("chain of %d copied at %d: the copy has more nodes before", l, at)
	}
	return nil
}

// chainOf lists the chain that a node is in, and the node's position.
func chainOf(n *goast.Node) (ns []*goast.Node, at int) {
	f := n
	for f.Prev() != nil {
		f = f.Prev()
		at++
	}
	for ; f != nil; f = f.Next() {
		ns = append(ns, f)
	}
	return
}

func chainDump(n *goast.Node) string {
	ns, at := chainOf(n)
	var b strings.Builder
	fmt.Fprintf(&b, "at %d:", at)
	for _, m := range ns {
		fmt.Fprintf(&b, " %d/%q/%v", m.Line(), m.Text(), m.Kind())
	}
	return b.String()
}

func scopeDump(s goast.Scope) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v %d %q ", s.Kind(), s.Line(), s.Description())
	for _, g := range getters {
		n, ok := g.fn(s)
		if !ok {
			n = ""
		}
		fmt.Fprintf(&b, "%q,%v ", n, ok)
	}
	b.WriteString(chainDump(s.Node()))
	return b.String()
}

func scopesDump(ss []goast.Scope) string {
	var b strings.Builder
	for _, s := range ss {
		b.WriteString(scopeDump(s) + "\n")
	}
	return b.String()
}

// scramble edits every node of a scope, and takes its chain apart.
func scramble(s goast.Scope) {
	ns, _ := chainOf(s.Node())
	for i, n := range ns {
		n.SetText("~" + strconv.Itoa(i))
		n.SetKind(kind.Method)
	}
	for i, n := range ns {
		if i%2 == 0 {
			n.TakeNext()
		} else {
			n.RemovePrev()
		}
	}
}

func sameNodes(a, b []goast.Scope) bool {
	set := map[*goast.Node]bool{}
	for _, s := range a {
		ns, _ := chainOf(s.Node())
		for _, n := range ns {
			set[n] = true
		}
	}
	for _, s := range b {
		ns, _ := chainOf(s.Node())
		for _, n := range ns {
			if set[n] {
				return true
			}
		}
	}
	return false
}

func runScopeCopy(c []byte, o *core.Obs) error {
	p, err := load(c)
	if err != nil {
		return err
	}
	scs, err := goast.ParseScope(0, append([]byte{}, p.src...))
	if err != nil {
		return err
	}
	before := scopesDump(scs)
	o.Outcome(before)
	var cps, cps2 []goast.Scope
	for _, s := range scs {
		cps = append(cps, s.Copy())
		cps2 = append(cps2, s.Copy())
	}
	if got := scopesDump(cps); got != before {
		return fmt.Errorf("the copies of the scopes differ:\n got %s\nwant %s", got, before)
	}
	if sameNodes(scs, cps) || sameNodes(cps, cps2) {
		return errors.New("a copied scope shares a node with its original")
	}
	for _, s := range cps {
		scramble(s)
	}
	if got := scopesDump(scs); got != before {
		return fmt.Errorf("editing the copies changed the original:\n got %s\nwant %s", got, before)
	}
	a, err := goast.NewAst(scs...)
	if err != nil {
		return core.Skip // the package clause is behind a comment on its line
	}
	b := a.Copy()
	if got := scopesDump(b.Scope()); got != before {
		return fmt.Errorf("the copy of the ast differs:\n got %s\nwant %s", got, before)
	}
	if sameNodes(a.Scope(), b.Scope()) {
		return errors.New("a copied ast shares a node with its original")
	}
	n1, e1 := a.Package()
	n2, e2 := b.Package()
	if n1 != n2 || e1 != e2 || a.Description() != b.Description() || a.File() != b.File() || a.Dir() != b.Dir() || a.Filename() != b.Filename() || a.Ext() != b.Ext() {
		return errors.New("the copy of the ast has another package, description or file")
	}
	for _, s := range a.Scope() {
		scramble(s)
	}
	for i, s := range [][]goast.Scope{b.Scope(), cps2} {
		if got := scopesDump(s); got != before {
			return fmt.Errorf("editing the original changed the copy (%d):\n got %s\nwant %s", i, got, before)
		}
	}
	return nil
}

func genMadeScope(g *core.G) []byte {
	k := 1 + g.All(5)
	return []byte(fmt.Sprintf("%d %d %d %d %d", k, g.All(k), g.All(nAttr), g.All(len(scopeKinds)), []int{0, 1, -1, 7}[g.All(4)]))
}

var scopeKinds = []scope.Kind{scope.Unknown, scope.Package, scope.Comment, scope.InnerComment, scope.Import, scope.Variable, scope.Const, scope.Type, scope.Func, "odd"}

func runMadeScope(c []byte, o *core.Obs) error {
	var k, at, sch, sk, line int
	if _, err := fmt.Sscan(string(c), &k, &at, &sch, &sk, &line); err != nil {
		return core.Internal{Err: err}
	}
	w := newWorld([]int{k}, sch)
	s := goast.NewScope(line, scopeKinds[sk], w.nodes[at])
	if s.Node() != w.nodes[at] || s.Kind() != scopeKinds[sk] || s.Line() != line+1 {
		return fmt.Errorf("NewScope(%d, %q, node) has line %d, kind %q", line, scopeKinds[sk], s.Line(), s.Kind())
	}
	before := scopeDump(s)
	o.Outcome(before)
	cp := s.Copy()
	if got := scopeDump(cp); got != before {
		return fmt.Errorf("the copy differs:\n got %s\nwant %s", got, before)
	}
	if sameNodes([]goast.Scope{s}, []goast.Scope{cp}) {
		return errors.New("the copy shares a node")
	}
	scramble(cp)
	if got := scopeDump(s); got != before {
		return fmt.Errorf("editing the copy changed the original:\n got %s\nwant %s", got, before)
	}
	cp = s.Copy()
	scramble(s)
	if got := scopeDump(cp); got != before {
		return fmt.Errorf("editing the original changed the copy:\n got %s\nwant %s", got, before)
	}
	return nil
}
