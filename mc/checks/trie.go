//go:build verif_trie

package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/yanun0323/goast"

	"verifmc/core"
)

// ---- C17 -----------------------------------------------------------------------
//
// Model of the prefix tree: a prefix-closed map from byte strings to values.

var (
	trieTexts = []string{"", "a", "b", "ab", "ba", "aa", "abc", "é", "日", "\xff", "\xc3", "aé"}
	trieKeys  = []byte{'a', 'b', 0xa9, 0}
	trieNodes = []string{"", "a", "ab", "\xc3"}
	trieAsked = func() []string {
		out := append(affixOf([]string{"a", "b", "c", "\xc3", "\xa9", "\xff", "\x00"}, 3), "日", "日a", "\xa5\x97", "\xe6\x97", "aé", "aéa", "abca", "\x97\xa5\xe6")
		return append(out, "\xe6", "\xe6\xa5", "e", "abcd")
	}()
)

func affixOf(al []string, n int) []string {
	out, last := []string{""}, []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range last {
			for _, a := range al {
				next = append(next, s+a)
			}
		}
		out, last = append(out, next...), next
	}
	return out
}

func reversed(s string) string {
	b := []byte(s)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

type finder interface {
	FindText(string) (int, bool)
	FindTextReversely(string) (int, bool)
	FindByte([]byte) (int, bool)
	FindByteReversely([]byte) (int, bool)
	Value() int
}

func nodesLike[T any](T) []T { return nil }

// sameTrie compares every answer of t with the model below the path.
func sameTrie(t finder, m map[string]int, at string, asked []string) error {
	if v := t.Value(); v != m[at] {
		return fmt.Errorf("the value of %q is %d, want %d", at, v, m[at])
	}
	for _, s := range asked {
		w, ok := m[at+s]
		r := reversed(s)
		for i, find := range []func() (int, bool){
			func() (int, bool) { return t.FindText(s) },
			func() (int, bool) { return t.FindTextReversely(r) },
			func() (int, bool) { return t.FindByte([]byte(s)) },
			func() (int, bool) { return t.FindByteReversely([]byte(r)) },
		} {
			if v, found := find(); found != ok || v != w {
				return fmt.Errorf("below %q: %s for %q yields %d, %v, want %d, %v", at, []string{"FindText", "FindTextReversely", "FindByte", "FindByteReversely"}[i], s, v, found, w, ok)
			}
		}
	}
	return nil
}

// runTrie: "map\x1eop\x1eop...": texts of the map joined by \x1d; ops
// "A" value text, "I" value key path, "H" value text (on a kept node).
func runTrie(c []byte, o *core.Obs) error {
	ops := strings.Split(string(c), "\x1e")
	set, m := map[string]int{}, map[string]int{"": 0}
	put := func(s string, v int) {
		for i := range len(s) {
			m[s[:i]] += 0
		}
		m[s] = v
	}
	if ops[0] != "" {
		for i, s := range strings.Split(ops[0], "\x1d") {
			set[s] = i + 1
			put(s, i+1)
		}
	}
	t := goast.VerifTrie(set)
	missing, ok := t.Next(0xfe)
	if ok || missing != nil {
		return fmt.Errorf("Next of an absent key yields %v, %v", missing, ok)
	}
	paths, kept := []string{}, nodesLike(missing)
	for k, op := range ops[1:] {
		o.AddStates(1)
		o.AddTransitions(1)
		v := int(op[1] - '0')
		if op[0] == 'A' {
			n := t.AddText(op[2:], v)
			put(op[2:], v)
			if n == nil {
				return fmt.Errorf("step %d: AddText(%q) returned nil", k, op[2:])
			}
			paths, kept = append(paths, op[2:]), append(kept, n)
		} else if op[0] == 'H' { // on the first node that a call returned
			if len(kept) == 0 {
				return core.Skip
			}
			n := kept[0].AddText(op[2:], v)
			put(paths[0]+op[2:], v)
			if n == nil {
				return fmt.Errorf("step %d: AddText(%q) below %q returned nil", k, op[2:], paths[0])
			}
			paths, kept = append(paths, paths[0]+op[2:]), append(kept, n)
		} else {
			key, path := op[2], op[3:]
			if _, ok := m[path]; !ok {
				return core.Skip
			}
			n := missing
			if path == "" {
				n = t.Insert(key, v)
			} else {
				at, _ := t.Next(path[0])
				for _, b := range []byte(path[1:]) {
					at, _ = at.Next(b)
				}
				n = at.Insert(key, v)
			}
			put(path+string([]byte{key}), v)
			if n == nil {
				return fmt.Errorf("step %d: Insert(%q) below %q returned nil", k, key, path)
			}
			paths, kept = append(paths, path+string([]byte{key})), append(kept, n)
		}
	}
	o.Outcome(fmt.Sprint(m))
	if err := sameTrie(t, m, "", trieAsked); err != nil {
		return err
	}
	// the nodes that the calls returned, and those that Next finds, are the tree's
	for i, n := range kept {
		p := paths[i]
		if err := sameTrie(n, m, p, trieAsked[:60]); err != nil {
			return fmt.Errorf("the node of %q: %w", p, err)
		}
	}
	for p := range m {
		if p == "" {
			continue
		}
		n, ok := t.Next(p[0])
		for _, b := range []byte(p[1:]) {
			n, ok = n.Next(b)
		}
		if !ok || n == nil || n.Value() != m[p] {
			return fmt.Errorf("Next does not lead to %q", p)
		}
	}
	// what is not there takes nothing and has nothing
	if n := missing.AddText("a", 1); n != nil {
		return fmt.Errorf("AddText on a nil tree returned a node")
	}
	if n := missing.Insert('a', 1); n != nil {
		return fmt.Errorf("Insert on a nil tree returned a node")
	}
	if n, ok := missing.Next('a'); ok || n != nil {
		return fmt.Errorf("Next on a nil tree found a node")
	}
	return sameTrie(missing, nil, "", []string{"", "a"})
}

func exploreTrie(x *core.X) {
	n := 3
	if x.Tier == "thorough" {
		n = 4
	}
	var ops []string
	for v := '0'; v <= '2'; v++ {
		for _, s := range trieTexts {
			ops = append(ops, "A"+string(v)+s)
		}
		for _, s := range []string{"", "a", "b", "\xa9"} {
			ops = append(ops, "H"+string(v)+s)
		}
		for _, p := range trieNodes {
			for _, k := range trieKeys {
				ops = append(ops, "I"+string(v)+string([]byte{k})+p)
			}
		}
	}
	x.Pool(func(submit func([]byte) bool) {
		var rec func(c string, n int) bool
		rec = func(c string, n int) bool {
			if !submit([]byte(c)) {
				return false
			}
			if n == 0 {
				return true
			}
			for _, op := range ops {
				if !rec(c+"\x1e"+op, n-1) {
					return false
				}
			}
			return true
		}
		if !rec("", n) {
			return
		}
		// maps of up to three texts, then histories of one call less
		for i, a := range trieTexts {
			if a != "" && !rec(a, n-2) {
				return
			}
			for j, b := range trieTexts[:i] {
				if !rec(a+"\x1d"+b, n-2) {
					return
				}
				for _, d := range trieTexts[:j] {
					if !rec(a+"\x1d"+b+"\x1d"+d, n-2) {
						return
					}
				}
			}
		}
	})
}

// runTrieBytes: the case is one text; it is found, its neighbours are not, and
// the text that it begins with keeps its value.
func runTrieBytes(c []byte, o *core.Obs) error {
	s := string(c)
	o.Outcome(s)
	for _, order := range [][]string{{s, s[:len(s)/2]}, {s[:len(s)/2], s}} {
		t := goast.VerifTrie(nil)
		m := map[string]int{}
		for i := range len(s) + 1 {
			m[s[:i]] = 0
		}
		for i, a := range order {
			t.AddText(a, i+1)
			m[a] = i + 1
		}
		asked := []string{s, s + "a", s + "\x00", s[:len(s)/2], reversed(s)}
		if len(s) > 0 {
			last := []byte(s)
			last[len(last)-1] ^= 1
			first := []byte(s)
			first[0] ^= 0x80
			asked = append(asked, s[:len(s)-1], s[1:], string(last), string(first))
		}
		keep := append([]byte{}, c...)
		if err := sameTrie(t, m, "", asked); err != nil {
			return err
		}
		t.FindByte(c)
		t.FindByteReversely(c)
		if !bytes.Equal(keep, c) {
			return fmt.Errorf("a lookup changed the text")
		}
	}
	return nil
}

func exploreTrieBytes(x *core.X) {
	x.Pool(func(submit func([]byte) bool) {
		submit(nil)
		for a := 0; a < 256; a++ {
			if !submit([]byte{byte(a)}) {
				return
			}
			for b := 0; b < 256; b++ {
				if !submit([]byte{byte(a), byte(b)}) {
					return
				}
			}
		}
		max := 300
		if x.Tier == "thorough" {
			max = 2000
		}
		for n := 3; n <= max; n++ {
			for _, u := range []string{"a", "ab", "é", "日x", "\xff\x00"} {
				if !submit([]byte(strings.Repeat(u, n)[:n])) {
					return
				}
			}
		}
	})
}

func init() {
	core.Register(&core.Prop{ID: "C17", Level: "model_checking",
		Rule:   "every history of calls up to the bound is run on the real tree, and every answer for every text of an alphabet is compared with a map; a case counts as non-trivial once per distinct tree",
		Assume: []string{"the prefix tree is unexported: the explorer reaches it through one exported constructor that the build overlays (mc/overlay/trie.go.txt)"},
		Spaces: []*core.Space{
			{Name: "histories", About: "every history of up to 3 (thorough: 4) of 96 calls of AddText and Insert, on the tree, its nodes and nodes that calls returned, and of up to 1 (2) on the tree of every map of up to 3 of 12 texts; 400 texts asked in 4 ways, at the root and at every returned node", Explore: exploreTrie, Run: runTrie},
			{Name: "bytes", About: "every text of up to 2 bytes and 5 families up to 300 (thorough: 2000), and the half of it, in both orders", Explore: exploreTrieBytes, Run: runTrieBytes},
		}})
}
