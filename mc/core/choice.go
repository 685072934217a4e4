// Package core is the stateless explorer: it enumerates every execution of a
// choice-driven generator within stated bounds, runs the real code on each,
// and reports what was covered.
package core

import "fmt"

// G is the source of nondeterminism handed to a generator. Every decision the
// generator takes goes through it, so the explorer owns all of them.
//
// Pick(n) is a deviation point: alternative 0 is the default, and any other
// alternative costs one deviation. All(n) is a free point: every alternative is
// explored regardless of the deviation bound.
type G struct {
	prefix []int
	trace  []point
	dev    int
	bound  int
	over   bool
}

type point struct {
	n, chosen int
	cost      int // 0 for a free point, 1 for a deviation point
	devBefore int
}

func (g *G) choose(n, cost int) int {
	if n <= 0 {
		panic(fmt.Sprintf("core: choice with %d alternatives", n))
	}
	i := len(g.trace)
	c := 0
	if i < len(g.prefix) {
		c = g.prefix[i]
		if c >= n {
			// A prefix that no longer fits means that the generator is not
			// deterministic; this is an error of the machinery, never ignored.
			panic(fmt.Sprintf("core: replay divergence at point %d: choice %d of %d", i, c, n))
		}
	}
	g.trace = append(g.trace, point{n: n, chosen: c, cost: cost, devBefore: g.dev})
	if c != 0 {
		g.dev += cost
	}
	return c
}

// Pick is a deviation point.
func (g *G) Pick(n int) int { return g.choose(n, 1) }

// All is a free point.
func (g *G) All(n int) int { return g.choose(n, 0) }

// PickS and AllS choose a string.
func (g *G) PickS(s ...string) string { return s[g.Pick(len(s))] }
func (g *G) AllS(s ...string) string  { return s[g.All(len(s))] }

// Bool is a deviation point whose default is false.
func (g *G) Bool() bool { return g.Pick(2) == 1 }

// TreeStats counts the part of the choice tree visited.
type TreeStats struct {
	Nodes       int64 // choice points (states of the environment) visited
	Transitions int64 // alternatives taken
	Leaves      int64 // complete executions
	Completed   bool
}

// Explore calls gen once for every choice sequence with at most bound
// deviations, and emit with the generated case. With onlyExact, leaves with
// fewer than bound deviations are not emitted (they were at a lower bound).
// emit returning false stops the exploration.
func Explore(bound int, onlyExact bool, gen func(*G) []byte, emit func(c []byte, choices []int) bool) TreeStats {
	var st TreeStats
	prefix := []int{}
	diverge := 0
	for {
		g := &G{prefix: prefix, bound: bound}
		c := gen(g)
		if len(g.trace) < len(prefix) {
			panic("core: replay divergence: the generator consumed fewer choices than its prefix")
		}
		st.Nodes += int64(len(g.trace) - diverge)
		st.Transitions += int64(len(g.trace) - diverge)
		if diverge > 0 {
			st.Transitions++
			// the node at diverge-1 was already counted; the edge is new
		}
		if c != nil && (!onlyExact || g.dev == bound) {
			st.Leaves++
			ch := make([]int, len(g.trace))
			for i, p := range g.trace {
				ch[i] = p.chosen
			}
			if !emit(c, ch) {
				return st
			}
		}
		// advance
		j := len(g.trace) - 1
		for ; j >= 0; j-- {
			p := g.trace[j]
			if p.chosen+1 < p.n && p.devBefore+p.cost <= bound {
				break
			}
		}
		if j < 0 {
			st.Completed = true
			return st
		}
		prefix = make([]int, j+1)
		for i := 0; i < j; i++ {
			prefix[i] = g.trace[i].chosen
		}
		prefix[j] = g.trace[j].chosen + 1
		diverge = j + 1
	}
}
