package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/helper"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/ref"
	"verifmc/sched"
)

// ---- C14: results depend on the inputs alone -------------------------------------

// runBuffer: the parsed buffer has spare capacity and surroundings; none of it is
// written, and the result holds no reference to it.
func runBuffer(c []byte, o *core.Obs) error {
	const pad = 64
	arena := bytes.Repeat([]byte{0xa5}, pad+len(c)+pad)
	copy(arena[pad:], c)
	want := append([]byte{}, arena...)
	buf := arena[pad : pad+len(c)] // its capacity reaches to the end of the arena
	scs, err := goast.ParseScope(0, buf)
	if err != nil {
		return fmt.Errorf("ParseScope returned an error: %v", err)
	}
	if !bytes.Equal(arena, want) {
		i := 0
		for arena[i] == want[i] {
			i++
		}
		return fmt.Errorf("parsing wrote byte %d of the input (length %d, capacity %d): %q became %q", i-pad, len(buf), cap(buf), want[i], arena[i])
	}
	vs, err := ref.View(scs)
	if err != nil {
		return err
	}
	before := ref.Dump(vs)
	o.Outcome(before)
	for i := range arena {
		arena[i] = '~'
	}
	if vs, err = ref.View(scs); err != nil {
		return err
	}
	if got := ref.Dump(vs); got != before {
		return fmt.Errorf("overwriting the input after parsing changed the scopes:\n got %s\nwant %s", got, before)
	}
	// and the other way round: edits of the scopes do not reach the buffer
	arena2 := append([]byte{}, want...)
	scs, err = goast.ParseScope(0, arena2[pad:pad+len(c)])
	if err != nil {
		return err
	}
	for _, s := range scs {
		for n := s.Node(); n != nil; n = n.Next() {
			n.SetText(strings.Repeat("~", len(n.Text())))
		}
	}
	if !bytes.Equal(arena2, want) {
		return errors.New("editing the scopes changed the input")
	}
	return nil
}

func genBufferProgram(g *core.G) []byte { return []byte((&gen.P{G: g, Comments: true}).File()) }

// ---- histories

// histTexts differ in one detail from each other, or leave the parser in the
// middle of something.
var histTexts = []string{
	"package p\n\nvar x int\n",
	"package p\n\nvar y int\n",
	"package p\n\nfunc f(a int) error {\n\treturn nil\n}\n",
	"package p\n\nfunc f(b int) error {\n\treturn nil\n}\n",
	"package p\n\nfunc f(a int) error {\n\treturn nil\n}\n\n",
	"package p\n\nvar x = \"abc",
	"package p\n\nvar x = `abc\n",
	"package p\n\n/* abc\nvar x int\n",
	"package p\n\nfunc (r *T) m(a, b func(int) T) (c []T) {\n\tx := 'a'\n}\n",
	"package p\n\ntype T struct {\n\tA, B int\n\tE\n}\n",
	"package p\n\ntype T interface {\n\tM(a int) T\n\tE\n}\n",
	"package q\n\n// c\nconst x = 1 // d\n",
	"package p\r\n\r\nvar x int\r\n",
	"",
	"func f({[",
	"package p\n\nfunc f() {\n" + strings.Repeat("\tx = f(a, b, \"c\") // d\n", 40) + "}\n",
}

// A history is a sequence of steps, each a letter for what is done and one for
// the text it is done with:
// p parse and keep, l parse with start line 7, s parse, take the result apart and
// drop it, d parse with debug output on, n a chain from the words of the text,
// a make an ast of it and copy it.
const histOps = "plsdna"

func histBase() (map[string]string, error) {
	if b := histBaseline; b != nil {
		return b, nil
	}
	// what each step yields in a process that did nothing before
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	base := map[string]string{}
	for _, op := range histOps {
		for i := range histTexts {
			step := string(op) + string(rune('a'+i))
			cmd := exec.Command(self, "fresh", step)
			out, err := cmd.Output()
			if err != nil {
				return nil, fmt.Errorf("a fresh process cannot do %s: %v", step, err)
			}
			var s string
			if err := json.Unmarshal(out, &s); err != nil {
				return nil, err
			}
			base[step] = s
		}
	}
	histBaseline = base
	return base, nil
}

var histBaseline map[string]string

// Fresh does one step in a process of its own, for the baseline.
func Fresh(step string) int {
	real := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_RDWR, 0)
	s, _, err := histStep(step)
	if err != nil {
		s = "error: " + err.Error()
	}
	b, _ := json.Marshal(s)
	_, _ = real.Write(b)
	return 0
}

// histStep does one step; again tells what a kept result says now.
func histStep(step string) (dump string, again func() string, err error) {
	defer func() {
		if r := recover(); r != nil {
			dump, again, err = "", nil, fmt.Errorf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	text := histTexts[step[1]-'a']
	line := 0
	switch step[0] {
	case 'n':
		ws := strings.SplitAfter(text, " ")
		n := goast.NewNodes(3, ws...)
		again = func() string { return chainDump(n) }
		return again(), again, nil
	case 'l':
		line = 7
	case 'd':
		helper.SetDebug(true)
		defer helper.SetDebug(false)
	}
	scs, err := goast.ParseScope(line, []byte(text))
	if err != nil {
		return "", nil, err
	}
	again = func() string { return scopesDump(scs) }
	switch step[0] {
	case 's':
		d := again()
		for _, s := range scs {
			scramble(s)
		}
		return d, nil, nil
	case 'a':
		a, err := goast.NewAst(scs...)
		if err != nil {
			return "no ast", nil, nil
		}
		b := a.Copy()
		again = func() string {
			p, err := a.Package()
			return fmt.Sprint(p, err, a.Description(), b.Description()) + scopesDump(a.Scope()) + scopesDump(b.Scope())
		}
	}
	return again(), again, nil
}

func setupHistories() error {
	if err := setupOutput(); err != nil {
		return err
	}
	_, err := histBase()
	return err
}

func runHistory(c []byte, o *core.Obs) error {
	base, err := histBase()
	if err != nil {
		return core.Internal{Err: err}
	}
	helper.SetDebug(false)
	type kept struct {
		step  string
		again func() string
	}
	var ks []kept
	for i := 0; i+1 < len(c); i += 2 {
		step := string(c[i : i+2])
		o.AddStates(1)
		o.AddTransitions(1)
		d, again, err := histStep(step)
		if err != nil {
			d = "error: " + err.Error()
			if base[step] != d && !strings.HasPrefix(base[step], "error: panic") {
				return fmt.Errorf("step %d: %v", i/2+1, err)
			}
			continue
		}
		if d != base[step] {
			return fmt.Errorf("step %d (%s) yields another result than in a fresh process:\n got %s\nwant %s", i/2+1, step, d, base[step])
		}
		for _, k := range ks {
			if k.again() != base[k.step] {
				return fmt.Errorf("step %d (%s) changed the result of an earlier step (%s):\n got %s\nwant %s", i/2+1, step, k.step, k.again(), base[k.step])
			}
		}
		if again != nil {
			ks = append(ks, kept{step, again})
		}
	}
	o.Outcome(string(c))
	return nil
}

func genHistory(n int, ops string, most int) func(g *core.G) []byte {
	return func(g *core.G) []byte {
		var b []byte
		l := 1 + g.All(n)
		for i := 0; i < l; i++ {
			op := ops[g.All(len(ops))]
			texts := most
			if op == 'd' {
				texts = 3 // debug output is slow
			}
			b = append(b, op, byte('a'+g.All(texts)))
		}
		return b
	}
}

// ---- debug output

var outFile *os.File

// setupOutput sends the standard output to a file, to see whether it is used.
func setupOutput() error {
	if outFile != nil {
		return nil
	}
	dir := os.Getenv("MC_SCRATCH")
	if dir == "" {
		return errors.New("no scratch directory")
	}
	f, err := os.CreateTemp(dir, "stdout-")
	if err != nil {
		return err
	}
	os.Stdout = f
	outFile = f
	return nil
}

func outputSize() int64 {
	n, err := outFile.Seek(0, 1)
	if err != nil {
		return -1
	}
	return n
}

func truncateOutput() {
	_ = outFile.Truncate(0)
	_, _ = outFile.Seek(0, 0)
}

func runDebug(c []byte, o *core.Obs) error {
	all := func() (string, error) {
		vs, err := parse(c)
		if err != nil {
			return "", err
		}
		var scs []goast.Scope
		for _, v := range vs {
			scs = append(scs, v.S)
		}
		d := ref.Dump(vs) + scopesDump(scs)
		if a, err := goast.NewAst(scs...); err == nil {
			p, err := a.Package()
			d += fmt.Sprint(p, err, a.Description(), scopesDump(a.Copy().Scope()))
		}
		return d, nil
	}
	truncateOutput()
	helper.SetDebug(false)
	off, err := all()
	if err != nil {
		return err
	}
	if n := outputSize(); n != 0 {
		return fmt.Errorf("with debug output off, %d bytes were printed", n)
	}
	helper.SetDebug(true)
	on, err := all()
	helper.SetDebug(false)
	if err != nil {
		return err
	}
	truncateOutput()
	o.Outcome(off)
	if on != off {
		return fmt.Errorf("with debug output on the result differs:\n got %s\nwant %s", on, off)
	}
	again, err := all()
	if err != nil {
		return err
	}
	if again != off || outputSize() != 0 {
		return errors.New("after debug output was on and off again, the result differs or something is printed")
	}
	return nil
}

// ---- order of map iterations

// A case is "i|j|p|text": map iteration j of parsing (and reading) the text takes the
// order p; all others are sorted.
func mapOrders(n int) (ps [][]int) {
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	if n <= 4 {
		var rec func(pre, rest []int)
		rec = func(pre, rest []int) {
			if len(rest) == 0 {
				ps = append(ps, append([]int{}, pre...))
				return
			}
			for i := range rest {
				r := append(append([]int{}, rest[:i]...), rest[i+1:]...)
				rec(append(pre[:len(pre):len(pre)], rest[i]), r)
			}
		}
		rec(nil, id)
		return ps
	}
	// every rotation, forwards and backwards: each key is the first once and the
	// last once, and each two keys appear in both orders
	for r := 0; r < n; r++ {
		p, q := make([]int, n), make([]int, n)
		for i := range p {
			p[i] = (i + r) % n
			q[n-1-i] = p[i]
		}
		ps = append(ps, p, q)
	}
	return ps
}

// withOrder runs f with iteration j in its p-th order (j = -1: none; -2: all) and tells how
// many keys each iteration had.
func withOrder(j, p int, f func()) (sizes []int) {
	sched.SetMapOrder(func(n int) []int {
		sizes = append(sizes, n)
		if j == -2 || len(sizes)-1 == j {
			ps := mapOrders(n)
			return ps[p%len(ps)]
		}
		id := make([]int, n)
		for i := range id {
			id[i] = i
		}
		return id
	})
	defer sched.SetMapOrder(nil)
	f()
	return sizes
}

func orderedResult(text string, j, p int) (string, []int) {
	var d string
	sizes := withOrder(j, p, func() {
		scs, err := goast.ParseScope(0, []byte(text))
		if err != nil {
			d = "error: " + err.Error()
			return
		}
		d = scopesDump(scs)
		if a, err := goast.NewAst(scs...); err == nil {
			d += a.Description() + scopesDump(a.Copy().Scope())
		}
		d += chainDump(goast.NewNodes(0, strings.SplitAfter(text, " ")...))
	})
	return d, sizes
}

func init() {
	reg("C14", "every case is a text in a buffer of its own, a history of calls in one process, a text with one order of iterations over maps, or a schedule of threads; every result is compared with what the same call yields in a process that did nothing else. "+
		"Schedules and map orders run in a build of the code under test with a schedule point before every statement; the races space runs every schedule under the race detector, with the scheduler's own synchronisation hidden from it. Non-trivial: distinct results, histories and schedules.",
		[]string{"threads are switched between statements; a switch within a statement is only covered by the race detector", "the race detector's shadow memory keeps the last 4 accesses of every 8 bytes"},
		[]*core.Space{
			{Name: "buffers", About: "every sequence of up to 2 (thorough: 3) tokens out of 49 in 13 contexts, in a buffer with spare capacity and canaries; the buffer is overwritten afterwards", GenTier: byTier(tokenSeq(2, tokenContexts, tokenAlphabet, []string{""}), tokenSeq(3, tokenContexts, tokenAlphabet, []string{""})), Run: runBuffer},
			{Name: "buffers-programs", About: "programs of the file grammar, likewise", Gen: genBufferProgram, Quick: 3, Thorough: 4, Run: runBuffer},
			corpus(8000, 300000, runBuffer),
			{Name: "histories", About: "every history of up to 2 steps out of 83 (6 uses of 16 texts)", Gen: genHistory(2, histOps, len(histTexts)), Run: runHistory, Setup: setupHistories, Serial: true},
			{Name: "histories-3", About: "every history of up to 3 steps: parse and keep, or parse and take apart, 6 (thorough: 16) texts", GenTier: byTier(genHistory(3, "ps", 6), genHistory(3, "psa", len(histTexts))), Run: runHistory, Setup: setupHistories, Serial: true},
			{Name: "debug", About: "programs of the file grammar with debug output off, on and off again: same results, nothing printed while off", Gen: genFile(true), Quick: 2, Thorough: 3, Run: runDebug, Setup: setupOutput, Serial: true},
			{Name: "maporders", About: "17 texts parsed, read, copied and split: every order (more than 4 keys: every rotation, both ways) of each of the first 300 (thorough: all) iterations over maps, and of all of them together", Explore: exploreMapOrders, Run: runMapOrder},
			{Name: "schedules", About: "10 scenarios of 2 or 3 threads that parse, read, copy, edit or save what is theirs: every schedule with up to 1 preemption (thorough: 2 in the 2 smallest)", Run: runSchedule(schedPool, false), Explore: exploreSchedules(schedPool, func(sc scenario, tier string) int {
				if tier == "thorough" {
					return sc.deep
				}
				return sc.bound
			})},
			{Name: "cold", About: "5 scenarios, every schedule with up to 1 preemption, each in a process of its own", Run: runSchedule(schedPool, true), Explore: exploreSchedules(schedPool, func(sc scenario, tier string) int {
				if !sc.cold {
					return -1
				}
				return 1
			})},
			{Name: "races-cold", About: "10 scenarios without preemption, under the race detector, each schedule in a process of its own", Run: runSchedule(racePool, true), Explore: exploreSchedules(racePool, func(scenario, string) int { return 0 })},
			{Name: "races", About: "10 scenarios, every schedule with up to 1 preemption, under the race detector", Run: runSchedule(racePool, false), Explore: exploreSchedules(racePool, func(scenario, string) int { return 1 })},
		})
}
