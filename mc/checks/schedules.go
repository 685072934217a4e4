package checks

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/helper"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"

	"verifmc/core"
	"verifmc/sched"
)

// ---- servers: instrumented builds of this program that run one case after another

type request struct {
	Kind string // "sched", "alone", "order"
	Case string
}

type reply struct {
	Got     []string // what each thread saw
	Panics  []string
	After   []string // what each thread sees alone afterwards
	Points  int
	Taken   int
	Stalled bool
	Races   int
	Sizes   []int // keys of each iteration over a map
	Err     string
}

// Serve is the main loop of a server.
func Serve() int {
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_RDWR, 0)
	_ = quiet()
	debug.SetMaxStack(64 << 20)
	in := bufio.NewReader(os.Stdin)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return 0
		}
		var rq request
		rp := reply{}
		if err := json.Unmarshal(line, &rq); err != nil {
			return 2
		}
		t := time.AfterFunc(30*time.Second, func() {
			fmt.Fprintln(os.Stderr, "the execution does not end")
			os.Exit(78)
		})
		if !sched.Instrumented {
			rp.Err = "not instrumented"
		} else {
			rp = serveOne(rq)
		}
		t.Stop()
		b, _ := json.Marshal(rp)
		if _, err := out.Write(append(b, '\n')); err != nil {
			return 2
		}
	}
}

func serveOne(rq request) (rp reply) {
	dir, done, err := scratch()
	if err != nil {
		return reply{Err: err.Error()}
	}
	defer done()
	switch rq.Kind {
	case "order":
		f := strings.SplitN(rq.Case, "|", 3)
		j, _ := strconv.Atoi(f[0])
		p, _ := strconv.Atoi(f[1])
		var d string
		d, rp.Sizes = orderedResult(f[2], j, p)
		rp.Got = []string{d}
		return rp
	case "alone":
		f := strings.Split(rq.Case, "|")
		i, _ := strconv.Atoi(f[0])
		k, _ := strconv.Atoi(f[1])
		rp.Got = []string{scenarios[i].setup(dir)[k]()}
		return rp
	}
	f := strings.Split(rq.Case, "|")
	i, _ := strconv.Atoi(f[0])
	first, _ := strconv.Atoi(f[1])
	var sw []sched.Switch
	if f[2] != "" {
		for _, s := range strings.Split(f[2], ",") {
			var w sched.Switch
			if _, err := fmt.Sscanf(s, "%d:%d", &w.At, &w.To); err != nil {
				return reply{Err: err.Error()}
			}
			sw = append(sw, w)
		}
	}
	races := sched.RaceErrors()
	ts := scenarios[i].setup(dir)
	rp.Got, rp.Panics = make([]string, len(ts)), make([]string, len(ts))
	var bodies []func()
	for k, t := range ts {
		bodies = append(bodies, func() {
			defer func() {
				if r := recover(); r != nil {
					rp.Panics[k] = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
				}
			}()
			rp.Got[k] = t()
		})
	}
	r := sched.Execute(first, sw, bodies...)
	rp.Points, rp.Taken, rp.Stalled = r.Points, r.Taken, r.Stalled
	rp.Races = sched.RaceErrors() - races
	if !sched.Race { // a thread alone sees the same afterwards
		for _, t := range scenarios[i].setup(dir) {
			rp.After = append(rp.After, t())
		}
	}
	return rp
}

type server struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *lockedBuf
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

func startServer(bin string) (*server, error) {
	s := &server{err: &lockedBuf{}}
	s.cmd = exec.Command(bin, "serve")
	s.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0", "GOMAXPROCS=2")
	s.cmd.Stderr = s.err
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	return s, s.cmd.Start()
}

func (s *server) stop() {
	s.in.Close()
	_ = s.cmd.Wait()
}

var errServer = errors.New("server died")

func (s *server) do(rq request) (rp reply, err error) {
	b, _ := json.Marshal(rq)
	if _, err := s.in.Write(append(b, '\n')); err != nil {
		return rp, errServer
	}
	line, err := s.out.ReadBytes('\n')
	if err != nil {
		return rp, errServer
	}
	if err := json.Unmarshal(line, &rp); err != nil {
		return rp, core.Internal{Err: err}
	}
	if rp.Err != "" {
		return rp, core.Internal{Err: errors.New(rp.Err)}
	}
	return rp, nil
}

// pool keeps servers of one binary.
type pool struct {
	env  string
	mu   sync.Mutex
	idle []*server
}

var (
	schedPool = &pool{env: "MC_SCHED_BIN"}
	racePool  = &pool{env: "MC_RACE_BIN"}
)

func (p *pool) bin() string { return os.Getenv(p.env) }

// ask runs one case; cold runs it in a process that did nothing before.
func (p *pool) ask(rq request, cold bool) (reply, string, error) {
	var s *server
	if !cold {
		p.mu.Lock()
		if n := len(p.idle); n > 0 {
			s, p.idle = p.idle[n-1], p.idle[:n-1]
		}
		p.mu.Unlock()
	}
	if s == nil {
		var err error
		if s, err = startServer(p.bin()); err != nil {
			return reply{}, "", core.Internal{Err: err}
		}
	}
	rp, err := s.do(rq)
	if err == errServer {
		s.stop()
		return rp, s.err.String(), fmt.Errorf("the process died in the code under test:\n%s", s.err.String())
	}
	if cold || err != nil || rp.Races > 0 || rp.Stalled {
		s.stop()
		return rp, s.err.String(), err
	}
	p.mu.Lock()
	p.idle = append(p.idle, s)
	p.mu.Unlock()
	return rp, "", nil
}

func (p *pool) stop() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, s := range p.idle {
		s.stop()
	}
	p.idle = nil
}

// ---- order of map iterations

var orderBase, orderSizes sync.Map

func orderAlone(text string) (string, []int, error) {
	if d, ok := orderBase.Load(text); ok {
		n, _ := orderSizes.Load(text)
		return d.(string), n.([]int), nil
	}
	rp, _, err := schedPool.ask(request{"order", "-1|0|" + text}, true)
	if err != nil {
		return "", nil, err
	}
	orderSizes.Store(text, rp.Sizes)
	orderBase.Store(text, rp.Got[0])
	return rp.Got[0], rp.Sizes, nil
}

func runMapOrder(c []byte, o *core.Obs) error {
	if schedPool.bin() == "" {
		return core.Skip
	}
	f := strings.SplitN(string(c), "|", 3)
	want, _, err := orderAlone(f[2])
	if err != nil {
		return err
	}
	rp, _, err := schedPool.ask(request{"order", string(c)}, false)
	if err != nil {
		return err
	}
	o.Outcome(want, f[0], f[1])
	if got := rp.Got[0]; got != want {
		return fmt.Errorf("with another order of the iterations over maps the result differs:\n got %s\nwant %s", got, want)
	}
	return nil
}

var orderTexts = append(append([]string{}, histTexts[:15]...), "package p\n\nfunc f(a map[string]struct{ B chan<- int }, c ...interface{}) (err error) {\n\tgo func() { ch <- `r` + \"s\" }()\n\tx := []int{1, 2}[0:1] // c\n\t/* d */\n\tfor i := range x {\n\t\tx[i] *= 'a' / 2\n\t}\n}\n",
	"package p\n\nimport (\n\t\"fmt\"\n)\n\ntype G[K comparable, V ~int | ~string] struct {\n\tA, b map[K]V `t`\n\t*pkg.E // c\n\tF func(a, b int) (c *T)\n}\n\ntype A = func(x interface{ M() }) chan int\n\nconst (\n\tx = iota\n)\n")

func exploreMapOrders(x *core.X) {
	if schedPool.bin() == "" {
		x.CapReached("the code under test could not be instrumented")
		return
	}
	defer schedPool.stop()
	x.Pool(func(submit func(c []byte) bool) {
		for _, text := range orderTexts {
			_, sizes, err := orderAlone(text)
			if err != nil {
				x.Exec([]byte("-1|0|" + text))
				return
			}
			x.AddStates(int64(len(sizes)))
			x.AddTransitions(int64(len(sizes)))
			maxP := 1
			for j, n := range sizes {
				ps := len(mapOrders(n))
				maxP = max(maxP, ps)
				if j >= 300 && x.Tier != "thorough" {
					ps = 1
				}
				for p := 0; p < ps; p++ {
					if !submit([]byte(fmt.Sprintf("%d|%d|%s", j, p, text))) {
						return
					}
				}
			}
			for p := 0; p < maxP; p++ { // the same order in all of them
				if !submit([]byte(fmt.Sprintf("-2|%d|%s", p, text))) {
					return
				}
			}
		}
	})
}

// ---- interleavings

// A scenario is a set of threads that share nothing but what they only read.
type scenario struct {
	name  string
	bound int // preemptions: quick
	deep  int // thorough
	cold  bool
	// setup makes the threads' bodies; each returns what it saw.
	setup func(dir string) []func() string
}

func parseThread(text string) func() string {
	return func() string {
		scs, err := goast.ParseScope(0, []byte(text))
		if err != nil {
			return "error: " + err.Error()
		}
		return scopesDump(scs)
	}
}

func mustAst(text string) goast.Ast {
	scs, err := goast.ParseScope(0, []byte(text))
	if err != nil {
		panic(core.Internal{Err: err})
	}
	a, err := goast.NewAst(scs...)
	if err != nil {
		panic(core.Internal{Err: err})
	}
	return a
}

func readThread(a goast.Ast) func() string {
	return func() string {
		p, err := a.Package()
		d := fmt.Sprint(p, err, a.File(), a.Dir(), a.Filename(), a.Ext())
		a.IterScope(func(s goast.Scope) bool {
			d += scopeDump(s)
			n := s.Node()
			d += n.First().Text() + n.Last().Text() + fmt.Sprint(n.Description())
			return true
		})
		return d + a.Description()
	}
}

func copyThread(a goast.Ast) func() string {
	return func() string {
		b := a.Copy()
		d := scopesDump(b.Scope())
		for _, s := range b.Scope() {
			scramble(s)
		}
		return d
	}
}

var scenarios = []scenario{
	{"parse tiny, parse tiny", 1, 2, true, func(string) []func() string {
		return []func() string{parseThread("f(a)"), parseThread("g{b}")}
	}},
	{"parse small, parse small", 1, 1, true, func(string) []func() string {
		return []func() string{parseThread("package p\n\nvar x = \"a\"\n"), parseThread("package q\n\n// c\n")}
	}},
	{"parse func, parse func", 1, 1, true, func(string) []func() string {
		return []func() string{parseThread("package p\n\nfunc (r *T) f(a, b []int) (err error) {\n\treturn `r`\n}\n"), parseThread("package q\n\nfunc g(c func(d int) T) *E { // c\n\tx('a')\n}\n")}
	}},
	{"parse types, parse types", 1, 1, true, func(string) []func() string {
		return []func() string{parseThread("package p\n\ntype T struct {\n\tA, B int\n\tE\n\tF func(a int) T\n}\n"), parseThread("package q\n\ntype I interface {\n\tM(a int) (T, error)\n\tE\n}\n\ntype A = map[K]V\n")}
	}},
	{"parse the same buffer twice", 1, 1, false, func(string) []func() string {
		buf := []byte("package p\n\nfunc f(a int) error {\n\treturn nil /* c */\n}\n")
		t := func() string {
			scs, err := goast.ParseScope(0, buf)
			if err != nil {
				return "error: " + err.Error()
			}
			return scopesDump(scs)
		}
		return []func() string{t, t}
	}},
	{"read an ast, read it", 1, 1, false, func(string) []func() string {
		a := mustAst("package p\n\nfunc (r T) f(a int) {\n}\n\ntype S struct {\n\tA int\n}\n\ntype I interface{}\n")
		return []func() string{readThread(a), readThread(a)}
	}},
	{"copy an ast and edit the copy, read it", 1, 1, false, func(string) []func() string {
		a := mustAst("package p\n\nfunc (r T) f(a int) {\n}\n\ntype S struct {\n\tA int\n}\n")
		return []func() string{copyThread(a), readThread(a)}
	}},
	{"copy an ast, copy it, parse", 1, 1, false, func(string) []func() string {
		a := mustAst("package p\n\nvar x int\n")
		return []func() string{copyThread(a), copyThread(a), parseThread("package q\n\nvar y = 1\n")}
	}},
	{"make and edit nodes, make and edit nodes", 1, 2, false, func(string) []func() string {
		t := func(text string) func() string {
			return func() string {
				n := goast.NewNodes(1, strings.SplitAfter(text, " ")...)
				m := goast.NewNode(0, "x", kind.Raw)
				n.Next().InsertNext(m)
				m.CombineNext(kind.ParamType, m.Next())
				n.RemoveNext()
				s := goast.NewScope(1, scope.Func, m.First())
				return chainDump(n) + chainDump(m) + scopeDump(s.Copy()) + helper.TidyText(text) + fmt.Sprint(helper.AppendUnrepeatable([]string{"a"}, "a", text), kind.New(text))
			}
		}
		return []func() string{t("func f ( a int ) { }"), t("type T struct { a int }")}
	}},
	{"parse and save a file, parse and save another", 1, 1, true, func(dir string) []func() string {
		t := func(name, text string) func() string {
			return func() string {
				in, out := filepath.Join(dir, name+"-in.go"), filepath.Join(dir, name+"-out")
				if err := os.WriteFile(in, []byte(text), 0o666); err != nil {
					return err.Error()
				}
				a, err := goast.ParseAst(in)
				if err != nil {
					return err.Error()
				}
				if err := a.Save(out); err != nil {
					return err.Error()
				}
				b, err := os.ReadFile(out + ".go")
				return fmt.Sprint(string(b), err, filepath.Base(a.File()), scopesDump(a.Scope()))
			}
		}
		return []func() string{t("a", "package p\nvar  x int\n"), t("b", "package q\n// c\nconst  y = 2\n")}
	}},
}

// what each thread of a scenario sees in a process that did nothing else
var alone sync.Map

func aloneResult(i, k int) (string, error) {
	key := fmt.Sprintf("%d|%d", i, k)
	if d, ok := alone.Load(key); ok {
		return d.(string), nil
	}
	rp, _, err := schedPool.ask(request{"alone", key}, true)
	if err != nil {
		return "", err
	}
	alone.Store(key, rp.Got[0])
	return rp.Got[0], nil
}

var schedPoints sync.Map // case -> number of schedule points
var schedStalls sync.Map

// runSchedule: "scenario|first|at:to,at:to".
func runSchedule(p *pool, cold bool) func(c []byte, o *core.Obs) error {
	return func(c []byte, o *core.Obs) error {
		if p.bin() == "" {
			return core.Skip
		}
		f := strings.Split(string(c), "|")
		i, _ := strconv.Atoi(f[0])
		sc := scenarios[i]
		rp, trace, err := p.ask(request{"sched", string(c)}, cold)
		if err != nil {
			return fmt.Errorf("%s: schedule %s: %w", sc.name, c, err)
		}
		schedPoints.Store(string(c), rp.Points)
		o.AddTransitions(int64(rp.Taken))
		o.AddStates(1)
		if rp.Stalled {
			schedStalls.Store(string(c), true)
		}
		o.Outcome(append([]string{string(c)}, rp.Got...)...)
		if rp.Races > 0 {
			if strings.Contains(trace, "github.com/yanun0323/goast") {
				return fmt.Errorf("%s: with the schedule %s threads access the same memory without order:\n%s", sc.name, c, trace)
			}
			return core.Internal{Err: fmt.Errorf("a race outside of the code under test:\n%s", trace)}
		}
		for k, got := range rp.Got {
			if rp.Panics[k] != "" {
				return fmt.Errorf("%s: thread %d of the schedule %s: %s", sc.name, k, c, rp.Panics[k])
			}
			want, err := aloneResult(i, k)
			if err != nil {
				return err
			}
			if got != want {
				return fmt.Errorf("%s: with the schedule %s thread %d yields another result than alone:\n got %s\nwant %s", sc.name, c, k, got, want)
			}
			if rp.After != nil && rp.After[k] != want {
				return fmt.Errorf("%s: after the schedule %s thread %d yields another result than in a fresh process:\n got %s\nwant %s", sc.name, c, k, rp.After[k], want)
			}
		}
		return nil
	}
}

// exploreSchedules executes every schedule with at most the scenario's number of preemptions.
func exploreSchedules(p *pool, only func(sc scenario, tier string) int) func(x *core.X) {
	return func(x *core.X) {
		if p.bin() == "" {
			x.CapReached("the code under test could not be instrumented")
			return
		}
		defer p.stop()
		defer schedPool.stop()
		type job struct {
			i, n, cur, at, left int
			c                   string
		}
		var mu sync.Mutex
		cond := sync.NewCond(&mu)
		var queue []job
		busy := 0
		var wg sync.WaitGroup
		for i, sc := range scenarios {
			if bound := only(sc, x.Tier); bound >= 0 {
				dir, done, err := scratch()
				if err != nil {
					x.CapReached(err.Error())
					return
				}
				n := len(sc.setup(dir))
				done()
				for first := 0; first < n; first++ {
					queue = append(queue, job{i, n, first, 0, bound, fmt.Sprintf("%d|%d|", i, first)})
				}
			}
		}
		for w := 0; w < core.Workers(); w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					for len(queue) == 0 && busy > 0 {
						cond.Wait()
					}
					if len(queue) == 0 {
						mu.Unlock()
						cond.Broadcast()
						return
					}
					j := queue[len(queue)-1]
					queue = queue[:len(queue)-1]
					busy++
					mu.Unlock()
					ok := !x.Stopped() && x.Exec([]byte(j.c))
					points := 0
					if v, found := schedPoints.LoadAndDelete(j.c); found {
						points = v.(int)
					}
					mu.Lock()
					busy--
					if !ok {
						queue = nil
					} else if j.left > 0 {
						for at := points; at > j.at; at-- {
							for to := 0; to < j.n; to++ {
								if to == j.cur {
									continue
								}
								sep := ","
								if strings.HasSuffix(j.c, "|") {
									sep = ""
								}
								queue = append(queue, job{j.i, j.n, to, at, j.left - 1, fmt.Sprintf("%s%s%d:%d", j.c, sep, at, to)})
							}
						}
					}
					mu.Unlock()
					cond.Broadcast()
				}
			}()
		}
		wg.Wait()
		stalls := 0
		schedStalls.Range(func(any, any) bool { stalls++; return true })
		if stalls > 0 {
			x.CapReached(fmt.Sprintf("%d schedules blocked and went on without control", stalls))
		}
	}
}
