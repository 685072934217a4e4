package core

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Obs collects what one execution was observed to do.
type Obs struct {
	Tier    string
	outcome uint64
	has     bool
	states  int64
	trans   int64
	trivial bool
	detail  strings.Builder
	verbose bool
}

// Outcome records the observable result of the execution; distinct outcomes are
// counted, so that a space in which nothing ever differs is visible as such.
func (o *Obs) Outcome(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	o.outcome = o.outcome*31 + h.Sum64()
	o.has = true
}

// Trivial marks the execution as one that exercised nothing of the property.
func (o *Obs) Trivial() { o.trivial = true }

// Logf adds to the explanation shown by replay.
func (o *Obs) Logf(f string, a ...any) {
	if o.verbose {
		fmt.Fprintf(&o.detail, f+"\n", a...)
	}
}

// AddStates and AddTransitions count states/transitions inside one execution
// (for instance the schedule points of a controlled execution).
func (o *Obs) AddStates(n int64)      { o.states += n }
func (o *Obs) AddTransitions(n int64) { o.trans += n }

// Skip is returned by Run for a generated case that is outside the property's
// quantifier (for instance a token sequence that is not a valid program).
var Skip = errors.New("outside the quantifier")

// Internal wraps an error of the machinery itself.
type Internal struct{ Err error }

func (e Internal) Error() string { return "internal: " + e.Err.Error() }

// Space is one bounded space of executions of one property.
type Space struct {
	Name  string
	About string // alphabet and bound, in words

	// A choice space: Gen is enumerated up to Quick/Thorough deviations.
	Gen             func(*G) []byte
	GenTier         func(tier string) func(*G) []byte
	Quick, Thorough int

	// Or a custom exploration.
	Explore func(x *X)

	// Run executes the real code on one case and returns nil, Skip, or what was
	// violated. It must be deterministic in c.
	Run func(c []byte, o *Obs) error

	// HangAfter overrides how long one case may take before it counts as one
	// that does not end.
	HangAfter time.Duration

	ThoroughOnly bool
	Serial       bool
	Setup        func() error
}

// Prop is one property and how it is decided.
type Prop struct {
	ID      string
	Title   string
	Level   string
	Rule    string
	Assume  []string
	Spaces  []*Space
	Budget  time.Duration // internal deadline, quick
	BudgetT time.Duration // internal deadline, thorough
}

var Props = map[string]*Prop{}

func Register(p *Prop) {
	if Props[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	Props[p.ID] = p
}

func (p *Prop) space(name string) *Space {
	for _, s := range p.Spaces {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// Violation is one failing case.
type Violation struct {
	Space string `json:"space"`
	Case  []byte `json:"case"`
	Msg   string `json:"msg"`
	Kind  string `json:"kind"` // "oracle", "panic", "crash", "hang"
}

// SpaceReport is what one space covered.
type SpaceReport struct {
	Name        string   `json:"name"`
	About       string   `json:"about"`
	Bound       int      `json:"bound"`
	BoundDone   int      `json:"bound_completed"`
	Exhaustive  bool     `json:"exhaustive"`
	Cap         string   `json:"cap,omitempty"`
	States      int64    `json:"states"`
	Transitions int64    `json:"transitions"`
	Executions  int64    `json:"executions"`
	Skipped     int64    `json:"outside_quantifier"`
	Trivial     int64    `json:"trivial"`
	Distinct    int64    `json:"distinct_outcomes"`
	Samples     []string `json:"samples"`
	WallS       float64  `json:"wall_s"`
}

// Result is what a worker process hands back to its supervisor.
type Result struct {
	Spaces     []*SpaceReport
	Violations []Violation
	Known      []Violation
	Internal   string
}

// X is the context of one running exploration.
type X struct {
	Prop     *Prop
	Space    *Space
	Tier     string
	Rep      *SpaceReport
	Deadline time.Time

	stop     atomic.Bool
	mu       sync.Mutex
	out      map[uint64]struct{}
	res      *Result
	known    map[string]string
	bb       *blackbox
	slotFree chan int
	stride   int64
}

// Stopped says that the exploration has to end (violation or deadline).
func (x *X) Stopped() bool {
	if x.stop.Load() {
		return true
	}
	if time.Now().After(x.Deadline) {
		x.mu.Lock()
		if x.Rep.Cap == "" {
			x.Rep.Cap = "internal deadline reached"
		}
		x.mu.Unlock()
		x.stop.Store(true)
		return true
	}
	return false
}

func (x *X) CapReached(why string) {
	x.mu.Lock()
	x.Rep.Cap = why
	x.mu.Unlock()
}

func (x *X) AddStates(n int64)      { atomic.AddInt64(&x.Rep.States, n) }
func (x *X) AddTransitions(n int64) { atomic.AddInt64(&x.Rep.Transitions, n) }

const maxOutcomes = 4_000_000

// Exec runs one case under the black box and records the verdict.
// It returns false when the exploration should stop.
func (x *X) Exec(c []byte) bool {
	slot := <-x.slotFree
	o := &Obs{Tier: x.Tier}
	x.bb.enter(slot, x.Space.Name, c)
	err := RunCase(x.Space, c, o)
	x.bb.leave(slot)
	x.slotFree <- slot

	n := atomic.AddInt64(&x.Rep.Executions, 1)
	if err == Skip {
		atomic.AddInt64(&x.Rep.Skipped, 1)
		return !x.stop.Load()
	}
	if o.trivial {
		atomic.AddInt64(&x.Rep.Trivial, 1)
	}
	atomic.AddInt64(&x.Rep.States, o.states)
	atomic.AddInt64(&x.Rep.Transitions, o.trans)
	if o.has {
		x.mu.Lock()
		if len(x.out) < maxOutcomes {
			x.out[o.outcome] = struct{}{}
		}
		x.mu.Unlock()
	}
	// keep a few samples, spread over the run: the 1st, 10th, 100th, ... execution
	if p := atomic.LoadInt64(&x.stride); n == p || n == 1 {
		x.mu.Lock()
		if len(x.Rep.Samples) < 8 {
			x.Rep.Samples = append(x.Rep.Samples, sampleOf(c))
		}
		x.mu.Unlock()
		atomic.StoreInt64(&x.stride, n*10)
	}
	if err == nil {
		return !x.stop.Load()
	}
	v := Violation{Space: x.Space.Name, Case: append([]byte{}, c...), Msg: err.Error(), Kind: "oracle"}
	var pe *PanicError
	if errors.As(err, &pe) {
		v.Kind = "panic"
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	var in Internal
	if errors.As(err, &in) {
		x.res.Internal = fmt.Sprintf("%s/%s: %v on %s", x.Prop.ID, x.Space.Name, in.Err, sampleOf(c))
		x.stop.Store(true)
		return false
	}
	if _, ok := x.known[x.Space.Name+"\x00"+string(c)]; ok {
		return true
	}
	x.res.Violations = append(x.res.Violations, v)
	if len(x.res.Violations) >= maxViolations() {
		x.stop.Store(true)
		return false
	}
	return true
}

func maxViolations() int {
	if s := os.Getenv("MC_MAXVIOL"); s != "" {
		n := 1
		fmt.Sscan(s, &n)
		return n
	}
	return 1
}

func sampleOf(c []byte) string {
	s := string(c)
	if len(s) > 400 {
		s = s[:400] + fmt.Sprintf("...(%d bytes)", len(c))
	}
	return s
}

// PanicError is a panic of the code under test.
type PanicError struct {
	Val   any
	Stack string
}

func (p *PanicError) Error() string {
	return fmt.Sprintf("panic: %v\n%s", p.Val, p.Stack)
}

// RunCase runs one case, turning a panic into an error.
func RunCase(s *Space, c []byte, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = &PanicError{Val: r, Stack: trimStack(debug.Stack())}
		}
	}()
	return s.Run(c, o)
}

func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	if len(ls) > 24 {
		ls = ls[:24]
	}
	return strings.Join(ls, "\n")
}

// ---- black box -------------------------------------------------------------

const (
	nSlots   = 32
	slotSize = 1 << 16
)

// blackbox keeps, in a file mapping that survives the process, which case each
// worker is running, so that a crash or an endless loop can be attributed.
type blackbox struct {
	mem   []byte
	start [nSlots]atomic.Int64
}

func openBlackbox(path string) (*blackbox, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(nSlots * slotSize); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, nSlots*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &blackbox{mem: mem}, nil
}

func (b *blackbox) enter(slot int, space string, c []byte) {
	m := b.mem[slot*slotSize : (slot+1)*slotSize]
	m[0] = 0
	m[1] = byte(len(space))
	copy(m[8:8+64], space)
	n := len(c)
	if n > slotSize-128 {
		n = slotSize - 128
		m[2] = 1 // truncated
	} else {
		m[2] = 0
	}
	m[4], m[5], m[6], m[7] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
	copy(m[128:], c[:n])
	m[0] = 1
	b.start[slot].Store(time.Now().UnixNano())
}

func (b *blackbox) leave(slot int) {
	b.mem[slot*slotSize] = 0
	b.start[slot].Store(0)
}

func readBlackbox(path string) (vs []Violation) {
	mem, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for s := 0; s < nSlots && (s+1)*slotSize <= len(mem); s++ {
		m := mem[s*slotSize : (s+1)*slotSize]
		if m[0] != 1 || m[2] == 1 {
			continue
		}
		n := int(m[4]) | int(m[5])<<8 | int(m[6])<<16 | int(m[7])<<24
		vs = append(vs, Violation{Space: string(m[8 : 8+int(m[1])]), Case: append([]byte{}, m[128:128+n]...)})
	}
	return vs
}

// ---- worker ----------------------------------------------------------------

const (
	exitHang = 77
	memLimit = 10 << 30
)

// Worker explores the spaces of one property in this process.
func Worker(p *Prop, tier, bbPath, outPath string, only string) {
	debug.SetMaxStack(256 << 20)
	if f := os.Getenv("MC_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			_ = pprof.StartCPUProfile(w)
			time.AfterFunc(10*time.Second, pprof.StopCPUProfile)
		}
	}
	bb, err := openBlackbox(bbPath)
	if err != nil {
		fmt.Fprintln(os.Stderr, "black box:", err)
		os.Exit(2)
	}
	res := &Result{}
	write := func() {
		b, _ := json.Marshal(res)
		if err := os.WriteFile(outPath, b, 0o600); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	known := knownCases(p.ID)
	budget := p.Budget
	if budget == 0 {
		budget = 500 * time.Second
	}
	if tier == "thorough" {
		budget = p.BudgetT
		if budget == 0 {
			budget = 60 * time.Minute
		}
	}
	perSpace := 0 // seconds; for surveys of many trees
	fmt.Sscan(os.Getenv("MC_BUDGET"), &perSpace)
	deadline := time.Now().Add(budget)

	var curHang atomic.Int64
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			now := time.Now().UnixNano()
			for i := range bb.start {
				if t := bb.start[i].Load(); t != 0 && now-t > curHang.Load() {
					fmt.Fprintf(os.Stderr, "worker: a case has been running for %s\n", time.Duration(now-t))
					os.Exit(exitHang)
				}
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > memLimit {
				fmt.Fprintf(os.Stderr, "worker: heap %d bytes\n", ms.HeapAlloc)
				os.Exit(exitHang)
			}
		}
	}()

	for _, s := range p.Spaces {
		if only != "" && s.Name != only {
			continue
		}
		if s.ThoroughOnly && tier != "thorough" {
			continue
		}
		h := s.HangAfter
		if h == 0 {
			h = 40 * time.Second
		}
		curHang.Store(int64(h))
		t0 := time.Now()
		bound := s.Quick
		if tier == "thorough" {
			bound = s.Thorough
		}
		if perSpace > 0 {
			deadline = t0.Add(time.Duration(perSpace) * time.Second)
		}
		rep := &SpaceReport{Name: s.Name, About: s.About, Bound: bound, BoundDone: -1}
		x := &X{Prop: p, Space: s, Tier: tier, Rep: rep, Deadline: deadline, res: res, known: known, bb: bb,
			out: map[uint64]struct{}{}, slotFree: make(chan int, nSlots)}
		for i := 0; i < nSlots; i++ {
			x.slotFree <- i
		}
		if s.Setup != nil {
			if err := s.Setup(); err != nil {
				res.Internal = s.Name + ": setup: " + err.Error()
				write()
				os.Exit(0)
			}
		}
		// A known finding is run on its own, so that it is reported as such.
		for _, kf := range sortedKnown(known) {
			if name, c, _ := strings.Cut(kf, "\x00"); name == s.Name {
				o := &Obs{Tier: tier}
				if err := RunCase(s, []byte(c), o); err != nil && err != Skip {
					res.Known = append(res.Known, Violation{Space: s.Name, Case: []byte(c), Msg: known[kf]})
				}
			}
		}
		if s.Explore != nil {
			s.Explore(x)
			if !x.stop.Load() {
				rep.BoundDone = bound
			}
			// a flat enumeration: a root, and one leaf for every case
			if rep.States == 0 {
				rep.States = rep.Executions + 1
			}
			if rep.Transitions == 0 {
				rep.Transitions = rep.Executions
			}
		} else {
			x.choiceExplore(bound)
		}
		rep.Distinct = int64(len(x.out))
		rep.Exhaustive = rep.Cap == "" && rep.BoundDone == bound
		rep.WallS = time.Since(t0).Seconds()
		res.Spaces = append(res.Spaces, rep)
		write()
		if len(res.Violations) >= maxViolations() || res.Internal != "" {
			break
		}
	}
	write()
	os.Exit(0)
}

func sortedKnown(m map[string]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Workers is the number of parallel executions.
func Workers() int {
	n := runtime.NumCPU()
	if n > 16 {
		n = 16
	}
	if n < 1 {
		n = 1
	}
	return n
}

// Pool runs Exec on every case that feed submits, in parallel.
func (x *X) Pool(feed func(submit func(c []byte) bool)) {
	n := Workers()
	if x.Space.Serial {
		n = 1
	}
	ch := make(chan [][]byte, 4*n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for batch := range ch {
				for _, c := range batch {
					if x.stop.Load() {
						break
					}
					x.Exec(c)
				}
			}
		}()
	}
	var batch [][]byte
	cnt := 0
	feed(func(c []byte) bool {
		batch = append(batch, c)
		cnt++
		size := 64
		if cnt < 2000 {
			size = 4
		}
		if len(batch) >= size {
			ch <- batch
			batch = nil
			if x.Stopped() {
				return false
			}
		}
		return !x.stop.Load()
	})
	if len(batch) > 0 {
		ch <- batch
	}
	close(ch)
	wg.Wait()
}

func (x *X) choiceExplore(bound int) {
	gen := x.Space.Gen
	if x.Space.GenTier != nil {
		gen = x.Space.GenTier(x.Tier)
	}
	for b := 0; b <= bound; b++ {
		var st TreeStats
		x.Pool(func(submit func(c []byte) bool) {
			st = Explore(b, b > 0, gen, func(c []byte, _ []int) bool { return submit(c) })
		})
		if b == bound || !st.Completed || x.stop.Load() {
			// inner states of the choice tree, and its leaves
			x.AddStates(st.Nodes + atomic.LoadInt64(&x.Rep.Executions))
			x.AddTransitions(st.Transitions)
		}
		if !st.Completed || x.stop.Load() {
			return
		}
		x.Rep.BoundDone = b
	}
}

// ---- known findings --------------------------------------------------------

type KnownFinding struct {
	Property string `json:"property"`
	Space    string `json:"space"`
	Case     string `json:"case"`
	CaseB64  string `json:"case_b64"`
	What     string `json:"what"`
	Status   string `json:"status"` // "open" (a line "fixed: ..." documents repairs)
}

func Root() string {
	if r := os.Getenv("MC_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func knownCases(id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(Root(), "known_findings.jsonl"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<22)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if line == "" || !strings.HasPrefix(line, "{") {
			continue // "fixed: ..." lines suppress nothing
		}
		var k KnownFinding
		if json.Unmarshal([]byte(line), &k) != nil || k.Property != id || k.Status != "open" {
			continue
		}
		c := k.Case
		if k.CaseB64 != "" {
			b, err := base64.StdEncoding.DecodeString(k.CaseB64)
			if err != nil {
				continue
			}
			c = string(b)
		}
		m[k.Space+"\x00"+c] = k.What
	}
	return m
}

// ---- supervisor ------------------------------------------------------------

// Supervise runs the check of one property in a child process, confirms what it
// reports, writes the evidence file and prints the verdict. It returns the exit
// status.
func Supervise(id, tier, only string) int {
	p := Props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	bb, out := filepath.Join(dir, "bb"), filepath.Join(dir, "out.json")
	self, _ := os.Executable()

	var stderr bytes.Buffer
	cmd := exec.Command(self, "worker", id, tier, bb, out, only)
	cmd.Env = append(os.Environ(), "MC_SCRATCH="+dir)
	cmd.Stdout, cmd.Stderr = devNull(), &limitBuf{b: &stderr, max: 1 << 20}
	werr := cmd.Run()

	res := &Result{}
	if b, err := os.ReadFile(out); err == nil {
		_ = json.Unmarshal(b, res)
	}
	if werr != nil {
		suspects := readBlackbox(bb)
		found := false
		for _, s := range suspects {
			kind, msg := confirm(self, id, tier, s, dir)
			if kind != "" {
				s.Kind, s.Msg = kind, msg
				res.Violations = append(res.Violations, s)
				found = true
				break
			}
		}
		if !found && len(res.Violations) == 0 {
			trace := stderr.String()
			if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); (ok && ws.Signaled()) || len(suspects) == 0 || !strings.Contains(trace, "github.com/yanun0323/goast") {
				fmt.Fprintf(os.Stderr, "worker failed (%v) and no case reproduces it; %d suspects\n%s\n", werr, len(suspects), tail(trace, 4000))
				return 2
			}
			// The code under test brought the process down, and does not when the
			// same case runs alone: executions that share nothing disturb each other.
			v := suspects[0]
			v.Kind, v.Msg = "concurrent-crash", "the process crashed in the code under test while independent executions ran in parallel:\n"+tail(trace, 2500)
			res.Violations = append(res.Violations, v)
		}
	} else if res.Internal != "" {
		fmt.Fprintln(os.Stderr, "error of the check:", res.Internal)
		return 2
	}
	// every reported violation is re-run 5 times in fresh processes
	var confirmed []Violation
	for _, v := range res.Violations {
		if v.Kind != "oracle" && v.Kind != "panic" {
			confirmed = append(confirmed, v)
			continue
		}
		ok := 0
		for i := 0; i < 5; i++ {
			if k, m := confirm(self, id, tier, v, dir); k != "" {
				ok++
				v.Msg = m
			}
		}
		if ok > 0 {
			v.Msg = fmt.Sprintf("(reproduced %d of 5 times)\n%s", ok, v.Msg)
			confirmed = append(confirmed, v)
		} else {
			// The case alone passes in a fresh process: the failure depends on what
			// ran before or beside it, which no case of these spaces may observe.
			v.Msg = "(not reproduced when the case runs alone: the failure depends on earlier or parallel executions)\n" + v.Msg
			v.Kind += "-history"
			confirmed = append(confirmed, v)
		}
	}
	for _, k := range res.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", id, k.Msg, strings.ReplaceAll(sampleOf(k.Case), "\n", "\\n"))
	}
	if only == "" || os.Getenv("MC_EVIDENCE") != "" {
		if err := writeEvidence(p, tier, res, confirmed, time.Since(t0)); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			return 2
		}
	}
	for _, s := range res.Spaces {
		fmt.Printf("%s/%s: bound %d (completed %d) executions=%d skipped=%d states=%d transitions=%d outcomes=%d exhaustive=%v %s%.1fs\n",
			id, s.Name, s.Bound, s.BoundDone, s.Executions, s.Skipped, s.States, s.Transitions, s.Distinct, s.Exhaustive, capText(s.Cap), s.WallS)
	}
	if len(confirmed) == 0 {
		return 0
	}
	for _, v := range confirmed {
		path := saveReplay(id, tier, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  space %s, %s\n  case: %s\n  %s\n", v.Space, v.Kind, strings.ReplaceAll(fmt.Sprintf("%q", sampleOf(v.Case)), "\n", "\n  "), strings.ReplaceAll(tail(v.Msg, 3000), "\n", "\n  "))
	}
	return 1
}

func capText(s string) string {
	if s == "" {
		return ""
	}
	return "cap=" + s + " "
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func devNull() *os.File {
	f, _ := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	return f
}

type limitBuf struct {
	b   *bytes.Buffer
	max int
}

func (l *limitBuf) Write(p []byte) (int, error) {
	if l.b.Len() < l.max {
		l.b.Write(p)
	}
	return len(p), nil
}

// confirm runs one case in a process of its own. It returns "" when the case
// passes.
func confirm(self, id, tier string, v Violation, dir string) (kind, msg string) {
	f := filepath.Join(dir, "case")
	if err := os.WriteFile(f, v.Case, 0o600); err != nil {
		return "", ""
	}
	var so, se bytes.Buffer
	cmd := exec.Command(self, "one", id, tier, v.Space, f)
	cmd.Env = append(os.Environ(), "MC_SCRATCH="+dir)
	cmd.Stdout, cmd.Stderr = &limitBuf{&so, 1 << 20}, &limitBuf{&se, 1 << 20}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return "", ""
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	limit := 90 * time.Second
	tm := time.NewTimer(limit)
	defer tm.Stop()
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			if err == nil {
				return "", ""
			}
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
				return "oracle", so.String()
			}
			return "crash", tail(se.String(), 3000)
		case <-tm.C:
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
			return "hang", fmt.Sprintf("the execution did not end within %s", limit)
		case <-tick.C:
			if rss(cmd.Process.Pid) > 6<<30 {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				return "hang", "the execution grows without bound (more than 6 GB)"
			}
		}
	}
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	var a, r int64
	fmt.Sscan(string(b), &a, &r)
	return r * int64(os.Getpagesize())
}

// One runs a single case in this process: exit 0 pass, 1 violated.
func One(id, tier, space, file string) int {
	debug.SetMaxStack(256 << 20)
	p := Props[id]
	if p == nil {
		return 2
	}
	s := p.space(space)
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown space", space)
		return 2
	}
	c, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if s.Setup != nil {
		if err := s.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	o := &Obs{Tier: tier, verbose: true}
	err = RunCase(s, c, o)
	fmt.Print(o.detail.String())
	if err == Skip {
		fmt.Println("outside the quantifier")
		return 0
	}
	if err != nil {
		fmt.Println(err)
		return 1
	}
	return 0
}

// saveReplay writes the replay artefact of a violation.
func saveReplay(id, tier string, v Violation) string {
	dir := filepath.Join(Root(), "out", "replay")
	_ = os.MkdirAll(dir, 0o777)
	h := fnv.New32a()
	h.Write([]byte(v.Space))
	h.Write(v.Case)
	path := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", id, h.Sum32()))
	b, _ := json.MarshalIndent(map[string]any{
		"property": id, "tier": tier, "space": v.Space, "case_b64": base64.StdEncoding.EncodeToString(v.Case),
		"case": string(v.Case), "kind": v.Kind, "message": v.Msg,
		"replay": "bash " + Root() + "/run.sh replay " + path,
	}, "", " ")
	_ = os.WriteFile(path, b, 0o666)
	return path
}

// Replay re-runs a saved violation.
func Replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property, Tier, Space string
		CaseB64               string `json:"case_b64"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c, _ := base64.StdEncoding.DecodeString(r.CaseB64)
	dir, _ := os.MkdirTemp("", "mc-replay-")
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	k, m := confirm(self, r.Property, r.Tier, Violation{Space: r.Space, Case: c}, dir)
	if k == "" {
		fmt.Println("the case passes")
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n%s: %s\n", r.Property, path, k, m)
	return 1
}

func writeEvidence(p *Prop, tier string, res *Result, viol []Violation, wall time.Duration) error {
	var exec, skipped, trivial, distinct, states, trans int64
	exh := len(res.Spaces) > 0
	var samples []any
	for _, s := range res.Spaces {
		exec += s.Executions
		skipped += s.Skipped
		trivial += s.Trivial
		distinct += s.Distinct
		states += s.States
		trans += s.Transitions
		exh = exh && s.Exhaustive
		for i, c := range s.Samples {
			if i < 3 || len(samples) < 4 {
				samples = append(samples, map[string]string{"space": s.Name, "case": c})
			}
		}
	}
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		fmt.Sscan(s, &seed)
	}
	cov := map[string]any{
		"exhaustive":                    exh,
		"samples":                       samples,
		"rule":                          p.Rule,
		"evaluations":                   exec,
		"outside_quantifier":            skipped,
		"distinct_nontrivial":           distinct,
		"states":                        states,
		"transitions":                   trans,
		"traces_validated_against_impl": exec - skipped,
		"spaces":                        res.Spaces,
	}
	assume := p.Assume
	if assume == nil {
		assume = []string{}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": cov, "assumptions": assume, "wall_s": wall.Seconds(), "violations": len(viol),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(Root(), "evidence")
	if err := os.MkdirAll(dir, 0o777); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, p.ID+".json"), b, 0o666)
}
