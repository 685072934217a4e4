package checks

import (
	"bytes"
	"errors"
	"fmt"
	"go/ast"
	"go/token"
	"io"
	"math"
	"os"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/assert"
	"github.com/yanun0323/goast/helper"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"

	"verifmc/core"
	"verifmc/ref"
)

// ---- C19 -----------------------------------------------------------------------

// runAffix: "s\x1ep": prefix and suffix of byte strings.
func runAffix(c []byte, o *core.Obs) error {
	i := bytes.IndexByte(c, 0x1e)
	s, p := c[:i:i], string(c[i+1:])
	in := append([]byte{}, s...)
	hp, hs := helper.HasPrefix(s, p), helper.HasSuffix(s, p)
	wp, ws := strings.HasPrefix(string(s), p), strings.HasSuffix(string(s), p)
	o.Outcome(fmt.Sprint(hp, hs, len(s), len(p)))
	if hp != wp || hs != ws {
		return fmt.Errorf("HasPrefix(%q, %q) is %v, want %v; HasSuffix is %v, want %v", s, p, hp, wp, hs, ws)
	}
	if !bytes.Equal(in, s) {
		return fmt.Errorf("HasPrefix or HasSuffix changed %q to %q", in, s)
	}
	return nil
}

func affixPieces(n int) []string {
	al := []string{"a", "b", "\n", "é", "日", "\xff", "\x00"}
	out := []string{""}
	last := out
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range last {
			for _, a := range al {
				next = append(next, s+a)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func exploreAffix(x *core.X) {
	n := 3
	if x.Tier == "thorough" {
		n = 4
	}
	ss := affixPieces(n)
	x.Pool(func(submit func([]byte) bool) {
		for _, s := range ss {
			for _, p := range ss {
				if !submit([]byte(s + "\x1e" + p)) {
					return
				}
			}
		}
		// every byte of every position of a long prefix matters
		long := strings.Repeat("abcé", 80)
		for i := 0; i < len(long); i++ {
			d := long[:i] + "#" + long[i+1:]
			for _, s := range []string{long + "\x1e" + d, d + "\x1e" + long, long[:i] + "\x1e" + long, long + "\x1e" + long[:i], long + "\x1e" + long[i:], long[i:] + "\x1e" + long} {
				if !submit([]byte(s)) {
					return
				}
			}
		}
	})
}

func tidy(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\n':
			b.WriteString("\\n")
		case '\r', ' ':
			b.WriteString("·")
		case '\t':
			b.WriteString(" -> ")
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func runTidy(c []byte, o *core.Obs) error {
	got := helper.TidyText(string(c))
	o.Outcome(got)
	if w := tidy(string(c)); got != w {
		return fmt.Errorf("TidyText(%q) is %q, want %q", c, got, w)
	}
	if n := (*goast.Node)(nil); n.Description() != "<nil>" {
		return fmt.Errorf("the description of a nil node is %q", n.Description())
	}
	// the text as a node and in a scope
	for li, line := range []int{0, 1, -3, 41} {
		k := allKinds[(len(c)+li)%len(allKinds)]
		n := goast.NewNode(line, string(c), k)
		if w := fmt.Sprintf("%d .... %s .... *Node.%s", line+1, tidy(string(c)), k); n.Description() != w {
			return fmt.Errorf("description %q, want %q", n.Description(), w)
		}
		s := goast.NewScope(line, scopeKinds[len(c)%9], n)
		if w := fmt.Sprintf("%d .... *Scope.%s", line+1, scopeKinds[len(c)%9].String()); s.Description() != w {
			return fmt.Errorf("scope description %q, want %q", s.Description(), w)
		}
		n2 := goast.NewNode(line, string(c))
		if n2.Kind() != wantKind(string(c)) || n2.Text() != string(c) || n2.Line() != line {
			return fmt.Errorf("NewNode(%d, %q) is (%d, %q, %s)", line, c, n2.Line(), n2.Text(), n2.Kind())
		}
	}
	return nil
}

// printed returns what fn writes to the standard output and error of the process.
func printed(fn func()) (string, error) {
	if printFile == nil {
		f, err := os.CreateTemp("", "mc-print")
		if err != nil {
			return "", core.Internal{Err: err}
		}
		os.Remove(f.Name())
		printFile = f
	}
	if err := printFile.Truncate(0); err != nil {
		return "", core.Internal{Err: err}
	}
	if _, err := printFile.Seek(0, 0); err != nil {
		return "", core.Internal{Err: err}
	}
	var old [3]int
	for fd := 1; fd <= 2; fd++ {
		o, err := syscall.Dup(fd)
		if err != nil {
			return "", core.Internal{Err: err}
		}
		syscall.CloseOnExec(o)
		old[fd] = o
		if err := syscall.Dup3(int(printFile.Fd()), fd, 0); err != nil {
			return "", core.Internal{Err: err}
		}
	}
	defer func() {
		for fd := 1; fd <= 2; fd++ {
			syscall.Dup3(old[fd], fd, 0)
			syscall.Close(old[fd])
		}
	}()
	fn()
	st, err := printFile.Stat()
	if err != nil {
		return "", core.Internal{Err: err}
	}
	buf := make([]byte, st.Size())
	n, err := printFile.ReadAt(buf, 0)
	if err != nil && err != io.EOF {
		return "", core.Internal{Err: err}
	}
	return string(buf[:n]), nil
}

var printFile *os.File

// runPrint: Print shows the description on a line of its own, and DebugPrint its
// arguments exactly when debug output is on.
func runPrint(c []byte, o *core.Obs) error {
	show := func(what, desc string, fn func()) error {
		got, err := printed(fn)
		if err != nil {
			return err
		}
		o.Outcome(got)
		if strings.TrimLeft(got, " \t") != desc+"\n" {
			return fmt.Errorf("%s.Print printed %q, its description is %q", what, got, desc)
		}
		return nil
	}
	for li, line := range []int{0, 1, -3, 41} {
		n := goast.NewNode(line, string(c), allKinds[(len(c)+li)%len(allKinds)])
		if err := show("Node", n.Description(), n.Print); err != nil {
			return err
		}
		s := goast.NewScope(line, scopeKinds[(len(c)+li)%9], n)
		if err := show("Scope", s.Description(), s.Print); err != nil {
			return err
		}
	}
	var none *goast.Node
	if err := show("nil Node", none.Description(), none.Print); err != nil {
		return err
	}
	if err := show("empty Scope", goast.NewScope(1, scope.Func, nil).Description(), goast.NewScope(1, scope.Func, nil).Print); err != nil {
		return err
	}
	defer helper.SetDebug(false)
	for _, on := range []bool{false, true, false} {
		helper.SetDebug(on)
		got, err := printed(func() { helper.DebugPrint(string(c), len(c)) })
		if err != nil {
			return err
		}
		if on && !strings.HasPrefix(got, string(c)) {
			return fmt.Errorf("DebugPrint printed %q for %q", got, c)
		}
		if !on && got != "" {
			return fmt.Errorf("DebugPrint printed %q with debug output off", got)
		}
	}
	return nil
}

// runAppend: "abc|ab": AppendUnrepeatable joins two sequences and drops the first
// new element when it repeats the last old one.
func runAppend(c []byte, o *core.Obs) error {
	i := bytes.IndexByte(c, '|')
	a, b := append([]byte{}, c[:i]...), append([]byte{}, c[i+1:]...)
	want := append([]byte{}, a...)
	switch {
	case len(a) > 0 && len(b) > 0 && a[len(a)-1] == b[0]:
		want = append(want, b[1:]...)
	default:
		want = append(want, b...)
	}
	ac, bc := append([]byte{}, a...), append([]byte{}, b...)
	got := helper.AppendUnrepeatable(a, b...)
	o.Outcome(string(got))
	if !bytes.Equal(got, want) {
		return fmt.Errorf("AppendUnrepeatable(%q, %q) is %q, want %q", ac, bc, got, want)
	}
	if !bytes.Equal(a, ac) || !bytes.Equal(b, bc) {
		return fmt.Errorf("AppendUnrepeatable(%q, %q) changed its arguments to %q, %q", ac, bc, a, b)
	}
	return nil
}

func genAppend(g *core.G) []byte {
	b := []byte{}
	for side := 0; side < 2; side++ {
		n := g.All(5)
		for i := 0; i < n; i++ {
			b = append(b, "ab\x00"[g.All(3)])
		}
		if side == 0 {
			b = append(b, '|')
		}
	}
	return b
}

// runAstDescription: the description of an ast is that of its scopes and nodes.
func runAstDescription(c []byte, o *core.Obs) error {
	p, err := load(c)
	if err != nil {
		return err
	}
	scs, err := goast.ParseScope(0, append([]byte{}, p.src...))
	if err != nil {
		return err
	}
	a, err := goast.NewAst(scs...)
	if err != nil {
		return core.Skip
	}
	vs, err := ref.View(scs)
	if err != nil {
		return err
	}
	var b strings.Builder
	for _, v := range vs {
		fmt.Fprintf(&b, "%d .... *Scope.%s", v.Line, v.Kind)
		for _, n := range v.Nodes {
			fmt.Fprintf(&b, "%d .... %s .... *Node.%s", n.Line+1, tidy(n.Text), n.Kind)
		}
	}
	o.Outcome(b.String())
	if a.Description() != b.String() {
		return fmt.Errorf("description %q, want %q", a.Description(), b.String())
	}
	return nil
}

// ---- C20 -----------------------------------------------------------------------

// The assertions need real tests. One test of the testing package is started in a
// goroutine of its own and never ends; it runs every request as a subtest.
var (
	testOnce sync.Once
	testReqs = make(chan func(t *testing.T))
)

func startTests() error {
	testOnce.Do(func() {
		testing.Init()
		go testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "serve", F: func(t *testing.T) {
			for fn := range testReqs {
				fn(t)
			}
		}}}, nil, nil)
	})
	return nil
}

// verdict runs one assertion in a test of its own.
func verdict(fn func(a assert.Assert)) (failed, ended bool, pan any) {
	done := make(chan struct{})
	testReqs <- func(t *testing.T) {
		defer close(done)
		t.Run("x", func(t *testing.T) {
			ended = true
			defer func() {
				pan = recover()
				failed = t.Failed()
			}()
			fn(assert.New(t))
			ended = false
		})
	}
	<-done
	return
}

type named struct{ A int }

var (
	assertPtr  = new(int)
	assertPtr2 = new(int)
	assertErr  = errors.New("e")
	assertFn   = func() {}
	assertCh   = make(chan int)
)

type assertVal struct {
	name  string
	v     any
	nil   bool
	class string // values of one class are equal, others are not
	comp  bool
}

var assertVals = []assertVal{
	{"nil", nil, true, "nil", true},
	{"0", 0, false, "int0", true}, {"0 again", 0, false, "int0", true}, {"1", 1, false, "int1", true}, {"-1", -1, false, "int-1", true}, {"int64 1", int64(1), false, "i64-1", true}, {"int8 1", int8(1), false, "i8-1", true},
	{"uint 1", uint(1), false, "u1", true}, {"uint8 0", uint8(0), false, "u8-0", true}, {"1.0", 1.0, false, "f1", true}, {"float32 1", float32(1), false, "f32-1", true}, {"-0.0", negZero(), false, "f0", true}, {"0.0", 0.0, false, "f0", true},
	{"complex", complex(1, 2), false, "c12", true}, {"true", true, false, "t", true}, {"false", false, false, "f", true},
	{"empty string", "", false, "s", true}, {"a", "a", false, "sa", true}, {"a built", string([]byte{'a'}), false, "sa", true}, {"b", "b", false, "sb", true}, {"long a", strings.Repeat("a", 5000), false, "sla", true}, {"long b", strings.Repeat("a", 4999) + "b", false, "slb", true},
	{"nil *int", (*int)(nil), true, "nilp", true}, {"*int", assertPtr, false, "p1", true}, {"other *int", assertPtr2, false, "p2", true},
	{"error", assertErr, false, "e", true}, {"same error", assertErr, false, "e", true}, {"other error", errors.New("e"), false, "e2", true},
	{"struct", named{1}, false, "n1", true}, {"equal struct", named{1}, false, "n1", true}, {"other struct", named{2}, false, "n2", true}, {"array", [2]int{1, 2}, false, "a12", true}, {"equal array", [2]int{1, 2}, false, "a12", true}, {"other array", [2]int{1, 3}, false, "a13", true}, {"empty array", [0]int{}, false, "a0", true},
	{"chan", assertCh, false, "ch", true}, {"nil chan", (chan int)(nil), true, "nch", true},
	{"kind", kind.Raw, false, "kr", true}, {"other kind", kind.Comment, false, "kc", true}, {"byte 1", byte(1), false, "u8-1", true}, {"rune", 'a', false, "r", true},
	{"nil slice", []int(nil), true, "", false}, {"empty slice", []int{}, false, "", false}, {"slice", []int{1}, false, "", false}, {"nil map", map[string]int(nil), true, "", false}, {"map", map[string]int{}, false, "", false}, {"nil func", (func())(nil), true, "", false}, {"func", assertFn, false, "", false},
	{"named int 1", myInt(1), false, "mi1", true}, {"named int 0", myInt(0), false, "mi0", true}, {"named string", myStr("a"), false, "msa", true}, {"named nil slice", mySlice(nil), true, "", false}, {"named nil map", myMap(nil), true, "", false}, {"named nil func", myFunc(nil), true, "", false}, {"named nil chan", myChan(nil), true, "mch", true},
	{"NaN", math.NaN(), false, "", true}, {"infinity", math.Inf(1), false, "inf", true}, {"2^53", int(1 << 53), false, "2^53", true}, {"2^53+1", int(1<<53 + 1), false, "2^53+1", true}, {"uint64 max", uint64(math.MaxUint64), false, "umax", true}, {"int64 -1", int64(-1), false, "i64m", true}, {"uintptr 0", uintptr(0), false, "up", true},
	{"same shape", struct{ A int }{1}, false, "anon1", true}, {"named2", named2{1}, false, "n2-1", true}, {"empty struct", struct{}{}, false, "es", true}, {"struct of any int", boxed{1}, false, "b1", true}, {"struct of any int64", boxed{int64(1)}, false, "b2", true}, {"struct of any nil", boxed{nil}, false, "b3", true}, {"struct of any nil pointer", boxed{(*int)(nil)}, false, "b4", true},
	{"array of any", [2]any{1, "a"}, false, "aa", true}, {"equal array of any", [2]any{1, "a"}, false, "aa", true}, {"array of nil pointers", [1]*int{}, false, "anp", true}, {"pointer to pointer", &assertNilPtr, false, "pp", true}, {"pointer to slice", new([]int), false, "ps", true}, {"pointer to any", new(any), false, "pa", true}, {"array of empty structs", [3]struct{}{}, false, "aes", true},
	{"typed nil error", error((*nilErr)(nil)), true, "tne", true}, {"receive chan", (<-chan int)(assertCh), false, "rch", true}, {"a\x00", "a\x00", false, "sa0", true}, {"invalid UTF-8", "\xff", false, "sff", true}, {"replacement rune", "\ufffd", false, "sfffd", true},
	{"nil iface ptr", (*named)(nil), true, "npn", true}, {"struct ptr", &named{1}, false, "sp", true},
}

type (
	named2  struct{ A int }
	boxed   struct{ V any }
	myInt   int
	myStr   string
	mySlice []int
	myMap   map[string]int
	myFunc  func()
	myChan  chan int
	nilErr  struct{}
)

func (*nilErr) Error() string { return "nil" }

var assertNilPtr *int

func negZero() float64 { z := 0.0; return -z }

var assertMsgs = [][]string{nil, {"m"}, {"m", "%d %s"}, {""}}

func genAsserts(g *core.G) []byte {
	switch g.All(3) {
	case 0:
		return []byte(fmt.Sprintf("nil %d %d", g.All(len(assertVals)), g.All(len(assertMsgs))))
	case 1:
		return []byte(fmt.Sprintf("eq %d %d %d", g.All(len(assertVals)), g.All(len(assertVals)), g.All(len(assertMsgs))))
	default:
		return []byte(fmt.Sprintf("rest %d %d", g.All(nRest), g.All(len(assertMsgs))))
	}
}

// runAssertSeq: a sequence of assertions in one test, by letter: it ends at the
// first one whose condition is false.
func runAssertSeq(c []byte, o *core.Obs) error {
	reached := 0
	want, failWant := len(c), false
	for i, b := range c {
		if b >= 'A' && b <= 'Z' {
			want, failWant = i, true
			break
		}
	}
	var other assert.Assert
	failed, ended, pan := verdict(func(a assert.Assert) {
		other = a
		for i, b := range c {
			use := a
			if i%2 == 1 {
				use = other // a copy of the same assert
			}
			assertStep(use, b)
			reached++
		}
	})
	o.Outcome(string(c), fmt.Sprint(failed, reached))
	if failed != failWant || ended != failWant || pan != nil || reached != want {
		return fmt.Errorf("assertions %s (capitals are false): failed %v, ended %v, panic %v after %d of them, want failed %v after %d", c, failed, ended, pan, reached, failWant, want)
	}
	return nil
}

// assertSteps are assertions: a small letter is true, a capital is false.
const assertSteps = "nNmMqQuUeErRpPoOyYzZ"

func assertStep(a assert.Assert, b byte) {
	boom := func() { panic("boom") }
	quiet := func() {}
	switch b {
	case 'n':
		a.Nil(nil)
	case 'N':
		a.Nil(1)
	case 'm':
		a.NotNil("")
	case 'M':
		a.NotNil(assertNilPtr)
	case 'q':
		a.Equal(1, 1, "m")
	case 'Q':
		a.Equal(1, 2, "m")
	case 'u':
		a.NotEqual(1, 2)
	case 'U':
		a.NotEqual(1, 1)
	case 'e':
		a.NoError(nil)
	case 'E':
		a.NoError(assertErr)
	case 'r':
		a.Require(true, "m")
	case 'R':
		a.Require(false)
	case 'p':
		a.Panic(boom)
	case 'P':
		a.Panic(quiet)
	case 'o':
		a.NoPanic(quiet)
	case 'O':
		a.NoPanic(boom)
	case 'y':
		a.Error(assertErr)
	case 'Y':
		a.Error(nil, "m")
	case 'z': // assertions inside of the called func
		a.NoPanic(func() { a.Panic(boom); a.Equal("a", "a") })
	case 'Z':
		a.Panic(func() { a.NoPanic(func() { a.Equal("a", "b") }) })
	}
}

func genAssertSeq(n int) func(*core.G) []byte {
	return func(g *core.G) []byte {
		b := []byte{}
		l := 1 + g.All(n)
		for i := 0; i < l; i++ {
			b = append(b, assertSteps[g.All(len(assertSteps))])
		}
		return b
	}
}

const nRest = 18

func runAssert(c []byte, o *core.Obs) error {
	f := strings.Fields(string(c))
	num := func(i int) (n int) { fmt.Sscan(f[i], &n); return }
	msg := assertMsgs[num(len(f)-1)]
	expect := func(name string, pass bool, fn func(a assert.Assert)) error {
		failed, ended, pan := verdict(fn)
		o.Outcome(name, fmt.Sprint(failed))
		o.Logf("%s: failed %v, ended the test %v, panic %v", name, failed, ended, pan)
		if pan != nil {
			return fmt.Errorf("%s panics: %v", name, pan)
		}
		if failed == pass {
			return fmt.Errorf("%s fails the test: %v, want %v", name, failed, !pass)
		}
		if ended != failed {
			return fmt.Errorf("%s: failed %v, but the test is ended %v", name, failed, ended)
		}
		return nil
	}
	all := func(errs ...error) error { return errors.Join(errs...) }
	switch f[0] {
	case "nil":
		v := assertVals[num(1)]
		return all(expect("Nil of "+v.name, v.nil, func(a assert.Assert) { a.Nil(v.v, msg...) }),
			expect("NotNil of "+v.name, !v.nil, func(a assert.Assert) { a.NotNil(v.v, msg...) }))
	case "eq":
		v, w := assertVals[num(1)], assertVals[num(2)]
		if !v.comp && !w.comp && reflect.TypeOf(v.v) == reflect.TypeOf(w.v) {
			return core.Skip // values that Go cannot compare
		}
		if !v.comp && !w.comp && reflect.ValueOf(v.v).Kind() == reflect.ValueOf(w.v).Kind() {
			return core.Skip
		}
		eq := v.comp && w.comp && v.class == w.class && v.name != "NaN"
		return all(expect("Equal of "+v.name+" and "+w.name, eq, func(a assert.Assert) { a.Equal(v.v, w.v, msg...) }),
			expect("NotEqual of "+v.name+" and "+w.name, !eq, func(a assert.Assert) { a.NotEqual(v.v, w.v, msg...) }))
	}
	boom := func() { panic("boom") }
	quiet := func() {}
	switch num(1) {
	case 0:
		return expect("Error of an error", true, func(a assert.Assert) { a.Error(assertErr, msg...) })
	case 1:
		return expect("Error of nil", false, func(a assert.Assert) { a.Error(nil, msg...) })
	case 2:
		return expect("NoError of an error", false, func(a assert.Assert) { a.NoError(assertErr, msg...) })
	case 3:
		return expect("NoError of nil", true, func(a assert.Assert) { a.NoError(nil, msg...) })
	case 4:
		return expect("Require true", true, func(a assert.Assert) { a.Require(true, msg...) })
	case 5:
		return expect("Require false", false, func(a assert.Assert) { a.Require(false, msg...) })
	case 6:
		return expect("NoPanic of a panic", false, func(a assert.Assert) { a.NoPanic(boom) })
	case 7:
		return expect("NoPanic of no panic", true, func(a assert.Assert) { a.NoPanic(quiet) })
	case 8:
		return expect("Panic of a panic", true, func(a assert.Assert) { a.Panic(boom) })
	case 9:
		return expect("Panic of no panic", false, func(a assert.Assert) { a.Panic(quiet) })
	case 10:
		return expect("Panic of a runtime error", true, func(a assert.Assert) { a.Panic(func() { var m map[int]int; m[0] = 1 }) })
	case 11:
		return expect("Panic of panic(nil)", true, func(a assert.Assert) { a.Panic(func() { panic(nil) }) })
	case 12:
		return expect("NoPanic of panic(nil)", false, func(a assert.Assert) { a.NoPanic(func() { panic(nil) }) })
	case 13:
		return expect("a recovered panic", true, func(a assert.Assert) { a.NoPanic(func() { defer func() { _ = recover() }(); boom() }) })
	case 14:
		return expect("two assertions", false, func(a assert.Assert) { a.Require(true); a.Equal(1, 2, msg...); a.Require(true) })
	case 15:
		return expect("Error of a typed nil", true, func(a assert.Assert) { a.Error((*nilErr)(nil), msg...) })
	case 16:
		return expect("NoError of a typed nil", false, func(a assert.Assert) { a.NoError((*nilErr)(nil), msg...) })
	default:
		var a assert.Assert
		p, m, st := a.Call(boom)
		q, m2, st2 := a.Call(quiet)
		r, m3, _ := a.Call(func() { panic(assertErr) })
		t := &testing.T{}
		if !p || m != "boom" || st == "" || q || m2 != nil || st2 != "" || !r || m3 != error(assertErr) || assert.New(t).T() != t {
			return fmt.Errorf("Call reports (%v, %v, %d bytes), (%v, %v, %d bytes), (%v, %v)", p, m, len(st), q, m2, len(st2), r, m3)
		}
	}
	return nil
}

// ---- C18 -----------------------------------------------------------------------

// runCombine: "sizes|scheme|Xabc": combines nodes (possibly nil, '.') into the
// first; X is 'n' for CombineNext, 'p' for CombinePrev.
func runCombine(c []byte, o *core.Obs) error {
	sizes, scheme, ops := parseNodeCase(c)
	w := newWorld(sizes, scheme)
	op := ops[0]
	into := idx(op[1])
	k := allKinds[(len(op)+scheme)%len(allKinds)]
	var args []*goast.Node
	var ids []int
	for i := 2; i < len(op); i++ {
		ids = append(ids, idx(op[i]))
		args = append(args, w.node(idx(op[i])))
	}
	var got *goast.Node
	if op[0] == 'n' {
		got = w.node(into).CombineNext(k, args...)
	} else {
		got = w.node(into).CombinePrev(k, args...)
	}
	for into < 0 && len(ids) > 0 {
		into, ids = ids[0], ids[1:]
	}
	o.Outcome(string(c))
	if got != w.node(into) {
		return fmt.Errorf("combining returns %s, want %s", w.name(got), w.name(w.node(into)))
	}
	if into < 0 {
		return w.check()
	}
	text := w.want[into].text
	for _, m := range ids {
		if m < 0 || m == into {
			continue
		}
		if op[0] == 'n' {
			text += w.want[m].text
		} else {
			text = w.want[m].text + text
		}
		w.l = w.l.extract(m)
	}
	w.want[into].text, w.want[into].kind = text, k
	return w.check()
}

// exploreCombine: every node with every sequence of up to n others of a chain.
func exploreCombine(x *core.X) {
	maxN := 3
	if x.Tier == "thorough" {
		maxN = 4
	}
	x.Pool(func(submit func([]byte) bool) {
		for k := 1; k <= 5; k++ {
			partitions(k, k, nil, func(sz []int) {
				for _, sch := range []int{0, 1, 4} {
					for _, d := range "np" {
						var rec func(s string, n int, used int) bool
						rec = func(s string, n, used int) bool {
							if !submit([]byte(sizesText(sz) + "|" + fmt.Sprint(sch) + "|" + s)) {
								return false
							}
							if n == 0 {
								return true
							}
							for i := -1; i < k; i++ {
								if i >= 0 && used>>i&1 == 1 {
									continue // a node is not combined twice
								}
								u := used
								if i >= 0 {
									u |= 1 << i
								}
								if !rec(s+string(letter(i)), n-1, u) {
									return false
								}
							}
							return true
						}
						for i := -1; i < k; i++ {
							if !rec(string(d)+string(letter(i)), maxN, 0) {
								return
							}
						}
					}
				}
			})
		}
	})
}

// runStrip: removing every comment node, as the library's example does, leaves
// exactly the other tokens.
func runStrip(c []byte, o *core.Obs) error {
	p, err := load(c)
	if err != nil {
		return err
	}
	for mode := 0; mode < 3; mode++ {
		scs, err := goast.ParseScope(0, append([]byte{}, p.src...))
		if err != nil {
			return err
		}
		var got strings.Builder
		var want strings.Builder
		vs, err := ref.View(scs)
		if err != nil {
			return err
		}
		for i, s := range scs {
			for _, n := range vs[i].Nodes {
				if n.Kind != kind.Comment {
					want.WriteString(n.Text)
				}
			}
			head := s.Node()
			switch mode {
			case 0: // the node after a comment takes it
				take := false
				head.IterNext(func(n *goast.Node) bool {
					if take {
						n.TakePrev()
						take = false
					}
					take = n.Kind() == kind.Comment
					return true
				})
				if take {
					if l := head.Last(); l.Prev() != nil {
						l.Prev().TakeNext()
					} else {
						l.SetText("")
					}
				}
			case 1: // the node before a comment takes it
				for n := head; n != nil; n = n.Next() {
					for n.Next().Kind() == kind.Comment {
						n.TakeNext()
					}
				}
			default: // comments are isolated
				for _, n := range vs[i].Nodes {
					if n.Kind == kind.Comment {
						n.N.Isolate()
					}
				}
				// joining what is left, in order
				var left []*goast.Node
				for _, n := range vs[i].Nodes {
					if n.Kind != kind.Comment {
						left = append(left, n.N)
					}
				}
				for j := 1; j < len(left); j++ {
					if left[j-1].Next() != left[j] {
						left[j-1].ReplaceNext(left[j])
					}
				}
				if len(left) == 0 {
					continue
				}
				head = left[0]
				head.IterNext(func(n *goast.Node) bool { got.WriteString(n.Text()); return true })
				continue
			}
			first := head
			if first.Kind() == kind.Comment {
				first = first.Next()
			}
			if mode == 0 && head.Kind() == kind.Comment && head.Next() == nil && head.Prev() == nil {
				// it was taken by its successor, which is the head now
				for _, n := range vs[i].Nodes {
					if n.Kind != kind.Comment {
						first = n.N.First()
						break
					}
				}
			}
			first.IterNext(func(n *goast.Node) bool {
				if n.Kind() != kind.Comment {
					got.WriteString(n.Text())
				}
				return true
			})
		}
		o.Outcome(want.String())
		if got.String() != want.String() {
			return fmt.Errorf("after removing the comments (way %d):\n got %q\nwant %q", mode, got.String(), want.String())
		}
		// what is left are exactly the tokens that are no comments
		var toks strings.Builder
		for _, t := range p.toks {
			if t.Kind != kind.Comment {
				toks.WriteString(t.Text)
			}
		}
		if a, b := noComment(want.String()), noComment(toks.String()); a != b {
			return fmt.Errorf("the nodes that are no comments are not the tokens that are none:\n got %q\nwant %q", a, b)
		}
	}
	return nil
}

// noComment drops comments that are part of a merged type node.
func noComment(s string) string {
	var b strings.Builder
	for _, t := range ref.Lex(s) {
		if t.Kind != kind.Comment {
			b.WriteString(t.Text)
		}
	}
	return b.String()
}

// runRename: renaming one node changes the joined text at that node's place only.
// declaredName is what a getter yields for a scope, and where the name stands.
type declaredName struct {
	getter
	scope, off int
	text       string
}

// declaredNames are the getters that yield a name which is a declared name of one node.
func declaredNames(p *program, scs []goast.Scope, vs []ref.ScopeView) []declaredName {
	if !legalReceivers(p) || !wholeDecls(p) {
		return nil
	}
	ds := declsByLine(p)
	var all []declaredName
	for i, v := range vs {
		at := map[string]token.Pos{}
		switch d := ds[v.Line].(type) {
		case *ast.FuncDecl:
			at["GetFuncName"], at["GetMethodName"] = d.Name.Pos(), d.Name.Pos()
			if d.Recv != nil {
				at["GetMethodReceiver"] = d.Recv.List[0].Type.Pos()
			}
		case *ast.GenDecl:
			if d.Tok == token.TYPE && !d.Lparen.IsValid() {
				n := d.Specs[0].(*ast.TypeSpec).Name.Pos()
				at["GetTypeName"], at["GetStructName"], at["GetInterfaceName"] = n, n, n
			}
		}
		for _, g := range getters {
			pos, ok := at[g.name]
			if !ok {
				continue
			}
			if text, ok := g.fn(scs[i]); ok {
				all = append(all, declaredName{g, i, p.off(pos), text})
			}
		}
	}
	return all
}

// runEditedProgram runs both edits.
func runEditedProgram(c []byte, o *core.Obs) error {
	if err := runStrip(c, o); err != nil {
		return err
	}
	return runRename(c, o)
}

func runRename(c []byte, o *core.Obs) error {
	p, err := load(c)
	if err != nil {
		return err
	}
	scs, err := goast.ParseScope(0, append([]byte{}, p.src...))
	if err != nil {
		return err
	}
	a, err := goast.NewAst(scs...)
	if err != nil {
		return core.Skip
	}
	vs, err := ref.View(scs)
	if err != nil {
		return err
	}
	dir, done, err := scratch()
	if err != nil {
		return err
	}
	defer done()
	var all []*goast.Node
	var texts []string
	var offs []int
	off := 0
	for _, v := range vs {
		for _, n := range v.Nodes {
			all = append(all, n.N)
			texts = append(texts, n.Text)
			offs = append(offs, off)
			off += len(n.Text)
		}
	}
	names := declaredNames(p, scs, vs)
	stride := 1 + len(all)/12
	for i := range all {
		old := texts[i]
		var want strings.Builder
		for j, t := range texts {
			if j == i {
				t = "renamed"
			}
			want.WriteString(t)
		}
		line, k := all[i].Line(), all[i].Kind()
		all[i].SetText("renamed")
		if all[i].Line() != line || all[i].Kind() != k {
			return fmt.Errorf("node %d %q has line %d and kind %s after its text was set, was %d, %s", i, old, all[i].Line(), all[i].Kind(), line, k)
		}
		vs, err := ref.View(scs)
		if err != nil {
			return err
		}
		if got := ref.Join(vs); got != want.String() {
			return fmt.Errorf("node %d %q renamed, the text is\n%q, want\n%q", i, old, got, want.String())
		}
		if token.IsIdentifier(old) {
			for _, g := range names {
				text, ok := g.fn(scs[g.scope])
				want := g.text
				if g.off == offs[i] {
					want = "renamed"
				}
				if !ok || text != want {
					return fmt.Errorf("node %d %q renamed, %s of scope %d is %q, %v, want %q", i, old, g.name, g.scope, text, ok, want)
				}
			}
		}
		if i%stride != 0 {
			all[i].SetText(old)
			continue
		}
		if err := a.Save(dir + "/x"); err != nil {
			return fmt.Errorf("save: %v", err)
		}
		got, err := os.ReadFile(dir + "/x.go")
		if err != nil {
			return err
		}
		if w := formatted([]byte(want.String())); !bytes.Equal(got, w) {
			return fmt.Errorf("node %d %q renamed, saved\n%q, want\n%q", i, old, got, w)
		}
		all[i].SetText(old)
	}
	o.Outcome(ref.Join(vs))
	return nil
}

// ---- C13 -----------------------------------------------------------------------

// runNil: nothing that is documented to take no node, scope or ast panics on nil.
func runNil(c []byte, o *core.Obs) error {
	var n *goast.Node
	x := goast.NewNode(0, "x")
	n.Prev()
	n.Next()
	n.First()
	n.Last()
	n.IterNext(func(*goast.Node) bool { return true })
	n.IterPrev(func(*goast.Node) bool { return true })
	n.InsertNext(nil)
	n.InsertPrev(nil)
	n.InsertNext(goast.NewNode(0, "y"))
	n.InsertPrev(goast.NewNode(0, "y"))
	n.ReplaceNext(nil)
	n.ReplacePrev(nil)
	n.ReplaceNext(goast.NewNode(0, "y"))
	n.ReplacePrev(goast.NewNode(0, "y"))
	n.TakeNext()
	n.TakePrev()
	n.RemoveNext()
	n.RemovePrev()
	n.Isolate()
	n.SetKind(kind.Raw)
	n.SetText("x")
	n.Copy()
	n.Copy(true)
	if n.CombineNext(kind.Raw) != nil || n.CombinePrev(kind.Raw) != nil || n.CombineNext(kind.Raw, nil, nil) != nil || n.CombinePrev(kind.Raw, nil) != nil {
		return errors.New("combining no nodes yields a node")
	}
	if n.Description() != "<nil>" || n.Text() != "" || n.Kind() != kind.None || n.Line() != -2 {
		return fmt.Errorf("the nil node is (%d, %q, %s, %q)", n.Line(), n.Text(), n.Kind(), n.Description())
	}
	x.InsertNext(nil)
	x.InsertPrev(nil)
	x.TakeNext()
	x.TakePrev()
	x.CombineNext(kind.Raw, nil)
	x.CombinePrev(kind.Raw, nil, nil)
	if x.Text() != "x" {
		return fmt.Errorf("combining with no node changed the text to %q", x.Text())
	}
	if goast.NewNodes(3) != nil {
		return errors.New("NewNodes of nothing is a node")
	}
	for _, k := range scopeKinds {
		s := goast.NewScope(0, k, nil)
		for _, g := range getters {
			if name, ok := g.fn(s); ok && name != "" {
				return fmt.Errorf("a scope without nodes has %s %q", g.name, name)
			}
		}
		_ = s.Description()
		if s.Copy().Node() != nil || s.Node() != nil {
			return errors.New("a scope without nodes has a node")
		}
		if a, err := goast.NewAst(s); err == nil || a != nil {
			return fmt.Errorf("an ast of a %q scope without nodes has a package", k)
		}
		_ = fmt.Sprint(k.ToKind(), k.String())
	}
	for _, scs := range [][]goast.Scope{nil, {}} {
		if a, err := goast.NewAst(scs...); !errors.Is(err, goast.ErrNoPackage) || a != nil {
			return fmt.Errorf("an ast of nothing: (%v, %v)", a, err)
		}
	}
	for _, b := range [][]byte{nil, {}} {
		if scs, err := goast.ParseScope(0, b); err != nil || len(scs) != 0 {
			return fmt.Errorf("parsing nothing yields %d scopes, %v", len(scs), err)
		}
	}
	return nil
}

// runAny parses any bytes at all; it must end without panic and be lossless, and
// every read access must work on the result.
func runAny(c []byte, o *core.Obs) error {
	for _, line := range []int{0, 7} {
		scs, err := goast.ParseScope(line, append([]byte{}, c...))
		if err != nil {
			return fmt.Errorf("ParseScope: %v", err)
		}
		vs, err := ref.View(scs)
		if err != nil {
			return err
		}
		text := ref.Join(vs)
		if !strings.HasSuffix(string(c), text) {
			return fmt.Errorf("the joined text %q is no end of the input %q", text, c)
		}
		o.Outcome(ref.Dump(vs))
		for _, s := range scs {
			for _, g := range getters {
				g.fn(s)
			}
			_ = s.Description()
			_ = s.Node().Description()
			_ = s.Node().Last()
			_ = s.Copy()
		}
		if a, err := goast.NewAst(scs...); err == nil {
			_, _ = a.Package()
			_ = a.Description()
			_ = a.Copy()
		}
	}
	return nil
}

// nests are one-parameter families of texts: n is how often the unit occurs.
var nests = []struct{ name, pre, open, mid, close, post string }{
	{"parens", "package p\n\nvar x = ", "(", "1", ")", "\n"},
	{"brackets", "package p\n\nvar x = ", "[", "1", "]", "\n"},
	{"braces", "package p\n\nfunc f() ", "{", "", "}", "\n"},
	{"braces in lines", "package p\n\nfunc f() {\n", "{\n", "x\n", "}\n", "}\n"},
	{"unclosed parens", "package p\n\nfunc f", "(", "", "", "\n"},
	{"unclosed braces", "package p\n\ntype T struct ", "{", "", "", "\n"},
	{"unclosed brackets", "package p\n\ntype T ", "[", "", "", "\n"},
	{"closing only", "package p\n\nfunc f", "", "", ")", "\n"},
	{"closing braces only", "package p\n\ntype T struct {", "", "", "}", "\nvar x int\n"},
	{"pointers", "package p\n\ntype T ", "*", "int", "", "\n"},
	{"slices", "package p\n\ntype T ", "[]", "int", "", "\n"},
	{"maps", "package p\n\ntype T ", "map[string]", "int", "", "\n"},
	{"chans", "package p\n\ntype T ", "chan ", "int", "", "\n"},
	{"func results", "package p\n\nfunc f() ", "func() ", "int", "", " {}\n"},
	{"func params", "package p\n\nfunc f(a ", "func(", "int", ")", ") {}\n"},
	{"struct fields", "package p\n\ntype T ", "struct{ A ", "int", " }", "\n"},
	{"interface methods", "package p\n\ntype T ", "interface{ M(a ", "int", ") }", "\n"},
	{"generic", "package p\n\ntype T ", "G[", "int", "]", "\n"},
	{"params", "package p\n\nfunc f(", "a int, ", "b int", "", ") {}\n"},
	{"grouped params", "package p\n\nfunc f(", "a, ", "b int", "", ") {}\n"},
	{"unnamed params", "package p\n\nfunc f(", "int, ", "int", "", ") {}\n"},
	{"results", "package p\n\nfunc f() (", "int, ", "error", "", ") {}\n"},
	{"fields", "package p\n\ntype T struct {\n", "\tA int\n", "", "", "}\n"},
	{"grouped fields", "package p\n\ntype T struct {\n\t", "A, ", "B int\n", "", "}\n"},
	{"methods", "package p\n\ntype T interface {\n", "\tM(a int) error\n", "", "", "}\n"},
	{"scopes", "package p\n\n", "var x int\n", "", "", ""},
	{"funcs", "package p\n\n", "func f(a int) error {\n\treturn nil\n}\n", "", "", ""},
	{"types", "package p\n\n", "type T struct {\n\tA int `j`\n}\n", "", "", ""},
	{"comments", "package p\n", "// c\n", "", "", "var x int\n"},
	{"inner comments", "package p\n", "/* c\n*/\n", "", "", "var x int\n"},
	{"comments in params", "package p\n\nfunc f(a ", "/* c */ ", "int", "", ") {}\n"},
	{"blank lines", "package p\n", "\n", "", "", "var x int\n"},
	{"spaces", "package p\n\nvar", " ", "x", "", " int\n"},
	{"string length", "package p\n\nvar x = \"", "a", "", "", "\"\nvar y int\n"},
	{"string escapes", "package p\n\nvar x = \"", "\\\\", "", "", "\"\nvar y int\n"},
	{"quote escapes", "package p\n\nvar x = \"", "\\\"", "", "", "\"\nvar y int\n"},
	{"raw string lines", "package p\n\nvar x = `", "func x() {\n", "", "", "`\nvar y int\n"},
	{"comment length", "package p\n\n// ", "c", "", "", "\nvar y int\n"},
	{"inner comment lines", "package p\n\n/*", "\nvar x int", "", "", "*/\nvar y int\n"},
	{"inner comment stars", "package p\n\n/*", "*", "", "", "*/\nvar y int\n"},
	{"identifier length", "package p\n\nfunc ", "a", "", "", "(x int) {}\n"},
	{"number length", "package p\n\nvar x = ", "1", "", "", "\n"},
	{"operators", "package p\n\nvar x = ", "-", "1", "", "\n"},
	{"calls", "package p\n\nfunc f() {\n", "\tg(\"a\", '\\'', `b`)\n", "", "", "}\n"},
	{"switch", "package p\n\nfunc f() {\n\tswitch x {\n", "\tcase \"{\":\n", "", "", "\t}\n}\nvar y int\n"},
	{"func literals", "package p\n\nfunc f() {\n\t_ = ", "func() { _ = ", "1", " }", "\n}\nvar y int\n"},
	{"type params", "package p\n\nfunc f[", "A any, ", "B any", "", "](a A) {}\n"},
	{"embedded", "package p\n\ntype T struct {\n", "\tE\n\t*p.F\n", "", "", "}\n"},
	{"group", "package p\n\nvar (\n", "\tx = 1\n", "", "", ")\nvar y int\n"},
	{"imports", "package p\n\nimport (\n", "\t\"a\"\n", "", "", ")\nvar y int\n"},
	{"CRLF", "package p\r\n", "var x int\r\n", "", "", ""},
	{"tags", "package p\n\ntype T struct {\n\tA int `", "j:\"a\" ", "", "", "`\n\tB int\n}\n"},
	{"qualified", "package p\n\nfunc f(a ", "p.", "T", "", ") {}\n"},
	{"non-ascii", "package p\n\nvar ", "é", "", "", " int\n"},
	{"multi-line params", "package p\n\nfunc f(\n", "\ta int, // c\n", "", "", ") error {\n}\nvar y int\n"},
}

func familyText(i, n int) []byte {
	f := nests[i]
	return []byte(f.pre + strings.Repeat(f.open, n) + f.mid + strings.Repeat(f.close, n) + f.post)
}

// exploreFamilies runs every family at every size up to a bound, then at single
// larger sizes. maxSingle bounds those.
func exploreFamilies(every, everyT int, single, singleT []int) func(x *core.X) {
	return func(x *core.X) {
		e := every
		single := single
		if x.Tier == "thorough" {
			e = everyT
			single = append(append([]int{}, single...), singleT...)
		}
		x.Pool(func(submit func([]byte) bool) {
			for n := 0; n <= e; n++ {
				for i := range nests {
					if !submit([]byte(fmt.Sprintf("%d %d", i, n))) {
						return
					}
				}
			}
			for _, n := range single {
				if n <= e {
					continue
				}
				for i := range nests {
					if !submit([]byte(fmt.Sprintf("%d %d", i, n))) {
						return
					}
				}
			}
		})
	}
}

// runHuge parses a text of millions of tokens, which no recursion over its nesting
// or its nodes survives.
func runHuge(c []byte, o *core.Obs) error {
	scs, err := goast.ParseScope(0, c)
	if err != nil {
		return fmt.Errorf("ParseScope: %v", err)
	}
	size := 0
	for _, s := range scs {
		s.Node().IterNext(func(n *goast.Node) bool { size += len(n.Text()); return true })
	}
	if size > len(c) {
		return fmt.Errorf("%d bytes of text came out of %d", size, len(c))
	}
	rest := c[len(c)-size:]
	if i := bytes.Index(c, []byte("package p\n")); i >= 0 && size < len(c)-i {
		return fmt.Errorf("%d bytes of text came out of %d", size, len(c)-i)
	}
	nodes := 0
	for _, s := range scs {
		bad := s.Node().IterNext(func(n *goast.Node) bool {
			if t := n.Text(); len(t) > len(rest) || t != string(rest[:len(t)]) {
				return false
			}
			rest = rest[len(n.Text()):]
			nodes++
			return true
		})
		if bad != nil {
			return fmt.Errorf("node %d has text %q", nodes, bad.Text())
		}
	}
	copied := 0
	for _, s := range scs {
		s.Copy().Node().IterNext(func(n *goast.Node) bool { copied++; return true })
	}
	if copied != nodes {
		return fmt.Errorf("%d nodes have %d copies", nodes, copied)
	}
	o.AddTransitions(int64(nodes))
	o.Outcome(fmt.Sprint(nodes, len(scs), size))
	return nil
}

// quadratic are families that take quadratic time, which is only unreasonable at
// sizes that no program has.
var quadratic = map[string]bool{"func results": true, "func params": true}

func exploreHuge(bytes, bytesT int) func(x *core.X) {
	return func(x *core.X) {
		if x.Tier == "thorough" {
			bytes = bytesT
		}
		for i, f := range nests {
			if !quadratic[f.name] && !x.Exec([]byte(fmt.Sprintf("%d %d", i, bytes/len(f.open+f.close)))) {
				return
			}
		}
	}
}

// exploreLong runs every family that is not quadratic at the given sizes.
func exploreLong(sizes, sizesT []int) func(x *core.X) {
	return func(x *core.X) {
		sizes := sizes
		if x.Tier == "thorough" {
			sizes = sizesT
		}
		x.Pool(func(submit func([]byte) bool) {
			for i, f := range nests {
				for _, n := range sizes {
					if !quadratic[f.name] && !submit([]byte(fmt.Sprintf("%d %d", i, n))) {
						return
					}
				}
			}
		})
	}
}

// onFamily turns a check on texts into one on families.
func onFamily(run func([]byte, *core.Obs) error) func([]byte, *core.Obs) error {
	return func(c []byte, o *core.Obs) error {
		var i, n int
		if _, err := fmt.Sscan(string(c), &i, &n); err != nil {
			return core.Internal{Err: err}
		}
		if err := run(familyText(i, n), o); err != nil {
			if err == core.Skip {
				return err
			}
			var in core.Internal
			if errors.As(err, &in) {
				return err
			}
			m := err.Error()
			if len(m) > 1500 {
				m = m[:700] + " ... " + m[len(m)-700:]
			}
			return fmt.Errorf("family %q, size %d: %s", nests[i].name, n, m)
		}
		return nil
	}
}

func init() {
	reg("C19", "every case is one input of a helper (or a parsed program for descriptions); the result is compared with the standard library or a direct restatement of the documented format. Non-trivial: distinct results.", nil,
		[]*core.Space{
			{Name: "affixes", About: "every pair of strings of up to 3 (thorough: 4) of 7 pieces incl. multi-byte and invalid UTF-8; a 400 byte text with every single byte changed or cut", Explore: exploreAffix, Run: runAffix},
			{Name: "texts", About: "every text of up to 6 (thorough: 7) of 6 pieces through TidyText, node and scope descriptions, NewNode", GenTier: byTier(tokenSeq(6, []string{""}, []string{"\n", "\t", " ", "\r", "x", "é"}, []string{""}), tokenSeq(7, []string{""}, []string{"\n", "\t", " ", "\r", "x", "é"}, []string{""})), Run: runTidy},
			{Name: "append", About: "every pair of sequences of up to 4 of 3 elements through AppendUnrepeatable", Gen: genAppend, Run: runAppend},
			{Name: "print", About: "every text of up to 4 (thorough: 5) of the same pieces as a node and a scope: what Print and DebugPrint write", GenTier: byTier(tokenSeq(4, []string{""}, []string{"\n", "\t", " ", "\r", "x", "é"}, []string{""}), tokenSeq(5, []string{""}, []string{"\n", "\t", " ", "\r", "x", "é"}, []string{""})), Run: runPrint, Serial: true},
			{Name: "descriptions", About: "programs of the file grammar: the description of the ast", Gen: genFile(true), Quick: 2, Thorough: 3, Run: runAstDescription},
		})
	reg("C20", "every case is one assertion on one or two values with one set of messages, run against a test of its own; whether it fails and ends that test is compared with the values' declared classes. Non-trivial: distinct verdicts.",
		[]string{"values that Go cannot compare (slices, maps, funcs of the same kind) are outside of Equal's quantifier"},
		[]*core.Space{{Name: "verdicts", About: "Nil, NotNil of 83 values; Equal, NotEqual of every pair of them; 18 uses of the other assertions; 4 sets of messages", Gen: genAsserts, Run: runAssert, Setup: startTests, Serial: true},
			{Name: "sequences", About: "every sequence of up to 3 (thorough: 4) of 20 assertions, true and false ones, in one test", GenTier: byTier(genAssertSeq(3), genAssertSeq(4)), Run: runAssertSeq, Setup: startTests, Serial: true},
			{Name: "reports", About: "24 assertions, failing and true, each with every sequence of up to 2 (thorough: 3) of 5 messages, in a test or a subtest: each a test program of its own, whose output has to name the caller's line, the test, the values and the messages", GenTier: byTier(genReports(2), genReports(3)), Run: runReport}})
	reg("C18", "every case is a combination of nodes, or a program whose nodes are renamed or whose comments are removed; the joined and the saved text are compared with the edited list of texts. Non-trivial: distinct results.",
		[]string{toolAssume, "a node is not combined into another one twice in one call"},
		[]*core.Space{
			{Name: "combine", About: "sets of chains of up to 5 nodes, every node or nil as target, every sequence of up to 3 (thorough: 4) distinct nodes and nils, both directions, 3 attribute schemes", Explore: exploreCombine, Run: runCombine},
			withSetup(corpus(1000, 3000, runEditedProgram), quiet),
			{Name: "strip", About: "programs of the file grammar with comments: every comment removed in 3 ways", Gen: genFile(true), Quick: 2, Thorough: 3, Run: runStrip},
			{Name: "rename", About: "programs of the file grammar: every node renamed and restored, up to 12 of them also saved", Gen: genFile(true), Quick: 2, Thorough: 3, Run: runRename, Setup: quiet},
		})
	reg("C13", "every case is a text (or a family and a size); parsing it, and every read access on the result, must end without a panic and with the input's text. Non-trivial: distinct results.", []string{lexAssume},
		[]*core.Space{
			{Name: "nil", About: "every operation on nil nodes, scopes without nodes and empty inputs", Gen: one("nil"), Run: runNil},
			{Name: "bytes", About: "every string of 2 (thorough: 3) bytes in 12 lexical contexts", GenTier: byTier(byteSeq(2), byteSeq(3)), Run: runAny},
			{Name: "tokens", About: "every sequence of up to 3 tokens out of 49 in 13 contexts", Gen: tokenSeq(3, tokenContexts, tokenAlphabet, []string{""}), Run: runAny},
			corpus(20000, 300000, runAny),
			corpusCuts(500, 1500, runAny),
			{Name: "places", About: "every sequence of up to 2 (thorough: 3) of 61 units, one within the other, at 27 places of declarations", GenTier: byTier(genPlaced(2), genPlaced(3)), Run: runAny},
			{Name: "places-long", About: "each of 58 units repeated or nested 100000 (thorough: 500000) times at 27 places of declarations", Explore: explorePlaced(100000, 500000), Run: runPlaced, HangAfter: 15 * time.Second},
			{Name: "families", About: "56 families of texts at every size up to 64 (thorough: 300), and at 127-129, 255-257, 511-513, 1000, 1023-1025, 4095-4097, 10000", Explore: exploreFamilies(64, 300, []int{127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000}, nil), Run: onFamily(runAny), HangAfter: 100 * time.Second},
			{Name: "huge", About: "the families whose size costs linear time, one after the other, repeated to 3 (thorough: 12) million bytes", Explore: exploreHuge(3000000, 12000000), Run: onFamily(runHuge), HangAfter: 200 * time.Second, Serial: true},
		})
}
