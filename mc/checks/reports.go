package checks

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"testing"

	"github.com/yanun0323/goast/assert"
	"verifmc/core"
)

// What a failed assertion reports: each case is a test program of its own, whose
// output is that of the testing package.

var reportLine int

func at() {
	_, _, reportLine, _ = runtime.Caller(1)
}

type report struct {
	name  string
	fails bool
	run   func(a assert.Assert, m ...string)
	shows []string // what the report has to show, apart from the messages
	noMsg bool     // the assertion takes no messages
}

var reports = []report{
	{"Nil", true, func(a assert.Assert, m ...string) { at(); a.Nil("vx41", m...) }, []string{"vx41"}, false},
	{"Nil of a pointer", true, func(a assert.Assert, m ...string) { at(); a.Nil(&named{7431}, m...) }, []string{"7431"}, false},
	{"NotNil", true, func(a assert.Assert, m ...string) { at(); a.NotNil(assertNilPtr, m...) }, []string{"nil"}, false},
	{"Equal", true, func(a assert.Assert, m ...string) { at(); a.Equal("vx41", "wy52", m...) }, []string{"vx41", "wy52"}, false},
	{"Equal of types", true, func(a assert.Assert, m ...string) { at(); a.Equal(7431, int64(7431), m...) }, []string{"7431"}, false},
	{"Equal of structs", true, func(a assert.Assert, m ...string) { at(); a.Equal(named{7431}, named{8542}, m...) }, []string{"7431", "8542"}, false},
	{"Equal of verbs", true, func(a assert.Assert, m ...string) { at(); a.Equal("v%d", "w%%", m...) }, []string{"v%d", "w%%"}, false},
	{"NotEqual", true, func(a assert.Assert, m ...string) { at(); a.NotEqual("vx41", "vx41", m...) }, []string{"vx41"}, false},
	{"Error", true, func(a assert.Assert, m ...string) { at(); a.Error(nil, m...) }, nil, false},
	{"NoError", true, func(a assert.Assert, m ...string) { at(); a.NoError(errors.New("vx41 %d"), m...) }, []string{"vx41 %d"}, false},
	{"Require", true, func(a assert.Assert, m ...string) { at(); a.Require(false, m...) }, nil, false},
	{"NoPanic", true, func(a assert.Assert, m ...string) { at(); a.NoPanic(func() { panic("vx41") }) }, []string{"vx41"}, true},
	{"NoPanic of an error", true, func(a assert.Assert, m ...string) { at(); a.NoPanic(func() { panic(errors.New("vx41")) }) }, []string{"vx41"}, true},
	{"NoPanic of a number", true, func(a assert.Assert, m ...string) { at(); a.NoPanic(func() { panic(7431) }) }, []string{"7431"}, true},
	{"Panic", true, func(a assert.Assert, m ...string) { at(); a.Panic(func() {}) }, nil, true},
	{"true Nil", false, func(a assert.Assert, m ...string) { at(); a.Nil(nil, m...) }, nil, false},
	{"true NotNil", false, func(a assert.Assert, m ...string) { at(); a.NotNil(1, m...) }, nil, false},
	{"true Equal", false, func(a assert.Assert, m ...string) { at(); a.Equal(1, 1, m...) }, nil, false},
	{"true NotEqual", false, func(a assert.Assert, m ...string) { at(); a.NotEqual(1, 2, m...) }, nil, false},
	{"true Error", false, func(a assert.Assert, m ...string) { at(); a.Error(errors.New("vx41"), m...) }, nil, false},
	{"true NoError", false, func(a assert.Assert, m ...string) { at(); a.NoError(nil, m...) }, nil, false},
	{"true Require", false, func(a assert.Assert, m ...string) { at(); a.Require(true, m...) }, nil, false},
	{"true NoPanic", false, func(a assert.Assert, m ...string) { at(); a.NoPanic(func() {}) }, nil, true},
	{"true Panic", false, func(a assert.Assert, m ...string) { at(); a.Panic(func() { panic("vx41") }) }, nil, true},
}

var reportPieces = []string{"mk63", "%d", "ñ%s", "100%", ""}

// reportMsgs of up to two messages out of the pieces.
func genReports(n int) func(*core.G) []byte {
	return func(g *core.G) []byte {
		i, b := g.All(len(reports)), ""
		if !reports[i].noMsg {
			for k := g.All(n + 1); k > 0; k-- {
				b += " " + strconv.Itoa(g.All(len(reportPieces)))
			}
		}
		return []byte(strconv.Itoa(i) + " " + strconv.Itoa(g.All(2)) + b)
	}
}

func reportCase(c string) (r report, nested bool, msgs []string) {
	f := strings.Fields(c)
	i, _ := strconv.Atoi(f[0])
	for _, s := range f[2:] {
		k, _ := strconv.Atoi(s)
		msgs = append(msgs, reportPieces[k])
	}
	return reports[i], f[1] == "1", msgs
}

// Report is the test program of one case.
func Report(c string) {
	r, nested, msgs := reportCase(c)
	os.Args = []string{"test"}
	fn := func(t *testing.T) {
		defer func() { fmt.Printf("called at <%d>, failed <%v>\n", reportLine, t.Failed()) }()
		r.run(assert.New(t), msgs...)
	}
	name := "case63"
	if nested {
		in := fn
		fn = func(t *testing.T) { t.Run("sub74", in) }
	}
	testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: name, F: fn}}, nil, nil)
}

var reportRe = regexp.MustCompile(`called at <(\d+)>, failed <(\w+)>\n`)

func runReport(c []byte, o *core.Obs) error {
	r, nested, msgs := reportCase(string(c))
	self, err := os.Executable()
	if err != nil {
		return err
	}
	cmd := exec.Command(self, "report", string(c))
	b, err := cmd.CombinedOutput()
	out := string(b)
	o.Outcome(r.name, fmt.Sprint(err != nil))
	o.Logf("%s", out)
	m := reportRe.FindStringSubmatch(out)
	if m == nil {
		return fmt.Errorf("the test of %s does not run (%v):\n%s", r.name, err, out)
	}
	if (err != nil) != r.fails {
		return fmt.Errorf("%s: the test program fails: %v, want %v:\n%s", r.name, err != nil, r.fails, out)
	}
	out = strings.Replace(out, m[0], "", 1)
	if !r.fails {
		if strings.TrimSpace(out) != "PASS" && strings.TrimSpace(out) != "testing: warning: no tests to run\nPASS" {
			return fmt.Errorf("%s succeeds and writes %q", r.name, out)
		}
		return nil
	}
	where := "reports.go:" + m[1] + ": "
	i := strings.Index(out, where)
	if i < 0 {
		return fmt.Errorf("%s is reported elsewhere than at its call (%s):\n%s", r.name, where, out)
	}
	text := out[i+len(where):]
	name := "case63"
	if nested {
		name = "case63/sub74"
	}
	if strings.Contains(text, "%!") {
		return fmt.Errorf("the report of %s is formatted wrongly:\n%s", r.name, out)
	}
	for _, s := range append(append([]string{name}, r.shows...), msgs...) {
		if !strings.Contains(text, s) {
			return fmt.Errorf("the report of %s does not show %q:\n%s", r.name, s, out)
		}
	}
	return nil
}
