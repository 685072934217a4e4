package checks

import (
	"bytes"
	"errors"
	"fmt"
	"go/format"
	"log/slog"
	"os"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"golang.org/x/tools/imports"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/helper"
	"github.com/yanun0323/goast/scope"

	"verifmc/core"
	"verifmc/ref"
)

var scratchSeq atomic.Int64

// scratch makes a directory of its own below the supervisor's scratch directory.
func scratch() (string, func(), error) {
	base := os.Getenv("MC_SCRATCH")
	if base == "" {
		return "", nil, core.Internal{Err: errors.New("no scratch directory")}
	}
	dir := filepath.Join(base, fmt.Sprintf("w%d-%d", os.Getpid(), scratchSeq.Add(1)))
	if err := os.Mkdir(dir, 0o777); err != nil {
		return "", nil, core.Internal{Err: err}
	}
	return dir, func() { os.RemoveAll(dir) }, nil
}

func withScratch(fn func(dir string, c []byte, o *core.Obs) error) func([]byte, *core.Obs) error {
	return func(c []byte, o *core.Obs) error {
		dir, done, err := scratch()
		if err != nil {
			return err
		}
		defer done()
		return fn(dir, c, o)
	}
}

func quiet() error {
	// unformattable data is logged by design; the log is not part of a property
	slog.SetDefault(slog.New(slog.NewTextHandler(nowhere{}, nil)))
	return nil
}

type nowhere struct{}

func (nowhere) Write(b []byte) (int, error) { return len(b), nil }

func put(path string, b []byte) error {
	if err := os.WriteFile(path, b, 0o666); err != nil {
		return core.Internal{Err: err}
	}
	return nil
}

// formatted is what saving a text has to write.
func formatted(text []byte) []byte {
	if f, err := format.Source(text); err == nil {
		return f
	}
	return text
}

func viewText(vs []ref.ScopeView) []byte { return []byte(ref.Join(vs)) }

// ---- C16 -----------------------------------------------------------------------

// expectPackage is what ParseAst has to say about a file's bytes.
func expectPackage(c []byte) (name string, err error, bad bool) {
	src, ferr := format.Source(c)
	if ferr != nil {
		return "", nil, true
	}
	toks := ref.Lex(string(src))
	at, end := -1, len(src)
	for _, s := range ref.Starts(toks) {
		if at >= 0 {
			end = s.Off // a comment at the start of a line ends the clause's scope
			break
		}
		if s.Kind == scope.Package {
			at = s.Off
		}
	}
	if at < 0 {
		return "", goast.ErrNoPackage, false
	}
	rest := src[at+len("package") : end]
	for _, t := range ref.Lex(string(rest)) {
		if t.Text == " " || t.Text == "\t" || t.Text == "\n" || t.Text == "\r" || strings.HasPrefix(t.Text, "/*") || strings.HasPrefix(t.Text, "//") {
			continue
		}
		return t.Text, nil, false
	}
	return "", goast.ErrNoPackage, false
}

func runPackage(dir string, c []byte, o *core.Obs) error {
	path := filepath.Join(dir, "x.go")
	if err := put(path, c); err != nil {
		return err
	}
	a, err := goast.ParseAst(path)
	name, wErr, bad := expectPackage(c)
	o.Outcome(name, fmt.Sprint(err), fmt.Sprint(bad))
	switch {
	case bad:
		if err == nil || errors.Is(err, goast.ErrNotExist) || errors.Is(err, goast.ErrNoPackage) {
			return fmt.Errorf("no valid Go, but ParseAst says %v", err)
		}
		if a != nil {
			return errors.New("no valid Go, but ParseAst returns an ast")
		}
		return nil
	case wErr != nil:
		if !errors.Is(err, wErr) {
			return fmt.Errorf("no package clause, but ParseAst says %v", err)
		}
	default:
		if err != nil {
			return fmt.Errorf("package %q, but ParseAst says %v", name, err)
		}
		if got, err := a.Package(); got != name || err != nil {
			return fmt.Errorf("the package is (%q, %v), want %q", got, err, name)
		}
	}
	// the same through NewAst and SetScope
	src, _ := format.Source(c)
	scs, err := goast.ParseScope(0, src)
	if err != nil {
		return err
	}
	n, err := goast.NewAst(scs...)
	if !errors.Is(err, wErr) || (err == nil) != (wErr == nil) {
		return fmt.Errorf("NewAst says %v, want %v", err, wErr)
	}
	if err == nil {
		if got, err := n.Package(); got != name || err != nil {
			return fmt.Errorf("NewAst: the package is (%q, %v), want %q", got, err, name)
		}
		e := n.SetScope(nil)
		if got, err := e.Package(); got != "" || !errors.Is(err, goast.ErrNoPackage) {
			return fmt.Errorf("without scopes the package is (%q, %v)", got, err)
		}
		if got, err := e.SetScope(scs).Package(); got != name || err != nil {
			return fmt.Errorf("SetScope: the package is (%q, %v), want %q", got, err, name)
		}
	}
	return nil
}

var clauseTokens = []string{"package", " ", "\n", "p", "// c\n", "/* c */", "/*\n*/", ";", "int", "var x int\n", "func", "packager", "\"s\"", "\r\n", "{", "π"}

func genClauses(n int) func(g *core.G) []byte {
	return func(g *core.G) []byte {
		var b strings.Builder
		l := g.All(n + 1)
		for i := 0; i < l; i++ {
			b.WriteString(clauseTokens[g.All(len(clauseTokens))])
		}
		b.WriteString(g.AllS("", "\nvar y int\n", "\npackage q\n"))
		return []byte(b.String())
	}
}

func genPackageNames(g *core.G) []byte {
	words := append(append([]string{}, basicTypes...), goKeywords...)
	words = append(words, "main", "p", "P", "_", "__", "_p", "p_", "p1", "1p", "any", "error", "nil", "packages", "pack", "functional", "vars", "types", "importx", "consts", "mapx", "chanx", "π", "é", "日本", "x_test", strings.Repeat("a", 300), "", "p.q", "p-q", "\"p\"", "`p`", "'p'", "true", "iota", "init", "len")
	pre := g.AllS("", "// c\n", "// c\n\n", "/* c */\n", "\n\n", "/*\npackage x\n*/\n", "//go:build x\n\n", "// package x\n", "/* a */ ", "\ufeff")
	sep := g.AllS(" ", "\t", "  ", "\n", "/* c */", " /* c */ ", " // c\n", " /* package x */ ", "\r\n")
	w := words[g.All(len(words))]
	post := g.AllS("", "\n", ";", " // c\n", " /* c */\n", "\nimport \"fmt\"\n", "; var x int", "\r\n", "/* c */")
	return []byte(pre + "package" + sep + w + post)
}

// runPaths: what ParseAst says about paths that are no readable Go file.
func runPaths(dir string, c []byte, o *core.Obs) error {
	good := []byte("package p\n")
	must := func(err error) {
		if err != nil {
			panic(core.Internal{Err: err})
		}
	}
	must(put(filepath.Join(dir, "file.go"), good))
	must(put(filepath.Join(dir, "plain"), good))
	must(put(filepath.Join(dir, "empty.go"), nil))
	must(put(filepath.Join(dir, ".go"), []byte("package dot\n")))
	must(put(filepath.Join(dir, "a b.go"), good))
	must(put(filepath.Join(dir, "up.GO.go"), good))
	must(put(filepath.Join(dir, "x.go.go"), []byte("package twice\n")))
	must(put(filepath.Join(dir, "go.go"), []byte("package gogo\n")))
	must(os.MkdirAll(filepath.Join(dir, "dir.go"), 0o777))
	must(os.MkdirAll(filepath.Join(dir, "sub", "deep"), 0o777))
	must(put(filepath.Join(dir, "sub", "deep", "s.go"), []byte("package s\n")))
	must(os.Symlink("nothing.go", filepath.Join(dir, "dangling.go")))
	must(os.Symlink("file.go", filepath.Join(dir, "link.go")))
	must(os.Symlink("loop.go", filepath.Join(dir, "loop.go")))
	type want struct {
		pkg   string
		exist bool // false: ErrNotExist is required
		other bool // some other error
	}
	rows := map[string]want{
		"file.go": {pkg: "p", exist: true}, "file": {pkg: "p", exist: true}, "link": {pkg: "p", exist: true}, "a b": {pkg: "p", exist: true},
		"plain": {}, "plain.go": {}, "missing": {}, "missing.go": {}, "missing/x.go": {}, "": {pkg: "dot", exist: true}, ".go": {pkg: "dot", exist: true},
		"up.GO": {pkg: "p", exist: true}, "x.go": {}, "x.go.go": {pkg: "twice", exist: true}, "go": {pkg: "gogo", exist: true}, "go.go": {pkg: "gogo", exist: true},
		"dir.go": {exist: true, other: true}, "dir": {exist: true, other: true}, "sub/deep/s": {pkg: "s", exist: true}, "sub/../sub/deep/s.go": {pkg: "s", exist: true},
		"dangling": {}, "loop": {exist: true, other: true}, "file.go/x": {exist: true, other: true}, "empty": {exist: true, other: true},
		strings.Repeat("n", 300): {exist: true, other: true}, "nul\x00x": {exist: true, other: true}, "file.goo": {}, "filego": {}, "file.g": {},
	}
	name := string(c)
	w, ok := rows[name]
	if !ok {
		return core.Internal{Err: fmt.Errorf("no row for %q", name)}
	}
	full := dir + "/" + name
	a, err := goast.ParseAst(full)
	o.Outcome(name)
	switch {
	case !w.exist:
		if !errors.Is(err, goast.ErrNotExist) || a != nil {
			return fmt.Errorf("%q does not exist, but ParseAst says (%v, %v)", name, a, err)
		}
	case w.other:
		// an empty file is no package; everything else is the system's error
		if err == nil || errors.Is(err, goast.ErrNotExist) || a != nil {
			return fmt.Errorf("%q cannot be parsed, but ParseAst says (%v, %v)", name, a, err)
		}
		if name == "empty" && !errors.Is(err, goast.ErrNoPackage) {
			return fmt.Errorf("an empty file has no package, but ParseAst says %v", err)
		}
	default:
		if err != nil {
			return fmt.Errorf("%q: %v", name, err)
		}
		if p, err := a.Package(); p != w.pkg || err != nil {
			return fmt.Errorf("%q: package (%q, %v), want %q", name, p, err, w.pkg)
		}
		if a.File() != full || a.Dir() != filepath.Dir(full) || a.Filename() != filepath.Base(full) || a.Ext() != filepath.Ext(full) {
			return fmt.Errorf("%q: file %q dir %q name %q ext %q", name, a.File(), a.Dir(), a.Filename(), a.Ext())
		}
		// they survive SetScope and Copy
		for _, b := range []goast.Ast{a.SetScope(a.Scope()), a.Copy(), a.SetScope(nil)} {
			if b.File() != full || b.Dir() != a.Dir() || b.Filename() != a.Filename() || b.Ext() != a.Ext() {
				return fmt.Errorf("%q: the derived ast has file %q dir %q name %q ext %q", name, b.File(), b.Dir(), b.Filename(), b.Ext())
			}
		}
	}
	return nil
}

func genPaths(g *core.G) []byte {
	return []byte(g.AllS("file.go", "file", "link", "a b", "plain", "plain.go", "missing", "missing.go", "missing/x.go", "", ".go", "up.GO", "x.go", "x.go.go", "go", "go.go",
		"dir.go", "dir", "sub/deep/s", "sub/../sub/deep/s.go", "dangling", "loop", "file.go/x", "empty", strings.Repeat("n", 300), "nul\x00x", "file.goo", "filego", "file.g"))
}

// ---- C11 -----------------------------------------------------------------------

// runRoundTrip writes a program in its raw and formatted form, parses and saves it.
func runRoundTrip(dir string, c []byte, o *core.Obs) error {
	p, err := load(c)
	if err != nil {
		return err
	}
	in := filepath.Join(dir, "in.go")
	var (
		a    goast.Ast
		want []ref.ScopeView
		dump string
	)
	for _, b := range [][]byte{c, p.src} {
		fb, err := format.Source(b) // formatting is not always idempotent
		if err != nil {
			return core.Skip
		}
		want, err = parse(fb)
		if err != nil {
			return err
		}
		dump = ref.Dump(want)
		o.Outcome(dump)
		if err := put(in, b); err != nil {
			return err
		}
		a, err = goast.ParseAst(in)
		if err != nil {
			if errors.Is(err, goast.ErrNoPackage) {
				if _, w, _ := expectPackage(b); w != nil {
					return core.Skip // the package clause follows a comment on its line
				}
			}
			return fmt.Errorf("ParseAst: %v", err)
		}
		vs, err := ref.View(a.Scope())
		if err != nil {
			return err
		}
		if got := ref.Dump(vs); got != dump {
			return fmt.Errorf("parsing the file differs from parsing its formatted text:\n got %s\nwant %s", got, dump)
		}
		if got, err := os.ReadFile(in); err != nil || !bytes.Equal(got, b) {
			return fmt.Errorf("parsing a file changed it (%v)", err)
		}
	}
	if got, err := os.ReadFile(in); err != nil || !bytes.Equal(got, p.src) {
		return fmt.Errorf("parsing a file changed it (%v)", err)
	}
	text := formatted(viewText(want))
	out := filepath.Join(dir, "new", "sub", "out")
	for i, step := range []struct {
		arg, file string
		old       []byte
	}{
		{out, out + ".go", nil},
		{out + ".go", out + ".go", append(bytes.Repeat([]byte("// longer than before\n"), 200), p.src...)},
		{out, out + ".go", []byte("x")},
		{in, in, nil},
	} {
		if step.old != nil {
			if err := put(step.file, step.old); err != nil {
				return err
			}
		}
		if err := a.Save(step.arg, i == 99); err != nil {
			return fmt.Errorf("save %d: %v", i, err)
		}
		got, err := os.ReadFile(step.file)
		if err != nil {
			return fmt.Errorf("save %d wrote no file: %v", i, err)
		}
		if !bytes.Equal(got, text) {
			return fmt.Errorf("save %d wrote\n%q, want\n%q", i, got, text)
		}
		if step.arg == out {
			if _, err := os.Stat(out); err == nil {
				return fmt.Errorf("save %d wrote a file without suffix", i)
			}
		}
	}
	if es, _ := os.ReadDir(filepath.Join(dir, "new", "sub")); len(es) != 1 {
		return fmt.Errorf("saving left %d files, want 1", len(es))
	}
	if vs, err := ref.View(a.Scope()); err != nil || ref.Dump(vs) != dump {
		return fmt.Errorf("saving changed the ast (%v)", err)
	}
	b, err := goast.ParseAst(out)
	if err != nil {
		return fmt.Errorf("the saved file: %v", err)
	}
	vs, err := ref.View(b.Scope())
	if err != nil {
		return err
	}
	again, err := parse(text)
	if err != nil {
		return err
	}
	if got, want := ref.Dump(vs), ref.Dump(again); got != want {
		return fmt.Errorf("parsing the saved file differs:\n got %s\nwant %s", got, want)
	}
	return nil
}

// runAutoImport: saving with auto import writes what goimports makes of the text.
func runAutoImport(dir string, c []byte, o *core.Obs) error {
	scs, err := goast.ParseScope(0, append([]byte{}, c...))
	if err != nil {
		return err
	}
	vs, err := ref.View(scs)
	if err != nil {
		return err
	}
	a, err := goast.NewAst(scs...)
	if err != nil {
		return core.Skip
	}
	out := filepath.Join(dir, "out.go")
	text := viewText(vs)
	want, ierr := imports.Process(out, text, nil)
	if ierr != nil {
		want = text
	}
	o.Outcome(string(want))
	if bytes.Equal(want, text) {
		o.Trivial()
	}
	if err := a.Save(filepath.Join(dir, "out"), true); err != nil {
		return fmt.Errorf("save: %v", err)
	}
	got, err := os.ReadFile(out)
	if err != nil || !bytes.Equal(got, want) {
		return fmt.Errorf("saved with auto import:\n got %q\nwant %q (%v)", got, want, err)
	}
	for _, off := range []func() error{func() error { return a.Save(out) }, func() error { return a.Save(out, false) }, func() error { return a.Save(out, false, true) }} {
		if err := off(); err != nil {
			return fmt.Errorf("save: %v", err)
		}
		got, err := os.ReadFile(out)
		if w := formatted(text); err != nil || !bytes.Equal(got, w) {
			return fmt.Errorf("saved without auto import:\n got %q\nwant %q (%v)", got, w, err)
		}
	}
	return nil
}

func genAutoImport(g *core.G) []byte {
	return []byte("package p\n" +
		g.AllS("", "\nimport \"os\"\n", "\nimport (\n\t\"os\"\n\t\"fmt\"\n)\n", "\nimport x \"os\"\n") +
		g.AllS("\nfunc f() { fmt.Println(strings.ToUpper(\"a\")) }\n", "\nvar x int\n", "\nfunc f()  {  os.Exit(1)}\n", "\nfunc f() { return 1 +\n", "\n// c\nvar a=strconv.Itoa(1)\n", ""))
}

// runEdited: scopes with edited, foreign or unformatted nodes are saved as the
// formatted joined text, or as the joined text itself when it is no Go.
func runEdited(dir string, c []byte, o *core.Obs) error {
	scs, err := goast.ParseScope(0, append([]byte{}, c...))
	if err != nil {
		return err
	}
	vs, err := ref.View(scs)
	if err != nil {
		return err
	}
	text := viewText(vs)
	a, err := goast.NewAst(goast.NewScope(0, scope.Package, goast.NewNodes(0, "package", " ", "p", "\n")))
	if err != nil {
		return err
	}
	a = a.SetScope(scs)
	out := filepath.Join(dir, "out")
	err = a.Save(out)
	o.Outcome(string(text))
	if len(text) == 0 {
		o.Trivial()
		if err == nil {
			return errors.New("saving nothing reports success")
		}
		if es, _ := os.ReadDir(dir); len(es) != 0 {
			return errors.New("saving nothing left a file")
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("save: %v", err)
	}
	got, err := os.ReadFile(out + ".go")
	if w := formatted(text); err != nil || !bytes.Equal(got, w) {
		return fmt.Errorf("saved\n got %q\nwant %q (%v)", got, w, err)
	}
	return nil
}

// ---- C12 -----------------------------------------------------------------------

func openFDs() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(es)
}

func setupFaults() error {
	// a collected file is closed; a leak has to stay one until it is counted
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(2 << 30)
	signal.Ignore(syscall.SIGXFSZ)
	return quiet()
}

// faultTexts are what is saved; the last is no Go and is written as it is.
var faultTexts = []string{
	"package p\n", "package p\n\nvar x int\n", "package  p\nvar x   int\n", "package p\n\nfunc f( {\n", "package p\n\n// " + strings.Repeat("c", 120) + "\n",
}

func saverOf(text string) func(file string, auto ...bool) error {
	return func(file string, auto ...bool) error { return helper.SaveFile(file, []byte(text), auto...) }
}

func astSaver(text string) func(file string, auto ...bool) error {
	scs, err := goast.ParseScope(0, []byte(text))
	if err != nil {
		panic(core.Internal{Err: err})
	}
	a, err := goast.NewAst(scs...)
	if err != nil {
		panic(core.Internal{Err: err})
	}
	return a.Save
}

// runWriteLimit: "text via old limit": the file system takes only limit bytes.
func runWriteLimit(dir string, c []byte, o *core.Obs) error {
	var ti, via, old, limit int
	if _, err := fmt.Sscan(string(c), &ti, &via, &old, &limit); err != nil {
		return core.Internal{Err: err}
	}
	text := faultTexts[ti]
	save := saverOf(text)
	if via == 1 {
		save = astSaver(text)
	}
	path := filepath.Join(dir, "out.go")
	if old == 1 {
		if err := put(path, bytes.Repeat([]byte("y"), 4000)); err != nil {
			return err
		}
	}
	want := formatted([]byte(text))
	fds := openFDs()
	var lim syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		return core.Internal{Err: err}
	}
	low := lim
	low.Cur = uint64(limit)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &low); err != nil {
		return core.Internal{Err: err}
	}
	err := save(path)
	if e := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); e != nil {
		return core.Internal{Err: e}
	}
	got, rerr := os.ReadFile(path)
	o.Outcome(fmt.Sprint(err == nil), strconv.Itoa(len(got)))
	o.Logf("limit %d of %d: error %v, file has %d bytes", limit, len(want), err, len(got))
	complete := rerr == nil && bytes.Equal(got, want)
	if err == nil && !complete {
		return fmt.Errorf("only %d of %d bytes fit, the file is incomplete (%d bytes), but saving reports success", limit, len(want), len(got))
	}
	if limit >= len(want) && err != nil {
		return fmt.Errorf("all %d bytes fit into %d, but saving reports %v", len(want), limit, err)
	}
	if n := openFDs(); n != fds {
		return fmt.Errorf("saving left %d files open", n-fds)
	}
	return nil
}

func exploreWriteLimits(x *core.X) {
	x.Pool(func(submit func([]byte) bool) {
		for ti, text := range faultTexts {
			n := len(formatted([]byte(text)))
			for via := 0; via < 2; via++ {
				for old := 0; old < 2; old++ {
					for limit := 0; limit <= n+2; limit++ {
						if !submit([]byte(fmt.Sprint(ti, via, old, limit))) {
							return
						}
					}
				}
			}
		}
	})
}

var placeFaults = []string{"ok", "full", "isdir", "parentfile", "grandparentfile", "longname", "longdir", "nofiles", "nofiles-read", "dangling", "loop", "nul", "deepnew", "symlinkdir", "overwrite-link", "emptydata", "emptypath", "read-dir", "read-bad", "read-link", "read-parentfile", "read-missing"}

// runPlaceFault: the place to save to is broken in one of several ways.
func runPlaceFault(dir string, c []byte, o *core.Obs) error {
	f := strings.Split(string(c), " ")
	ti, _ := strconv.Atoi(f[1])
	via, _ := strconv.Atoi(f[2])
	auto := f[3] == "1"
	text := faultTexts[ti]
	save := saverOf(text)
	if via == 1 {
		save = astSaver(text)
	}
	want := formatted([]byte(text))
	if auto {
		w, err := imports.Process("x.go", []byte(text), nil)
		if err != nil {
			w = []byte(text)
		}
		want = w
	}
	path := filepath.Join(dir, "out.go")
	real := path // where the bytes have to be
	fails := true
	before := map[string]string{}
	must := func(err error) {
		if err != nil {
			panic(core.Internal{Err: err})
		}
	}
	restore := func() {}
	switch f[0] {
	case "ok":
		fails = false
	case "full":
		must(os.Symlink("/dev/full", path))
	case "isdir":
		must(os.Mkdir(path, 0o777))
	case "parentfile":
		must(put(filepath.Join(dir, "f"), []byte("keep")))
		before[filepath.Join(dir, "f")] = "keep"
		path = filepath.Join(dir, "f", "out.go")
	case "grandparentfile":
		must(put(filepath.Join(dir, "f"), []byte("keep")))
		before[filepath.Join(dir, "f")] = "keep"
		path = filepath.Join(dir, "f", "g", "out")
	case "longname":
		path = filepath.Join(dir, strings.Repeat("n", 300))
	case "longdir":
		path = filepath.Join(dir, strings.Repeat("n", 300), "out.go")
	case "nofiles", "nofiles-read":
		if f[0] == "nofiles-read" {
			must(put(path, []byte("package p\n")))
		}
		var lim syscall.Rlimit
		must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim))
		low := lim
		low.Cur = 0
		restore = func() { must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)) }
		defer restore()
		must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low))
		if f[0] == "nofiles-read" {
			_, err := goast.ParseAst(path)
			restore()
			o.Outcome(string(c))
			if err == nil || errors.Is(err, goast.ErrNotExist) || errors.Is(err, goast.ErrNoPackage) {
				return fmt.Errorf("the file cannot be opened, but ParseAst says %v", err)
			}
			return nil
		}
	case "read-dir", "read-bad", "read-link", "read-parentfile", "read-missing": // opens, or does not, and cannot be read
		switch f[0] {
		case "read-dir":
			must(os.Mkdir(path, 0o777))
		case "read-bad":
			must(put(path, []byte("package p\n\nfunc f( {\n")))
		case "read-link":
			must(os.Mkdir(filepath.Join(dir, "d"), 0o777))
			must(os.Symlink("d", path))
		case "read-parentfile":
			must(put(filepath.Join(dir, "f"), []byte("keep")))
			path = filepath.Join(dir, "f", "out.go")
		}
		fds := openFDs()
		_, err := goast.ParseAst(path)
		if via == 1 {
			_, err = helper.ReadFile(path)
		}
		o.Outcome(string(c))
		if n := openFDs(); n != fds {
			return fmt.Errorf("%s: reading left %d files open", f[0], n-fds)
		}
		if err == nil || errors.Is(err, goast.ErrNoPackage) || via == 0 && errors.Is(err, goast.ErrNotExist) != (f[0] == "read-missing") {
			return fmt.Errorf("%s: the file cannot be read, but reading it says %v", f[0], err)
		}
		return nil
	case "dangling":
		must(os.Symlink("target.go", path))
		real = filepath.Join(dir, "target.go")
		fails = false
	case "loop":
		must(os.Symlink("out.go", path))
	case "nul":
		path = filepath.Join(dir, "a\x00b.go")
	case "deepnew":
		path = filepath.Join(dir, "a", "b", "c", "d", "e", "out")
		real = path + ".go"
		fails = false
	case "symlinkdir":
		must(os.Mkdir(filepath.Join(dir, "real"), 0o777))
		must(os.Symlink("real", filepath.Join(dir, "ln")))
		path = filepath.Join(dir, "ln", "out.go")
		real = filepath.Join(dir, "real", "out.go")
		fails = false
	case "overwrite-link":
		real = filepath.Join(dir, "target.go")
		must(put(real, bytes.Repeat([]byte("z"), 3000)))
		must(os.Symlink("target.go", path))
		fails = false
	case "emptydata":
		save = saverOf("")
		must(put(path, []byte("keep")))
		before[path] = "keep"
	case "emptypath":
		path = dir + "/"
		real = dir + "/.go"
		fails = false
	}
	var fds int
	if f[0] != "nofiles" {
		fds = openFDs()
	}
	err := save(path, auto)
	restore()
	if f[0] != "nofiles" {
		if n := openFDs(); n != fds {
			return fmt.Errorf("saving left %d files open", n-fds)
		}
	}
	o.Outcome(string(c), fmt.Sprint(err == nil))
	o.Logf("%s: error %v", f[0], err)
	if fails {
		if err == nil {
			return fmt.Errorf("%s: nothing can be saved there, but saving reports success", f[0])
		}
	} else {
		if err != nil {
			return fmt.Errorf("%s: saving reports %v", f[0], err)
		}
		if got, err := os.ReadFile(real); err != nil || !bytes.Equal(got, want) {
			return fmt.Errorf("%s: saved %q, want %q (%v)", f[0], got, want, err)
		}
	}
	for p, w := range before {
		if got, err := os.ReadFile(p); err != nil || string(got) != w {
			return fmt.Errorf("%s: a failed save changed %s to %q (%v)", f[0], filepath.Base(p), got, err)
		}
	}
	return nil
}

func genPlaceFaults(g *core.G) []byte {
	return []byte(fmt.Sprintf("%s %d %d %d", placeFaults[g.All(len(placeFaults))], g.All(len(faultTexts)), g.All(2), g.All(2)))
}

// runHistoryFDs: a sequence of successful and failing parses and saves leaves no
// file open and leaves files that were not saved to as they were.
func runIOHistory(dir string, c []byte, o *core.Obs) error {
	a1, a2 := filepath.Join(dir, "a.go"), filepath.Join(dir, "b.go")
	files := map[string]string{}
	must := func(err error) {
		if err != nil {
			panic(core.Internal{Err: err})
		}
	}
	must(os.Symlink("/dev/full", filepath.Join(dir, "full.go")))
	must(os.Mkdir(filepath.Join(dir, "dir.go"), 0o777))
	texts := []string{"package p\n\nvar x int\n", "package longer\n\n// a comment\nfunc f() {\n}\n", "package q\n"}
	fds := openFDs()
	for k := 0; k < len(c); k++ {
		file := a1
		if c[k] >= 'h' {
			file = a2
		}
		o.AddStates(1)
		o.AddTransitions(1)
		switch op := (c[k] - 'a') % 7; op {
		case 0, 1, 2: // save
			if err := astSaver(texts[op])(file); err != nil {
				return fmt.Errorf("step %d: %v", k, err)
			}
			files[file] = texts[op]
		case 3: // save with a failure
			if err := astSaver(texts[0])(filepath.Join(dir, "full.go")); err == nil {
				return fmt.Errorf("step %d: saving to a full device reports success", k)
			}
			if _, err := goast.ParseAst(filepath.Join(dir, "missing.go")); !errors.Is(err, goast.ErrNotExist) {
				return fmt.Errorf("step %d: %v", k, err)
			}
		case 4:
			if err := astSaver(texts[0])(filepath.Join(dir, "dir.go")); err == nil {
				return fmt.Errorf("step %d: saving to a directory reports success", k)
			}
			if _, err := goast.ParseAst(filepath.Join(dir, "dir.go")); err == nil {
				return fmt.Errorf("step %d: reading a directory reports success", k)
			}
		case 5: // parse
			a, err := goast.ParseAst(file)
			if w, ok := files[file]; !ok {
				if !errors.Is(err, goast.ErrNotExist) {
					return fmt.Errorf("step %d: %v", k, err)
				}
			} else {
				if err != nil {
					return fmt.Errorf("step %d: %v", k, err)
				}
				vs, err := ref.View(a.Scope())
				if err != nil {
					return err
				}
				if got := ref.Join(vs); got != w {
					return fmt.Errorf("step %d: parsed %q, the file holds %q", k, got, w)
				}
			}
		case 6: // parse and save to the other
			other := a1
			if file == a1 {
				other = a2
			}
			a, err := goast.ParseAst(file)
			if _, ok := files[file]; !ok {
				if !errors.Is(err, goast.ErrNotExist) {
					return fmt.Errorf("step %d: %v", k, err)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("step %d: %v", k, err)
			}
			if err := a.Save(other); err != nil {
				return fmt.Errorf("step %d: %v", k, err)
			}
			files[other] = files[file]
		}
		if n := openFDs(); n != fds {
			return fmt.Errorf("step %d left %d files open", k, n-fds)
		}
		for f, w := range files {
			if got, err := os.ReadFile(f); err != nil || string(got) != w {
				return fmt.Errorf("step %d: %s holds %q, want %q (%v)", k, filepath.Base(f), got, w, err)
			}
		}
		es, _ := os.ReadDir(dir)
		if len(es) != len(files)+2 {
			return fmt.Errorf("step %d: %d files in the directory, want %d", k, len(es), len(files)+2)
		}
	}
	o.Outcome(fmt.Sprint(files))
	return nil
}

func genIOHistory(n int) func(g *core.G) []byte {
	return func(g *core.G) []byte {
		b := make([]byte, 1+g.All(n))
		for i := range b {
			b[i] = byte('a' + g.All(14))
		}
		return b
	}
}

func init() {
	reg("C11", progRule+" Each program goes through a file on disk: parse, save, overwrite, parse again.", []string{toolAssume, "golang.org/x/tools/imports defines what auto import writes"},
		[]*core.Space{
			{Name: "roundtrip", About: "programs of the file grammar: raw and formatted input, saved under a new directory without suffix, over a longer and a shorter file and over the source; parsed again", Gen: genFile(true), Quick: 2, Thorough: 3, Run: withScratch(runRoundTrip), Setup: quiet},
			{Name: "gaps", About: "84 declarations with one of 11 comments and line breaks in each gap between tokens (thorough: one of 3 in every two gaps too), likewise", GenTier: byTier(genGaps(1), genGaps(2)), Run: withScratch(runRoundTrip), Setup: quiet},
			withSetup(corpus(8000, 100000, withScratch(runRoundTrip)), quiet),
			{Name: "texts", About: "every sequence of up to 2 (thorough: 3) tokens out of 49 in 13 contexts, saved as scopes (no valid Go is written as it is)",
				GenTier: byTier(tokenSeq(2, tokenContexts, tokenAlphabet, []string{"", "\nvar y   int\n"}), tokenSeq(3, tokenContexts[:4], tokenAlphabet, []string{"\nvar y   int\n"})), Run: withScratch(runEdited), Setup: quiet},
			{Name: "names", About: "26 names to save to, with and without an old file, directly, through an ast and with auto import: exactly that file is written", Gen: genSaveName, Run: withScratch(runSaveName), Setup: quiet, HangAfter: 2 * time.Minute},
			{Name: "autoimport", About: "4 import clauses times 6 bodies, with the flag set, unset, absent and doubled", Gen: genAutoImport, Run: withScratch(runAutoImport), Setup: quiet, HangAfter: 2 * time.Minute},
		})
	core.Register(&core.Prop{ID: "C12", Level: "fault_enumeration", Rule: "every case is a text to save and one fault (a byte limit, a broken place, an exhausted resource) or a history of successful and failing calls; an error is required exactly when the file does not hold the whole formatted text, no descriptor may stay open, and untouched files keep their contents. Non-trivial: distinct results.",
		Assume: []string{"faults are produced by the real kernel (RLIMIT_FSIZE, RLIMIT_NOFILE, /dev/full, broken paths) in a scratch directory; errors that only close(2) reports are not produced"},
		Spaces: []*core.Space{
			{Name: "write-limits", About: "5 texts, saved directly and through an ast, to a new and over an old file, with the file system taking every number of bytes from 0 to the whole text and beyond", Explore: exploreWriteLimits, Run: withScratch(runWriteLimit), Serial: true, Setup: setupFaults},
			{Name: "places", About: "22 kinds of broken and working places (5 of them to read from) times 5 texts, directly and through an ast, with and without auto import", Gen: genPlaceFaults, Run: withScratch(runPlaceFault), Serial: true, Setup: setupFaults, HangAfter: 2 * time.Minute},
			{Name: "histories", About: "every sequence of up to 4 (thorough: 5) of 14 saves, failing saves, parses and copies between two files",
				GenTier: byTier(genIOHistory(4), genIOHistory(5)), Run: withScratch(runIOHistory), Serial: true, Setup: setupFaults},
		}})
	reg("C16", "every case is the bytes of a file (or a path); what ParseAst, NewAst and Package say is compared with go/format and a reference scan for the package clause. Non-trivial: distinct results.", []string{toolAssume, lexAssume},
		[]*core.Space{
			{Name: "clauses", About: "every sequence of up to 4 (thorough: 5) of 16 tokens around a package clause, with 3 endings", GenTier: byTier(genClauses(4), genClauses(5)), Run: withScratch(runPackage)},
			{Name: "names", About: "every keyword, basic type and 40 other names in 810 surroundings", Gen: genPackageNames, Run: withScratch(runPackage)},
			{Name: "programs", About: "programs of the file grammar", Gen: genFile(true), Quick: 2, Thorough: 3, Run: withScratch(runPackage)},
			corpus(8000, 300000, withScratch(runPackage)),
			{Name: "lists", About: "every list of up to 4 (thorough: 5) of 9 scopes (package clauses with and without a name, others), through NewAst, SetScope and AppendScope", GenTier: byTier(genScopeList(4), genScopeList(5)), Run: runScopeList},
			{Name: "paths", About: "29 paths: existing, missing, without suffix, directories, links, loops, too long", Gen: genPaths, Run: withScratch(runPaths)},
		})
}
