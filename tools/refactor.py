#!/usr/bin/env python3
"""Applies behaviour-preserving edits to a copy of /repo and runs every quick check on it.

usage: refactor.py [-k GROUP,...] [ID...]   each check has to stay quiet.
Without -k all groups of the first set are applied at once; set2 and set3 are sets of their own.
"""
import os, re, shutil, subprocess, sys, tempfile

G = []  # (group, file, old, new)
def edit(group, file, old, new):
    G.append((group, file, old, new))

# extractor: a switch instead of a map, bytes instead of a builder, lines counted apart
edit("extract", "extractor.go", '''	for k, v := range de {
		if helper.HasPrefix(s, k) {
			return v, true
		}
	}
	return nil, false
}''', '''	if len(s) == 0 {
		return nil, false
	}
	if v, ok := de[string(s[:1])]; ok {
		return v, true
	}
	if len(s) > 1 {
		if v, ok := de[string(s[:2])]; ok {
			return v, true
		}
	}
	return nil, false
}''')
edit("extract", "extractor.go", '''	"strings"

	"github.com/yanun0323/goast/charset"''', '''	"bytes"

	"github.com/yanun0323/goast/charset"''')
edit("extract", "extractor.go", "		buf     strings.Builder\n", "		buf     bytes.Buffer\n")
edit("extract", "extractor.go", "buf *strings.Builder", "buf *bytes.Buffer")
edit("extract", "extractor.go", '''	for ; *i < len(text); *i++ {
		char = text[*i]
''', '''	size := len(text)
	for *i < size {
		char = text[*i]
''')
edit("extract", "extractor.go", '''			buf.WriteByte(char)
			lineStep()
			continue
		}

		trailing''', '''			buf.WriteByte(char)
			lineStep()
			*i++
			continue
		}

		trailing''')
edit("extract", "extractor.go", '''			insertNode(ns)
			continue
''', '''			insertNode(ns)
			*i++
			continue
''')
edit("extract", "extractor.go", '''			buf.WriteByte(text[*i])
			lineStep()
			continue
''', '''			buf.WriteByte(text[*i])
			lineStep()
			*i++
			continue
''')
edit("extract", "extractor.go", '''			buf.WriteByte(char)
		}

		lineStep()
	}
''', '''			buf.WriteByte(char)
		}

		lineStep()
		*i++
	}
''')
# parsing: a pool of state, kinds reset scope by scope at once, by goroutines
edit("goroutines", "scope.go", '''	for _, n := range nodesToResetKind {
		resetKind(n)
	}
''', '''	var wg sync.WaitGroup
	for _, n := range nodesToResetKind {
		wg.Add(1)
		go func() {
			defer wg.Done()
			resetKind(n)
		}()
	}
	wg.Wait()
''')
edit("goroutines", "scope.go", '	"strings"\n', '	"strings"\n	"sync"\n')
edit("scopes", "scope.go", '''	kinds := []scope.Kind{
		scope.Package,
		scope.Comment,
		scope.InnerComment,
		scope.Import,
		scope.Variable,
		scope.Const,
		scope.Type,
		scope.Func,
	}

	for _, kind := range kinds {
		if isScopeKind(s, kind) {
			return kind
		}
	}

	return scope.Unknown
}''', '''	switch {
	case strings.HasPrefix(s, "//"):
		return scope.Comment
	case strings.HasPrefix(s, "/*"):
		return scope.InnerComment
	}
	if k, ok := _keywordScopes[s]; ok {
		return k
	}
	return scope.Unknown
}

var _keywordScopes = map[string]scope.Kind{
	"package": scope.Package, "import": scope.Import, "var": scope.Variable,
	"const": scope.Const, "type": scope.Type, "func": scope.Func,
}''')
edit("scopes", "scope.go", '''	// lines are counted from startLine on
	_ = node.IterNext(func(n *Node) bool {
		n.line += startLine
		return true
	})
''', '''	for n := node; n != nil; n = n.next { // lines are counted from startLine on
		n.line = startLine + n.line
	}
''')
edit("getters", "scope.go", '''	var (
		name  string
		found bool
	)

	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.FuncName {
			name = n.Text()
			found = true
			return false
		}

		return true
	})

	return name, found
}

func (d *scopeStruct) GetTypeName''', '''	return d.firstOf(kind.FuncName)
}

func (d *scopeStruct) firstOf(k kind.Kind) (string, bool) {
	name := ""
	for n := d.node; n != nil; n = n.next {
		name = n.text
		if n.kind == k {
			return name, true
		}
	}

	if k == kind.FuncName {
		return "", false
	}
	return name, false
}

func (d *scopeStruct) GetTypeName''')
edit("getters", "scope.go", '''	var (
		name  string
		found bool
	)

	d.Node().IterNext(func(n *Node) bool {
		found = n.Kind() == kind.MethodReceiverType
		name = n.Text()
		return !found
	})

	return name, found
''', '''	return d.firstOf(kind.MethodReceiverType)
''')
# nodes
edit("nodes", "node.go", '''	for nn := n; nn != nil; nn = iter(nn) {
		if !fn(nn) {
			return nn
		}
	}

	return nil
}''', '''	nn := n
	for {
		if nn == nil || !fn(nn) {
			return nn
		}
		nn = iter(nn)
	}
}''')
edit("nodes", "node.go", '''	removed := n.Prev()
	n.setPrev(nil)
	removed.setNext(nil)

	return removed
''', '''	if n == nil || n.prev == nil {
		return nil
	}
	before := n.prev
	before.next, n.prev = nil, nil

	return before
''')
edit("nodes", "node.go", '''	return n.IterPrev(func(n *Node) bool { return n.Prev() != nil })
''', '''	if n == nil {
		return nil
	}
	first := n
	for first.prev != nil {
		first = first.prev
	}
	return first
''')
edit("nodes", "node.go", '''	for _, text := range texts[1:] {
		startLine += strings.Count(cur.Text(), "\\n")
		cur.InsertNext(NewNode(startLine, text))
		cur = cur.Next()
	}
''', '''	line := startLine
	for i := 1; i < len(texts); i++ {
		for j := range len(texts[i-1]) {
			if texts[i-1][j] == '\\n' {
				line++
			}
		}
		node := NewNode(line, texts[i])
		cur.next, node.prev = node, cur
		cur = node
	}
''')
edit("nodes", "node.go", '''	n.Prev().setNext(nil)
	n.Next().setPrev(nil)

	n.setPrev(nil)
	n.setNext(nil)
''', '''	_ = n.RemovePrev()
	_ = n.RemoveNext()
''')
edit("nodes", "node.go", '''	n.text = strings.Join(buf, "")

	return n
}

// CombineNext''', '''	var text string
	for i := range buf {
		text += buf[i]
	}
	n.SetText(text)

	return n
}

// CombineNext''')
# asts
edit("asts", "ast.go", '''	packageKeywordAppeared := false
	result := packageScope.Node().IterNext(func(n *Node) bool {
		if packageKeywordAppeared && isName(n) {
			return false
		}

		if n.Kind() == kind.Package {
			packageKeywordAppeared = true
		}

		return true
	})

	if result == nil {
		return "", ErrNoPackage
	}

	return result.Text(), nil
''', '''	keyword := packageScope.Node()
	for keyword != nil && keyword.Kind() != kind.Package {
		keyword = keyword.Next()
	}
	for n := keyword.Next(); n != nil; n = n.Next() {
		if isName(n) {
			return n.Text(), nil
		}
	}

	return "", ErrNoPackage
''')
edit("asts", "ast.go", '''	f.scope = append(slices.Clip(f.scope), scs...)
''', '''	all := make([]Scope, 0, len(f.scope)+len(scs))
	all = append(all, f.scope...)
	f.scope = append(all, scs...)
''')
edit("asts", "ast.go", '	"slices"\n', '')
edit("asts", "ast.go", '''	buf := bytes.Buffer{}

	for _, sc := range f.Scope() {
		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper.SaveFile(file, buf.Bytes(), autoImport...)
''', '''	var parts []string
	f.IterScope(func(sc Scope) bool {
		for n := sc.Node(); n != nil; n = n.Next() {
			parts = append(parts, n.Text())
		}
		return true
	})

	return helper.SaveFile(file, []byte(strings.Join(parts, "")), autoImport...)
''')
edit("asts", "ast.go", '	"bytes"\n', '')
edit("asts", "ast.go", '''	return &ast{
		file:  f.file,
		dir:   f.dir,
		name:  f.name,
		ext:   f.ext,
		scope: scope,
	}
''', '''	changed := *f
	changed.scope = scope
	return &changed
''')
# files
edit("files", "helper/helper.go", '''	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()

	buf, err := io.ReadAll(f)
	if err != nil {
		return nil, err
	}

	formatted, err := format.Source(buf)
	if err != nil {
		return nil, err
	}

	return formatted, nil
''', '''	buf, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}

	return format.Source(buf)
''')
edit("files", "helper/helper.go", '	"io"\n', '')
edit("files", "helper/helper.go", '''	f, err := os.Create(file)
	if err != nil {
		return fmt.Errorf("create file %s, err: %w", file, err)
	}
	defer f.Close()

	if _, err := f.Write(formatted); err != nil {
		return fmt.Errorf("write file %s, err: %w", file, err)
	}

	return nil
''', '''	if err := os.WriteFile(file, formatted, 0666); err != nil {
		return fmt.Errorf("write file %s, err: %w", file, err)
	}

	return nil
''')
edit("helpers", "helper/helper.go", '''	for i := range len(prefix) { // every byte, and not every rune
		if s[i] != prefix[i] {
			return false
		}
	}

	return true
''', '''	return string(s[:len(prefix)]) == prefix
''')
edit("helpers", "helper/helper.go", '''	ss := s[len(s)-len(suffix):]
	for i := range ss {
		if ss[i] != suffix[i] {
			return false
		}
	}

	return true
''', '''	return strings.HasSuffix(string(s[len(s)-len(suffix):]), suffix)
''')
edit("helpers", "helper/helper.go", '''	s = strings.ReplaceAll(s, "\\n", "\\\\n")
	s = strings.ReplaceAll(s, "\\r", "·")
	s = strings.ReplaceAll(s, " ", "·")
	s = strings.ReplaceAll(s, "\\t", " -> ")
	return s
''', '''	return _tidy.Replace(s)
''')
edit("helpers", "helper/helper.go", '''func TidyText(''', '''var _tidy = strings.NewReplacer("\\n", "\\\\n", "\\r", "·", " ", "·", "\\t", " -> ")

func TidyText(''')
# assertions
edit("asserts", "assert/assert.go", '''	a.t.Helper()

	if len(msg) != 0 {
		a.t.Fatalf("%s: should be nil, but got (%+v), %s", a.t.Name(), value, strings.Join(msg, " "))
	}

	a.t.Fatalf("%s: should be nil, but got (%+v)", a.t.Name(), value)
}
''', '''	a.t.Helper()
	a.fail(msg, "should be nil, but got (%+v)", value)
}

func (a Assert) fail(msg []string, format string, args ...any) {
	a.t.Helper()
	text := a.t.Name() + ": " + fmt.Sprintf(format, args...)
	for _, m := range msg {
		text += ", " + m
	}
	a.t.Fatal(text)
}
''')
edit("asserts", "assert/assert.go", '''	if len(msg) != 0 {
		a.t.Fatalf("%s: should be equal, but got value: (%+v), expected: (%+v), %s", a.t.Name(), value, expected, strings.Join(msg, " "))
	}

	a.t.Fatalf("%s: should be equal, but got value: (%+v), expected: (%+v)", a.t.Name(), value, expected)
''', '''	a.fail(msg, "want %+v, got %+v", expected, value)
''')
edit("asserts", "assert/assert.go", '	"reflect"\n', '	"fmt"\n	"reflect"\n')
# kinds
edit("kinds", "kind/kind.go", '''	if len(s) != 0 {
		isNumber := true
		for i := range s {
			isNumber = isNumber && charset.NumberCharset.Contain(s[i])
			if !isNumber {
				break
			}
		}
		if isNumber {
			return Number
		}
	}
''', '''	digits := 0
	for digits < len(s) && s[digits] >= '0' && s[digits] <= '9' {
		digits++
	}
	if digits == len(s) {
		return Number
	}
''')
edit("kinds", "kind/kind.go", '''	if buf := []byte(s); helper.HasPrefix(buf, "\\"") || helper.HasPrefix(buf, "`") {
		return String
	}
''', '''	if s[0] == '"' || s[0] == '`' {
		return String
	}
''')
edit("kinds", "kind/kind.go", '	"github.com/yanun0323/goast/helper"\n', '')
# resetters
edit("resetters", "kind_resetter_func.go", '''	if found.Kind() != kind.CurlyBracketRight {
		return false
	}

	return found.Next().Kind() == kind.ParenthesisLeft
''', '''	called := found.Next()
	return found.Kind() == kind.CurlyBracketRight && called != nil && called.Kind() == kind.ParenthesisLeft
''')
edit("resetters", "kind_resetter_type.go", '''	result := false
	_ = head.Next().IterNext(func(n *Node) bool {
		switch n.Kind() {
		case kind.ParenthesisLeft:
			result = true
			return false
		case kind.Comment, kind.Space, kind.Tab:
			return true
		default:
			return false
		}
	})
	return result
''', '''	next := head.Next()
	for next.Kind() == kind.Comment || next.Kind() == kind.Space || next.Kind() == kind.Tab {
		next = next.Next()
	}
	return next.Kind() == kind.ParenthesisLeft
''')
edit("resetters", "kind_resetter_all.go", '''	last := buf[len(buf)-1]
	result := make([]*Node, 0, len(buf))
	end := buf[0].IterNext(func(n *Node) bool {
		result = append(result, n)
		return n != last
	})

	if end == nil {
		return buf
	}

	return result
''', '''	var result []*Node
	for n := buf[0]; n != nil; n = n.Next() {
		result = append(result, n)
		if n == buf[len(buf)-1] {
			return result
		}
	}

	return buf
''')
edit("lazyset", "charset/charset.go", '''	if cs == nil {
		return false
	}
	_, ok := cs[key]
	return ok
''', '''	for k := range cs {
		if k == key {
			return true
		}
	}
	return false
''')

# ---- second set (-k set2): synchronisation, generics, iterators, labels, arenas ----
edit("set2", "kind/kind.go", '''func New(s string) Kind {
	if len(s) == 0 {
		return None
	}
''', '''func New(s string) Kind {
	if v, ok := _kinds.Load(s); ok {
		return v.(Kind)
	}

	k := newKind(s)
	if len(s) < 16 { // what is short occurs again
		_kinds.Store(strings.Clone(s), k)
	}

	return k
}

var _kinds sync.Map // string -> Kind

func newKind(s string) Kind {
	if len(s) == 0 {
		return None
	}
''')
edit("set2", "kind/kind.go", '''import (
''', '''import (
	"strings"
	"sync"

''')
edit("set2", "scope.go", '''	for _, kind := range kinds {
		if isScopeKind(s, kind) {
			return kind
		}
	}

	return scope.Unknown
}''', '''	_scopeKindMu.RLock()
	k, ok := _scopeKinds[s]
	_scopeKindMu.RUnlock()
	if ok {
		return k
	}

	k = scope.Unknown
	for i := len(kinds) - 1; i >= 0; i-- {
		if isScopeKind(s, kinds[i]) {
			k = kinds[i]
			break
		}
	}

	if k != scope.Comment && k != scope.InnerComment && k != scope.Unknown {
		_scopeKindMu.Lock()
		defer _scopeKindMu.Unlock()
		if _scopeKinds == nil {
			_scopeKinds = map[string]scope.Kind{}
		}
		_scopeKinds[s] = k
	}

	return k
}

var (
	_scopeKindMu sync.RWMutex
	_scopeKinds  map[string]scope.Kind
)''')
edit("set2", "scope.go", '	"strings"\n', '	"strings"\n	"sync"\n')
edit("set2", "extractor.go", '''		i, line int
		buf     strings.Builder
	)
	node, err := _commonExtractor.Run(text, &buf, &i, &line)
''', '''		i, line int
		buf     = _buffers.Get().(*bytes.Buffer)
	)
	defer func() {
		buf.Reset()
		_buffers.Put(buf)
	}()
	node, err := _commonExtractor.Run(text, buf, &i, &line)
''')
edit("set2", "extractor.go", '''// extract parses file''', '''var _buffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}

// extract parses file''')
edit("set2", "extractor.go", '''	"strings"

	"github''', '''	"bytes"
	"maps"
	"slices"
	"sync"

	"github''')
edit("set2", "extractor.go", "buf *strings.Builder", "buf *bytes.Buffer")
edit("set2", "extractor.go", '''	for k, v := range de {
		if helper.HasPrefix(s, k) {
			return v, true
		}
	}
	return nil, false
}''', '''	var (
		k    string
		e    *extractor
		fits int
	)
scan:
	for k, e = range de {
		switch {
		case !helper.HasPrefix(s, k):
			continue scan
		default:
			fits = len(k)
			break scan
		}
	}
	if fits == 0 {
		return nil, false
	}

	for _, key := range slices.Sorted(maps.Keys(de)) {
		if len(key) == fits && string(s[:fits]) == key {
			return e, true
		}
	}
	return nil, false
}''')
edit("set2", "extractor.go", '''	return _deeperExtractTable[e]
''', '''	_deeperOnce.Do(func() { _deeper = maps.Clone(_deeperExtractTable) })

	return _deeper[e]
''')
edit("set2", "extractor.go", '''type deeperExtract map''', '''var (
	_deeperOnce sync.Once
	_deeper     map[*extractor]deeperExtract
)

type deeperExtract map''')
edit("set2", "node.go", '''func (n *Node) loop(iter func(*Node) *Node, fn func(*Node) bool) *Node {
	for nn := n; nn != nil; nn = iter(nn) {
		if !fn(nn) {
			return nn
		}
	}

	return nil
}
''', '''func (n *Node) loop(next func(*Node) *Node, fn func(*Node) bool) *Node {
	for nn := range walk(n, next) {
		if !fn(nn) {
			return nn
		}
	}

	return nil
}

// walk iterates over what follows n.
func walk[T any](n *T, next func(*T) *T) iter.Seq[*T] {
	return func(yield func(*T) bool) {
		for n != nil && yield(n) {
			n = next(n)
		}
	}
}
''')
edit("set2", "node.go", '''	"fmt"
	"slices"
''', '''	"fmt"
	"iter"
	"slices"
''')
edit("set2", "charset/charset.go", '''	_, ok := cs[key]
	return ok
''', '''	if _, ok := cs[key]; !ok {
		goto missing
	}
	return true

missing:
	return false
''')
edit("set2", "ast.go", '''	f.scope = append(slices.Clip(f.scope), scs...)
''', '''	done := make(chan []Scope, 1)
	go func() { done <- append(slices.Clone(f.scope), scs...) }()
	select {
	case all := <-done:
		f.scope = all
	}
''')

# ---- third set (-k set3): the resetters ----
edit("set3", "kind_resetter_all.go", '''func handleHook(''', '''// skipper leaves out the nodes that another resetter has handled.
type skipper struct {
	all bool
	to  *Node
}

func (s *skipper) skips(n *Node) bool {
	switch {
	case s.all:
		return true
	case s.to == nil:
		return false
	case s.to != n:
		return true
	}
	s.to = nil
	return false
}

func (s *skipper) jump(to *Node) bool {
	s.to, s.all = to, to == nil
	return true
}

func handleHook(''')
edit("set3", "kind_resetter_type.go", '''	var (
		skipAll bool
		jumpTo  *Node
	)

	head = head.findNext([]kind.Kind{kind.CurlyBracketLeft}, findNodeOption{}, hooks...) // set head to '{'

	return head.IterNext(func(n *Node) bool {
		handleHook(n, hooks...)
		if skipAll {
			return true
		}

		if jumpTo != nil {
			if n != jumpTo {
				return true
			}
			jumpTo = nil
		}
		switch n.Kind() {
		case kind.CurlyBracketRight: // return kind
			return false
		case kind.Tab, kind.Comment, kind.NewLine, kind.Space, kind.CurlyBracketLeft:
			return true
		default:
			if r.isThisLineFunction(n) {
				jumpTo = funcResetter{
					isInterfaceDefinition: true,
				}.Run(n, hooks...)
				skipAll = jumpTo == nil
				return true
			}

			if n.Kind() == kind.Raw {
				n.SetKind(kind.TypeName)
			}

			jumpTo = r.findElementEnd(n, hooks...)
			skipAll = jumpTo == nil
			return true
		}
	})
''', '''	var s skipper

	n := head.findNext([]kind.Kind{kind.CurlyBracketLeft}, findNodeOption{}, hooks...) // set n to '{'
	for ; n != nil; n = n.Next() {
		handleHook(n, hooks...)
		if s.skips(n) {
			continue
		}

		k := n.Kind()
		if k == kind.CurlyBracketRight { // return kind
			break
		}
		if n.isBlank() || k == kind.CurlyBracketLeft {
			continue
		}
		if r.isThisLineFunction(n) {
			s.jump(funcResetter{isInterfaceDefinition: true}.Run(n, hooks...))
			continue
		}
		if k == kind.Raw {
			n.SetKind(kind.TypeName)
		}
		s.jump(r.findElementEnd(n, hooks...))
	}

	return n
''')
edit("set3", "kind_resetter_type.go", '''// findElementEnd starts''', '''func (n *Node) isBlank() bool {
	switch n.Kind() {
	case kind.Tab, kind.Comment, kind.NewLine, kind.Space:
		return true
	}
	return false
}

// findElementEnd starts''')
edit("set3", "kind_resetter_type.go", '''	depth := 0
	return head.IterNext(func(n *Node) bool {
		handleHook(n, hooks...)
		switch n.Kind() {
		case kind.ParenthesisLeft, kind.CurlyBracketLeft, kind.SquareBracketLeft:
			depth++
		case kind.ParenthesisRight, kind.CurlyBracketRight, kind.SquareBracketRight:
			depth--
			return depth >= 0
		case kind.NewLine:
			return depth != 0
		}
		return true
	})
''', '''	for n, depth := head, 0; n != nil; n = n.Next() {
		handleHook(n, hooks...)
		switch k := n.Kind(); {
		case depth == 0 && k == kind.NewLine:
			return n
		case isOpening(k):
			depth++
		case isClosing(k) && depth == 0:
			return n
		case isClosing(k):
			depth--
		}
	}
	return nil
''')
edit("set3", "kind_resetter_all.go", '''type skipper struct {''', '''type skipper struct { // with a flag''')
edit("set3", "kind_resetter_all.go", '''func (s *skipper) jump''', '''func isOpening(k kind.Kind) bool {
	c, ok := k.GetClose()
	return ok && k[0] < c[0]
}

func isClosing(k kind.Kind) bool {
	c, ok := k.GetClose()
	return ok && k[0] > c[0]
}

func (s *skipper) jump''')
edit("set3", "kind_resetter_all.go", '''	case kind.Raw, kind.Basic, kind.Symbol, kind.ParamType, kind.ParamName:
		return token.IsIdentifier(n.Text())
	default:
		return false
	}
''', '''	case kind.ParamName, kind.ParamType, kind.Symbol, kind.Basic, kind.Raw:
	default:
		return false
	}
	text := n.Text()
	for i, c := range text {
		if c != '_' && !unicode.IsLetter(c) && (i == 0 || !unicode.IsDigit(c)) {
			return false
		}
	}
	return text != "" && !token.IsKeyword(text)
''')
edit("set3", "kind_resetter_all.go", '''	"go/token"
''', '''	"go/token"
	"unicode"
''')
edit("set3", "scope.go", '''	for _, n := range nodesToResetKind {
		resetKind(n)
	}
''', '''	for i := range scs { // from the last on, as none sees another
		resetKind(nodesToResetKind[len(scs)-1-i])
	}
''')
edit("set3", "scope.go", '''	depth := 0
	_ = node.IterNext(func(n *Node) bool {
		switch n.Kind() {
		case kind.ParenthesisLeft, kind.CurlyBracketLeft, kind.SquareBracketLeft:
			depth++
		case kind.ParenthesisRight, kind.CurlyBracketRight, kind.SquareBracketRight:
			depth = max(depth-1, 0)
		}
''', '''	depth := 0
	_ = node.IterNext(func(n *Node) bool {
		if isOpening(n.kind) {
			depth++
		} else if depth > 0 && isClosing(n.kind) {
			depth--
		}
''')
edit("set3", "kind_resetter_func.go", '''	return head.IterNext(func(n *Node) bool {
		handleHook(n, hooks...)
		if skipAll {
			return true
		}

		if jumpTo != nil {
			if n != jumpTo {
				return true
			}
			jumpTo = nil
		}

		// determine func or method
		if !foundFuncOrMethod {
			switch {
			case isName(n):
				foundFuncOrMethod = true
			case n.Kind() == kind.ParenthesisLeft:
				foundFuncOrMethod = true
				isMethod = true
			default:
				return true
			}
			// keep going when find func/method
		}

		if isMethod { // '('
			isMethod = false
			jumpTo = parenthesisResetter{isReceiver: true}.Run(n, hooks...)
			skipAll = jumpTo == nil
			return true
		}

		switch n.Kind() {
		case kind.NewLine: // return kind
			return false
		default:
			jumpTo = r.handleGeneralFunc(n, []kind.Kind{kind.NewLine}, hooks...)
			skipAll = jumpTo == nil
			return true
		}
	})
''', '''	s := skipper{all: skipAll, to: jumpTo}
	return head.IterNext(func(n *Node) bool {
		handleHook(n, hooks...)
		if s.skips(n) {
			return true
		}

		if !foundFuncOrMethod { // determine func or method
			isMethod = n.Kind() == kind.ParenthesisLeft
			foundFuncOrMethod = isMethod || isName(n)
		}

		switch {
		case !foundFuncOrMethod:
			return true
		case isMethod: // '('
			isMethod = false
			return s.jump(parenthesisResetter{isReceiver: true}.Run(n, hooks...))
		case n.Kind() == kind.NewLine: // return kind
			return false
		}
		return s.jump(r.handleGeneralFunc(n, []kind.Kind{kind.NewLine}, hooks...))
	})
''')


args = sys.argv[1:]
groups = None
if args[:1] == ["-k"]:
    groups, args = args[1].split(","), args[2:]
ids = args or "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20".split()
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
work = tempfile.mkdtemp(prefix="refactor.", dir="/tmp")
try:
    repo = work + "/repo"
    shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    for group, file, old, new in G:
        if group not in groups if groups else group.startswith("set"):
            continue
        s = open(repo + "/" + file).read()
        if s.count(old) < 1:
            sys.exit("%s: %s has no %r" % (group, file, old))
        open(repo + "/" + file, "w").write(s.replace(old, new) if old.count("\n") < 2 else s.replace(old, new, 1))
    shutil.copytree(here + "/mc", work + "/mc")
    m = open(work + "/mc/go.mod").read()
    open(work + "/mc/go.mod", "w").write(m.replace("=> /repo", "=> " + repo))
    for f in ("run.sh", "known_findings.jsonl"):
        shutil.copy(here + "/" + f, work)
    sh = lambda cmd, cwd: subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    r = sh("gofmt -l . ; go vet . ./helper ./kind ./assert ./charset && go test ./... 2>&1 | grep -v '^ok\\|no test files'", repo)
    print(r.stdout[-1500:], flush=True)
    bad = 0
    for i in ids:
        r = sh("bash run.sh %s quick" % i, work)
        print(i, r.returncode, "" if r.returncode == 0 else r.stdout[-1500:], flush=True)
        bad += r.returncode != 0
    print("%d checks are not quiet" % bad)
finally:
    shutil.rmtree(work)
