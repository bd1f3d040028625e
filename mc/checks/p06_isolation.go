package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	gencode "github.com/KSpaceer/yamly/engines/goyaml/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astcmp"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astprint"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/lexer"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"github.com/KSpaceer/yamly/engines/yayamls/token"
	"gopkg.in/yaml.v3"

	"verif/mc/fw"
)

// P06: parses, encodings and readers do not influence each other.
//
// The check is built with a scheduling point before every statement of the library (cmd/instrument). It runs in
// processes of one processor each, so that pools hand out their objects deterministically, and compares every result
// with the one the same operation gives as the only operation of a process.

// setHook installs a function called at every scheduling point; nil without instrumentation.
var setHook func(func(entry bool))

// isoOp is an operation whose result must not depend on anything else.
type isoOp struct {
	name string
	// run gives the result and a function which tells what has become of it (and of the input) since.
	run      func() (string, func() string)
	intruder bool // preempts others in the quick tier
	long     bool // not preempted
}

// kinds of scheduling points
const (
	atStatement = iota
	atFunction
	atToken
)

// tokenPoint is called before every token of a yielding stream.
var tokenPoint func()

// yielding is a token stream with scheduling points.
type yielding struct{ parser.ConfigurableTokenStream }

func (y yielding) Next() token.Token {
	if tokenPoint != nil {
		tokenPoint()
	}
	return y.ConfigurableTokenStream.Next()
}

func (y yielding) SetRawMode() {
	if tokenPoint != nil {
		tokenPoint()
	}
	y.ConfigurableTokenStream.SetRawMode()
}

func withYields(src string) parser.ConfigurableTokenStream { return yielding{lexer.NewTokenizer(src)} }

// onPoints installs a function called at every scheduling point.
func onPoints(f func(kind int)) {
	if setHook != nil {
		if f == nil {
			setHook(nil)
		} else {
			setHook(func(entry bool) {
				if entry {
					f(atFunction)
				} else {
					f(atStatement)
				}
			})
		}
	}
	if f == nil {
		tokenPoint = nil
	} else {
		tokenPoint = func() { f(atToken) }
	}
}

// counts tells whether points of a kind are points of a granularity.
func counts(kind, granularity int) bool {
	switch granularity {
	case atStatement:
		return kind != atToken
	default:
		return kind == granularity
	}
}

func showErr(err error) string {
	if err == nil {
		return "no error"
	}
	return "error " + err.Error()
}

func parseOp(name, src string, opts ...parser.ParseOption) isoOp {
	return isoOp{name: name, run: func() (string, func() string) {
		in := []byte(src)
		n, err := parser.ParseBytes(in, opts...)
		if string(in) != src {
			return "the input was changed to " + string(in), nil
		}
		show := func() string {
			if err != nil {
				return showErr(err)
			}
			return showAST(n)
		}
		s := show()
		for i := range in { // the input belongs to the caller again
			in[i] = '#'
		}
		return s, show
	}}
}

func readOp(name string, fresh func() (yamly.Decoder, error), read func(d yamly.Decoder) func() string) isoOp {
	return isoOp{name: name, run: func() (string, func() string) {
		d, err := fresh()
		if err != nil {
			return showErr(err), nil
		}
		value := read(d)
		show := func() string { return value() + ", " + showErr(d.Error()) }
		return show(), show
	}}
}

func readAny(d yamly.Decoder) func() string {
	v := d.Any()
	return func() string { return showVal(v) }
}

func readRaw(d yamly.Decoder) func() string {
	b := d.Raw()
	return func() string { return string(b) }
}

// readSteps reads with typed operations what fits.
func readSteps(d yamly.Decoder) func() string {
	var l []string
	var rec func(depth int)
	rec = func(depth int) {
		if depth > 6 || d.Error() != nil {
			return
		}
		if d.TryNull() {
			l = append(l, "null")
			return
		}
		if s := d.Mapping(); d.Error() == nil {
			l = append(l, fmt.Sprintf("{%d", s.Size()))
			for s.HasUnprocessedItems() {
				l = append(l, d.String())
				rec(depth + 1)
			}
			l = append(l, "}")
		}
	}
	rec(0)
	return func() string { return strings.Join(l, " ") }
}

func encodeOp(name string, fresh func() encoder, ops func(i yamly.Inserter)) isoOp {
	return isoOp{name: name, run: func() (string, func() string) {
		e := fresh()
		ops(e)
		b, err := e.EncodeToBytes()
		show := func() string { return fmt.Sprintf("%q, %s", b, showErr(err)) }
		return show(), show
	}}
}

type encoder interface {
	yamly.Inserter
	EncodeToBytes() ([]byte, error)
}

func yEncoder() encoder { return yamly.NewEncoder(yencode.NewASTBuilder(), yencode.NewASTWriter()) }
func yUnquoted() encoder {
	return yamly.NewEncoder(yencode.NewASTBuilder(yencode.WithUnquotedOneLineStrings()), yencode.NewASTWriter())
}
func gEncoder() encoder { return yamly.NewEncoder(gencode.NewASTBuilder(), &gencode.ASTWriter{}) }

// sharedTree is read by many operations at a time.
var sharedSource = "a: &x [1, 'two', {k: !t v}]\nb: *x\nc:\n  d: |\n    text\n  e: null\n"

// isoDocs parse with and without success.
var isoDocs = []string{
	"a: b\n", "x\n", "", "'q': \"w\\te\"\n", "'k k': v\n", "\"m m\": \"v v\"\n", "- 'o''p'\n- \"r\\x41s\"\n", "|2-\n    lit\n   tera l\n", "k: >+\n fo\n ld\n\n", "&a x: *a\n",
	"!t [1, {f: g}, h: i]\n", "%YAML 1.2\n--- one\n...\n--- two\n", "? - c\n: d # e\n", "k:\n - 'single\n   line'\n - plain\n   lines\n",
	"[a, b", "{a: }]\n", "'open", "'open k", "\"open \\x4", "a: b: c\n", "\"\\q\": x\n", "k: |9x\n", "- a\nb\n", "&\n", "\ta", "!<t x\n", "@at\n", "'a': 'b\n", "[\"a\", 'b]\n",
}

// tokenOps are parses with scheduling points before every token.
func tokenOps() (l []isoOp) {
	for _, s := range isoDocs {
		l = append(l, parseOp("parse by tokens "+strconv.Quote(s), s, parser.WithOmitStream(), parser.WithUnquoting(), parser.WithTokenStreamConstructor(withYields)))
	}
	return l
}

var isoErr = errors.New("handed in")

func isoOps() []isoOp {
	var ops []isoOp
	n := 0
	add := func(o isoOp) {
		// every third operation, so that all kinds are among them
		n++
		o.intruder = n%3 == 1
		ops = append(ops, o)
	}
	unq := []parser.ParseOption{parser.WithOmitStream(), parser.WithUnquoting()}
	for _, s := range isoDocs {
		add(parseOp("parse "+strconv.Quote(s), s, unq...))
	}
	add(parseOp("parse keeping quotes", "'q q': \"w\\te\"\n"))
	add(isoOp{name: "parse tokens", run: func() (string, func() string) {
		n, err := parser.ParseTokens(nil)
		if err != nil {
			return showErr(err), nil
		}
		return showAST(n), func() string { return showAST(n) }
	}})
	for _, s := range []string{
		strings.Repeat("[", 12) + "x" + strings.Repeat("]", 12) + "\n",
		strings.Repeat("[", 11) + "y" + strings.Repeat("]", 9) + "\n",
		"'" + strings.Repeat("long ''text'' ", 12) + "': \"" + strings.Repeat("more\\t", 20) + "\"\n",
	} {
		o := parseOp("parse "+strconv.Quote(s), s, unq...)
		o.long = true
		add(o)
	}
	// encodings
	doc := func(i yamly.Inserter) {
		i.StartMapping()
		i.InsertString("k \"q\"")
		i.StartSequence()
		i.InsertInteger(-7)
		i.InsertFloat(1.5)
		i.InsertNull()
		i.InsertString("two\nlines")
		i.EndSequence()
		i.InsertString("raw")
		i.InsertRaw([]byte("{'r': &a [x, *a]}"), nil)
		i.EndMapping()
	}
	small := func(i yamly.Inserter) {
		i.StartSequence()
		i.InsertString("s")
		i.InsertRaw([]byte("'it''s'"), nil)
		i.EndSequence()
	}
	broken := func(i yamly.Inserter) {
		i.StartMapping()
		i.InsertString("k")
		i.InsertRaw([]byte("[x"), nil)
		i.EndMapping()
	}
	unfinished := func(i yamly.Inserter) {
		i.StartSequence()
		i.InsertString("u")
	}
	handed := func(i yamly.Inserter) {
		i.StartSequence()
		i.InsertRawText([]byte("t"), nil)
		i.InsertRaw(nil, isoErr)
	}
	for _, e := range []struct {
		name  string
		fresh func() encoder
	}{{"yayamls", yEncoder}, {"yayamls unquoted", yUnquoted}, {"goyaml", gEncoder}} {
		add(encodeOp(e.name+" encode a document", e.fresh, doc))
		add(encodeOp(e.name+" encode a sequence", e.fresh, small))
		if e.name != "yayamls unquoted" {
			add(encodeOp(e.name+" encode broken raw data", e.fresh, broken))
			add(encodeOp(e.name+" encode an unfinished sequence", e.fresh, unfinished))
			add(encodeOp(e.name+" encode a handed in error", e.fresh, handed))
		}
	}
	// reading of one's own document
	for _, s := range []string{"k: [1, 0x1F, .inf, 2020-01-02, 'q', ~]\nl: &m {n: o}\np: {<<: *m, z: y}\n", "a: {b: *u}\n", "'s'\n"} {
		s := s
		own := func() (yamly.Decoder, error) {
			in := []byte(s)
			r, err := ydecode.NewASTReaderFromBytes(in)
			for i := range in {
				in[i] = '#'
			}
			return r, err
		}
		add(readOp("yayamls value of "+strconv.Quote(s), own, readAny))
		add(readOp("yayamls raw data of "+strconv.Quote(s), own, readRaw))
	}
	for _, s := range []string{"k: [1, &m {n: o}, *m]\n"} {
		s := s
		own := func() (yamly.Decoder, error) {
			var n yaml.Node
			in := []byte(s)
			err := yaml.Unmarshal(in, &n)
			return gdecode.NewASTReader(&n), err
		}
		add(readOp("goyaml value of "+strconv.Quote(s), own, readAny))
		add(readOp("goyaml raw data of "+strconv.Quote(s), own, readRaw))
	}
	// reading and writing of one tree by many
	tree, err := parser.ParseString(sharedSource, unq...)
	if err != nil {
		return append(ops, isoOp{name: "parse the shared tree", run: func() (string, func() string) { return showErr(err), nil }})
	}
	ofShared := func(name string, f func() func() string) {
		add(isoOp{name: "shared tree: " + name, run: func() (string, func() string) {
			value := f()
			show := func() string { return value() + "\n" + showAST(tree) }
			return show(), show
		}})
	}
	read := func(name string, f func(yamly.Decoder) func() string) {
		ofShared(name, func() func() string {
			d := ydecode.NewASTReader(tree)
			v := f(d)
			return func() string { return v() + ", " + showErr(d.Error()) }
		})
	}
	read("value", readAny)
	read("raw data", readRaw)
	read("step by step", readSteps)
	read("wrong type", func(d yamly.Decoder) func() string {
		n := d.Integer(8)
		return func() string { return strconv.Itoa(int(n)) }
	})
	several := func(name string, f func(d yamly.Decoder)) {
		ofShared(name, func() func() string {
			d := ydecode.NewASTReader(tree, ydecode.WithMultipleDenyErrors())
			f(d)
			return func() string { return showErr(d.Error()) }
		})
	}
	several("several denials", func(d yamly.Decoder) { d.Integer(8); d.Boolean(); d.Sequence() })
	several("other denials", func(d yamly.Decoder) { d.Timestamp(); _ = d.String() })
	read("nodes", func(d yamly.Decoder) func() string {
		d.Mapping()
		d.Skip()
		var n ast.Node
		if x, ok := d.(yamly.ExtendedDecoder[ast.Node]); ok {
			n = x.Node()
		}
		return func() string { return showAST(n) }
	})
	ofShared("write", func() func() string {
		b, err := yencode.NewASTWriter().WriteBytes(tree)
		return func() string { return string(b) + ", " + showErr(err) }
	})
	ofShared("print", func() func() string {
		var sb strings.Builder
		err := astprint.NewPrinter().Print(tree, &sb)
		return func() string { return sb.String() + ", " + showErr(err) }
	})
	ofShared("compare", func() func() string {
		eq := astcmp.NewComparator().Equal(tree, tree)
		return func() string { return strconv.FormatBool(eq) }
	})
	return ops
}

// solo runs one operation alone in a fresh process.
func init() {
	fw.Solo = func(arg string) string {
		runtime.GOMAXPROCS(1)
		i, _ := strconv.Atoi(arg)
		var s string
		p := fw.Protect(func() string { s, _ = isoOps()[i].run(); return "" })
		data, _ := json.Marshal(s + p)
		return string(data)
	}
	fw.Register(fw.Check{
		Property:  "P06",
		Technique: "exhaustive enumeration of operation histories and of statement-level schedules of pairs of operations within a preemption bound on the real, instrumented code, against each operation alone in a process of its own",
		Assumptions: []string{
			"one processor, so that objects put into a pool are the next ones taken from it; interleavings at the granularity of statements of the library",
			"readers of the go-yaml based engine are not shared between threads",
		},
		Shards: 8,
		Run:    p06Run,
	})
}

type isoRun struct {
	c    *fw.Ctx
	ops  []isoOp
	solo []string
	sub  []int // operations whose solo run is usable
}

func (r *isoRun) expect(i int, got, when string) string {
	if got != r.solo[i] {
		return fmt.Sprintf("%s: %s gives\n%s\ninstead of\n%s", when, r.ops[i].name, got, r.solo[i])
	}
	return ""
}

// history runs operations one after another.
func (r *isoRun) history(h []int) string {
	kept := make([]func() string, len(h))
	for k, i := range h {
		s, later := r.ops[i].run()
		if d := r.expect(i, s, fmt.Sprintf("as operation %d", k+1)); d != "" {
			return d
		}
		kept[k] = later
	}
	for k, i := range h {
		if kept[k] != nil {
			if d := r.expect(i, kept[k](), fmt.Sprintf("operation %d, looked at after all", k+1)); d != "" {
				return d
			}
		}
	}
	return ""
}

// points counts the scheduling points of an operation.
func (r *isoRun) points(i, granularity int) int {
	n := 0
	onPoints(func(kind int) {
		if counts(kind, granularity) {
			n++
		}
	})
	r.ops[i].run()
	onPoints(nil)
	return n
}

type isoTask struct {
	op     int
	s      string
	later  func() string
	panics string
	done   chan struct{} // closed when the operation has ended
	resume chan struct{}
	pause  chan struct{}
}

func (r *isoRun) start(op int) *isoTask {
	t := &isoTask{op: op, done: make(chan struct{}), resume: make(chan struct{}), pause: make(chan struct{}, 1)}
	go func() {
		defer close(t.done)
		<-t.resume
		t.panics = fw.Protect(func() string { t.s, t.later = r.ops[op].run(); return "" })
	}()
	return t
}

// schedule runs a up to its i-th scheduling point for the first number i of the switches, then b up to its j-th for
// the second one, then a again and so on, and at last both to their ends (a number below 0 means to the end). It
// reports whether one waited for the other, in which case there is no such schedule.
func (r *isoRun) schedule(a, b int, switches []int, granularity int) (detail string, blocked bool) {
	ta, tb := r.start(a), r.start(b)
	cur, count, limit := ta, 0, 0
	onPoints(func(kind int) {
		if limit < 0 || !counts(kind, granularity) {
			return
		}
		if count < limit {
			count++
			return
		}
		limit = -1
		t := cur
		t.pause <- struct{}{}
		<-t.resume
	})
	defer onPoints(nil)
	// step lets a task run until it pauses or ends
	step := func(t *isoTask, n int) bool {
		cur, count, limit = t, 0, n
		select {
		case t.resume <- struct{}{}:
		case <-t.done:
			return true
		}
		timer := time.NewTimer(3 * time.Second)
		defer timer.Stop()
		select {
		case <-t.pause:
		case <-t.done:
		case <-timer.C:
			limit = -1
			return false
		}
		return true
	}
	tasks := []*isoTask{ta, tb}
	for k, n := range switches {
		if !step(tasks[k%2], n) { // it waits for the other one
			blocked = true
			break
		}
	}
	limit = -1
	finish := func(t *isoTask) {
		select {
		case t.resume <- struct{}{}:
		case <-t.done:
		}
		<-t.done
	}
	if blocked {
		go finish(ta)
		go finish(tb)
		<-ta.done
		<-tb.done
	} else {
		finish(tasks[len(switches)%2])
		finish(tasks[(len(switches)+1)%2])
	}
	for _, t := range []*isoTask{ta, tb} {
		if t.panics != "" {
			return r.ops[t.op].name + ": " + t.panics, blocked
		}
		if d := r.expect(t.op, t.s, "interleaved"); d != "" {
			return d, blocked
		}
		if t.later != nil {
			if d := r.expect(t.op, t.later(), "interleaved, looked at after both"); d != "" {
				return d, blocked
			}
		}
	}
	return "", blocked
}

func p06Run(c *fw.Ctx) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	r := &isoRun{c: c, ops: isoOps()}
	exe, err := os.Executable()
	if err != nil {
		c.Bound("not run: %v", err)
		return
	}
	for i := range r.ops {
		out, err := exec.Command(exe, "-solo", strconv.Itoa(i)).Output()
		var s string
		if err == nil {
			err = json.Unmarshal(out, &s)
		}
		if err != nil {
			s = "no result: " + err.Error()
		}
		r.solo = append(r.solo, s)
	}
	fresh := func() { // empties the pools
		runtime.GC()
		runtime.GC()
	}
	all := make([]int, len(r.ops))
	for i := range all {
		all[i] = i
	}
	name := func(h []int) string {
		var l []string
		for _, i := range h {
			l = append(l, r.ops[i].name)
		}
		return strings.Join(l, " ; ")
	}
	turn := 0
	mine := func() bool { turn++; return c.Mine(turn) }
	// histories
	depth := c.Pick(3, 4)
	n := 0
	var rec func(h []int, l []int)
	rec = func(h []int, l []int) {
		if len(h) > 0 && (len(h) == depth || len(h) == 1) {
			key := "history: " + name(h)
			if mine() && (c.Filter == "" || c.Filter == key) {
				fresh()
				n++
				c.AddTraces(1)
				c.AddTransitions(len(h))
				c.Case(key, func() string { return r.history(h) })
				c.Sample(func() string { return key })
			}
		}
		if len(h) == depth || c.Expired() {
			return
		}
		for _, i := range l {
			rec(append(h[:len(h):len(h)], i), l)
		}
	}
	logLine("histories", len(r.ops))
	if c.Thorough() {
		depth = 3
		rec(nil, all)
	}
	rec(nil, all)
	c.Bound("histories: every sequence of %d of %d operations", depth, len(all))
	c.Extra("histories", n)
	// schedules
	schedules := 0
	// pair runs every schedule of two operations given by up to len(size) switches
	pair := func(r *isoRun, label string, a, b, granularity int, size func() []int) {
		if !mine() || c.Expired() {
			return
		}
		prefix := fmt.Sprintf("%s: %s | %s | ", label, r.ops[a].name, r.ops[b].name)
		if c.Filter != "" && !strings.HasPrefix(c.Filter, prefix) {
			return
		}
		fresh()
		r.ops[a].run()
		r.ops[b].run()
		blocked, runs := 0, 0
		limits := size()
		switches := make([]int, len(limits))
		for k := range limits {
			if limits[k] < 0 {
				switches[k] = -1
			}
		}
		for blocked < 3 && !c.Expired() {
			key := prefix + strings.Trim(fmt.Sprint(switches), "[]")
			if runs++; runs%4096 == 0 {
				runtime.GC()
			}
			if c.Filter == "" || c.Filter == key {
				schedules++
				c.AddTraces(1)
				c.AddStates(1)
				c.AddTransitions(len(limits))
				c.Case(key, func() string {
					d, bl := r.schedule(a, b, switches, granularity)
					if bl {
						blocked++
					}
					return d
				})
				c.Sample(func() string { return key })
			}
			k := len(limits) - 1
			for ; k >= 0; k-- {
				if limits[k] < 0 {
					switches[k] = -1
					continue
				}
				if switches[k]++; switches[k] < limits[k] {
					break
				}
				switches[k] = 0
			}
			if k < 0 {
				break
			}
		}
	}
	// preemption at tokens
	logLine("preemption at tokens")
	tr := &isoRun{c: c, ops: tokenOps(), solo: r.solo}
	for a := range tr.ops {
		for b := range tr.ops {
			pair(tr, "preempted at tokens", a, b, atToken, func() []int {
				l := []int{tr.points(a, atToken), tr.points(b, atToken)}
				if c.Thorough() {
					l = append(l, l[0])
				}
				return l
			})
		}
	}
	c.Extra("schedules_at_tokens", schedules)
	c.Bound("schedules: every pair of %d parses, switching %d times before any tokens", len(tr.ops), c.Pick(2, 3))
	if setHook == nil {
		c.Bound("schedules: preemption inside of the library was not explored, the instrumented sources do not build")
		return
	}
	// preemption at statements
	schedules = 0
	logLine("preemption at statements")
	intruders := 0
	for _, b := range all {
		if !c.Thorough() && !r.ops[b].intruder || r.ops[b].long {
			continue
		}
		intruders++
		for _, a := range all {
			if r.ops[a].long {
				continue
			}
			a, b := a, b
			pair(r, "preempted at a statement", a, b, atStatement, func() []int { return []int{r.points(a, atStatement), -1} })
		}
	}
	c.Extra("schedules_at_statements", schedules)
	c.Bound("schedules: each of %d operations preempted once before any of its statements by each of %d whole operations", len(all), intruders)
	// two preemptions
	logLine("preemption at functions", schedules)
	schedules = 0
	var smallOps []int
	limit := c.Pick(60, 140)
	for _, i := range all {
		if n := r.points(i, atFunction); n > 0 && n <= limit {
			smallOps = append(smallOps, i)
		}
	}
	for _, a := range smallOps {
		for _, b := range smallOps {
			a, b := a, b
			pair(r, "preempted at functions", a, b, atFunction, func() []int { return []int{r.points(a, atFunction), r.points(b, atFunction)} })
		}
	}
	c.Extra("schedules_at_functions", schedules)
	c.Bound("schedules: every pair of %d operations with up to %d function calls, each preempted once at any function call", len(smallOps), limit)
	logLine("done", schedules)
}
