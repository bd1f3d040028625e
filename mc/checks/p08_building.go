package checks

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
	gencode "github.com/KSpaceer/yamly/engines/goyaml/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"gopkg.in/yaml.v3"

	"verif/mc/fw"
)

// P08: building operations spell a tree or are reported as an error.

// bOp is a building operation and its effect on the model.
type bOp struct {
	name string
	do   func(yamly.Inserter)
	leaf *T    // what an insertion adds
	kind byte  // i insert, [ ] { } , e error
	err  error // handed in by the caller
}

// rawOps insert documents of different forms.
func rawOps(engine string) (l []bOp) {
	raw := func(data string, leaf *T) {
		op := bOp{name: fmt.Sprintf("raw(%q)", data), do: func(b yamly.Inserter) { b.InsertRaw([]byte(data), nil) }, leaf: leaf, kind: 'i'}
		if leaf == nil {
			op.kind = 'e'
		}
		l = append(l, op)
	}
	raw("--- p\n...\n", sc("p"))
	raw("%YAML 1.1\n---\n- p\n- q: r\n", sq(sc("p"), mp(sc("q"), sc("r"))))
	raw("# c\np # c\n", sc("p"))
	raw("'p'", sc("p"))
	raw("\"p\\x41\"", sc("pA"))
	raw("|\n p\n q\n", sc("p\nq\n"))
	raw("[]", sq())
	raw("{p: {}}\n", mp(sc("p"), mp()))
	raw("? [p]\n: q\n", mp(sq(sc("p")), sc("q")))
	raw("[&a p, *a]", sq(anch("a", sc("p")), alias("a")))
	raw("p: *nowhere: x: [", nil)
	if engine == "yayamls" {
		// go-yaml reads the first document of a stream
		raw("p\n---\nq\n", nil)
		raw("--- [p]\n--- {q: r}\n", nil)
	}
	return
}

var (
	errHanded = errors.New("handed in")
	errOther  = errors.New("handed in as text")
)

func buildOps() []bOp {
	return []bOp{
		{name: "string", do: func(b yamly.Inserter) { b.InsertString("x") }, leaf: sc("x"), kind: 'i'},
		{name: "null", do: func(b yamly.Inserter) { b.InsertNull() }, leaf: nul(), kind: 'i'},
		{name: "[", do: func(b yamly.Inserter) { b.StartSequence() }, kind: '['},
		{name: "]", do: func(b yamly.Inserter) { b.EndSequence() }, kind: ']'},
		{name: "{", do: func(b yamly.Inserter) { b.StartMapping() }, kind: '{'},
		{name: "}", do: func(b yamly.Inserter) { b.EndMapping() }, kind: '}'},
		{name: "raw([p, {q: r}])", do: func(b yamly.Inserter) { b.InsertRaw([]byte("[p, {q: r}]"), nil) }, leaf: sq(sc("p"), mp(sc("q"), sc("r"))), kind: 'i'},
		{name: "raw(broken)", do: func(b yamly.Inserter) { b.InsertRaw([]byte("[p"), nil) }, kind: 'e'},
		{name: "raw(error)", do: func(b yamly.Inserter) { b.InsertRaw([]byte("p"), errHanded) }, kind: 'e', err: errHanded},
		{name: "text(error)", do: func(b yamly.Inserter) { b.InsertRawText([]byte("p"), errOther) }, kind: 'e', err: errOther},
		// the remaining insertions are explored up to a smaller length
		{name: "text", do: func(b yamly.Inserter) { b.InsertRawText([]byte("t: u"), nil) }, leaf: sc("t: u"), kind: 'i'},
		{name: "integer", do: func(b yamly.Inserter) { b.InsertInteger(-7) }, leaf: sc("-7"), kind: 'i'},
		{name: "unsigned", do: func(b yamly.Inserter) { b.InsertUnsigned(7) }, leaf: sc("7"), kind: 'i'},
		{name: "boolean", do: func(b yamly.Inserter) { b.InsertBoolean(true) }, leaf: sc("true"), kind: 'i'},
		{name: "float", do: func(b yamly.Inserter) { b.InsertFloat(1.5) }, leaf: sc("<float>"), kind: 'i'},
		{name: "timestamp", do: func(b yamly.Inserter) { b.InsertTimestamp(buildTime) }, leaf: sc("<time>"), kind: 'i'},
		{name: "raw(p)", do: func(b yamly.Inserter) { b.InsertRaw([]byte("p\n"), nil) }, leaf: sc("p"), kind: 'i'},
		{name: "text()", do: func(b yamly.Inserter) { b.InsertRawText(nil, nil) }, leaf: sc(""), kind: 'i'},
	}
}

// bModel is a pushdown automaton: the open collections and the tree built so far.
type bModel struct {
	root   *T
	open   []*T
	failed bool
	err    error // handed in by the caller, when it was the first error
}

func (m *bModel) apply(op bOp) {
	if m.failed {
		return
	}
	var top *T
	if len(m.open) > 0 {
		top = m.open[len(m.open)-1]
	}
	add := func(t *T) {
		switch {
		case top != nil:
			top.Kids = append(top.Kids, t)
		case m.root != nil:
			m.failed = true
		default:
			m.root = t
		}
	}
	switch op.kind {
	case 'e':
		m.failed, m.err = true, op.err
	case 'i':
		add(op.leaf.clone())
	case '[', '{':
		t := sq()
		if op.kind == '{' {
			t = mp()
		}
		add(t)
		if !m.failed {
			m.open = append(m.open, t)
		}
	case ']':
		if top == nil || top.Kind != 'q' {
			m.failed = true
			return
		}
		m.open = m.open[:len(m.open)-1]
	case '}':
		if top == nil || top.Kind != 'm' || len(top.Kids)%2 != 0 {
			m.failed = true
			return
		}
		m.open = m.open[:len(m.open)-1]
	}
}

// verdict: the expected tree, nil for nothing inserted, or an error.
func (m *bModel) verdict() (t *T, fails bool) {
	if m.failed || len(m.open) > 0 {
		return nil, true
	}
	return m.root, false
}

func (m *bModel) key() string {
	s := ""
	for _, t := range m.open {
		s += fmt.Sprintf("%c%d", t.Kind, len(t.Kids)%2)
	}
	return fmt.Sprint(s, m.failed, m.err != nil, m.root != nil)
}

// builderUnderTest hides the engine.
type builderUnderTest struct {
	name   string
	fresh  func() (ins yamly.Inserter, result func() (show func() string, err error))
	newEnc func() yamly.Encoder
}

func showAST(n ast.Node) string {
	if n == nil {
		return "<nothing>"
	}
	t, err := fromAST(n)
	if err != nil {
		return "<malformed: " + err.Error() + ">"
	}
	return normalised(t).String()
}

func showYaml3(n *yaml.Node) string {
	if n == nil {
		return "<nothing>"
	}
	if n.Kind == 0 {
		return "~"
	}
	t := fromYaml3(n)
	fixYaml3Nulls(t, n)
	return normalised(t).String()
}

// normalised replaces every spelling of the float and the time inserted.
func normalised(t *T) *T {
	t.walk(func(n *T) {
		if n.Kind != 's' {
			return
		}
		if f, err := strconv.ParseFloat(n.Text, 64); err == nil && f == 1.5 {
			n.Text = "<float>"
		}
		if w, err := time.Parse(time.RFC3339Nano, n.Text); err == nil && w.Equal(buildTime) {
			n.Text = "<time>"
		}
	})
	return t
}

var buildTime = time.Date(2023, 4, 5, 6, 7, 8, 0, time.UTC)

// fixYaml3Nulls turns nodes built as null into nulls of the model.
func fixYaml3Nulls(t *T, n *yaml.Node) {
	if n.Kind == yaml.ScalarNode && n.Tag == "!!null" && n.Style == 0 {
		t.Kind, t.Text, t.Tag = 'n', "", ""
	}
	if n.Kind == yaml.ScalarNode && n.Tag == "" && n.Value == "" { // text which was built without a style
		t.Kind = 's'
	}
	if n.Kind == 0 {
		t.Kind = 'n'
	}
	for i := range t.Kids {
		if t.Kids[i] == nil {
			t.Kids[i] = nul()
		} else {
			fixYaml3Nulls(t.Kids[i], n.Content[i])
		}
	}
}

func builders() []builderUnderTest {
	yopts := [][]yencode.ASTBuilderOption{nil, {yencode.WithUnquotedOneLineStrings()}}
	gopts := [][]gencode.ASTBuilderOption{nil, {gencode.WithUnquotedOneLineStrings()}}
	var l []builderUnderTest
	for i := range yopts {
		yo, gopt, suffix := yopts[i], gopts[i], []string{"", "/unquoted"}[i]
		l = append(l, builderUnderTest{
			name: "yayamls" + suffix,
			fresh: func() (yamly.Inserter, func() (func() string, error)) {
				b := yencode.NewASTBuilder(yo...)
				return b, func() (func() string, error) {
					n, err := b.Result()
					return func() string { return showAST(n) }, err
				}
			},
			newEnc: func() yamly.Encoder {
				return yamly.NewEncoder[ast.Node](yencode.NewASTBuilder(yo...), yencode.NewASTWriter())
			},
		}, builderUnderTest{
			name: "goyaml" + suffix,
			fresh: func() (yamly.Inserter, func() (func() string, error)) {
				b := gencode.NewASTBuilder(gopt...)
				return b, func() (func() string, error) {
					n, err := b.Result()
					return func() string { return showYaml3(n) }, err
				}
			},
			newEnc: func() yamly.Encoder {
				return yamly.NewEncoder[*yaml.Node](gencode.NewASTBuilder(gopt...), &gencode.ASTWriter{})
			},
		})
	}
	return l
}

func showOps(ops []bOp, trace []int) string {
	var s []string
	for _, t := range trace {
		s = append(s, ops[t].name)
	}
	return strings.Join(s, " ")
}

func checkVerdict(what string, m *bModel, got func() string, err error) string {
	want, fails := m.verdict()
	switch {
	case fails && err == nil:
		return fmt.Sprintf("%s: gives %s without an error", what, got())
	case fails && m.err != nil && !errors.Is(err, m.err):
		return fmt.Sprintf("%s: the error %q handed in by the caller is reported as %q", what, m.err, err)
	case fails:
		return ""
	case want == nil && err != nil:
		return "" // nothing was inserted
	case err != nil:
		return fmt.Sprintf("%s: spells %s but gives the error %v", what, want, err)
	case want == nil:
		return ""
	case got() != want.String():
		return fmt.Sprintf("%s: spells %s but gives %s", what, want, got())
	}
	return ""
}

func runBuild(bt builderUnderTest, ops []bOp, trace []int, rounds [][]int) string {
	ins, result := bt.fresh()
	m := &bModel{}
	for _, t := range trace {
		ops[t].do(ins)
		m.apply(ops[t])
	}
	got, err := result()
	if d := checkVerdict(showOps(ops, trace), m, got, err); d != "" {
		return d
	}
	var first string
	if err == nil {
		first = got()
	}
	for _, r := range rounds {
		m2 := &bModel{}
		for _, t := range r {
			ops[t].do(ins)
			m2.apply(ops[t])
		}
		got2, err2 := result()
		if d := checkVerdict("after the result of "+showOps(ops, trace)+" was taken: "+showOps(ops, r), m2, got2, err2); d != "" {
			return d
		}
	}
	if err == nil && got() != first {
		return fmt.Sprintf("the result %s of %s changed to %s when the builder was used again", first, showOps(ops, trace), got())
	}
	return ""
}

// runEncode takes the same operations through an encoder and its three ways of giving the text.
func runEncode(bt builderUnderTest, ops []bOp, trace []int) string {
	m := &bModel{}
	for _, t := range trace {
		m.apply(ops[t])
	}
	want, fails := m.verdict()
	e := bt.newEnc()
	var texts [3]string
	for i := 0; i < 3; i++ {
		for _, t := range trace {
			ops[t].do(e)
		}
		var err error
		switch i {
		case 0:
			texts[i], err = e.EncodeToString()
		case 1:
			var b []byte
			b, err = e.EncodeToBytes()
			texts[i] = string(b)
		case 2:
			var buf bytes.Buffer
			err = e.EncodeTo(&buf)
			texts[i] = buf.String()
		}
		how := []string{"EncodeToString", "EncodeToBytes", "EncodeTo"}[i]
		switch {
		case fails && err == nil:
			return fmt.Sprintf("%s: %s gives %q without an error", showOps(ops, trace), how, texts[i])
		case fails && m.err != nil && !errors.Is(err, m.err):
			return fmt.Sprintf("%s: %s reports %q for the error %q handed in by the caller", showOps(ops, trace), how, err, m.err)
		case !fails && want != nil && err != nil:
			return fmt.Sprintf("%s: spells %s but %s gives the error %v", showOps(ops, trace), want, how, err)
		case !fails && want != nil && texts[i] != texts[0]:
			return fmt.Sprintf("%s: %s gives %q, EncodeToString %q", showOps(ops, trace), how, texts[i], texts[0])
		}
	}
	return ""
}

func init() {
	fw.Register(fw.Check{
		Property:  "P08",
		Technique: "exhaustive enumeration of building operation sequences on the real builders of both engines against a pushdown automaton",
		Assumptions: []string{
			"what a builder returns when nothing was inserted is left open",
			"behind an error at most two further operations are tried",
		},
		Run: p08Run,
	})
}

func p08Run(c *fw.Ctx) {
	all := buildOps()
	for _, bt := range builders() {
		buildLarge(c, bt, all)
		for _, cfg := range []struct {
			label string
			ops   []bOp
			n     int
		}{
			{"core", all[:10], c.Pick(7, 8)},
			{"all", all, c.Pick(5, 6)},
			{"nest", all[:6], c.Pick(9, 10)},
			{"raw", append(all[:6:6], rawOps(bt.name[:strings.IndexByte(bt.name+"/", 47)])...), c.Pick(4, 5)},
		} {
			ops := cfg.ops
			find := func(names ...string) (r []int) {
				for _, n := range names {
					for i, o := range ops {
						if o.name == n {
							r = append(r, i)
						}
					}
				}
				return
			}
			rounds := [][]int{find("]"), find("{", "string"), find("["), find("string"), find("{", "string", "null", "}"), find("}"), find("[", "[", "string", "]", "]"), nil, find("string", "string"), find("[", "string", "]")}
			prefix := bt.name + "/" + cfg.label + ":"
			fw.Parallel(c, func(emit func([]int) bool) {
				var walk func(trace []int, after int) bool
				walk = func(trace []int, after int) bool {
					if !emit(append([]int(nil), trace...)) {
						return false
					}
					if len(trace) == cfg.n {
						return true
					}
					for i := range ops {
						next := append(trace, i)
						m := &bModel{}
						for _, t := range next {
							m.apply(ops[t])
						}
						a := after
						if m.failed {
							a++
						}
						if a > 3 {
							continue
						}
						if !walk(next, a) {
							return false
						}
					}
					return true
				}
				walk(nil, 0)
			}, func(trace []int) {
				key := prefix + showOps(ops, trace)
				if c.Filter != "" && c.Filter != key {
					return
				}
				c.AddTraces(1)
				c.AddTransitions(len(trace))
				m := &bModel{}
				for _, t := range trace {
					m.apply(ops[t])
				}
				c.State(bt.name + m.key())
				c.Case(key, func() string {
					rs := rounds
					if len(trace) > 4 {
						rs = rounds[len(trace)%3 : len(trace)%3+4]
					}
					if d := runBuild(bt, ops, trace, rs); d != "" {
						return d
					}
					if len(trace) <= cfg.n-1 || m.failed {
						return runEncode(bt, ops, trace)
					}
					return ""
				})
				c.Sample(func() string { return key })
			})
			c.Bound("%s: every sequence of at most %d of the %d operations %s, followed by further rounds on the same builder", prefix, cfg.n, len(ops), showOps(ops, seqInts(len(ops))))
		}
	}
}

func seqInts(n int) (l []int) {
	for i := 0; i < n; i++ {
		l = append(l, i)
	}
	return
}
