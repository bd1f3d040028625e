package checks

import (
	"errors"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"gopkg.in/yaml.v3"

	"verif/mc/fw"
)

// P09: decoding operations walk a document like a cursor.

// cFrame is an open collection of the model (or the list of documents).
type cFrame struct {
	kids    []*T
	mapping bool
	pos     int  // the next node
	touched bool // an operation looked at the next node already
	state   int  // number of the collection state, -1 for none
}

type cState struct {
	real  yamly.CollectionState
	frame *cFrame
	size  int
}

// cModel is the reference cursor.
type cModel struct {
	anchors map[string]*T
	stack   []*cFrame
	frames  []*cFrame
	sizes   []int
	denials int
	multi   bool
	fatal   bool
	custom  bool // the fatal error is the caller's
	eos     bool // the fatal error is the end of the stream
}

// resolve follows aliases.
func (m *cModel) resolve(t *T) *T {
	for t.Kind == 'a' {
		t = m.anchors[t.Text]
	}
	return t
}

// current gives the next node, leaving finished collections.
func (m *cModel) current() *T {
	for len(m.stack) > 0 {
		f := m.stack[len(m.stack)-1]
		if f.pos < len(f.kids) {
			f.touched = true
			return m.resolve(f.kids[f.pos])
		}
		m.stack = m.stack[:len(m.stack)-1]
	}
	return nil
}

func (m *cModel) consume() {
	f := m.stack[len(m.stack)-1]
	f.pos++
	f.touched = false
}

func (m *cModel) deny() {
	m.denials++
	if !m.multi {
		m.fatal = true
	}
}

// remains tells whether a collection has items nobody looked at; open when
// only a part of an entry was read.
func (f *cFrame) remains() (yes, open bool) {
	n := f.pos
	if f.touched {
		n++
	}
	if f.mapping {
		return n+1 < len(f.kids), n%2 == 1 && n+1 >= len(f.kids)
	}
	return n < len(f.kids), false
}

type cOp struct {
	name string
	// model applies the operation and gives the expected outcome ("" when it is left open)
	model func(m *cModel, t *T) string
	// real applies it to a reader
	real func(r yamly.Decoder, states *[]yamly.CollectionState) string
}

var errCustom = errors.New("added by the caller")

// fits is the shape of the scalar operations of the model.
func scalarOp(name string, zero string, conv func(text string) (val string, fits, fails bool), real func(r yamly.Decoder) any) cOp {
	return cOp{
		name: name,
		model: func(m *cModel, t *T) string {
			if t.Kind != 's' && t.Kind != 'p' || isNullT(t) {
				m.deny()
				return zero
			}
			v, fits, fails := conv(t.Text)
			if !fits {
				m.deny()
				return zero
			}
			m.consume()
			if fails {
				m.fatal = true
				return zero
			}
			return v
		},
		real: func(r yamly.Decoder, _ *[]yamly.CollectionState) string { return showVal(real(r)) },
	}
}

func isNullT(t *T) bool { return t.Kind == 'n' || t.Kind == 'p' && refNull(t.Text) }

func intConv(bits int, unsigned bool) func(string) (string, bool, bool) {
	return func(s string) (string, bool, bool) {
		v, ok, neg := refInt(s)
		if !ok || unsigned && neg {
			return "", false, false
		}
		if unsigned {
			return fmt.Sprintf("uint64(%v)", v), true, v.BitLen() > bits
		}
		lim := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
		return fmt.Sprintf("int64(%v)", v), true, v.Cmp(lim) >= 0 || v.Cmp(new(big.Int).Neg(lim)) < 0
	}
}

func openOp(name string, kind byte, real func(r yamly.Decoder) yamly.CollectionState) cOp {
	return cOp{
		name: name,
		model: func(m *cModel, t *T) string {
			if t.Kind != kind {
				m.deny()
				return "size 0"
			}
			f := &cFrame{kids: t.Kids, mapping: kind == 'm', state: len(m.frames)}
			m.consume()
			m.stack = append(m.stack, f)
			m.frames = append(m.frames, f)
			n := len(t.Kids)
			if kind == 'm' {
				n /= 2
			}
			m.sizes = append(m.sizes, n)
			return fmt.Sprintf("size %d", n)
		},
		real: func(r yamly.Decoder, states *[]yamly.CollectionState) string {
			s := real(r)
			*states = append(*states, s)
			return fmt.Sprintf("size %d", s.Size())
		},
	}
}

func countErrs(err error) int {
	if err == nil {
		return 0
	}
	if u, ok := err.(interface{ Unwrap() []error }); ok {
		return len(u.Unwrap())
	}
	return 1
}

// refAny is the value of a subtree; ok is false when it is left open.
func refAny(t *T, resolve func(*T) *T) (v any, ok bool) {
	t = resolve(t)
	switch t.Kind {
	case 'n':
		return nil, true
	case 's', 'p':
		s := t.Text
		if t.Kind == 'p' && refNull(s) {
			return nil, true
		}
		if rt, verdict := refTimestamp(s); verdict == timeYes {
			return time.Unix(rt.unix, int64(rt.nanos)).In(time.FixedZone("", rt.offset)), true
		} else if verdict == timeOpen {
			return nil, false
		}
		if n, ok, _ := refInt(s); ok {
			switch {
			case n.IsUint64() && s[0] != '-':
				return n.Uint64(), true
			case n.IsInt64():
				return n.Int64(), true
			}
			return nil, false
		}
		if f, inf, nan, ok := refFloat(s); ok && inf == 0 && !nan {
			v, _ := f.Float64()
			return v, true
		} else if ok {
			return nil, false
		}
		if b, ok := refBool(s); ok {
			return b, true
		}
		return s, true
	case 'q':
		l := []any{}
		for _, k := range t.Kids {
			x, ok := refAny(k, resolve)
			if !ok {
				return nil, false
			}
			l = append(l, x)
		}
		return l, true
	case 'm':
		m := map[string]any{}
		for i := 0; i+1 < len(t.Kids); i += 2 {
			k := resolve(t.Kids[i])
			x, ok := refAny(t.Kids[i+1], resolve)
			if !ok || (k.Kind != 's' && k.Kind != 'p') || isNullT(k) || k.Text == "<<" {
				return nil, false
			}
			m[k.Text] = x
		}
		return m, true
	}
	return nil, false
}

// substituted replaces aliases and drops anchors and tags.
func substituted(t *T, resolve func(*T) *T) *T {
	t = resolve(t)
	c := &T{Kind: t.Kind, Text: t.Text}
	if isNullT(t) {
		c.Kind, c.Text = 'n', ""
	} else if t.Kind == 'p' {
		c.Kind = 's'
	}
	for _, k := range t.Kids {
		c.Kids = append(c.Kids, substituted(k, resolve))
	}
	return c
}

// dropProps removes anchors and tags, resolving aliases among them.
func dropProps(t *T) *T {
	anchors := map[string]*T{}
	t.walk(func(n *T) {
		if n.Anchor != "" {
			anchors[n.Anchor] = n
		}
	})
	c := substituted(t, func(n *T) *T {
		for i := 0; n.Kind == 'a' && anchors[n.Text] != nil && i < 10; i++ {
			n = anchors[n.Text]
		}
		return n
	})
	c.walk(func(n *T) {
		if n.Kind == 's' && refNull(n.Text) && n.Text != "" {
			n.Kind, n.Text = 'n', ""
		}
	})
	return c
}

func rawShow(raw []byte) string {
	l, err := yaml3Docs(string(raw))
	if err != nil || len(l) != 1 {
		return fmt.Sprintf("raw %q (%d documents, %v)", raw, len(l), err)
	}
	return "raw " + dropProps(l[0]).String()
}

func cursorOps() []cOp {
	return []cOp{
		{name: "null", model: func(m *cModel, t *T) string {
			if isNullT(t) {
				m.consume()
				return "true"
			}
			return "false"
		}, real: func(r yamly.Decoder, _ *[]yamly.CollectionState) string { return fmt.Sprint(r.TryNull()) }},
		scalarOp("string", `""`, func(s string) (string, bool, bool) { return fmt.Sprintf("%q", s), true, false },
			func(r yamly.Decoder) any { return r.String() }),
		openOp("sequence", 'q', func(r yamly.Decoder) yamly.CollectionState { return r.Sequence() }),
		openOp("mapping", 'm', func(r yamly.Decoder) yamly.CollectionState { return r.Mapping() }),
		{name: "any", model: func(m *cModel, t *T) string {
			m.consume()
			if v, ok := refAny(t, m.resolve); ok {
				return showVal(v)
			}
			return ""
		}, real: func(r yamly.Decoder, _ *[]yamly.CollectionState) string { return showVal(r.Any()) }},
		{name: "skip", model: func(m *cModel, t *T) string {
			m.consume()
			return "skipped"
		}, real: func(r yamly.Decoder, _ *[]yamly.CollectionState) string { r.Skip(); return "skipped" }},
		{name: "raw", model: func(m *cModel, t *T) string {
			m.consume()
			return "raw " + dropProps(substituted(t, m.resolve)).String()
		}, real: func(r yamly.Decoder, _ *[]yamly.CollectionState) string {
			b := r.Raw()
			if r.Error() != nil && b == nil {
				return "nothing"
			}
			return rawShow(b)
		}},
		scalarOp("integer8", "int64(0)", intConv(8, false), func(r yamly.Decoder) any { return r.Integer(8) }),
		{name: "add error", model: nil, real: func(r yamly.Decoder, _ *[]yamly.CollectionState) string { r.AddError(errCustom); return "" }},
		{name: "add no error", model: nil, real: func(r yamly.Decoder, _ *[]yamly.CollectionState) string { r.AddError(nil); return "" }},
		scalarOp("unsigned64", "uint64(0)", intConv(64, true), func(r yamly.Decoder) any { return r.Unsigned(64) }),
		scalarOp("boolean", "bool(false)", func(s string) (string, bool, bool) {
			b, ok := refBool(s)
			return fmt.Sprintf("bool(%v)", b), ok, false
		}, func(r yamly.Decoder) any { return r.Boolean() }),
		scalarOp("float64", showVal(0.0), func(s string) (string, bool, bool) {
			f, _, _, ok := refFloat(s)
			if !ok {
				return "", false, false
			}
			v, _ := f.Float64()
			return showVal(v), true, false
		}, func(r yamly.Decoder) any { return r.Float(64) }),
		scalarOp("timestamp", showVal(time.Time{}), func(s string) (string, bool, bool) {
			rt, v := refTimestamp(s)
			return showVal(time.Unix(rt.unix, int64(rt.nanos)).In(time.FixedZone("", rt.offset))), v == timeYes, false
		}, func(r yamly.Decoder) any { return r.Timestamp() }),
		{name: "node", model: func(m *cModel, t *T) string {
			m.consume()
			plain := true // whether aliases and properties are part of the node is left open
			t.walk(func(x *T) { plain = plain && x.Kind != 'a' && x.Anchor == "" && x.Tag == "" })
			if m.resolve(t) != t || !plain {
				return ""
			}
			return "node " + dropProps(substituted(t, m.resolve)).String()
		}, real: func(r yamly.Decoder, _ *[]yamly.CollectionState) string {
			var t *T
			switch r := r.(type) {
			case interface{ Node() ast.Node }:
				if n := r.Node(); n != nil {
					var err error
					if t, err = fromAST(n); err != nil {
						return err.Error()
					}
				}
			case interface{ Node() *yaml.Node }:
				if n := r.Node(); n != nil {
					t = fromYaml3(n)
					fixYaml3Nulls(t, n)
				}
			default:
				return fmt.Sprintf("no such operation: %T", r)
			}
			if t == nil {
				return "nothing"
			}
			return "node " + dropProps(t).String()
		}},
	}
}

// zeroOf is what an operation gives behind a fatal error.
var zeroOf = map[string]string{
	"null": "false", "string": `""`, "sequence": "size 0", "mapping": "size 0", "any": "nil", "skip": "skipped", "raw": "nothing", "node": "nothing",
	"integer8": "int64(0)", "unsigned64": "uint64(0)", "boolean": "bool(false)", "float64": showVal(0.0), "timestamp": showVal(time.Time{}),
}

func (m *cModel) apply(op cOp) string {
	switch op.name {
	case "add error":
		if !m.fatal {
			m.fatal, m.custom = true, true
		}
		return ""
	case "add no error":
		return ""
	}
	if m.fatal {
		return zeroOf[op.name]
	}
	t := m.current()
	if t == nil {
		m.fatal, m.eos = true, true
		return zeroOf[op.name]
	}
	return op.model(m, t)
}

func newCursor(docs []*T, multi bool) *cModel {
	m := &cModel{anchors: map[string]*T{}, multi: multi}
	for _, d := range docs {
		d.walk(func(t *T) {
			if t.Anchor != "" {
				m.anchors[t.Anchor] = t
			}
		})
	}
	m.stack = []*cFrame{{kids: docs, state: -1}}
	return m
}

func (m *cModel) key() string {
	var sb strings.Builder
	for _, f := range m.stack {
		fmt.Fprintf(&sb, "%d/%d%v ", f.pos, len(f.kids), f.touched)
	}
	fmt.Fprint(&sb, m.denials, m.fatal)
	return sb.String()
}

// runCursor replays a trace and checks its last operation and the state behind it.
func runCursor(r yamly.Decoder, m *cModel, ops []cOp, trace []int) string {
	var states []yamly.CollectionState
	for i, t := range trace {
		last := i == len(trace)-1
		frames := len(m.frames)
		want := m.apply(ops[t])
		got := ops[t].real(r, &states)
		if len(states) > len(m.frames) && len(m.frames) == frames {
			// nothing was opened
			if s := states[len(states)-1]; s.Size() != 0 || s.HasUnprocessedItems() {
				return fmt.Sprintf("%s does not fit the node but gives a collection of %d items, unprocessed: %v", ops[t].name, s.Size(), s.HasUnprocessedItems())
			}
			states = states[:len(states)-1]
		}
		if !last {
			continue
		}
		what := ops[t].name
		if want != "" && got != want {
			return fmt.Sprintf("%s gives %s, the cursor model says %s (error %v)", what, got, want, r.Error())
		}
	}
	err := r.Error()
	bad := m.fatal || m.denials > 0
	switch {
	case bad != (err != nil):
		return fmt.Sprintf("the error is %v, the model has %d denials and fatal error: %v", err, m.denials, m.fatal)
	case m.denials > 0 && !errors.Is(err, yamly.ErrDenied):
		return fmt.Sprintf("a denial is reported as %v", err)
	case m.denials == 0 && errors.Is(err, yamly.ErrDenied):
		return fmt.Sprintf("the error %v is a denial although nothing was denied", err)
	case m.eos != errors.Is(err, yamly.ErrEndOfStream):
		return fmt.Sprintf("the error is %v, end of stream: %v", err, m.eos)
	case m.custom != errors.Is(err, errCustom):
		return fmt.Sprintf("the error is %v, error added first: %v", err, m.custom)
	}
	if m.multi && err != nil {
		want := m.denials
		if m.fatal {
			want++
		}
		if n := countErrs(err); n != want {
			return fmt.Sprintf("%d errors are reported, %d occurred: %v", n, want, err)
		}
	}
	if len(states) != len(m.frames) {
		return fmt.Sprintf("%d collections were opened, the model opened %d", len(states), len(m.frames))
	}
	for i, s := range states {
		if s.Size() != m.sizes[i] {
			return fmt.Sprintf("collection %d has size %d, not %d", i, s.Size(), m.sizes[i])
		}
		yes, open := m.frames[i].remains()
		if m.fatal {
			yes, open = false, false
		}
		if got := s.HasUnprocessedItems(); got != yes && !open {
			return fmt.Sprintf("collection %d has unprocessed items: %v, the model says %v", i, got, yes)
		}
	}
	return ""
}

// cursorDocs lists trees with typed leaves.
func cursorDocs(n int, leaves []*T, complexKeys bool) (l []*T) {
	for size := 1; size <= n; size++ {
		for _, sh := range shapes(size, "sqm", complexKeys) {
			var places []int
			i := 0
			sh.walk(func(t *T) {
				if t.Kind == 's' {
					places = append(places, i)
				}
				i++
			})
			var rec func(t *T, p int)
			rec = func(t *T, p int) {
				if p == len(places) {
					l = append(l, t)
					return
				}
				for _, lf := range leaves {
					c := t.clone()
					i := 0
					c.walk(func(x *T) {
						if i == places[p] {
							*x = *lf.clone()
						}
						i++
					})
					rec(c, p+1)
				}
			}
			rec(sh, 0)
		}
	}
	return
}

func pl(s string) *T { return &T{Kind: 'p', Text: s} }

func init() {
	fw.Register(fw.Check{
		Property:  "P09",
		Technique: "exhaustive enumeration of small documents and of decoding operation sequences on the real readers of both engines against a cursor model",
		Assumptions: []string{
			"an item counts as processed as soon as an operation looked at it, also when that operation was denied (otherwise loops over collections could not end)",
			"whether a mapping has unprocessed items between the key and the value of its last entry is left open",
		},
		Run: p09Run,
	})
}

func p09Run(c *fw.Ctx) {
	all := cursorOps()
	core := all[:10]
	withNode := append([]cOp{all[len(all)-1]}, core[1:7]...)
	type cfg struct {
		label string
		docs  []*T
		ops   []cOp
		multi bool
		depth int
	}
	leaves := []*T{sc("x"), nul(), pl("7")}
	typed := []*T{sc("x"), pl("~"), pl("7"), pl("300"), pl("-5"), pl("true"), pl("2.5"), pl("2023-04-05")}
	small := cursorDocs(3, leaves, true)
	mid := cursorDocs(5, []*T{sc("x")}, true)
	var props []*T
	for _, t := range propTrees(4) {
		taggedNull := false // no node of yaml.v3 is null and has a tag of its own
		t[0].walk(func(x *T) { taggedNull = taggedNull || x.Kind == 'n' && x.Tag != "" })
		if !selfReferring(t[0]) && !taggedNull {
			props = append(props, t[0])
		}
	}
	configs := []cfg{
		{"scalars", cursorDocs(2, typed, true), all, false, c.Pick(4, 5)},
		{"scalars-multi", cursorDocs(2, typed, true), all, true, c.Pick(4, 5)},
		{"pairs", cursorDocs(3, typed, true), all, false, c.Pick(4, 5)},
		{"small-multi", small, core, true, c.Pick(4, 5)},
		{"small", cursorDocs(4, leaves, true), core, false, c.Pick(5, 6)},
		{"nested", mid, core[1:7], false, c.Pick(6, 8)},
		{"nested-multi", cursorDocs(4, []*T{sc("x")}, true), core[:8], true, c.Pick(4, 5)},
		{"properties", props, core, false, c.Pick(5, 6)},
		{"properties-multi", props, core[:8], true, c.Pick(4, 5)},
		{"nodes", cursorDocs(4, leaves, true), withNode, false, c.Pick(4, 5)},
		{"nodes-properties", props, withNode, false, c.Pick(4, 5)},
	}
	for _, e := range engines {
		readLarge(c, e, all)
	}
	for _, cf := range configs {
		for _, e := range engines {
			cf, e := cf, e
			prefix := e.name + "/" + cf.label + ":"

			logLine(prefix, len(cf.docs))
			fw.Parallel(c, func(emit func(*T) bool) {
				for _, t := range cf.docs {
					if !emit(t) {
						return
					}
				}
			}, func(t *T) {
				one := c.Filter == prefix+t.kindString()
				if c.Filter != "" && !one && !strings.HasPrefix(c.Filter, prefix+t.kindString()+" / ") {
					return
				}
				fresh := e.tree(t)
				docs := []*T{t}
				n, tr := 0, 0
				var walk func(trace []int, after int) bool
				walk = func(trace []int, after int) bool {
					if len(trace) > 0 {
						key := func() string {
							var s []string
							for _, x := range trace {
								s = append(s, cf.ops[x].name)
							}
							return prefix + t.kindString() + " / " + strings.Join(s, ", ")
						}
						n++
						tr += len(trace)
						m := newCursor(docs, cf.multi)
						if c.Filter != "" && !one {
							c.Case(key(), func() string { return runCursor(fresh(cf.multi), m, cf.ops, trace) })
						} else {
							if d := fw.Protect(func() string { return runCursor(fresh(cf.multi), m, cf.ops, trace) }); d != "" {
								c.Violate(key(), d)
								return !c.Expired()
							}
							c.State(m.key())
						}
						if m.fatal {
							after++
						}
						c.Sample(key)
					}
					if n%256 == 0 && c.Expired() {
						return false
					}
					if len(trace) == cf.depth || after > 1 {
						return true
					}
					for i := range cf.ops {
						if !walk(append(trace, i), after) {
							return false
						}
					}
					return true
				}
				if c.Filter != "" && !one {
					walk(nil, 0)
				} else {
					// one slot per document makes a hang visible
					c.Case(prefix+t.kindString(), func() string { walk(nil, 0); return "" })
				}
				c.AddTraces(n)
				c.AddTransitions(tr)
			})
			c.Bound("%s %d documents, every sequence of at most %d of %d operations, at most one operation behind a fatal error", prefix, len(cf.docs), cf.depth, len(cf.ops))
		}
	}
}

// kindString tells plain scalars from quoted ones.
func (t *T) kindString() string {
	c := t.clone()
	c.walk(func(n *T) {
		if n.Kind == 'p' {
			n.Kind, n.Text = 's', "plain "+n.Text
		}
	})
	return c.String()
}

// selfReferring tells whether an alias stands inside of the node it refers to.
func selfReferring(t *T) bool {
	bad := false
	t.walk(func(n *T) {
		if n.Anchor != "" {
			n.walk(func(x *T) { bad = bad || x.Kind == 'a' && x.Text == n.Anchor })
		}
	})
	return bad
}
