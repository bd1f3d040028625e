package checks

import (
	"errors"
	"fmt"
	"strings"

	"github.com/KSpaceer/yamly"

	"verif/mc/fw"
)

// P11: aliases and merge keys stand for what they refer to.

// flowText writes a model tree as one line of flow style.
func flowText(t *T) string {
	var sb strings.Builder
	var rec func(t *T)
	rec = func(t *T) {
		if t.Anchor != "" {
			sb.WriteString("&" + t.Anchor + " ")
		}
		switch t.Kind {
		case 'n':
			sb.WriteString("null")
		case 'p':
			sb.WriteString(t.Text)
		case 's':
			fmt.Fprintf(&sb, "%q", t.Text)
		case 'a':
			sb.WriteString("*" + t.Text)
		case 'q':
			sb.WriteString("[")
			for i, k := range t.Kids {
				if i > 0 {
					sb.WriteString(", ")
				}
				rec(k)
			}
			sb.WriteString("]")
		case 'm':
			sb.WriteString("{")
			for i, k := range t.Kids {
				if i > 0 && i%2 == 0 {
					sb.WriteString(", ")
				}
				if i%2 == 1 {
					sb.WriteString(" : ")
				}
				rec(k)
			}
			sb.WriteString("}")
		}
	}
	rec(t)
	return sb.String()
}

const (
	evOK   = iota
	evOpen // the value is left open
	evErr  // an undefined or self-referring alias
)

// evaluator substitutes aliases.
type evaluator struct {
	target map[*T]*T // alias to the node it refers to
	defs   []*T
}

func newEvaluator(docs ...*T) *evaluator {
	e := &evaluator{target: map[*T]*T{}}
	for _, d := range docs {
		anchors := map[string]*T{}
		d.walk(func(n *T) {
			if n.Anchor != "" {
				anchors[n.Anchor] = n
			}
			if n.Kind == 'a' && anchors[n.Text] != nil {
				e.target[n] = anchors[n.Text]
			}
		})
	}
	return e
}

func worst(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// subst gives the tree without aliases and anchors.
func (e *evaluator) subst(t *T, open []*T) (*T, int) {
	if t.Kind == 'a' {
		g := e.target[t]
		if g == nil {
			return nil, evErr
		}
		for _, o := range open {
			if o == t {
				return nil, evErr
			}
		}
		return e.subst(g, append(open, t))
	}
	c, st := &T{Kind: t.Kind, Text: t.Text}, evOK
	for _, k := range t.Kids {
		x, s := e.subst(k, open)
		st = worst(st, s)
		c.Kids = append(c.Kids, x)
	}
	if st == evErr {
		return nil, st
	}
	return c, st
}

// value evaluates a tree without aliases, merge keys included.
func value(t *T) (any, int) {
	switch t.Kind {
	case 'n':
		return nil, evOK
	case 's', 'p':
		return t.Text, evOK
	case 'q':
		l, st := []any{}, evOK
		for _, k := range t.Kids {
			v, s := value(k)
			st = worst(st, s)
			l = append(l, v)
		}
		return l, st
	case 'm':
		own, merged, st := map[string]any{}, map[string]any{}, evOK
		add := func(v any) bool {
			m, ok := v.(map[string]any)
			for k, x := range m {
				if _, has := merged[k]; !has {
					merged[k] = x
				}
			}
			return ok
		}
		for i := 0; i+1 < len(t.Kids); i += 2 {
			k := t.Kids[i]
			v, s := value(t.Kids[i+1])
			st = worst(st, s)
			switch {
			case k.Kind != 's' && k.Kind != 'p':
				st = worst(st, evOpen)
			case k.Text == "<<":
				if l, ok := v.([]any); ok {
					for _, x := range l {
						if !add(x) {
							st = worst(st, evOpen)
						}
					}
				} else if !add(v) {
					st = worst(st, evOpen)
				}
			default:
				if _, has := own[k.Text]; has {
					st = worst(st, evOpen)
				}
				own[k.Text] = v
			}
		}
		for k, v := range merged {
			if _, has := own[k]; !has {
				own[k] = v
			}
		}
		return own, st
	}
	return nil, evOpen
}

// toV turns a tree without aliases into a value to be decoded step by step.
func (t *T) toV() *V {
	switch t.Kind {
	case 'n':
		return vn()
	case 's', 'p':
		return vs(t.Text)
	}
	v := &V{kind: t.Kind}
	for _, k := range t.Kids {
		v.kids = append(v.kids, k.toV())
	}
	return v
}

// descend reads step by step the first path that never ends and expects an error.
// With look every node is looked at in vain before.
func descend(d yamly.Decoder, e *evaluator, t *T, limit int, look bool) string {
	var read func(t *T, depth int) bool // true: an error has come up
	read = func(t *T, depth int) bool {
		if d.Error() != nil {
			return true
		}
		if depth > limit {
			return true
		}
		g := t
		for i := 0; g.Kind == 'a' && i < 5; i++ {
			if e.target[g] == nil {
				d.Skip()
				_ = d.String()
				return d.Error() != nil
			}
			g = e.target[g]
		}
		if look && g.Kind != 'n' && (g.Kind != 'p' && g.Kind != 's' || !refNull(g.Text)) {
			d.TryNull()
		}
		switch g.Kind {
		case 'q', 'm':
			if g.Kind == 'q' {
				d.Sequence()
			} else {
				d.Mapping()
			}
			for _, k := range g.Kids {
				if read(k, depth+1) {
					return true
				}
			}
		case 'n':
			d.TryNull()
		default:
			_ = d.String()
		}
		return d.Error() != nil
	}
	read(t, 0)
	if d.Error() == nil {
		return "reading a document which refers to itself step by step never ends with an error"
	}
	return ""
}

func rawValue(raw []byte) string {
	l, err := yaml3Docs(string(raw))
	if err != nil || len(l) != 1 {
		return fmt.Sprintf("%q (%d documents, %v)", raw, len(l), err)
	}
	t, st := newEvaluator(l[0]).subst(l[0], nil)
	if st == evErr {
		return fmt.Sprintf("%q, which refers outside of itself", raw)
	}
	return t.String()
}

// untyped forgets the spelling of nulls and the quoting of scalars.
func untyped(t *T) *T {
	c := *t
	c.Kids = nil
	if c.Kind == 'p' {
		c.Kind = 's'
	}
	if c.Kind == 's' && refNull(c.Text) && c.Text != "" {
		c.Kind, c.Text = 'n', ""
	}
	for _, k := range t.Kids {
		c.Kids = append(c.Kids, untyped(k))
	}
	return &c
}

// checkAliases reads a document in all ways.
func checkAliases(c *fw.Ctx, e engine, t *T) string {
	src := flowText(t) + "\n"
	ev := newEvaluator(t)
	whole, st := ev.subst(t, nil)
	fresh, err := e.parse(src)
	if err != nil {
		if st == evErr {
			return ""
		}
		return fmt.Sprintf("%s rejects %q: %v", e.name, src, err)
	}
	say := func(format string, a ...any) string {
		return fmt.Sprintf("%s, %q: ", e.name, src) + fmt.Sprintf(format, a...)
	}
	// as a whole
	anyOf := func(what string, d yamly.Decoder, t *T, st int) string {
		c.AddTransitions(1)
		v := d.Any()
		if st == evErr {
			if d.Error() == nil {
				return say("%s: value %s instead of an error", what, showVal(v))
			}
			return ""
		}
		want, vst := value(t)
		if vst != evOK {
			return ""
		}
		if d.Error() != nil {
			return say("%s: error %v", what, d.Error())
		}
		if got := showVal(v); got != showVal(want) {
			return say("%s: value %s instead of %s", what, got, showVal(want))
		}
		return ""
	}
	rawOf := func(what string, d yamly.Decoder, t *T, st int) string {
		c.AddTransitions(1)
		raw := d.Raw()
		if st == evErr {
			if d.Error() == nil {
				return say("%s: raw data %q instead of an error", what, raw)
			}
			return ""
		}
		if d.Error() != nil {
			return say("%s: raw data ends with error %v", what, d.Error())
		}
		if got, want := rawValue(raw), untyped(t).String(); got != want {
			if l, err := yaml3Docs(string(raw)); err != nil || len(l) != 1 || untypedAll(l[0]) != want {
				return say("%s: raw data reads as %s instead of %s", what, got, want)
			}
		}
		return ""
	}
	if s := anyOf("whole", fresh(false), whole, st); s != "" {
		return s
	}
	if s := rawOf("whole", fresh(false), whole, st); s != "" {
		return s
	}
	// step by step
	if st == evErr {
		for _, look := range []bool{false, true} {
			if s := descend(fresh(false), ev, t, 2*t.size()+4, look); s != "" {
				return say("%s", s)
			}
		}
	} else {
		d := fresh(false)
		if s := whole.toV().decode(d); s != "" {
			return say("step by step: %s", s)
		}
	}
	// items behind skipped ones
	if t.Kind != 'q' && t.Kind != 'm' {
		return ""
	}
	sound := true // no item before this one is an error
	for i := range t.Kids {
		item, ist := ev.subst(t.Kids[i], nil)
		prefix := func(read bool) yamly.Decoder {
			d := fresh(false)
			if t.Kind == 'q' {
				d.Sequence()
			} else {
				d.Mapping()
			}
			for j := 0; j < i; j++ {
				if !read {
					d.Skip()
				} else if j%2 == 0 {
					d.Any()
				} else {
					d.Raw()
				}
				if d.Error() != nil {
					return nil
				}
			}
			return d
		}
		for _, read := range []bool{false, true} {
			if d := prefix(read); d != nil {
				if s := anyOf(fmt.Sprintf("item %d", i), d, item, ist); s != "" {
					return s
				}
			} else if !read && sound {
				return say("skipping %d items ends with an error", i)
			}
			if d := prefix(read); d != nil {
				if s := rawOf(fmt.Sprintf("item %d", i), d, item, ist); s != "" {
					return s
				}
			}
		}
		if ist == evOK {
			if d := prefix(false); d != nil {
				if s := item.toV().decode(d); s != "" {
					return say("item %d step by step: %s", i, s)
				}
			}
		}
		sound = sound && ist != evErr
	}
	return ""
}

func untypedAll(t *T) string {
	x, st := newEvaluator(t).subst(t, nil)
	if st == evErr {
		return "refers outside of itself"
	}
	return untyped(x).String()
}

// aliasTrees lists trees with anchors on up to two nodes and aliases as leaves.
func aliasTrees(n int, emit func(*T) bool) bool {
	for size := 2; size <= n; size++ {
		for _, sh := range shapes(size, "s", true) {
			sh := label(sh)
			var leaves, nodes []int
			i := 0
			sh.walk(func(x *T) {
				if x.Kind == 's' {
					leaves = append(leaves, i)
				}
				nodes = append(nodes, i)
				i++
			})
			names := []string{"", "x", "y"}
			pick := make([]int, len(leaves))
			for {
				t := sh.clone()
				at := func(t *T, i int) (r *T) {
					k := 0
					t.walk(func(x *T) {
						if k == i {
							r = x
						}
						k++
					})
					return
				}
				count := 0
				for j, p := range pick {
					if p > 0 {
						*at(t, leaves[j]) = T{Kind: 'a', Text: names[p]}
						count++
					}
				}
				if count > 0 && count <= 3 {
					for _, a := range nodes {
						if at(t, a).Kind == 'a' {
							continue
						}
						u := t.clone()
						at(u, a).Anchor = "x"
						if !emit(u) {
							return false
						}
						for _, b := range nodes {
							if b <= a || at(t, b).Kind == 'a' {
								continue
							}
							for _, nm := range []string{"x", "y"} {
								w := u.clone()
								at(w, b).Anchor = nm
								if !emit(w) {
									return false
								}
							}
						}
					}
				}
				j := 0
				for ; j < len(pick); j++ {
					pick[j]++
					if pick[j] < len(names) {
						break
					}
					pick[j] = 0
				}
				if j == len(pick) {
					break
				}
			}
		}
	}
	return true
}

// mergeTrees lists mappings with merge keys.
func mergeTrees(c *fw.Ctx, emit func(*T) bool) {
	kv := func(l ...string) *T {
		t := mp()
		for _, s := range l {
			t.Kids = append(t.Kids, sc(s))
		}
		return t
	}
	mk := func() *T { return &T{Kind: 'p', Text: "<<"} }
	bases := []*T{kv(), kv("a", "1x"), kv("a", "2x", "b", "3x"), mp(mk(), kv("a", "4x"), sc("b"), sc("5x")), mp(sc("a"), kv("b", "6x")), mp(sc("a"), nul(), sc("b"), sc("14x"))}
	refs := func() []*T {
		return []*T{alias("x"), alias("y"), sq(alias("x"), alias("y")), sq(alias("y"), alias("x")), kv("a", "7x"), sq(kv("b", "8x"), alias("x")), sq(), kv(),
			sq(alias("y"), kv("a", "9x", "c", "9y")), mp(mk(), alias("x"), sc("c"), sc("9z"))}
	}
	type entry struct{ k, v *T }
	var entries []entry
	for _, r := range refs() {
		entries = append(entries, entry{mk(), r})
	}
	entries = append(entries, entry{sc("a"), sc("own a")}, entry{sc("b"), sc("own b")}, entry{sc("a"), nul()}, entry{sc("a"), mp(sc("own"), sc("deep"))}, entry{sc("d"), alias("y")}, entry{sc("d"), mp(mk(), alias("x"), sc("e"), nul())})
	second := append([]*T{}, bases...)
	second = append(second, mp(mk(), alias("x"), sc("a"), sc("10x")), mp(sc("c"), sc("11x"), mk(), alias("x")), mp(mk(), sq(alias("x"), kv("a", "12x", "b", "13x"))))
	for _, x := range bases {
		for _, y := range second {
			var rec func(l []entry) bool
			rec = func(l []entry) bool {
				m := mp()
				for _, en := range l {
					m.Kids = append(m.Kids, en.k.clone(), en.v.clone())
				}
				if len(l) > 0 {
					t := sq(anch("x", x.clone()), anch("y", y.clone()), m)
					if !emit(t) || !emit(mp(sc("p"), anch("x", x.clone()), sc("q"), anch("y", y.clone()), sc("r"), sq(m.clone(), sc("end")))) {
						return false
					}
				}
				if len(l) == 3 {
					return true
				}
				for _, en := range entries {
					dup := false
					for _, o := range l {
						dup = dup || o.k.Text == en.k.Text && en.k.Text != "<<"
					}
					if !dup && !rec(append(l[:len(l):len(l)], en)) {
						return false
					}
				}
				return true
			}
			if !rec(nil) {
				return
			}
		}
	}
}

// checkMerge reads a document with merge keys as a whole and item by item.
func checkMerge(c *fw.Ctx, e engine, t *T) string {
	src := flowText(t) + "\n"
	ev := newEvaluator(t)
	fresh, err := e.parse(src)
	if err != nil {
		return fmt.Sprintf("%s rejects %q: %v", e.name, src, err)
	}
	check := func(what string, d yamly.Decoder, t *T) string {
		s, st := ev.subst(t, nil)
		if st != evOK {
			return ""
		}
		want, st := value(s)
		if st != evOK {
			return ""
		}
		c.AddTransitions(1)
		v := d.Any()
		if d.Error() != nil {
			return fmt.Sprintf("%s, %q: %s ends with error %v", e.name, src, what, d.Error())
		}
		if got := showVal(v); got != showVal(want) {
			return fmt.Sprintf("%s, %q: %s is %s instead of %s", e.name, src, what, got, showVal(want))
		}
		return ""
	}
	if s := check("the document", fresh(false), t); s != "" {
		return s
	}
	for i := range t.Kids {
		d := fresh(false)
		if t.Kind == 'q' {
			d.Sequence()
		} else {
			d.Mapping()
		}
		for j := 0; j < i; j++ {
			d.Skip()
		}
		if s := check(fmt.Sprintf("item %d", i), d, t.Kids[i]); s != "" {
			return s
		}
	}
	return ""
}

// typedReads are the operations an alias and its node must answer alike.
func typedReads() map[string]func(d yamly.Decoder) string {
	show := func(v any, d yamly.Decoder) string {
		st := "ok"
		if errors.Is(d.Error(), yamly.ErrDenied) {
			st = "denied"
		} else if d.Error() != nil {
			st = "error"
		}
		return showVal(v) + " " + st
	}
	l := map[string]func(d yamly.Decoder) string{
		"null":      func(d yamly.Decoder) string { return show(d.TryNull(), d) },
		"boolean":   func(d yamly.Decoder) string { return show(d.Boolean(), d) },
		"float":     func(d yamly.Decoder) string { return show(d.Float(64), d) },
		"string":    func(d yamly.Decoder) string { return show(d.String(), d) },
		"timestamp": func(d yamly.Decoder) string { return show(d.Timestamp(), d) },
		"float32":   func(d yamly.Decoder) string { return show(d.Float(32), d) },
		"any":       func(d yamly.Decoder) string { return show(d.Any(), d) },
		"raw": func(d yamly.Decoder) string {
			raw := d.Raw()
			return show(rawValue(raw), d)
		},
		"skip":     func(d yamly.Decoder) string { d.Skip(); return show(nil, d) },
		"sequence": func(d yamly.Decoder) string { return show(d.Sequence().Size(), d) },
		"mapping":  func(d yamly.Decoder) string { return show(d.Mapping().Size(), d) },
		"items": func(d yamly.Decoder) string {
			s := d.Sequence()
			var l []any
			for s.HasUnprocessedItems() {
				l = append(l, d.Any())
			}
			return show(l, d)
		},
		"null or any": func(d yamly.Decoder) string {
			if d.TryNull() {
				return show("null", d)
			}
			return show(d.Any(), d)
		},
	}
	for _, bits := range []int{8, 16, 32, 64} {
		bits := bits
		l[fmt.Sprintf("integer%d", bits)] = func(d yamly.Decoder) string { return show(d.Integer(bits), d) }
		l[fmt.Sprintf("unsigned%d", bits)] = func(d yamly.Decoder) string { return show(d.Unsigned(bits), d) }
	}
	return l
}

// checkTyped compares every decoding operation on an alias with the same on the node it refers to.
func checkTyped(c *fw.Ctx, e engine, text string) string {
	reads := typedReads()
	for _, doc := range []struct {
		src       string
		node, ref int
		mapping   bool
	}{
		{"[&x %s , *x , end]", 0, 1, false},
		{"[&x %s , other, *x , end]", 0, 2, false},
		{"{k: &x %s , l: *x , m: end}", 1, 3, true},
		{"{&x %s : v, w: *x , m: end}", 0, 3, true},
		{"{k: &x %s , *x : l, m: end}", 1, 2, true},
	} {
		src := fmt.Sprintf(doc.src, text) + "\n"
		fresh, err := e.parse(src)
		if err != nil {
			continue
		}
		for name, read := range reads {
			at := func(i int) (string, string) {
				d := fresh(false)
				if doc.mapping {
					d.Mapping()
				} else {
					d.Sequence()
				}
				for ; i > 0; i-- {
					d.Skip()
				}
				if d.Error() != nil {
					return "no position: " + d.Error().Error(), ""
				}
				s := read(d)
				if d.Error() != nil || name == "sequence" || name == "mapping" {
					return s, ""
				}
				return s, d.String()
			}
			c.AddTransitions(2)
			want, _ := at(doc.node)
			got, next := at(doc.ref)
			if got != want {
				return fmt.Sprintf("%s, %q: %s of the alias is %s, of the node %s", e.name, src, name, got, want)
			}
			wantNext := map[bool]string{false: "end", true: "m"}[doc.mapping]
			if doc.src[len("{k: &x %s , "):][0] == '*' && doc.mapping {
				wantNext = "l"
			}
			if next != "" && next != wantNext && !(name == "null" && strings.HasPrefix(got, "bool(false)")) {
				return fmt.Sprintf("%s, %q: after %s of the alias comes %q instead of %q", e.name, src, name, next, wantNext)
			}
		}
	}
	return ""
}

func init() {
	fw.Register(fw.Check{
		Property:  "P11",
		Technique: "exhaustive enumeration of small documents with anchors, aliases and merge keys through both real readers against a substituting reference evaluator",
		Assumptions: []string{
			"merge keys are resolved when a value is decoded as a whole (Any)",
			"the value of a merge key which is not a mapping or a sequence of mappings, and keys which are collections or stand twice, are left open",
		},
		Run: p11Run,
	})
}

func p11Run(c *fw.Ctx) {
	for _, e := range engines {
		e := e
		run := func(label string, gen func(emit func(*T) bool), check func(*fw.Ctx, engine, *T) string) {
			n := 0
			logLine(e.name, label)
			prefix := e.name + "/" + label + ":"
			fw.Parallel(c, func(emit func(*T) bool) {
				gen(func(t *T) bool { n++; return emit(t) })
			}, func(t *T) {
				key := prefix + t.String()
				if c.Filter != "" && c.Filter != key {
					return
				}
				c.AddTraces(1)
				c.State(t.String())
				c.Case(key, func() string { return check(c, e, t) })
				c.Sample(func() string { return key })
			})
			c.Bound("%s: %d documents", prefix, n)
		}
		run("aliases", func(emit func(*T) bool) { aliasTrees(c.Pick(7, 8), emit) }, checkAliases)
		texts := []string{"1", "-129", "0x1F", "1.5", ".inf", "true", "null", "~", "2020-01-02", "2020-01-02T03:04:05Z", "text", "'quoted'", "\"\"", "'1'", "[]", "[a, 1]", "{}", "{a: 1}", "[[b], c]", "{d: {e: f}}", "!t x", "!!str 1", "!t [g]"}
		List(c, e.name+"/typed", texts, func(s string) string { return checkTyped(c, e, s) })
		run("merge", func(emit func(*T) bool) { mergeTrees(c, emit) }, checkMerge)
		List(c, e.name+"/many-aliases", sized(manyAliases, sizesUpTo(c.Pick(20, 40), 65, 129)), func(s string) string {
			k, n := sizedCase(s)
			return short(checkAliases(c, e, manyAliases[k](n)))
		})
		List(c, e.name+"/many-merges", sized(manyMerges, sizesUpTo(c.Pick(20, 40), 65, 129)), func(s string) string {
			k, n := sizedCase(s)
			return short(checkMerge(c, e, manyMerges[k](n)))
		})
	}
}
