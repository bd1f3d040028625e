package checks

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astcmp"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astprint"

	"verif/mc/fw"
)

// P16: comparison of syntax trees is equality of trees.

// G is a description of a syntax tree: a kind with children, some of which may be missing.
type G struct {
	K    string // text, null, alias, tag, anchor, seq, map, entry, content, props, stream
	Text string
	Kids []*G // nil children are missing ones (entry, content, props)
}

func (g *G) String() string {
	if g == nil {
		return "-"
	}
	if g.Kids == nil {
		if g.Text != "" {
			return g.K + "(" + g.Text + ")"
		}
		return g.K
	}
	var s []string
	for _, k := range g.Kids {
		s = append(s, k.String())
	}
	return g.K + "[" + strings.Join(s, " ") + "]"
}

func (g *G) size() int {
	if g == nil {
		return 0
	}
	n := 1
	for _, k := range g.Kids {
		n += k.size()
	}
	return n
}

func (g *G) complete() bool {
	if g == nil {
		return false
	}
	for _, k := range g.Kids {
		if k == nil && (g.K == "entry" || g.K == "content") {
			return false
		}
		if k != nil && !k.complete() {
			return false
		}
	}
	return true
}

func (g *G) clone() *G {
	if g == nil {
		return nil
	}
	c := *g
	if g.Kids != nil {
		c.Kids = make([]*G, len(g.Kids))
		for i, k := range g.Kids {
			c.Kids[i] = k.clone()
		}
	}
	return &c
}

// node builds the real tree.
func (g *G) node() ast.Node {
	if g == nil {
		return nil
	}
	var kids []ast.Node
	for _, k := range g.Kids {
		kids = append(kids, k.node())
	}
	switch g.K {
	case "text":
		return ast.NewTextNode(g.Text)
	case "null":
		return ast.NewNullNode()
	case "alias":
		return ast.NewAliasNode(g.Text)
	case "tag":
		return ast.NewTagNode(g.Text)
	case "anchor":
		return ast.NewAnchorNode(g.Text)
	case "seq":
		return ast.NewSequenceNode(kids)
	case "map":
		return ast.NewMappingNode(kids)
	case "entry":
		return ast.NewMappingEntryNode(kids[0], kids[1])
	case "content":
		return ast.NewContentNode(kids[0], kids[1])
	case "props":
		return ast.NewPropertiesNode(kids[0], kids[1])
	case "stream":
		return ast.NewStreamNode(kids)
	}
	panic(g.K)
}

// gTrees lists all trees of exactly n nodes.
type gTrees struct {
	texts []string
	memo  map[string][]*G
}

func (l *gTrees) leaves() (r []*G) {
	for _, t := range l.texts {
		r = append(r, &G{K: "text", Text: t}, &G{K: "alias", Text: t})
	}
	return append(r, &G{K: "null"}, &G{K: "seq", Kids: []*G{}}, &G{K: "map", Kids: []*G{}})
}

// opt lists trees of n nodes, n = 0 being a missing one.
func (l *gTrees) opt(n int) []*G {
	if n == 0 {
		return []*G{nil}
	}
	return l.node(n)
}

func (l *gTrees) props(n int) (r []*G) {
	switch n {
	case 1:
		return []*G{{K: "props", Kids: []*G{nil, nil}}}
	case 2:
		for _, t := range l.texts {
			r = append(r, &G{K: "props", Kids: []*G{{K: "tag", Text: t}, nil}}, &G{K: "props", Kids: []*G{nil, {K: "anchor", Text: t}}})
		}
	case 3:
		for _, t := range l.texts {
			for _, u := range l.texts {
				r = append(r, &G{K: "props", Kids: []*G{{K: "tag", Text: t}, {K: "anchor", Text: u}}})
			}
		}
	}
	return
}

func (l *gTrees) entry(n int) (r []*G) {
	for k := 0; k < n; k++ {
		for _, a := range l.opt(k) {
			for _, b := range l.opt(n - 1 - k) {
				r = append(r, &G{K: "entry", Kids: []*G{a, b}})
			}
		}
	}
	return
}

func (l *gTrees) forests(n int, item func(int) []*G) (r [][]*G) {
	for first := 1; first <= n; first++ {
		for _, h := range item(first) {
			if first == n {
				r = append(r, []*G{h})
				continue
			}
			for _, rest := range l.forests(n-first, item) {
				r = append(r, append([]*G{h}, rest...))
			}
		}
	}
	return
}

func (l *gTrees) node(n int) (r []*G) {
	key := fmt.Sprint(n)
	if m, ok := l.memo[key]; ok {
		return m
	}
	if n == 1 {
		r = append(l.leaves(), &G{K: "content", Kids: []*G{nil, nil}})
	} else {
		for _, f := range l.forests(n-1, l.node) {
			r = append(r, &G{K: "seq", Kids: f})
		}
		for _, f := range l.forests(n-1, l.entry) {
			r = append(r, &G{K: "map", Kids: f})
		}
		for k := 0; k <= 3 && k < n; k++ {
			ps := l.props(k)
			if k == 0 {
				ps = []*G{nil}
			}
			for _, p := range ps {
				for _, x := range l.opt(n - 1 - k) {
					r = append(r, &G{K: "content", Kids: []*G{p, x}})
				}
			}
		}
	}
	l.memo[key] = r
	return
}

func (l *gTrees) roots(n int) (r []*G) {
	r = append(r, l.node(n)...)
	if n == 1 {
		r = append(r, &G{K: "stream", Kids: []*G{}})
	} else {
		for _, f := range l.forests(n-1, l.node) {
			r = append(r, &G{K: "stream", Kids: f})
		}
	}
	r = append(r, l.entry(n)...)
	r = append(r, l.props(n)...)
	return
}

// neighbours lists the trees which differ from g in one place.
func (g *G) neighbours() (r []*G) {
	var places []func(t *G) *G
	var visit func(path []int, n *G)
	at := func(t *G, path []int) *G {
		for _, i := range path {
			t = t.Kids[i]
		}
		return t
	}
	visit = func(path []int, n *G) {
		p := append([]int(nil), path...)
		if n.Text != "" {
			places = append(places, func(t *G) *G { at(t, p).Text += "z"; return t })
			if n.K == "text" {
				places = append(places, func(t *G) *G { at(t, p).K = "alias"; return t })
			}
		}
		if n.K == "seq" || n.K == "map" || n.K == "stream" {
			if len(n.Kids) > 0 {
				places = append(places, func(t *G) *G { x := at(t, p); x.Kids = x.Kids[:len(x.Kids)-1]; return t },
					func(t *G) *G { x := at(t, p); x.Kids = x.Kids[1:]; return t })
			}
			places = append(places, func(t *G) *G {
				x := at(t, p)
				if x.K == "map" {
					x.Kids = append(x.Kids, &G{K: "entry", Kids: []*G{{K: "null"}, {K: "null"}}})
				} else {
					x.Kids = append(x.Kids, &G{K: "null"})
				}
				return t
			})
		}
		if n.K == "seq" {
			places = append(places, func(t *G) *G { // the last item moves behind the sequence's own place, or the sequence becomes a null
				*at(t, p) = G{K: "null"}
				return t
			})
		}
		for i, k := range n.Kids {
			i := i
			if n.K == "entry" || n.K == "content" || n.K == "props" {
				if k != nil {
					places = append(places, func(t *G) *G { at(t, p).Kids[i] = nil; return t })
				}
				if n.K == "entry" && i == 1 {
					places = append(places, func(t *G) *G { x := at(t, p); x.Kids[0], x.Kids[1] = x.Kids[1], x.Kids[0]; return t })
				}
			}
			if i > 0 && n.K == "seq" && n.Kids[i-1].K == "seq" {
				// an item joins the sequence before it
				places = append(places, func(t *G) *G {
					x := at(t, p)
					x.Kids[i-1].Kids = append(x.Kids[i-1].Kids, x.Kids[i])
					x.Kids = append(append([]*G{}, x.Kids[:i]...), x.Kids[i+1:]...)
					return t
				})
			}
			if k != nil {
				visit(append(p, i), k)
			}
		}
	}
	visit(nil, g)
	for _, f := range places {
		r = append(r, f(g.clone()))
	}
	return
}

func checkPair(cmp *astcmp.Comparator, a, b *G) string {
	want := a.String() == b.String()
	if got := cmp.Equal(a.node(), b.node()); got != want {
		return fmt.Sprintf("%s and %s: equal is %v", a, b, got)
	}
	return ""
}

func init() {
	fw.Register(fw.Check{
		Property:    "P16",
		Technique:   "exhaustive enumeration of all pairs of small syntax trees through the real comparator and printer against structural equality",
		Assumptions: []string{"trees for printing have no missing children and texts of one line"},
		Run:         p16Run,
	})
}

func p16Run(c *fw.Ctx) {
	l := &gTrees{texts: []string{"a", "b"}, memo: map[string][]*G{}}
	var small, mid []*G
	for n := 1; n <= 4; n++ {
		small = append(small, l.roots(n)...)
	}
	lt := &gTrees{texts: []string{"a"}, memo: map[string][]*G{}}
	for n := 4; n <= 4; n++ {
		mid = append(mid, lt.roots(n)...)
	}
	// goroutines are counted before anything runs in parallel
	if c.Filter == "" || c.Filter == "leftovers" {
		c.Case("leftovers", func() string {
			var few []*G
			for n := 1; n <= 3; n++ {
				few = append(few, lt.roots(n)...)
			}
			type pair struct{ a, b *G }
			var all []pair
			for _, a := range few {
				for _, b := range few {
					all = append(all, pair{a, b})
				}
			}
			for _, a := range mid {
				for _, b := range a.neighbours() {
					all = append(all, pair{a, b}, pair{b, a})
				}
			}
			before := runtime.NumGoroutine()
			cmp := astcmp.NewComparator()
			for _, p := range all {
				for i := 0; i < 8; i++ {
					cmp.Equal(p.a.node(), p.b.node())
				}
			}
			c.AddTraces(len(all))
			settled := func(rounds int) (after int, ok bool) {
				for i := 0; i < rounds; i++ {
					runtime.Gosched()
					if after = runtime.NumGoroutine(); after <= before+2 {
						return after, true
					}
					time.Sleep(100 * time.Millisecond)
				}
				return after, false
			}
			after, ok := settled(300)
			if ok {
				return ""
			}
			left := after - before
			for _, p := range all {
				before = runtime.NumGoroutine()
				for i := 0; i < 20; i++ {
					cmp.Equal(p.a.node(), p.b.node())
				}
				if _, ok := settled(5); !ok {
					return fmt.Sprintf("%d comparisons leave %d goroutines behind, that of %s with %s among them", len(all), left, p.a, p.b)
				}
			}
			return fmt.Sprintf("%d comparisons leave %d goroutines behind", len(all), left)
		})
		c.Bound("leftovers: all ordered pairs of trees up to 3 nodes and all neighbours of trees of 4 nodes leave no goroutine behind")
	}
	compareLarge(c)
	// all pairs of short texts, in every kind of node which has one
	AllStrings(c, "texts", []string{"a", "A", " ", "\n", "\u00e9"}, c.Pick(4, 5), func(s string) string {
		cmp := astcmp.NewComparator()
		variants := []string{s, s + "a", "a" + s, s + " ", " " + s, s + "\n", strings.ToUpper(s), strings.ToLower(s), strings.TrimSpace(s), strings.ReplaceAll(s, "\n", " "), strings.ReplaceAll(s, "\u00e9", "e\u0301"), strings.ReplaceAll(s, "a", "b"), strings.ReplaceAll(s, " ", ""), s + s}
		for i := range s {
			variants = append(variants, s[:i], s[i:])
		}
		for _, t := range variants {
			for _, k := range []string{"text", "alias", "tag", "anchor"} {
				a, b := &G{K: k, Text: s}, &G{K: k, Text: t}
				if got := cmp.Equal(a.node(), b.node()); got != (s == t) {
					return fmt.Sprintf("%s nodes of texts %q and %q: equal is %v", k, s, t, got)
				}
				if got := cmp.Equal(b.node(), a.node()); got != (s == t) {
					return fmt.Sprintf("%s nodes of texts %q and %q: equal is %v", k, t, s, got)
				}
			}
		}
		c.AddTransitions(8 * len(variants))
		return ""
	})
	pairs := func(label string, trees []*G) {
		fw.Parallel(c, func(emit func(int) bool) {
			for i := range trees {
				if !emit(i) {
					return
				}
			}
		}, func(i int) {
			a := trees[i]
			key := label + ":" + a.String()
			if c.Filter != "" && c.Filter != key {
				return
			}
			c.State(a.String())
			c.Case(key, func() string {
				cmp := astcmp.NewComparator()
				for _, b := range trees {
					if d := checkPair(cmp, a, b); d != "" {
						return d
					}
				}
				c.AddTraces(len(trees))
				c.AddTransitions(len(trees))
				return ""
			})
			c.Sample(func() string { return key })
		})
		c.Bound("%s: all ordered pairs of %d trees", label, len(trees))
	}
	pairs("pairs-small", small)
	pairs("pairs-mid", mid)
	var large []*G
	for n := 4; n <= c.Pick(5, 6); n++ {
		large = append(large, lt.roots(n)...)
	}
	fw.Parallel(c, func(emit func(*G) bool) {
		for _, g := range large {
			if !emit(g) {
				return
			}
		}
	}, func(a *G) {
		key := "neighbours:" + a.String()
		if c.Filter != "" && c.Filter != key {
			return
		}
		c.State(a.String())
		c.Case(key, func() string {
			cmp := astcmp.NewComparator()
			if d := checkPair(cmp, a, a.clone()); d != "" {
				return d
			}
			for _, b := range a.neighbours() {
				c.AddTraces(2)
				c.AddTransitions(2)
				if d := checkPair(cmp, a, b); d != "" {
					return d
				}
				if d := checkPair(cmp, b, a); d != "" {
					return d
				}
			}
			return ""
		})
		c.Sample(func() string { return key })
	})
	c.Bound("neighbours: %d trees of up to %d nodes, each with itself and with every tree differing in one place", len(large), c.Pick(5, 6))
	// printing
	var mu sync.Mutex
	seen := map[string]string{}
	pr := astprint.NewPrinter()
	all := append(append(append([]*G{}, small...), mid...), large...)
	fw.Parallel(c, func(emit func(*G) bool) {
		done := map[string]bool{}
		for _, g := range all {
			if g.complete() && !done[g.String()] {
				done[g.String()] = true
				if !emit(g) {
					return
				}
			}
		}
	}, func(g *G) {
		key := "print:" + g.String()
		c.AddTraces(1)
		c.Case(key, func() string {
			var buf, again bytes.Buffer
			if err := pr.Print(g.node(), &buf); err != nil {
				return fmt.Sprintf("printing %s: %v", g, err)
			}
			if err := pr.Print(g.node(), &again); err != nil || again.String() != buf.String() {
				return fmt.Sprintf("printing %s twice gives %q and %q (error %v)", g, buf.String(), again.String(), err)
			}
			if n := strings.Count(buf.String(), "\n"); n != g.size() {
				return fmt.Sprintf("printing %s of %d nodes gives %d lines: %q", g, g.size(), n, buf.String())
			}
			mu.Lock()
			defer mu.Unlock()
			if c.Filter != "" { // a replay needs the other trees as well
				for _, o := range all {
					if o.complete() && o.String() != g.String() {
						var b bytes.Buffer
						if pr.Print(o.node(), &b) == nil {
							seen[b.String()] = o.String()
						}
					}
				}
			}
			if o, ok := seen[buf.String()]; ok && o != g.String() {
				return fmt.Sprintf("%s and %s print alike: %q", g, o, buf.String())
			}
			seen[buf.String()] = g.String()
			return ""
		})
	})
	c.Bound("print: every such tree without missing children, printed by one printer; %d texts", len(seen))
}
