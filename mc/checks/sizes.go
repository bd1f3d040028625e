package checks

import (
	"fmt"
	"sort"

	"github.com/KSpaceer/yamly/engines/yayamls/ast/astcmp"
	"verif/mc/fw"
)

// The checks below go along an axis which bounded enumeration of small things
// does not reach: many, long and deep ones.

func sizesUpTo(all int, more ...int) (l []int) {
	for n := 1; n <= all; n++ {
		l = append(l, n)
	}
	return append(l, more...)
}

func sized[V any](kinds map[string]V, sizes []int) (l []string) {
	for k := range kinds {
		for _, n := range sizes {
			l = append(l, fmt.Sprintf("%s %d", k, n))
		}
	}
	sort.Strings(l)
	return
}

func sizedCase(s string) (k string, n int) {
	fmt.Sscanf(s, "%s %d", &k, &n)
	return
}

// largeTrees are trees of a given extent.
var largeTrees = map[string]func(n int) *T{
	"sequence": func(n int) *T {
		t := sq()
		for i := 0; i < n; i++ {
			t.Kids = append(t.Kids, sc(fmt.Sprintf("i%d", i)))
		}
		return t
	},
	"mapping": func(n int) *T {
		t := mp()
		for i := 0; i < n; i++ {
			t.Kids = append(t.Kids, sc(fmt.Sprintf("k%d", i)), sc(fmt.Sprintf("v%d", i)))
		}
		return t
	},
	"rows": func(n int) *T {
		t := sq()
		for i := 0; i < n; i++ {
			t.Kids = append(t.Kids, mp(sc("k"), sq(sc(fmt.Sprintf("v%d", i)), sc("w"))))
		}
		return mp(sc("a"), t, sc("b"), sc("c"))
	},
	"deep-sequences": func(n int) *T {
		t := sc("x")
		for i := 0; i < n; i++ {
			t = sq(t)
		}
		return t
	},
	"deep-mappings": func(n int) *T {
		t := sc("x")
		for i := 0; i < n; i++ {
			t = mp(sc(fmt.Sprintf("k%d", i)), t, sc("z"), sc("w"))
		}
		return t
	},
	"deep-mixed": func(n int) *T {
		t := sc("x")
		for i := 0; i < n; i++ {
			if t = sq(sc("a"), t, sc("b")); i%2 == 1 {
				t = mp(sc("k"), t.Kids[1])
			}
		}
		return t
	},
}

// buildLarge has the builders build large trees.
func buildLarge(c *fw.Ctx, bt builderUnderTest, ops []bOp) {
	find := func(name string) int {
		for i, o := range ops {
			if o.name == name {
				return i
			}
		}
		panic(name)
	}
	names := map[string]int{}
	for _, n := range []string{"[", "]", "{", "}", "string"} {
		names[n] = find(n)
	}
	List(c, bt.name+"/sizes", sized(largeTrees, sizesUpTo(c.Pick(80, 260), 300, 513, 1025)), func(s string) string {
		k, n := sizedCase(s)
		var trace []int
		var spell func(t *T)
		spell = func(t *T) {
			open, end := "[", "]"
			switch t.Kind {
			case 'm':
				open, end = "{", "}"
			case 's':
				trace = append(trace, names["string"])
				return
			}
			trace = append(trace, names[open])
			for _, k := range t.Kids {
				spell(k)
			}
			trace = append(trace, names[end])
		}
		spell(largeTrees[k](n))
		c.AddTransitions(len(trace))
		for _, tr := range [][]int{trace, trace[:len(trace)-1], append(trace[:len(trace):len(trace)], trace[len(trace)-1])} {
			if d := runBuild(bt, ops, tr, [][]int{trace}); d != "" {
				return short(d)
			}
			if d := runEncode(bt, ops, tr); d != "" {
				return short(d)
			}
		}
		return ""
	})
}

// readLarge reads large trees node by node; every prefix is checked.
func readLarge(c *fw.Ctx, e engine, ops []cOp) {
	names := map[string]int{}
	for i, o := range ops {
		names[o.name] = i
	}
	for _, n := range []string{"sequence", "mapping", "string", "any"} {
		if _, ok := names[n]; !ok {
			panic(n)
		}
	}
	List(c, e.name+"/sizes", sized(largeTrees, sizesUpTo(c.Pick(20, 40), 31, 32, 33, 63, 64, 65, 100, 129)), func(s string) string {
		k, n := sizedCase(s)
		t := largeTrees[k](n)
		fresh := e.tree(t)
		var trace []int
		var read func(t *T)
		read = func(t *T) {
			switch t.Kind {
			case 's':
				trace = append(trace, names["string"])
				return
			case 'q':
				trace = append(trace, names["sequence"])
			default:
				trace = append(trace, names["mapping"])
			}
			for _, k := range t.Kids {
				read(k)
			}
		}
		read(t)
		for i := 1; i <= len(trace); i++ {
			c.AddTransitions(i)
			for _, last := range []int{trace[i-1], names["any"]} {
				tr := append(trace[:i-1:i-1], last)
				if d := runCursor(fresh(false), newCursor([]*T{t}, false), ops, tr); d != "" {
					return fmt.Sprintf("operation %d: %s", i, short(d))
				}
			}
		}
		return ""
	})
}

// manyAliases are trees with many anchors, aliases and merges.
var manyAliases = map[string]func(n int) *T{
	"anchors": func(n int) *T {
		t := sq()
		for i := 0; i < n; i++ {
			t.Kids = append(t.Kids, anch(fmt.Sprintf("x%d", i), sc(fmt.Sprintf("v%d", i))))
		}
		for i := 0; i < n; i++ {
			t.Kids = append(t.Kids, alias(fmt.Sprintf("x%d", i)))
		}
		return t
	},
	"one-anchor": func(n int) *T {
		t := sq(anch("x", sc("v")))
		for i := 0; i < n; i++ {
			t.Kids = append(t.Kids, alias("x"))
		}
		return t
	},
	"redefined": func(n int) *T {
		t := sq()
		for i := 0; i < n; i++ {
			t.Kids = append(t.Kids, anch("x", sc(fmt.Sprintf("v%d", i))), alias("x"))
		}
		return t
	},
	"chain": func(n int) *T {
		t := sq(anch("x0", sq(sc("v"))))
		for i := 1; i < n; i++ {
			t.Kids = append(t.Kids, anch(fmt.Sprintf("x%d", i), sq(alias(fmt.Sprintf("x%d", i-1)))))
		}
		return t
	},
	"nested": func(n int) *T {
		t := sc("v")
		for i := 0; i < n; i++ {
			t = sq(anch(fmt.Sprintf("x%d", i), t), alias("x0"))
		}
		return t
	},
}

var manyMerges = map[string]func(n int) *T{
	"bases": func(n int) *T {
		t, l := mp(), sq()
		for i := 0; i < n; i++ {
			t.Kids = append(t.Kids, sc(fmt.Sprintf("b%d", i)), anch(fmt.Sprintf("x%d", i), mp(sc("k"), sc(fmt.Sprintf("v%d", i)), sc(fmt.Sprintf("k%d", i)), sc("w"))))
			l.Kids = append(l.Kids, alias(fmt.Sprintf("x%d", i)))
		}
		t.Kids = append(t.Kids, sc("all"), mp(pl("<<"), l, sc("own"), sc("o")))
		return t
	},
	"chain": func(n int) *T {
		t := mp(sc("b0"), anch("x0", mp(sc("k"), sc("v"), sc("k0"), sc("w"))))
		for i := 1; i < n; i++ {
			t.Kids = append(t.Kids, sc(fmt.Sprintf("b%d", i)), anch(fmt.Sprintf("x%d", i), mp(pl("<<"), alias(fmt.Sprintf("x%d", i-1)), sc(fmt.Sprintf("k%d", i)), sc("w"))))
		}
		return t
	},
	"entries": func(n int) *T {
		b := mp()
		for i := 0; i < n; i++ {
			b.Kids = append(b.Kids, sc(fmt.Sprintf("k%d", i)), sc(fmt.Sprintf("v%d", i)))
		}
		o := mp(pl("<<"), alias("x"))
		for i := 0; i < n; i += 2 {
			o.Kids = append(o.Kids, sc(fmt.Sprintf("k%d", i)), sc("own"))
		}
		return mp(sc("b"), anch("x", b), sc("o"), o)
	},
}

// toG makes a syntax tree's description of a tree.
func toG(t *T) *G {
	if t.Kind == 's' {
		return &G{K: "text", Text: t.Text}
	}
	g := &G{K: "seq", Kids: []*G{}}
	for i, k := range t.Kids {
		if t.Kind == 'q' {
			g.Kids = append(g.Kids, toG(k))
		} else if i%2 == 0 {
			g.K = "map"
			g.Kids = append(g.Kids, &G{K: "entry", Kids: []*G{toG(k), toG(t.Kids[i+1])}})
		}
	}
	return g
}

// compareLarge compares large trees with themselves and with ones which
// differ in one text, or miss one child.
func compareLarge(c *fw.Ctx) {
	List(c, "sizes", sized(largeTrees, sizesUpTo(c.Pick(12, 30), 17, 33, 65, 129)), func(s string) string {
		k, n := sizedCase(s)
		g := toG(largeTrees[k](n))
		cmp := astcmp.NewComparator()
		whole := g.node()
		if !cmp.Equal(whole, g.clone().node()) {
			return "a tree is not equal to its copy"
		}
		h := g.clone()
		other := func(what string) string {
			c.AddTransitions(2)
			x := h.node()
			if cmp.Equal(whole, x) || cmp.Equal(x, whole) {
				return "the tree is equal to one with " + what
			}
			return ""
		}
		var walk func(g *G) string
		walk = func(g *G) string {
			if g.K == "text" {
				old := g.Text
				g.Text += "x"
				if d := other("the text " + g.Text); d != "" {
					return d
				}
				g.Text = old
			}
			for i, k := range g.Kids {
				if g.K == "seq" || g.K == "map" {
					old := g.Kids
					g.Kids = append(append([]*G{}, old[:i]...), old[i+1:]...)
					if d := other(fmt.Sprintf("child %d of %d missing", i, len(old))); d != "" {
						return d
					}
					g.Kids = old
				}
				if d := walk(k); d != "" {
					return d
				}
			}
			return ""
		}
		return walk(h)
	})
	c.Bound("sizes: large trees (up to 129 items or levels) against all with one text changed or one child missing")
}
