package checks

import (
	"regexp"
	"sort"
	"strings"

	"fmt"

	"github.com/KSpaceer/yamly/engines/yayamls/parser"

	"verif/mc/fw"
)

// P04: documents parse to the tree they denote.

var structTexts = []string{
	"a", "b c", "b c d", "x:y", "a#b", "-x", "?x", ":x", "a'b", "a\"b", "a\\b", "it's: \"q\"", "true", "0x1F", "~", "null",
	"", " ", " a", "a ", "a\n", "a\nb", "a\nb\n", "a\n\nb\n\n", "\na", "\n", " a\n b\n", "a\n  b\nc\n", "a\tb", "\ta",
	"- a", "# a", "a # b", "a: b", "[a", "a, b", "]", "&a", "*a", "!a", "|", ">", "%a", "@a", "`a", "---", "...", "--- a",
	"é", "😀", "\u00a0", "\u2028", "\x01", "\x7f", "a\rb", "a b\nc d\n", "a\n b\nc\nd\n  e", "a\n\n b\n\nc\n", " a\nb c\n\n\n", "<<", "=", ",a", "a,b", "a[b]", "{}", "\\n", "''", "a  b", "a \t b", "a   b\nc",
}

func checkDoc(src string, docs []*T) string {
	want := showDocs(docs)
	tree, err := parser.ParseString(src, parser.WithOmitStream(), parser.WithUnquoting())
	if err != nil {
		return fmt.Sprintf("document %q denotes %s but is rejected: %v", src, want, err)
	}
	got, err := docsFromAST(tree)
	if err != nil {
		return fmt.Sprintf("document %q denotes %s; the tree is malformed: %v", src, want, err)
	}
	if g := showDocs(got); g != want {
		return fmt.Sprintf("document %q\n denotes  %s\n parsed   %s", src, want, g)
	}
	return ""
}

// exploreDocs presents every given stream in every way within the deviation
// bound and checks what it parses to.
func exploreDocs(c *fw.Ctx, name string, streams [][]*T, texts []string, styles string, dev int, check func(src string, docs []*T) string) {
	type job struct {
		i    int
		docs []*T
	}
	pools := poolsFor(texts, styles)
	fw.Parallel(c, func(emit func(job) bool) {
		for i, d := range streams {
			if !emit(job{i, d}) {
				return
			}
		}
	}, func(j job) {
		seen := map[string]bool{}
		Enumerate(dev, func(ch *Chooser) bool {
			work := make([]*T, len(j.docs))
			for i, d := range j.docs {
				work[i] = d.clone()
			}
			r := &renderer{ch: ch, pools: pools}
			src := r.stream(work)
			if r.infeasible || seen[src] {
				return true
			}
			seen[src] = true
			key := fmt.Sprintf("%s:%q", name, src)
			if c.Filter != "" && c.Filter != key {
				return true
			}
			c.AddTraces(1)
			c.AddTransitions(len(ch.tape))
			c.Case(key, func() string { return check(src, work) })
			c.Sample(func() string { return fmt.Sprintf("%q denotes %s", src, showDocs(work)) })
			return !c.Expired()
		})
		for _, d := range j.docs {
			c.State(d.String())
		}
	})
	c.Bound("%s: %d streams, every presentation with at most %d deviations from the plain block style, scalars over %d texts in styles %s", name, len(streams), dev, len(texts), styles)
}

func single(l []*T) [][]*T {
	var s [][]*T
	for _, t := range l {
		s = append(s, []*T{label(t)})
	}
	return s
}

// propTrees puts an anchor, a tag or both on every node of small trees and
// an alias of it on every later leaf.
func propTrees(n int) [][]*T {
	var out [][]*T
	for size := 1; size <= n; size++ {
		for _, sh := range shapes(size, "sn", true) {
			base := label(sh)
			var count int
			base.walk(func(*T) { count++ })
			for i := 0; i < count; i++ {
				for p := 0; p < 3; p++ {
					t := base.clone()
					k := 0
					t.walk(func(x *T) {
						if k == i {
							if p != 1 {
								x.Anchor = "x"
							}
							if p != 0 {
								x.Tag = "t"
							}
						}
						k++
					})
					out = append(out, []*T{t})
					if p != 0 {
						continue
					}
					// aliases of the anchor on a later leaf
					for j := i + 1; j < count; j++ {
						u := t.clone()
						k := 0
						ok := false
						u.walk(func(x *T) {
							if k == j && len(x.Kids) == 0 {
								*x = T{Kind: 'a', Text: "x"}
								ok = true
							}
							k++
						})
						if ok {
							out = append(out, []*T{u})
						}
					}
				}
			}
		}
	}
	return out
}

func init() {
	fw.Register(fw.Check{
		Property:  "P04",
		Technique: "exhaustive enumeration of trees and of their presentations within a deviation bound, parsed by the real parser against the generating tree",
		Assumptions: []string{
			"presentations are those of the renderer in checks/render.go",
		},
		Run: func(c *fw.Ctx) {
			P04Run(c)
		},
	})
}

var (
	ownLineHeader = regexp.MustCompile(`(^|\n)[ ]*[|>]`)
	closingLine   = regexp.MustCompile(`\n[ ]*['"\]}]`)
	splitProps    = regexp.MustCompile(`[&!]a\s*\n\s*[&!]a`)
	quotedLines   = regexp.MustCompile(`["'][^"']*\n[^"']*["']`)
	innerWord     = regexp.MustCompile("[ \\n]([.][.][.]|[-?:,\\[\\]{}#&*!|>'\"%@`])")
)

// inScope leaves out what the parser does not claim to support: plain words starting with an indicator inside of a
// plain scalar of several lines, scalars starting like document markers, block scalar headers on a line of their own, and
// properties of a collection and of its first key on adjacent lines without anything else.
func inScope(src string, docs []*T) bool {
	if ownLineHeader.MatchString(src) || splitProps.MatchString(src) {
		return false
	}
	ok := true
	if closingLine.MatchString(src) || quotedLines.MatchString(src) {
		// go-yaml lets lines of a nested scalar or collection be indented less than its parent
		ok = len(docs) > 0 && (docs[0].Kind == 's' || len(docs[0].Kids) == 0)
	}
	for _, d := range docs {
		d.walk(func(n *T) {
			if n.Kind == 's' && (innerWord.MatchString(n.Text) || strings.HasPrefix(n.Text, "---") || strings.HasPrefix(n.Text, "...")) {
				ok = false
			}
		})
	}
	return ok
}

// sameAsYaml3 compares what both parsers read when both accept a text.
func sameAsYaml3(c *fw.Ctx) func(string) string {
	return func(s string) string {
		tree, err := parser.ParseString(s, parser.WithUnquoting())
		if err != nil {
			if y, e := yaml3Docs(s); e == nil && inScope(s, y) {
				return fmt.Sprintf("text %q denotes %s but is rejected: %v", s, showDocs(y), err)
			}
			return ""
		}
		y, err := yaml3Docs(s)
		if err != nil {
			return ""
		}
		got, err := docsFromAST(tree)
		if err != nil {
			return fmt.Sprintf("text %q: the tree is malformed: %v", s, err)
		}
		g, w := showDocs(got), showDocs(y)
		if g != w {
			return fmt.Sprintf("text %q\n denotes  %s\n parsed   %s", s, w, g)
		}
		c.State(g)
		c.AddTransitions(1)
		return ""
	}
}

// withoutAdjacentColons leaves out the texts for which the specification and
// yaml.v3 differ: a colon behind a plain scalar and before a flow indicator.
func withoutAdjacentColons(f func(string) string) func(string) string {
	return func(s string) string {
		for _, x := range []string{":]", ":}", ":,", ":[", ":{", "?", "a :\"", "a :a"} {
			if strings.Contains(s, x) {
				return ""
			}
		}
		return f(s)
	}
}

func bigTrees() (l [][]*T) {
	for _, n := range []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 257} {
		var items, pairs, nested, rows []*T
		for i := 0; i < n; i++ {
			items = append(items, sc(fmt.Sprintf("i%d", i)))
			pairs = append(pairs, sc(fmt.Sprintf("k%d", i)), sc(fmt.Sprintf("v%d", i)))
			nested = append(nested, sq(sc(fmt.Sprintf("x%d", i)), sc("y")))
			rows = append(rows, mp(sc("id"), sc(fmt.Sprint(i)), sc("l"), sq(sc("p"), sc("q"))))
		}
		l = append(l, []*T{sq(items...)}, []*T{mp(pairs...)}, []*T{sq(nested...)}, []*T{mp(sc("rows"), sq(rows...), sc("end"), sc("z"))})
		long := strings.Repeat("x", n)
		l = append(l, []*T{mp(sc(long), sc(strings.Repeat("y z ", n)+"."))}, []*T{sq(sc(strings.Repeat("line\n", n)), sc(strings.Repeat("é\"'", n)))})
	}
	for _, n := range []int{4, 5, 6, 7, 8, 9, 10, 12} {
		for kind := 0; kind < 4; kind++ {
			t := sc("leaf")
			for i := 0; i < n; i++ {
				switch {
				case kind == 0, kind == 2 && i%2 == 0:
					t = sq(t, sc(fmt.Sprintf("s%d", i)))
				case kind == 3 && i%3 == 0:
					t = sq(mp(sc(fmt.Sprintf("k%d", i)), t))
				default:
					t = mp(sc(fmt.Sprintf("k%d", i)), t, sc(fmt.Sprintf("z%d", i)), sc("w"))
				}
			}
			l = append(l, []*T{t})
		}
	}
	return
}

// wides make documents with n parts, and what they denote.
var wides = func() map[string]func(n int) (string, []*T) {
	many := func(f func(i int) string, sep string, n int) string {
		l := make([]string, n)
		for i := range l {
			l[i] = f(i)
		}
		return strings.Join(l, sep)
	}
	word := func(i int) string { return fmt.Sprintf("w%d", i) }
	seqOf := func(n int) *T {
		t := sq()
		for i := 0; i < n; i++ {
			t.Kids = append(t.Kids, sc(word(i)))
		}
		return t
	}
	mapOf := func(n int) *T {
		t := mp()
		for i := 0; i < n; i++ {
			t.Kids = append(t.Kids, sc(word(i)), sc("v"))
		}
		return t
	}
	one := func(s string, t *T) (string, []*T) { return s, []*T{t} }
	flowSeq := func(n int) string { return "[" + many(word, ", ", n) + "]" }
	flowMap := func(n int) string {
		return "{" + many(func(i int) string { return word(i) + ": v" }, ", ", n) + "}"
	}
	rep := strings.Repeat
	return map[string]func(n int) (string, []*T){
		"flow-sequence": func(n int) (string, []*T) { return one(flowSeq(n)+"\n", seqOf(n)) },
		"flow-mapping":  func(n int) (string, []*T) { return one(flowMap(n)+"\n", mapOf(n)) },
		"flow-value": func(n int) (string, []*T) {
			return one("a: "+flowSeq(n)+"\nb: c\n", mp(sc("a"), seqOf(n), sc("b"), sc("c")))
		},
		"flow-item": func(n int) (string, []*T) { return one("- "+flowMap(n)+"\n- b\n", sq(mapOf(n), sc("b"))) },
		"flow-next-line": func(n int) (string, []*T) {
			return one("a:\n  "+flowSeq(n)+"\nb: c\n", mp(sc("a"), seqOf(n), sc("b"), sc("c")))
		},
		"flow-explicit-key": func(n int) (string, []*T) { return one("? "+flowSeq(n)+"\n: b\n", mp(seqOf(n), sc("b"))) },
		"flow-pairs": func(n int) (string, []*T) {
			t := sq()
			for i := 0; i < n; i++ {
				t.Kids = append(t.Kids, mp(sc(word(i)), sc("v")))
			}
			return one("["+many(func(i int) string { return word(i) + ": v" }, ", ", n)+"]\n", t)
		},
		"flow-rows": func(n int) (string, []*T) {
			t := sq()
			for i := 0; i < n; i++ {
				t.Kids = append(t.Kids, mp(sc(word(i)), sq(sc("b"), sc("c"))))
			}
			return one("- ["+many(func(i int) string { return "{" + word(i) + ": [b, c]}" }, ",\n  ", n)+"]\n", sq(t))
		},
		"block-sequence": func(n int) (string, []*T) {
			return one(many(func(i int) string { return "- " + word(i) + "\n" }, "", n), seqOf(n))
		},
		"block-mapping": func(n int) (string, []*T) {
			return one(many(func(i int) string { return word(i) + ": v\n" }, "", n), mapOf(n))
		},
		"block-nested": func(n int) (string, []*T) {
			return one("a:\n"+many(func(i int) string { return "- " + word(i) + "\n" }, "", n)+"b:\n"+many(func(i int) string { return "  " + word(i) + ": v\n" }, "", n), mp(sc("a"), seqOf(n), sc("b"), mapOf(n)))
		},
		"explicit-mapping": func(n int) (string, []*T) {
			return one(many(func(i int) string { return "? " + word(i) + "\n: v\n" }, "", n), mapOf(n))
		},
		"block-key": func(n int) (string, []*T) {
			return one("? "+many(func(i int) string { return "- " + word(i) + "\n" }, "  ", n)+": b\n", mp(seqOf(n), sc("b")))
		},
		"plain-words": func(n int) (string, []*T) {
			return one("a: "+many(word, " ", n)+"\n", mp(sc("a"), sc(many(word, " ", n))))
		},
		"plain-lines": func(n int) (string, []*T) {
			return one("a: "+many(word, "\n ", n)+"\nb: c\n", mp(sc("a"), sc(many(word, " ", n)), sc("b"), sc("c")))
		},
		"plain-top": func(n int) (string, []*T) { return one(many(word, "\n", n)+"\n", sc(many(word, " ", n))) },
		"plain-flow": func(n int) (string, []*T) {
			return one("["+many(word, "\n", n)+", b]\n", sq(sc(many(word, " ", n)), sc("b")))
		},
		"long-key": func(n int) (string, []*T) {
			return one("? "+many(word, " ", n)+"\n: b\n", mp(sc(many(word, " ", n)), sc("b")))
		},
		"single-lines": func(n int) (string, []*T) {
			return one("- '"+many(word, "\n  ", n)+"'\n- b\n", sq(sc(many(word, " ", n)), sc("b")))
		},
		"double-lines": func(n int) (string, []*T) {
			return one("- \""+many(word, "\n  ", n)+"\"\n- b\n", sq(sc(many(word, " ", n)), sc("b")))
		},
		"double-breaks": func(n int) (string, []*T) { return one("- \"a"+rep("\n", n+1)+"  b\"\n", sq(sc("a"+rep("\n", n)+"b"))) },
		"literal": func(n int) (string, []*T) {
			return one("a: |\n "+many(word, "\n ", n)+"\nb: c\n", mp(sc("a"), sc(many(word, "\n", n)+"\n"), sc("b"), sc("c")))
		},
		"literal-breaks": func(n int) (string, []*T) {
			return one("a: |\n"+rep("\n", n)+" w\nb: c\n", mp(sc("a"), sc(rep("\n", n)+"w\n"), sc("b"), sc("c")))
		},
		"literal-keep": func(n int) (string, []*T) {
			return one("a: |+\n w\n"+rep("\n", n)+"b: c\n", mp(sc("a"), sc("w\n"+rep("\n", n)), sc("b"), sc("c")))
		},
		"folded": func(n int) (string, []*T) {
			return one("- >\n  "+many(word, "\n  ", n)+"\n- b\n", sq(sc(many(word, " ", n)+"\n"), sc("b")))
		},
		"comments": func(n int) (string, []*T) {
			return one("a: b\n"+rep("# x\n", n)+"c: d\n", mp(sc("a"), sc("b"), sc("c"), sc("d")))
		},
		"comments-first": func(n int) (string, []*T) { return one(rep("# x\n", n)+"a: b\n", mp(sc("a"), sc("b"))) },
		"blank-lines": func(n int) (string, []*T) {
			return one("a: b"+rep("\n", n)+"c:"+rep("\n", n)+" - d\n", mp(sc("a"), sc("b"), sc("c"), sq(sc("d"))))
		},
		"blanks": func(n int) (string, []*T) {
			return one("a:"+rep(" ", n)+"b"+rep(" ", n)+"\nc: d\n", mp(sc("a"), sc("b"), sc("c"), sc("d")))
		},
		"indented": func(n int) (string, []*T) {
			return one("a:\n"+rep(" ", n)+"b: c\n"+rep(" ", n)+"d: e\n", mp(sc("a"), mp(sc("b"), sc("c"), sc("d"), sc("e"))))
		},
		"flow-breaks": func(n int) (string, []*T) {
			return one("["+rep("\n", n)+"a"+rep(" \n", n)+", {b"+rep(" \n", n)+": c}]\n", sq(sc("a"), mp(sc("b"), sc("c"))))
		},
		"documents": func(n int) (string, []*T) {
			return many(func(i int) string { return "--- " + word(i) + "\n" }, "", n), seqOf(n).Kids
		},
		"ended-documents": func(n int) (string, []*T) {
			return many(func(i int) string { return word(i) + "\n...\n" }, "", n), seqOf(n).Kids
		},
	}
}()

// keyTrees hold collections in keys, and single pairs, at several places.
func keyTrees() []*T {
	x := func() *T { return sc("") }
	pair := func() *T { return mp(x(), x()) }
	return []*T{
		mp(sq(pair()), x()), mp(sq(x(), pair()), x()), mp(pair(), pair()), mp(sq(sq(pair())), x()),
		sq(pair(), x()), sq(mp(sq(x()), x())), sq(mp(pair(), x())), sq(sq(pair())), sq(pair(), pair()),
		mp(mp(sq(x()), x()), x()), mp(x(), sq(pair())), mp(x(), mp(sq(x()), sq(x()))), sq(mp(x(), pair())),
		sq(mp(x(), mp(x(), x(), x(), x()))), mp(x(), sq(mp(x(), x(), x(), x()), x()), x(), x()),
	}
}

func P04Run(c *fw.Ctx) {
	var small, scal, multi, mid [][]*T
	for n := 1; n <= 4; n++ {
		small = append(small, single(shapes(n, "snqm", true))...)
	}
	for n := 1; n <= 3; n++ {
		scal = append(scal, single(shapes(n, "sn", true))...)
	}
	for n := 5; n <= c.Pick(6, 7); n++ {
		mid = append(mid, single(shapes(n, "s", n < 6))...)
	}
	for _, a := range append(shapes(1, "snq", false), shapes(2, "s", false)...) {
		for _, b := range append(shapes(1, "snm", false), shapes(3, "s", false)...) {
			multi = append(multi, []*T{label(a), label(b)}, []*T{label(b), label(a), label(b)})
		}
	}
	chk := checkDoc
	exploreDocs(c, "small", small, nil, "", c.Pick(3, 4), chk)
	exploreDocs(c, "keys", single(keyTrees()), nil, "", c.Pick(3, 4), chk)
	exploreDocs(c, "quoted-keys", single(keyTrees()), []string{"a", "b c"}, "'\"", c.Pick(3, 4), chk)
	exploreDocs(c, "larger", mid, nil, "", 1, chk)
	exploreDocs(c, "scalars", scal, structTexts, allStyles, 2, chk)
	exploreDocs(c, "properties", propTrees(c.Pick(3, 4)), nil, "", 2, chk)
	var two [][]*T
	for n := 1; n <= 4; n++ {
		for _, sh := range shapes(n, map[bool]string{true: "snqma", false: "sna"}[n < 4], true) {
			t := label(sh)
			t.walk(func(x *T) {
				if x.Kind == 'a' {
					x.Text = "x"
				}
			})
			for _, u := range withProps(t, []string{"t", "a-b"}) {
				two = append(two, []*T{u})
			}
		}
	}
	exploreDocs(c, "two-properties", two, nil, "", c.Pick(1, 2), chk)
	exploreDocs(c, "streams", multi, nil, "", c.Pick(2, 3), chk)
	exploreDocs(c, "big", bigTrees(), nil, "", 0, chk)
	exploreDocs(c, "folded", [][]*T{{sc(" a\n b\n")}}, []string{}, "", 0, func(_ string, docs []*T) string {
		return checkDoc(">2\n   a\n   b\n", docs)
	})
	// deep nesting of every kind of collection
	type nest struct {
		open, close string
		wrap        func(*T) *T
	}
	nests := map[string]nest{
		"[":    {"[", "]", func(t *T) *T { return sq(t) }},
		"[ ":   {"[ ", " ]", func(t *T) *T { return sq(t) }},
		"[b, ": {"[b, ", "]", func(t *T) *T { return sq(sc("b"), t) }},
		"[&x ": {"[&x ", "]", func(t *T) *T { return sq(anch("x", t)) }},
		"{k: ": {"{k: ", "}", func(t *T) *T { return mp(sc("k"), t) }},
		"{? ":  {"{? ", "}", func(t *T) *T { return mp(t, nul()) }},
		"{":    {"{", ": v}", func(t *T) *T { return mp(t, sc("v")) }},
		"[? ":  {"[? ", "]", func(t *T) *T { return sq(mp(t, nul())) }},
		"[{k:": {"[{k: ", "}]", func(t *T) *T { return sq(mp(sc("k"), t)) }},
		"- ":   {"- ", "", func(t *T) *T { return sq(t) }},
		"? ":   {"? ", "", func(t *T) *T { return mp(t, nul()) }},
	}
	var deep []string
	for k := range nests {
		for _, d := range []int{2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33, 64} {
			deep = append(deep, fmt.Sprintf("%q %d", k, d))
		}
	}
	for _, d := range []int{2, 3, 4, 5, 6, 7} {
		deep = append(deep, fmt.Sprintf("%q %d", "pairs", d))
	}
	sort.Strings(deep)
	List(c, "deep", deep, func(s string) string {
		var k string
		var depth int
		fmt.Sscanf(s, "%q %d", &k, &depth)
		t, n := sc("a"), nests[k]
		if k == "pairs" { // a sequence with a pair is the key of a pair in a sequence
			n = nest{"[", ": b]", func(t *T) *T { return sq(mp(t, sc("b"))) }}
		}
		for i := 0; i < depth; i++ {
			t = n.wrap(t)
		}
		return checkDoc(strings.Repeat(n.open, depth)+"a"+strings.Repeat(n.close, depth)+"\n", []*T{t})
	})
	// the same thing many times
	sizes := func() (l []int) {
		for n := 1; n <= c.Pick(260, 1100); n++ {
			l = append(l, n)
		}
		for _, n := range []int{400, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000} {
			if n > l[len(l)-1] {
				l = append(l, n)
			}
		}
		return
	}()
	var wide []string
	for k := range wides {
		for _, n := range sizes {
			wide = append(wide, fmt.Sprintf("%s %d", k, n))
		}
	}
	sort.Strings(wide)
	List(c, "wide", wide, func(s string) string {
		var k string
		var n int
		fmt.Sscanf(s, "%s %d", &k, &n)
		return checkDoc(wides[k](n))
	})
	same := sameAsYaml3(c)
	flow := withoutAdjacentColons(same)
	AllStrings(c, "text-block", Chars("-:a \n"), c.Pick(8, 9), same)
	AllStrings(c, "text-explicit", Chars("?:a \n-"), c.Pick(7, 8), same)
	AllStrings(c, "text-double", Chars("-:a \"\n"), c.Pick(7, 8), same)
	AllStrings(c, "text-single", Chars("'a \n:-"), c.Pick(7, 8), same)
	AllStrings(c, "text-comment", Chars("#a: \n-"), c.Pick(7, 8), same)
	AllStrings(c, "text-markers", []string{"---", "...", "a", " ", "\n", "-", "# b"}, c.Pick(6, 7), same)
	AllStrings(c, "text-flow", Chars("[]{},:a "), c.Pick(6, 7), flow)
	AllStrings(c, "text-flow-quoted", Chars("[],:a\"\n "), c.Pick(6, 7), flow)
	AllStrings(c, "text-properties", []string{"&a ", "*a", "!a ", "b", " ", "\n", ": ", "- "}, c.Pick(6, 7), same)
	AllStrings(c, "text-literal", []string{"|\n", "|-\n", "|+\n", "|2\n", " ", "\n", "a", "- ", "a: "}, c.Pick(6, 7), same)
	AllStrings(c, "text-folded", []string{">\n", ">-\n", ">+\n", " ", "\n", "a", "- "}, c.Pick(6, 7), same)
}
