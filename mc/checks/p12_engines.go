package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/KSpaceer/yamly"

	"verif/mc/fw"
)

// P12: both engines decode the same document to the same value.

// path leads from the root to a node: indices of kids.
type nodePath struct {
	node *T
	at   []int
	up   []*T
}

func paths(t *T) (l []nodePath) {
	var rec func(t *T, at []int, up []*T)
	rec = func(t *T, at []int, up []*T) {
		l = append(l, nodePath{t, at, up})
		for i, k := range t.Kids {
			rec(k, append(at[:len(at):len(at)], i), append(up[:len(up):len(up)], t))
		}
	}
	rec(t, nil, nil)
	return
}

// reach moves a fresh reader to a node.
func (p nodePath) reach(d yamly.Decoder) error {
	for i, k := range p.at {
		if p.up[i].Kind == 'q' {
			d.Sequence()
		} else {
			d.Mapping()
		}
		for ; k > 0; k-- {
			d.Skip()
		}
	}
	return d.Error()
}

type namedRead struct {
	name string
	read func(d yamly.Decoder) string
}

var comparedReads = func() (l []namedRead) {
	for name, f := range typedReads() {
		if name != "raw" {
			l = append(l, namedRead{name, f})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
	return
}()

// checkEngines compares what the engines read from a text both accept. Typed operations are compared on all nodes.
func checkEngines(c *fw.Ctx, src string, all bool) string {
	docs, err := yaml3Docs(src)
	if err != nil || len(docs) != 1 {
		return ""
	}
	// go-yaml does not write back all block scalars, and keeps comments
	skip, noRaw := false, strings.ContainsAny(src, "#|>")
	docs[0].walk(func(t *T) {
		// a tag on nothing: which value it has is the tag's business
		skip = skip || t.Tag != "" && (t.Kind == 's' && t.Text == "" || t.Kind == 'n')
	})
	if skip {
		return ""
	}
	fy, err := yEngine.parse(src)
	if err != nil {
		return ""
	}
	fg, err := gEngine.parse(src)
	if err != nil {
		return ""
	}
	compare := func(what string, p nodePath, read func(d yamly.Decoder) string) string {
		dy, dg := fy(false), fg(false)
		ey, eg := p.reach(dy), p.reach(dg)
		if ey != nil || eg != nil {
			if ey == nil || eg == nil {
				return fmt.Sprintf("text %q: moving to node %v ends with %v in yayamls and %v in goyaml", src, p.at, ey, eg)
			}
			return ""
		}
		c.AddTransitions(2)
		if y, g := read(dy), read(dg); y != g {
			return fmt.Sprintf("text %q: %s of node %v is\n %s in yayamls,\n %s in goyaml", src, what, p.at, y, g)
		}
		return ""
	}
	l := paths(docs[0])
	if !all {
		l = l[:1]
	}
	for _, p := range l {
		for _, r := range comparedReads {
			if s := compare(r.name, p, r.read); s != "" {
				return s
			}
		}
		if noRaw {
			continue
		}
		if s := compare("raw", p, func(d yamly.Decoder) string {
			raw := d.Raw()
			if d.Error() != nil {
				return "an error"
			}
			l, err := yaml3Docs(string(raw))
			if err == nil && len(l) == 0 { // nothing is null
				return rawShape(nul())
			}
			if err != nil || len(l) != 1 {
				return fmt.Sprintf("%q (%d documents, %v)", raw, len(l), err)
			}
			return rawShape(l[0])
		}); s != "" {
			return s
		}
	}
	c.AddTraces(1)
	c.State(docs[0].String())
	return ""
}

// rawShape is the structure of raw data without tags.
func rawShape(t *T) string {
	x, st := newEvaluator(t).subst(t, nil)
	if st == evErr {
		return "refers outside of itself"
	}
	return untyped(x).String()
}

func init() {
	fw.Register(fw.Check{
		Property:  "P12",
		Technique: "exhaustive enumeration of documents through both real engines: every decoding operation on every node, compared with each other",
		Assumptions: []string{
			"documents only one engine accepts, and streams of several documents, are not compared",
			"which value a tag gives to an empty node is left open",
			"raw data is compared for documents without comments and block scalars, which go-yaml's writer does not always write back",
		},
		Run: p12Run,
	})
}

func p12Run(c *fw.Ctx) {
	var small, scal [][]*T
	for n := 1; n <= 4; n++ {
		small = append(small, single(shapes(n, "snqm", true))...)
	}
	for n := 1; n <= 3; n++ {
		scal = append(scal, single(shapes(n, "sn", true))...)
	}
	chk := func(src string, _ []*T) string { return checkEngines(c, src, true) }
	texts := append([]string{"1", "-0x1", "0o17", "1.5e3", ".inf", "true", "False", "2020-01-02", "2020-01-02T03:04:05.6+07:00", "NULL", "1_000", "yes"}, structTexts...)
	exploreDocs(c, "small", small, nil, "", c.Pick(2, 3), chk)
	List(c, "wide", sized(wides, sizesUpTo(c.Pick(20, 60), 33, 65, 129, 257, 1025)), func(s string) string {
		k, n := sizedCase(s)
		src, _ := wides[k](n)
		return short(checkEngines(c, src, n <= c.Pick(12, 40)))
	})
	exploreDocs(c, "keys", single(keyTrees()), nil, "", c.Pick(2, 3), chk)
	exploreDocs(c, "scalars", scal, texts, allStyles, c.Pick(1, 2), chk)
	exploreDocs(c, "properties", propTrees(c.Pick(3, 4)), nil, "", c.Pick(1, 2), chk)
	each := func(s string) string { return checkEngines(c, s, true) }
	flow := withoutAdjacentColons(each)
	AllStrings(c, "text-block", Chars("-:a \n"), c.Pick(7, 8), each)
	AllStrings(c, "text-explicit", Chars("?:a \n-"), c.Pick(6, 7), each)
	AllStrings(c, "text-double", Chars("-:a \"\n"), c.Pick(6, 7), each)
	AllStrings(c, "text-single", Chars("'a \n:-"), c.Pick(6, 7), each)
	AllStrings(c, "text-comment", Chars("#a: \n-"), c.Pick(6, 7), each)
	AllStrings(c, "text-flow", Chars("[]{},:a "), c.Pick(6, 7), flow)
	AllStrings(c, "text-properties", []string{"&a ", "*a", "!a ", "b", " ", "\n", ": ", "- "}, c.Pick(6, 7), each)
	AllStrings(c, "text-literal", []string{"|\n", "|-\n", "|+\n", "|2\n", " ", "\n", "a", "- ", "a: "}, c.Pick(6, 7), each)
	AllStrings(c, "text-folded", []string{">\n", ">-\n", ">+\n", " ", "\n", "a", "- "}, c.Pick(6, 7), each)
	AllStrings(c, "text-merge", []string{"&a ", "*a", "<<: ", "b: ", "c", "\n", "{", "}", "[", "]", ", "}, c.Pick(5, 6), flow)
	aliased := func(label string, nodes bool, trees func(emit func(*T) bool)) {
		fw.Parallel(c, func(emit func(*T) bool) {
			trees(func(t *T) bool { return emit(t.clone()) })
		}, func(t *T) {
			src := flowText(t) + "\n"
			key := label + ":" + src
			if selfReferring(t) || c.Filter != "" && c.Filter != key {
				return
			}
			c.State(key)
			c.AddTraces(1)
			c.Case(key, func() string { return checkEngines(c, src, nodes) })
		})
	}
	aliased("aliases", true, func(emit func(*T) bool) { aliasTrees(c.Pick(4, 5), emit) })
	c.Bound("aliases: all trees up to %d nodes with anchors on up to two nodes and up to three aliases", c.Pick(4, 5))
	aliased("merges", false, func(emit func(*T) bool) { mergeTrees(c, emit) })
	c.Bound("merges: mappings of up to three entries with merge keys and aliases of two anchored mappings")
	// scalar texts in every style and position
	inDocs := func(s string) string {
		for _, q := range []string{s, "'" + strings.ReplaceAll(s, "'", "''") + "'", fmt.Sprintf("%q", s)} {
			for _, f := range []string{"%s\n", "- %s\n", "k: %s\n", "%s: v\n", "[%s]\n", "{%s: w}\n"} {
				if d := flow(fmt.Sprintf(f, q)); d != "" {
					return d
				}
			}
		}
		return ""
	}
	AllStrings(c, "integers", Chars("+-0179axo"), c.Pick(4, 5), inDocs)
	AllStrings(c, "floats", Chars("+-.01e_"), c.Pick(5, 6), inDocs)
	AllStrings(c, "times", []string{"2001-12-14", "2001-2-3", "T", "t", " ", "21:59:43", "1:2:3", ".1", ".123456789", "Z", "-5", "+05:30", "-0530", "2001-13-41"}, c.Pick(4, 5), inDocs)
	AllStrings(c, "words", []string{"y", "n", "yes", "no", "on", "off", "true", "True", "tRue", "false", "null", "Null", "nUll", "~", ".inf", ".Inf", "-.INF", ".nan", ".NaN", "1", "0b1", "1:30", "1_000", "2020-01-02", "<<", "=", " ", "#", ":"}, c.Pick(2, 3), inDocs)
}
