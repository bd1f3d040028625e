package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/KSpaceer/yamly"
	gencode "github.com/KSpaceer/yamly/engines/goyaml/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"gopkg.in/yaml.v3"

	"verif/mc/fw"
)

// P17: a written tree reads back as the same tree.

// denotes is what a tree with chosen quoting denotes.
func (t *T) denotes() *T {
	c := *t
	c.Kids = nil
	for _, k := range t.Kids {
		c.Kids = append(c.Kids, k.denotes())
	}
	switch t.Kind {
	case 'S':
		c.Kind = 's'
	case 'p', 'u':
		c.Kind = 's'
		if t.Text != "" && refNull(t.Text) {
			c = T{Kind: 'n', Anchor: t.Anchor, Tag: t.Tag}
		}
	case 'e':
		c.Kind = 'm'
	}
	return &c
}

func (t *T) show() string {
	q := map[byte]string{'S': "single ", 'p': "plain ", 'u': "unknown ", 's': ""}
	var sb strings.Builder
	var rec func(t *T)
	rec = func(t *T) {
		if t.Anchor != "" {
			sb.WriteString("&" + t.Anchor + " ")
		}
		if t.Tag != "" {
			sb.WriteString("!" + t.Tag + " ")
		}
		if p, ok := q[t.Kind]; ok {
			fmt.Fprintf(&sb, "%s%q", p, t.Text)
			return
		}
		if t.Kind == 'n' || t.Kind == 'a' {
			sb.WriteString(t.String())
			return
		}
		sb.WriteByte(t.Kind)
		sb.WriteByte('(')
		for i, k := range t.Kids {
			if i > 0 {
				sb.WriteString(" ")
			}
			rec(k)
		}
		sb.WriteByte(')')
	}
	rec(t)
	return sb.String()
}

func buildStream(docs []*T) ast.Node {
	if len(docs) == 1 {
		return docs[0].toAST()
	}
	var l []ast.Node
	for _, d := range docs {
		l = append(l, d.toAST())
	}
	return ast.NewStreamNode(l)
}

// readBack parses a written text into what it denotes.
func readBack(text []byte, want int) (string, error) {
	n, err := parser.ParseBytes(text, parser.WithUnquoting())
	if err != nil {
		return "", err
	}
	var l []*T
	st, ok := n.(*ast.StreamNode)
	if !ok {
		return "", fmt.Errorf("parsed as %T", n)
	}
	for _, d := range st.Documents() {
		t, err := typedAST(d)
		if err != nil {
			return "", err
		}
		l = append(l, t)
	}
	return showDocs(l), nil
}

// writeAll writes a tree in all three ways with fresh writers.
func writeAll[N any](fresh func() yamly.TreeWriter[N], n N) (string, error) {
	b, err := fresh().WriteBytes(n)
	s, err2 := fresh().WriteString(n)
	var buf bytes.Buffer
	err3 := fresh().WriteTo(&buf, n)
	if (err == nil) != (err2 == nil) || (err == nil) != (err3 == nil) {
		return "", fmt.Errorf("writing bytes, a string and to a stream ends differently: %v, %v, %v", err, err2, err3)
	}
	if err == nil && (string(b) != s || s != buf.String()) {
		return "", fmt.Errorf("writing bytes, a string and to a stream differs: %q, %q, %q", b, s, buf.String())
	}
	return string(b), err
}

func yWriter() yamly.TreeWriter[ast.Node]   { return yencode.NewASTWriter() }
func gWriter() yamly.TreeWriter[*yaml.Node] { return &gencode.ASTWriter{} }

func checkWritten(docs []*T) string {
	text, err := writeAll(yWriter, buildStream(docs))
	if err != nil {
		return err.Error()
	}
	var want []*T
	for _, d := range docs {
		want = append(want, d.denotes())
	}
	got, err := readBack([]byte(text), len(docs))
	if err != nil {
		return fmt.Sprintf("is written as %q, which is rejected: %v", text, err)
	}
	if w := showDocs(want); got != w {
		return fmt.Sprintf("%s is written as %q, which reads as %s", w, text, got)
	}
	return ""
}

func writePositions(t *T) [][]*T {
	k := func() *T { return sc("k") }
	return [][]*T{
		{t},
		{sq(t, k(), mp(t, t), t)},
		{mp(k(), t, t, sq(t), sc("l"), mp(sc("y"), t, sc("z"), k()))},
		{mp(sq(t, t), mp(t, sq()), mp(t, sq(t)), nul())},
		{sq(sq(sq(t), t), sq(), t, &T{Kind: 'e', Kids: []*T{t, t}}, &T{Kind: 'e', Kids: []*T{sq(t), mp(t, t)}})},
		{t, sq(t), t},
		{mp(k(), t), t, nul()},
		{anch("x", t.clone())},
		{sq(tagd("t", t.clone()), anch("x", tagd("t", t.clone())))},
		{mp(anch("x", t.clone()), tagd("t", t.clone()), sc("l"), anch("y", mp(t, t)))},
		{anch("x", mp(k(), anch("y", sq(t, alias("x")))))},
	}
}

func checkWrittenText(c *fw.Ctx) func(s string) string {
	return func(s string) string {
		for _, kind := range "psSu" {
			for _, docs := range writePositions(&T{Kind: byte(kind), Text: s}) {
				c.AddTransitions(1)
				if d := checkWritten(docs); d != "" {
					var l []string
					for _, t := range docs {
						l = append(l, t.show())
					}
					return strings.Join(l, " --- ") + ": " + d
				}
			}
		}
		return ""
	}
}

// faultyWriter takes n bytes and then fails.
type faultyWriter struct {
	left int
	err  error
	got  bytes.Buffer
}

var errFull = errors.New("destination is full")

func (f *faultyWriter) Write(p []byte) (int, error) {
	if len(p) <= f.left {
		f.left -= len(p)
		return f.got.Write(p)
	}
	n := f.left
	f.got.Write(p[:n])
	f.left = 0
	return n, f.err
}

// checkFaults lets the destination fail behind every byte.
func checkFaults[N any](c *fw.Ctx, fresh func() yamly.TreeWriter[N], n N, wantErr bool) string {
	whole, err := fresh().WriteString(n)
	if err != nil {
		return err.Error()
	}
	for i := 0; i < len(whole); i++ {
		w := fresh()
		f := &faultyWriter{left: i, err: errFull}
		c.AddTransitions(1)
		err := w.WriteTo(f, n)
		if err == nil {
			return fmt.Sprintf("the destination failed behind %d bytes, but writing reports success", i)
		}
		if wantErr && !errors.Is(err, errFull) {
			return fmt.Sprintf("the destination failed behind %d bytes, but writing reports %v", i, err)
		}
		if !strings.HasPrefix(whole, f.got.String()) {
			return fmt.Sprintf("the destination got %q, not a beginning of %q", f.got.String(), whole)
		}
		// the writer is as good as new
		if again, err := w.WriteString(n); err != nil || again != whole {
			return fmt.Sprintf("after a failed write the same tree is written as %q, %v instead of %q", again, err, whole)
		}
		if wantErr {
			f := &faultyWriter{left: i} // takes less than it is given
			if err := fresh().WriteTo(f, n); err == nil {
				return fmt.Sprintf("the destination took %d bytes only, but writing reports success", i)
			}
		}
	}
	f := &faultyWriter{left: len(whole), err: errFull}
	if err := fresh().WriteTo(f, n); err != nil || f.got.String() != whole {
		return fmt.Sprintf("the destination has room for %d bytes, but writing ends with %v", len(whole), err)
	}
	return ""
}

// checkEncoderFaults does the same with an encoder.
func checkEncoderFaults(c *fw.Ctx, b builderUnderTest, v *V) string {
	e := b.newEnc()
	v.encode(e)
	whole, err := e.EncodeToString()
	if err != nil {
		return err.Error()
	}
	v.encode(e)
	if bs, err := e.EncodeToBytes(); err != nil || string(bs) != whole {
		return fmt.Sprintf("the same encoder gives %q first and %q, %v then", whole, bs, err)
	}
	for i := 0; i <= len(whole); i++ {
		f := &faultyWriter{left: i, err: errFull}
		c.AddTransitions(1)
		v.encode(e)
		err := e.EncodeTo(f)
		if (err == nil) != (i == len(whole)) {
			return fmt.Sprintf("the destination takes %d of %d bytes, encoding ends with %v", i, len(whole), err)
		}
		if !strings.HasPrefix(whole, f.got.String()) || err == nil && f.got.String() != whole {
			return fmt.Sprintf("the destination got %q, not a beginning of %q", f.got.String(), whole)
		}
	}
	return ""
}

// writeHistories writes sequences of trees with one writer.
func writeHistories[N any](c *fw.Ctx, label string, fresh func() yamly.TreeWriter[N], names []string, trees []N, depth int) {
	type out struct {
		text string
		fail bool
	}
	var alone []out
	for _, t := range trees {
		s, err := fresh().WriteString(t)
		alone = append(alone, out{s, err != nil})
	}
	methods := []string{"string", "bytes", "stream", "full"}
	var cases [][]int
	var rec func(l []int)
	rec = func(l []int) {
		if len(l) > 0 {
			cases = append(cases, append([]int{}, l...))
		}
		if len(l) == depth {
			return
		}
		for i := 0; i < len(trees)*len(methods); i++ {
			rec(append(l, i))
		}
	}
	rec(nil)
	fw.Parallel(c, func(emit func([]int) bool) {
		for _, l := range cases {
			if !emit(l) {
				return
			}
		}
	}, func(l []int) {
		var s []string
		for _, x := range l {
			s = append(s, methods[x%len(methods)]+" "+names[x/len(methods)])
		}
		key := label + ":" + strings.Join(s, ", ")
		if c.Filter != "" && c.Filter != key {
			return
		}
		c.AddTraces(1)
		c.AddTransitions(len(l))
		c.Case(key, func() string {
			w := fresh()
			var kept [][]byte
			var keptAs []string
			for i, x := range l {
				t, want := trees[x/len(methods)], alone[x/len(methods)]
				var got string
				var err error
				switch x % len(methods) {
				case 0:
					got, err = w.WriteString(t)
				case 1:
					var b []byte
					b, err = w.WriteBytes(t)
					got = string(b)
					kept, keptAs = append(kept, b), append(keptAs, got)
				case 2:
					var buf bytes.Buffer
					err = w.WriteTo(&buf, t)
					got = buf.String()
				case 3:
					err = w.WriteTo(&faultyWriter{left: 2, err: errFull}, t)
					if err == nil && len(want.text) > 2 {
						return fmt.Sprintf("step %d: the destination failed, but writing reports success", i)
					}
					continue
				}
				if (err != nil) != want.fail || err == nil && got != want.text {
					return fmt.Sprintf("step %d gives %q, %v; alone it gives %q (error %v)", i, got, err, want.text, want.fail)
				}
			}
			for i := range kept {
				if string(kept[i]) != keptAs[i] {
					return fmt.Sprintf("bytes returned as %q became %q", keptAs[i], kept[i])
				}
			}
			return ""
		})
		c.Sample(func() string { return key })
	})
	c.Bound("%s: every sequence of up to %d of %d trees written with one writer in %d ways", label, depth, len(trees), len(methods))
}

type brokenKeeper struct{}

func (brokenKeeper) StoreAnchor(string)          {}
func (brokenKeeper) BindToLatestAnchor(ast.Node) {}
func (brokenKeeper) DereferenceAlias(s string) (ast.Node, error) {
	return nil, io.ErrUnexpectedEOF
}

// keeper remembers anchored nodes, as writers with a keeper tell it.
type keeper struct {
	latest string
	nodes  map[string]ast.Node
}

func (k *keeper) StoreAnchor(s string) { k.latest = s }
func (k *keeper) BindToLatestAnchor(n ast.Node) {
	if k.latest != "" {
		k.nodes[k.latest] = n
		k.latest = ""
	}
}
func (k *keeper) DereferenceAlias(s string) (ast.Node, error) {
	if n, ok := k.nodes[s]; ok {
		return n, nil
	}
	return nil, fmt.Errorf("unknown alias %s", s)
}

// resolveOuter replaces aliases of anchors which are not written yet with what the keeper knows.
func resolveOuter(t *T, met map[string]bool, known map[string]*T) (*T, bool) {
	if t.Kind == 'a' {
		if met[t.Text] {
			return t, true
		}
		o, ok := known[t.Text]
		if !ok {
			return nil, false
		}
		return resolveOuter(o, met, known)
	}
	c := *t
	c.Kids = nil
	if t.Anchor != "" {
		met[t.Anchor] = true
		known[t.Anchor] = t
	}
	for _, k := range t.Kids {
		r, ok := resolveOuter(k, met, known)
		if !ok {
			return nil, false
		}
		c.Kids = append(c.Kids, r)
	}
	return &c, true
}

// checkKeeper writes trees one after another with one writer and one keeper, which knows the outer trees.
func checkKeeper(outer map[string]*T, history []*T) string {
	k := &keeper{nodes: map[string]ast.Node{}}
	known := map[string]*T{}
	for name, t := range outer {
		k.nodes[name] = t.toAST()
		known[name] = t
	}
	w := yencode.NewASTWriter(yencode.WithAnchorsKeeper(k))
	for i, t := range history {
		want, ok := resolveOuter(t, map[string]bool{}, known)
		text, err := w.WriteBytes(t.toAST())
		if !ok {
			if err == nil {
				return fmt.Sprintf("tree %d with an unknown alias is written as %q", i+1, text)
			}
			return ""
		}
		if err != nil {
			return fmt.Sprintf("tree %d: %v", i+1, err)
		}
		got, err := readBack(text, 1)
		if err != nil {
			return fmt.Sprintf("tree %d is written as %q, which is rejected: %v", i+1, text, err)
		}
		if s := showDocs([]*T{want.denotes()}); got != s {
			return fmt.Sprintf("tree %d, %s, is written as %q, which reads as %s", i+1, s, text, got)
		}
		for name, t := range known {
			n, ok := k.nodes[name]
			if !ok {
				return fmt.Sprintf("tree %d: the keeper is not told about anchor %s", i+1, name)
			}
			b, err := typedAST(n)
			if err != nil {
				return err.Error()
			}
			if s := showDocs([]*T{t.denotes()}); showDocs([]*T{b}) != s {
				return fmt.Sprintf("tree %d: the keeper is told that anchor %s is %s", i+1, name, showDocs([]*T{b}))
			}
		}
	}
	return ""
}

// keeperCheck enumerates trees with aliases of inner, outer and unknown anchors.
func keeperCheck(c *fw.Ctx) {
	outers := []*T{sc("o"), nul(), sq(), mp(), sq(sc("o"), sc("p")), mp(sc("o"), sc("p")), anch("z", sc("o")), anch("z", sq(sc("o"))), anch("z", tagd("t", mp(sc("o"), sc("p")))), tagd("t", sc("o")),
		mp(sc("o"), sq(alias("y"))), sq(anch("x", sc("inner")), alias("x"))}
	var trees []*T
	for n := 1; n <= c.Pick(4, 5); n++ {
		leaves := "sqa"
		if n >= 5 {
			leaves = "sa"
		}
		for _, sh := range shapes(n, leaves, true) {
			t := label(sh)
			var aliases, others int
			t.walk(func(x *T) {
				if x.Kind == 'a' {
					aliases++
				} else {
					others++
				}
			})
			if aliases == 0 {
				continue
			}
			for m := 0; m < pow(3, aliases); m++ {
				for a := 0; a <= others; a++ { // which node has anchor x
					u := t.clone()
					i, j := 0, 0
					u.walk(func(x *T) {
						if x.Kind == 'a' {
							x.Text = []string{"z", "x", "y"}[m/pow(3, i)%3]
							i++
						} else {
							if j++; j == a {
								x.Anchor = "x"
							}
						}
					})
					trees = append(trees, u)
				}
			}
		}
	}
	var small []*T
	for _, t := range trees {
		if t.size() <= 2 {
			small = append(small, t)
		}
	}
	small = append(small, anch("x", sc("v")), anch("z", sq(sc("v"))), sc("v"))
	type kase struct {
		outer   int
		history []*T
	}
	fw.Parallel(c, func(emit func(kase) bool) {
		for i := range outers {
			for _, t := range trees {
				if !emit(kase{i, []*T{t}}) {
					return
				}
			}
			for _, a := range small {
				for _, b := range small {
					if !emit(kase{i, []*T{a, b}}) {
						return
					}
					for _, d := range small {
						if !emit(kase{i, []*T{a, b, d}}) {
							return
						}
					}
				}
			}
		}
	}, func(k kase) {
		var s []string
		for _, t := range k.history {
			s = append(s, t.show())
		}
		key := "keeper:" + outers[k.outer].show() + " | " + strings.Join(s, " | ")
		if c.Filter != "" && c.Filter != key {
			return
		}
		c.AddTraces(1)
		c.AddStates(1)
		c.AddTransitions(len(k.history))
		c.Case(key, func() string {
			return checkKeeper(map[string]*T{"z": outers[k.outer], "y": sc("other")}, k.history)
		})
		c.Sample(func() string { return key })
	})
	c.Bound("keeper: %d outer nodes, %d trees with aliases of inner, outer and later anchors, histories of 3 of %d trees", len(outers), len(trees), len(small))
}

func pow(a, b int) int {
	r := 1
	for ; b > 0; b-- {
		r *= a
	}
	return r
}

func init() {
	fw.Register(fw.Check{
		Property:  "P17",
		Technique: "exhaustive enumeration of trees, writer histories and write faults through the real writers and parser against the original tree",
		Assumptions: []string{
			"null nodes are spelled out, so an unquoted text which spells null is the same as a null node",
			"the words of tags with prefixes of their own are not explored",
		},
		Run: p17Run,
	})
}

func treesCheck(c *fw.Ctx, label string, trees [][]*T) {
	logLine(label, len(trees))
	fw.Parallel(c, func(emit func([]*T) bool) {
		for _, t := range trees {
			if !emit(t) {
				return
			}
		}
	}, func(docs []*T) {
		var s []string
		for _, t := range docs {
			s = append(s, t.show())
		}
		key := label + ":" + short(strings.Join(s, " --- "))
		if c.Filter != "" && c.Filter != key {
			return
		}
		c.AddTraces(1)
		c.AddStates(1)
		c.Case(key, func() string { return checkWritten(docs) })
		c.Sample(func() string { return key })
	})
	c.Bound("%s: %d trees", label, len(trees))
}

// withProps puts every combination of an anchor and a tag on every pair of nodes.
func withProps(t *T, tags []string) (l []*T) {
	n := t.size()
	set := func(t *T, i, p int, name string) {
		k := 0
		t.walk(func(x *T) {
			if k == i && x.Kind != 'a' {
				if p != 1 {
					x.Anchor = name
				}
				if p != 0 {
					x.Tag = tags[p%len(tags)]
				}
			}
			k++
		})
	}
	for i := 0; i < n; i++ {
		for p := 0; p < 3; p++ {
			u := t.clone()
			set(u, i, p, "x")
			l = append(l, u)
			for j := i + 1; j < n; j++ {
				for q := 0; q < 3; q++ {
					v := u.clone()
					set(v, j, q, "y")
					l = append(l, v)
				}
			}
		}
	}
	return
}

func p17Run(c *fw.Ctx) {
	// all trees
	var plain, props, entries, streams [][]*T
	max := c.Pick(6, 7)
	for n := 1; n <= max; n++ {
		leaves := "snqm"
		if n >= 6 {
			leaves = "sq"
		}
		if n >= 7 {
			leaves = "s"
		}
		for _, sh := range shapes(n, leaves, true) {
			plain = append(plain, []*T{label(sh)})
		}
	}
	treesCheck(c, "trees", plain)
	for n := 1; n <= c.Pick(4, 5); n++ {
		leaves := "snqma"
		if n >= 5 {
			leaves = "sqa"
		}
		for _, sh := range shapes(n, leaves, true) {
			t := label(sh)
			t.walk(func(x *T) {
				if x.Kind == 'a' {
					x.Text = "x"
				}
			})
			for _, tags := range [][]string{{"t", "str"}, {"!", "a:b/c!d"}} {
				for _, u := range withProps(t, tags) {
					props = append(props, []*T{u})
				}
				if n >= 4 {
					break
				}
			}
		}
	}
	treesCheck(c, "properties", props)
	// single pairs of sequences
	for n := 3; n <= 6; n++ {
		for _, sh := range shapes(n, "sqn", true) {
			t := label(sh)
			has := false
			t.walk(func(x *T) {
				if x.Kind == 'q' {
					for _, k := range x.Kids {
						if k.Kind == 'm' && len(k.Kids) == 2 {
							k.Kind = 'e'
							has = true
						}
					}
				}
			})
			if has {
				entries = append(entries, []*T{t})
			}
		}
	}
	treesCheck(c, "single-pairs", entries)
	var docs []*T
	for n := 1; n <= 3; n++ {
		for _, sh := range shapes(n, "snqm", true) {
			docs = append(docs, label(sh))
		}
	}
	docs = append(docs, pl("a\nb"), pl("a\nb\n"), &T{Kind: 'p', Text: "\n\na\n\n"}, sc("---"), pl("..."), anch("x", sc("a")), anch("x", sq(sc("a"))))
	for _, a := range docs {
		for _, b := range docs {
			streams = append(streams, []*T{a, b})
			if c.Thorough() || a.size() < 2 || b.size() < 2 {
				for _, d := range docs {
					if d.size() < 3 {
						streams = append(streams, []*T{a, b, d})
					}
				}
			}
		}
	}
	treesCheck(c, "streams", streams)
	treesCheck(c, "sizes", bigTrees())

	text := checkWrittenText(c)
	type alpha struct {
		label string
		set   []string
		max   int
	}
	for _, a := range []alpha{
		{"indicators", Chars("-?:,[]{}#&*!|>'\"%@` a"), c.Pick(3, 4)},
		{"colon", []string{":", " ", "#", "a", "-", "?"}, c.Pick(5, 6)},
		{"quotes", []string{"'", "\"", "\\", "a", " ", "\n"}, c.Pick(4, 6)},
		{"breaks", []string{"\n", "\r", " ", "a", "\t", "\u0085", "\u2028"}, c.Pick(4, 5)},
		{"lines", []string{"\n", " ", "a", "#"}, c.Pick(6, 7)},
		{"lists", []string{"- ", "a", ": ", "\n", "  ", "[", "{"}, c.Pick(4, 5)},
		{"control", []string{"\x00", "\x7f", "a", "\ufeff", "\ufffe", "\u00a0", "\U0010ffff", "\n", "\t"}, c.Pick(3, 4)},
		{"markers", []string{"---", "...", "%YAML 1.2", "\n", " ", "a"}, c.Pick(4, 5)},
		{"words", []string{"null", "~", "Null", "true", "1", "<<", "=", " "}, c.Pick(3, 4)},
	} {
		logLine(a.label)
		AllStrings(c, a.label, a.set, a.max, text)
	}
	// tags and anchors of all kinds
	var names []string
	for _, s := range []string{"a", "a-b", "a.b", "é", "a/b", "1", "-", "_", "a*b", "a&b", "a!b", "a'b", "a\"b", "a#b", "a:b", "a%41", "tag:yaml.org,2002:str", "!local", "a?b", "(a)", "a;b=c+d$e@f~g", "\U0001F600"} {
		names = append(names, s)
	}
	List(c, "tags", names, func(s string) string {
		for _, body := range []*T{sc("v"), pl("v"), nul(), sq(), mp(), sq(sc("v")), mp(sc("v"), sc("w"))} {
			for _, wrap := range []func(*T) *T{
				func(t *T) *T { return t }, func(t *T) *T { return sq(t, t) }, func(t *T) *T { return mp(t, sc("z")) }, func(t *T) *T { return mp(sc("z"), t) },
			} {
				t := body.clone()
				t.Tag = s
				if uriText(s) {
					if d := checkWritten([]*T{wrap(t)}); d != "" {
						return t.show() + ": " + d
					}
				}
				if !strings.ContainsAny(s, ",") {
					t := body.clone()
					t.Anchor = s
					if d := checkWritten([]*T{wrap(t)}); d != "" {
						return t.show() + ": " + d
					}
					for _, w := range []*T{sq(t, alias(s), mp(alias(s), alias(s), sc("z"), alias(s)), &T{Kind: 'e', Kids: []*T{alias(s), alias(s)}})} {
						if d := checkWritten([]*T{w}); d != "" {
							return w.show() + ": " + d
						}
					}
				}
			}
		}
		return ""
	})

	// histories and faults
	labels := []string{"[a]", "{a: [b]}", "literal", "&x [*x]", "stream", "nothing", "unknown alias"}
	ytrees := []ast.Node{sq(sc("a")).toAST(), mp(sc("a"), sq(sc("b"))).toAST(), mp(sc("k"), pl("a\nb")).toAST(), anch("x", sq(alias("x"))).toAST(),
		buildStream([]*T{sc("a"), mp(sc("b"), nul())}), nil, sq(alias("z"), sq(sc("a"))).toAST()}
	writeHistories(c, "history-yayamls", yWriter, labels, ytrees, c.Pick(3, 4))
	writeHistories(c, "history-yayamls-keeper", func() yamly.TreeWriter[ast.Node] {
		return yencode.NewASTWriter(yencode.WithAnchorsKeeper(brokenKeeper{}))
	}, labels, ytrees, c.Pick(3, 4))
	gtrees := []*yaml.Node{sq(sc("a")).toYaml3(), mp(sc("a"), sq(sc("b"))).toYaml3(), mp(sc("k"), pl("a\nb")).toYaml3(), anch("x", sq(sc("b"), alias("x"))).toYaml3()}
	writeHistories(c, "history-goyaml", gWriter, labels[:4], gtrees, c.Pick(3, 4))
	keeperCheck(c)
	var faults []string
	byName := map[string]*T{}
	for n := 1; n <= 4; n++ {
		for _, sh := range shapes(n, "snqm", true) {
			t := label(sh)
			byName[t.String()] = t
			faults = append(faults, t.String())
		}
	}
	for _, t := range []*T{mp(sc("k"), pl("a\nb\n")), anch("x", sq(sc("a"), alias("x"))), sc(strings.Repeat("long ", 2000)), pl(strings.Repeat("lines\n", 1000))} {
		byName[short(t.String())] = t
		faults = append(faults, short(t.String()))
	}
	List(c, "faults-yayamls", faults, func(s string) string { return checkFaults(c, yWriter, byName[s].toAST(), true) })
	List(c, "faults-goyaml", faults, func(s string) string { return checkFaults(c, gWriter, byName[s].toYaml3(), false) })
	c.Bound("faults: %d trees written to destinations which fail or stop behind every byte", len(faults))
	vals := []*V{vs("a"), vn(), vq(), vq(vs("a"), vi(7)), vm(vs("a"), vq(vs("b"))), vs("a\nb"), vm(vq(vs("k")), vn())}
	var vnames []string
	vby := map[string]func() string{}
	for _, b := range builders() {
		for _, v := range vals {
			b, v := b, v
			k := b.name + " " + v.String()
			vnames = append(vnames, k)
			vby[k] = func() string { return checkEncoderFaults(c, b, v) }
		}
	}
	List(c, "faults-encoder", vnames, func(s string) string { return vby[s]() })
}

// uriText says whether a text consists of the characters of URIs, as tags have to.
func uriText(s string) bool {
	for _, r := range s {
		if !(r < 0x80 && r > ' ' && !strings.ContainsRune("\"<>\\^`{|}", r)) {
			return false
		}
	}
	return true
}
