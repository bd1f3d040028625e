package checks

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"

	"gopkg.in/yaml.v3"

	"verif/mc/fw"
)

// P07: what is encoded decodes to the same value.

// V is a value: its encoding is a sequence of insertions, its decoding the
// matching sequence of decoding operations.
type V struct {
	kind byte // n null, b boolean, i integer, u unsigned, f float, g float of 32 bits, s string, r raw text, t timestamp, q sequence, m mapping
	i    int64
	u    uint64
	f    float64
	s    string
	t    time.Time
	kids []*V
}

func vs(s string) *V    { return &V{kind: 's', s: s} }
func vr(s string) *V    { return &V{kind: 'r', s: s} }
func vi(i int64) *V     { return &V{kind: 'i', i: i} }
func vu(u uint64) *V    { return &V{kind: 'u', u: u} }
func vf(f float64) *V   { return &V{kind: 'f', f: f} }
func vg(f float32) *V   { return &V{kind: 'g', f: float64(f)} }
func vt(t time.Time) *V { return &V{kind: 't', t: t} }
func vn() *V            { return &V{kind: 'n'} }
func vq(kids ...*V) *V  { return &V{kind: 'q', kids: kids} }
func vm(kids ...*V) *V  { return &V{kind: 'm', kids: kids} }
func vb(b bool) *V {
	v := &V{kind: 'b'}
	if b {
		v.i = 1
	}
	return v
}

func (v *V) String() string {
	switch v.kind {
	case 'n':
		return "null"
	case 'b':
		return fmt.Sprint(v.i == 1)
	case 'i':
		return fmt.Sprintf("int %d", v.i)
	case 'u':
		return fmt.Sprintf("uint %d", v.u)
	case 'f', 'g':
		return fmt.Sprintf("float %x", v.f)
	case 's', 'r':
		return fmt.Sprintf("%q", v.s)
	case 't':
		return v.t.Format(time.RFC3339Nano)
	}
	var s []string
	for _, k := range v.kids {
		s = append(s, k.String())
	}
	return string(v.kind) + "(" + strings.Join(s, " ") + ")"
}

func (v *V) encode(e yamly.Inserter) {
	switch v.kind {
	case 'n':
		e.InsertNull()
	case 'b':
		e.InsertBoolean(v.i == 1)
	case 'i':
		e.InsertInteger(v.i)
	case 'u':
		e.InsertUnsigned(v.u)
	case 'f', 'g':
		e.InsertFloat(v.f)
	case 's':
		e.InsertString(v.s)
	case 'r':
		e.InsertRawText([]byte(v.s), nil)
	case 't':
		e.InsertTimestamp(v.t)
	case 'q':
		e.StartSequence()
		for _, k := range v.kids {
			k.encode(e)
		}
		e.EndSequence()
	case 'm':
		e.StartMapping()
		for _, k := range v.kids {
			k.encode(e)
		}
		e.EndMapping()
	}
}

// decode reads the value back and says what differs.
func (v *V) decode(d yamly.Decoder) string {
	diff := func(got any) string { return fmt.Sprintf("%s is read as %s (error: %v)", v, showVal(got), d.Error()) }
	switch v.kind {
	case 'n':
		if !d.TryNull() {
			return fmt.Sprintf("null is not read as null (error: %v)", d.Error())
		}
	case 'b':
		if got := d.Boolean(); got != (v.i == 1) {
			return diff(got)
		}
	case 'i':
		width := 64
		for _, w := range []int{32, 16, 8} {
			if v.i >= -1<<(w-1) && v.i < 1<<(w-1) {
				width = w
			}
		}
		if got := d.Integer(width); got != v.i {
			return diff(got)
		}
	case 'u':
		width := 64
		for _, w := range []int{32, 16, 8} {
			if v.u < 1<<w {
				width = w
			}
		}
		if got := d.Unsigned(width); got != v.u {
			return diff(got)
		}
	case 'f':
		if got := d.Float(64); got != v.f && !(math.IsNaN(got) && math.IsNaN(v.f)) || math.Signbit(got) != math.Signbit(v.f) && !math.IsNaN(got) {
			return diff(got)
		}
	case 'g':
		if got := d.Float(32); float32(got) != float32(v.f) && !(math.IsNaN(got) && math.IsNaN(v.f)) {
			return diff(got)
		}
	case 's', 'r':
		if got := d.String(); got != v.s {
			return diff(got)
		}
	case 't':
		got := d.Timestamp()
		_, o1 := got.Zone()
		_, o2 := v.t.Zone()
		if !got.Equal(v.t) || o1 != o2 {
			return diff(got)
		}
	case 'q', 'm':
		var st yamly.CollectionState
		n := len(v.kids)
		if v.kind == 'q' {
			st = d.Sequence()
		} else {
			st = d.Mapping()
			n /= 2
		}
		if st.Size() != n {
			return fmt.Sprintf("%s has size %d (error: %v)", v, st.Size(), d.Error())
		}
		for i := 0; i < len(v.kids); i++ {
			if !(v.kind == 'm' && i%2 == 1) && !st.HasUnprocessedItems() {
				return fmt.Sprintf("%s ends before item %d (error: %v)", v, i, d.Error())
			}
			if s := v.kids[i].decode(d); s != "" {
				return s
			}
		}
		if st.HasUnprocessedItems() {
			return fmt.Sprintf("%s has more items than were put in", v)
		}
	}
	if err := d.Error(); err != nil {
		return fmt.Sprintf("%s is read with an error: %v", v, err)
	}
	return ""
}

var byteDecoders = []struct {
	name string
	open func([]byte) (yamly.Decoder, error)
}{
	{"yayamls", func(b []byte) (yamly.Decoder, error) { return ydecode.NewASTReaderFromBytes(b) }},
	{"goyaml", func(b []byte) (yamly.Decoder, error) {
		var n yaml.Node // as generated code does
		if err := yaml.Unmarshal(b, &n); err != nil {
			return nil, err
		}
		return gdecode.NewASTReader(&n), nil
	}},
}

// roundTrip encodes with every engine and option set and decodes with every engine.
func roundTrip(c *fw.Ctx, v *V, unquotedToo bool) string {
	c.AddStates(1)
	for _, b := range builders() {
		if !unquotedToo && strings.HasSuffix(b.name, "/unquoted") {
			continue
		}
		e := b.newEnc()
		v.encode(e)
		data, err := e.EncodeToBytes()
		if err != nil {
			return fmt.Sprintf("%s: encoding %s: %v", b.name, v, err)
		}
		for _, dec := range byteDecoders {
			c.AddTransitions(1)
			d, err := dec.open(data)
			if err != nil {
				return fmt.Sprintf("%s writes %s as %q, which %s rejects: %v", b.name, v, data, dec.name, err)
			}
			if s := v.decode(d); s != "" {
				return fmt.Sprintf("%s writes %s as %q, but with %s %s", b.name, v, data, dec.name, s)
			}
		}
	}
	return ""
}

// inPositions puts a scalar at the root, and into all other positions of one document.
func inPositions(v *V) []*V {
	k := vs("k")
	return []*V{
		v,
		vq(v, k, vm(v, v), v),
		vm(k, v, v, vq(v), vs("l"), vm(vs("y"), v, vs("z"), k)),
		vm(vq(v, v), vm(v, vq()), vm(v, vq(v)), vn()),
		vq(vq(vq(v), v), vq(), v),
	}
}

func checkText(c *fw.Ctx) func(s string) string {
	return func(s string) string {
		// texts which spell null are null when they are not quoted
		unquoted := s == "" || !refNull(s)
		for _, v := range []*V{vs(s), vr(s)} {
			for _, p := range inPositions(v) {
				if d := roundTrip(c, p, unquoted); d != "" {
					return d
				}
			}
			if len(s) > 2 {
				break // texts handed in as bytes take the same way
			}
		}
		return ""
	}
}

func checkValue(c *fw.Ctx, v *V) string {
	for _, p := range inPositions(v) {
		if d := roundTrip(c, p, true); d != "" {
			return d
		}
	}
	return ""
}

func init() {
	fw.Register(fw.Check{
		Property:  "P07",
		Technique: "exhaustive enumeration of values, positions, engines and options through the real encoders and decoders against the original value",
		Assumptions: []string{
			"texts are valid UTF-8",
			"with unquoted one-line strings, texts which spell null are read as null and are not explored",
		},
		Run: p07Run,
	})
}

// valueGrid lists the boundary values of every scalar kind.
func valueGrid() (l []*V) {
	l = append(l, vn(), vb(true), vb(false))
	for b := 0; b < 64; b++ {
		for d := int64(-2); d <= 2; d++ {
			l = append(l, vi(int64(1)<<b+d), vi(-(int64(1)<<b)+d), vu(uint64(1)<<b+uint64(d)))
		}
	}
	p := int64(1)
	for i := 0; i < 19; i++ {
		for d := int64(-1); d <= 1; d++ {
			l = append(l, vi(p+d), vi(-p+d), vu(uint64(p+d)))
		}
		p *= 10
	}
	l = append(l, vi(math.MaxInt64), vi(math.MinInt64), vu(math.MaxUint64), vu(0), vi(0))
	for _, f := range []float64{0, math.Copysign(0, -1), 1, 1.5, 0.1, 1e21, 1e20, 123456789, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64,
		math.Inf(1), math.Inf(-1), math.NaN(), 1 << 53, 1<<53 + 2, math.Pi, 2.2250738585072011e-308, 2.2250738585072014e-308, 1e100, 5e-324} {
		l = append(l, vf(f), vf(-f))
	}
	for e := -1074; e < 1024; e += 7 {
		f := math.Ldexp(1, e)
		l = append(l, vf(f), vf(math.Nextafter(f, 0)), vf(-math.Nextafter(f, math.Inf(1))))
	}
	for e := -149; e < 128; e += 3 {
		f := float32(math.Ldexp(1, e))
		l = append(l, vg(f), vg(math.Nextafter32(f, 0)), vg(-math.Nextafter32(f, float32(math.Inf(1)))))
	}
	l = append(l, vg(math.MaxFloat32), vg(float32(math.Inf(-1))), vg(float32(math.NaN())))
	for _, y := range []int{0, 1, 999, 1582, 1970, 2000, 2023, 9999} {
		for _, md := range [][2]int{{1, 1}, {2, 28}, {12, 31}} {
			for _, hms := range [][3]int{{0, 0, 0}, {23, 59, 59}, {9, 5, 7}} {
				for _, ns := range []int{0, 1, 1000, 500000000, 999999999, 120000000} {
					for _, z := range []int{0, 3600, -3600, 19800, -34200, 50400, 60, -86340} {
						loc := time.UTC
						if z != 0 {
							loc = time.FixedZone("", z)
						}
						l = append(l, vt(time.Date(y, time.Month(md[0]), md[1], hms[0], hms[1], hms[2], ns, loc)))
					}
				}
			}
		}
	}
	return
}

func p07Run(c *fw.Ctx) {
	text := checkText(c)
	// all characters of Unicode, alone and between letters
	var blocks []string
	for r := rune(0); r < 0x110000; r += 64 {
		if r < 0xD800 || r >= 0xE000 {
			if c.Thorough() || r < 0x3100 || r >= 0xE000 && r < 0x10100 || r%0x10000 >= 0xFF00 || r%0x10000 < 0x100 {
				blocks = append(blocks, fmt.Sprintf("U+%04X", r))
			}
		}
	}
	List(c, "character", blocks, func(s string) string {
		var from rune
		fmt.Sscanf(s, "U+%X", &from)
		for r := from; r < from+64; r++ {
			for _, t := range []string{string(r), "a" + string(r), string(r) + "a", "a" + string(r) + "a", "a\n" + string(r) + "a", "'" + string(r) + "\"\\"} {
				unquoted := !refNull(t)
				for _, p := range []*V{vs(t), vq(vs(t), vm(vs(t), vs(t)))} {
					if d := roundTrip(c, p, unquoted); d != "" {
						return d
					}
				}
				if c.Expired() {
					return ""
				}
			}
		}
		return ""
	})
	c.Bound("characters: %d blocks of 64 characters, alone, before, behind and between letters, behind a line break and between quotes", len(blocks))

	grid := valueGrid()
	seen := map[string]*V{}
	var keys []string
	for _, v := range grid {
		k := fmt.Sprintf("%c %s", v.kind, v)
		if seen[k] == nil {
			seen[k] = v
			keys = append(keys, k)
		}
	}
	List(c, "value", keys, func(s string) string { return checkValue(c, seen[s]) })
	c.Bound("scalar values: %d boundary values of null, booleans, integers, unsigned integers, floats of both widths and timestamps in all positions", len(keys))

	type alpha struct {
		label string
		set   []string
		max   int
	}
	for _, a := range []alpha{
		{"indicators", Chars("-?:,[]{}#&*!|>'\"%@` a"), c.Pick(3, 4)},
		{"colon", []string{":", " ", "#", "a", "-", "?"}, c.Pick(5, 6)},
		{"quotes", []string{"'", "\"", "\\", "a", " ", "n"}, c.Pick(5, 6)},
		{"breaks", []string{"\n", "\r", " ", "a", "\t", "\u0085", "\u2028"}, c.Pick(4, 6)},
		{"lines", []string{"\n", " ", "a", "#"}, c.Pick(6, 8)},
		{"lists", []string{"- ", "a", ": ", "\n", "  ", "[", "{"}, c.Pick(4, 5)},
		{"control", []string{"\x00", "\a", "\x1b", "\x7f", "a", "\ufeff", "\ufffe", "\u00a0", "\U0010ffff", "\n"}, c.Pick(3, 4)},
		{"markers", []string{"---", "...", "%YAML 1.2", "\n", " ", "a", "#"}, c.Pick(4, 5)},
		{"types", []string{"null", "~", "true", "no", "1", ".", "e", "-", "+", "inf", ":", "0x", "_", "<<", "="}, c.Pick(3, 4)},
		{"dates", []string{"2023", "-", "04", "T", ":", "05", " ", "Z"}, c.Pick(4, 6)},
		{"tags", []string{"!", "!!", "str", "<", ">", " ", "a", "&", "*", ","}, c.Pick(4, 5)},
	} {
		logLine(a.label)
		AllStrings(c, a.label, a.set, a.max, text)
	}
	// texts of special lengths
	var long []string
	for _, n := range []int{79, 80, 81, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097} {
		for _, unit := range []string{"a", "a ", "é", "a\n", "\"", "'", "\x00", ": ", " a", "word word\n  "} {
			long = append(long, fmt.Sprintf("%d %q", n, unit))
		}
	}
	List(c, "long", long, func(s string) string {
		var n int
		var u string
		fmt.Sscanf(s, "%d %q", &n, &u)
		return text(strings.Repeat(u, n/len(u)+1)[:n/len(u)*len(u)])
	})
	c.Bound("long: texts of 79 to 4097 bytes of 10 repeated units")

	// all trees
	leaves := []*V{vs("x"), vs(""), vs("a\nb"), vn(), vi(-3), vb(true), vt(time.Date(2023, 4, 5, 6, 7, 8, 9, time.UTC)), vf(2.5)}
	size := c.Pick(5, 6)
	for n := 1; n <= size; n++ {
		l := leaves
		if n >= 4 {
			l = leaves[:4]
		}
		if n >= 5 {
			l = leaves[:2]
		}
		if n >= 6 {
			l = leaves[:1]
		}
		var trees []*V
		for _, sh := range shapes(n, "sqm", true) {
			fillV(sh, l, func(v *V) { trees = append(trees, v) })
		}
		logLine("trees", n, len(trees))
		fw.Parallel(c, func(emit func(*V) bool) {
			for _, t := range trees {
				if !emit(t) {
					return
				}
			}
		}, func(v *V) {
			key := "tree:" + v.String()
			if c.Filter != "" && c.Filter != key {
				return
			}
			c.AddTraces(1)
			c.Case(key, func() string { return roundTrip(c, v, true) })
		})
		c.Bound("trees: %d trees of %d nodes over %d kinds of leaves, keys included", len(trees), n, len(l)+2)
	}
}

// fillV replaces the scalars of a shape in all ways.
func fillV(sh *T, leaves []*V, emit func(*V)) {
	var rec func(t *T, k func(*V))
	var all func(kids []*T, done []*V, k func([]*V))
	rec = func(t *T, k func(*V)) {
		if t.Kind == 's' {
			for _, l := range leaves {
				k(l)
			}
			return
		}
		all(t.Kids, nil, func(l []*V) { k(&V{kind: t.Kind, kids: append([]*V{}, l...)}) })
	}
	all = func(kids []*T, done []*V, k func([]*V)) {
		if len(kids) == 0 {
			k(done)
			return
		}
		rec(kids[0], func(v *V) { all(kids[1:], append(done, v), k) })
	}
	rec(sh, emit)
}
