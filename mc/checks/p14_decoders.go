package checks

import (
	"encoding"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"github.com/KSpaceer/yamly"

	"verif/mc/fw"
	"verif/mc/gen"
)

func init() {
	fw.Register(fw.Check{
		Property:  "P14",
		Technique: "exhaustive enumeration of Go types, generator options and documents around the shape of the type; the real generator's code is compiled and run against a reflective reference decoder, from zero and from filled values",
		Assumptions: []string{
			"mappings have distinct keys; documents have no aliases (P11) and one document",
			"a null for a field of a filled value may reset the field or leave it alone; missing elements of arrays may be reset or left alone",
		},
		Run: p14Run,
	})
}

var (
	intTexts   = []string{"1", "-1", "127", "-129", "300", "70000", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "0x1F", "1.5", "a", "true", "2001-01-01"}
	floatTexts = []string{"1.5", "-3", "1e39", "1e309", ".inf", "-.INF", ".nan", "a", "0x1F", "true"}
	boolTexts  = []string{"true", "False", "yes", "1", "a", "TRUE"}
	timeTexts  = []string{"2001-12-14T21:59:43.1Z", "2001-12-14", "2001-12-14 21:59:43.1 -5", "2001-13-14", "a", "1", "2001-12-14T21:59:43+25:00"}
	strTexts   = []string{"a", "1", "true", "2001-01-01", "x y", ".5"}
)

func plain(s string) *T { return &T{Kind: 'p', Text: s} }

// makeDoc makes a document for a type out of choices: the default fits.
func makeDoc(ch *Chooser, t reflect.Type, c gen.Combo, depth int) *T {
	texts := func(l []string) *T {
		k := ch.Dev(len(l) + 5)
		if k < len(l) {
			return plain(l[k])
		}
		return []*T{nul(), sc(""), sc(l[0]), sq(plain(l[0])), mp(plain(l[0]), plain(l[0]))}[k-len(l)]
	}
	switch {
	case isCustom(t):
		switch t.Name() {
		case "YV", "YI":
			return sq(plain("4"))
		case "YP", "YL":
			return mp(plain("4"), nul())
		case "EV":
			return sq(plain("ev"), plain("4"))
		}
		return mp(plain("ep"), sq(plain("4")))
	case t == timeType:
		return texts(timeTexts)
	case t == bigType:
		return texts([]string{"5", "-7", "a", "1000000000000000000000000"})
	case t == ipType:
		return texts([]string{"127.0.0.1", "a", "1.2.3"})
	case t.Name() == "TV":
		return texts([]string{"<a>", "<>", "a", "1"})
	case t.Name() == "TU":
		return texts([]string{"u01ab", "u0000", "u", "12"})
	case t.Name() == "TI":
		return texts([]string{"i5", "i0", "5", "a"})
	case t.Name() == "TL":
		return texts([]string{"l1_2", "l", "a"})
	case t.Name() == "TM":
		return texts([]string{"m2", "m0", "a"})
	case t.Name() == "TP":
		return texts([]string{"(a/b)", "()", "a"})
	case isBytes(t):
		return texts(append(strTexts[:len(strTexts):len(strTexts)], "abcdefgh"))
	}
	switch t.Kind() {
	case reflect.Bool:
		return texts(boolTexts)
	case reflect.String:
		return texts(strTexts)
	case reflect.Float32, reflect.Float64:
		return texts(floatTexts)
	case reflect.Interface:
		if ch.Dev(2) == 1 {
			return mp(plain("4"), nul())
		}
		return texts(strTexts)
	case reflect.Pointer:
		if depth > 4 {
			return nul()
		}
		return makeDoc(ch, t.Elem(), c, depth+1)
	case reflect.Slice, reflect.Array:
		k := ch.Dev(9)
		n := []int{2, 0, 1, 3}[k%4]
		switch {
		case k >= 4:
			return []*T{nul(), plain("a"), sc(""), mp(plain("a"), plain("b")), sq(sq(), nul(), sq(plain("a")))}[k-4]
		case depth > 4:
			n = 0
		}
		d := sq()
		for i := 0; i < n; i++ {
			d.Kids = append(d.Kids, makeDoc(ch, t.Elem(), c, depth+1))
		}
		return d
	case reflect.Map:
		k := ch.Dev(9)
		if k >= 3 {
			return []*T{nul(), plain("a"), sc(""), sq(plain("a")), mp(nul(), nul()), mp(sq(plain("a")), plain("1"))}[k-3]
		}
		n := []int{1, 0, 2}[k]
		if depth > 4 {
			n = 0
		}
		d := mp()
		if n > 0 {
			d.Kids = append(d.Kids, makeDoc(ch, t.Key(), c, depth+1), makeDoc(ch, t.Elem(), c, depth+1))
		}
		if n > 1 {
			var key *T
			switch name := t.Key().Name(); {
			case name == "TU":
				key = plain("u0708")
			case name == "TI":
				key = plain("i7")
			case t.Key().Kind() == reflect.String:
				key = sc("zz")
				if t.Key().Name() == "TV" {
					key = sc("<zz>")
				}
			case t.Key().Kind() == reflect.Bool:
				key = plain("false")
			default:
				key = plain("7")
			}
			d.Kids = append(d.Kids, key, makeDoc(ch, t.Elem(), c, depth+1))
		}
		return d
	case reflect.Struct:
		fields := structFields(t, c)
		k := ch.Dev(9)
		if k >= 6 {
			return []*T{nul(), plain("a"), sq(plain("a"))}[k-6]
		}
		d := mp()
		// something unknown, before or behind
		unknown := []*T{nil, plain("1"), nul(), sq(mp(plain("F"), plain("1"))), mp(plain("G"), plain("5")), sc("")}[k]
		uk := sc("unknown")
		if k == 5 {
			uk = mp(plain("F"), plain("1")) // a key which is no text
		}
		first := k > 0 && ch.Choose(2) == 0
		if k > 0 && first {
			d.Kids = append(d.Kids, uk, unknown)
		}
		drop := ch.Dev(len(fields) + 2)
		for i := range fields {
			f := fields[i]
			if drop == len(fields)+1 { // in the other order
				f = fields[len(fields)-1-i]
			}
			if drop == i+1 {
				continue
			}
			d.Kids = append(d.Kids, sc(f.key), makeDoc(ch, f.typ, c, depth+1))
		}
		if k > 0 && !first {
			d.Kids = append(d.Kids, uk, unknown)
		}
		return d
	}
	return texts(intTexts)
}

// refErr describes why a document does not fit; open ones are not decided.
type refErr struct {
	open    bool
	unknown string
	what    string
}

func (e *refErr) Error() string { return e.what }

func misfit(d *T, t reflect.Type) error {
	return &refErr{what: fmt.Sprintf("%s does not fit %s", d, t)}
}

// refDecode stores a document into a value as the generated decoder should.
// filled tells that the value is not fresh.
func refDecode(d *T, v reflect.Value, c gen.Combo, omit, filled bool) error {
	t := v.Type()
	scalar := d.Kind == 'p' || d.Kind == 's'
	null := d.Kind == 'n' || d.Kind == 'p' && refNull(d.Text)
	switch {
	case isCustom(t):
		return &refErr{open: true}
	case t == timeType:
		rt, verdict := refTimestamp(d.Text)
		switch {
		case !scalar || null || verdict == timeNo:
			return misfit(d, t)
		case verdict == timeOpen:
			return &refErr{open: true}
		}
		v.Set(reflect.ValueOf(rt.time()))
		return nil
	case isText(t):
		if !scalar || null {
			return misfit(d, t)
		}
		if err := v.Addr().Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(d.Text)); err != nil {
			return &refErr{what: err.Error()}
		}
		return nil
	case isBytes(t):
		switch {
		case null && t.Kind() == reflect.Slice:
			v.SetZero()
		case null:
			if filled {
				return &refErr{open: true}
			}
		case !scalar:
			return misfit(d, t)
		case t.Kind() == reflect.Slice:
			v.Set(reflect.ValueOf([]byte(d.Text)).Convert(t))
		default:
			if filled && len(d.Text) < v.Len() {
				return &refErr{open: true}
			}
			reflect.Copy(v, reflect.ValueOf([]byte(d.Text)))
		}
		return nil
	}
	switch t.Kind() {
	case reflect.Bool:
		b, ok := refBool(d.Text)
		if !scalar || !ok {
			return misfit(d, t)
		}
		v.SetBool(b)
	case reflect.String:
		if !scalar || null {
			return misfit(d, t)
		}
		v.SetString(d.Text)
	case reflect.Float32, reflect.Float64:
		f, inf, nan, ok := refFloat(d.Text)
		switch {
		case !scalar || !ok:
			return misfit(d, t)
		case nan:
			v.SetFloat(math.NaN())
		case inf != 0:
			v.SetFloat(math.Inf(inf))
		default:
			x, _ := f.Float64()
			if t.Kind() == reflect.Float32 {
				y, _ := f.Float32()
				x = float64(y)
			}
			if math.IsInf(x, 0) {
				return misfit(d, t)
			}
			v.SetFloat(x)
		}
	case reflect.Interface:
		if !v.IsNil() && v.Elem().Kind() == reflect.Pointer { // decodes itself
			if d.Kind == 'm' && len(d.Kids) == 2 && d.Kids[0].Kind == 'p' && d.Kids[0].Text == "4" {
				v.Elem().Elem().Field(0).Set(reflect.ValueOf([]int{4}))
				return nil
			}
			return &refErr{open: true}
		}
		if t.NumMethod() > 0 {
			if v.IsNil() {
				return misfit(d, t)
			}
			return &refErr{open: true}
		}
		newReader, err := yEngine.parse(flowText(d))
		if err != nil {
			return &refErr{open: true}
		}
		r := newReader(false)
		x := r.Any()
		if r.Error() != nil {
			return &refErr{open: true}
		}
		if x == nil {
			v.SetZero()
		} else {
			v.Set(reflect.ValueOf(x))
		}
	case reflect.Pointer:
		if null {
			v.SetZero()
			return nil
		}
		if v.IsNil() {
			v.Set(reflect.New(t.Elem()))
			filled = false
		}
		return refDecode(d, v.Elem(), c, omit, filled)
	case reflect.Slice:
		switch {
		case null:
			v.SetZero()
		case d.Kind != 'q':
			return misfit(d, t)
		default:
			s := reflect.MakeSlice(t, len(d.Kids), len(d.Kids))
			for i, k := range d.Kids {
				if err := refDecode(k, s.Index(i), c, omit, false); err != nil {
					return err
				}
			}
			v.Set(s)
		}
	case reflect.Array:
		switch {
		case null:
			if filled {
				return &refErr{open: true}
			}
		case d.Kind != 'q':
			return misfit(d, t)
		default:
			if filled && len(d.Kids) < v.Len() {
				return &refErr{open: true}
			}
			for i, k := range d.Kids {
				if i < v.Len() {
					if err := refDecode(k, v.Index(i), c, omit, filled); err != nil {
						return err
					}
				}
			}
		}
	case reflect.Map:
		switch {
		case null:
			v.SetZero()
		case d.Kind != 'm':
			return misfit(d, t)
		case len(d.Kids) == 0 && omit:
			v.SetZero()
		default:
			m := reflect.MakeMap(t)
			for i := 0; i < len(d.Kids); i += 2 {
				k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
				if err := refDecode(d.Kids[i], k, c, omit, false); err != nil {
					return err
				}
				if err := refDecode(d.Kids[i+1], e, c, omit, false); err != nil {
					return err
				}
				m.SetMapIndex(k, e)
			}
			v.Set(m)
		}
	case reflect.Struct:
		switch {
		case null:
			v.SetZero()
			return nil
		case d.Kind != 'm':
			return misfit(d, t)
		}
		fields := structFields(t, c)
	keys:
		for i := 0; i < len(d.Kids); i += 2 {
			k, e := d.Kids[i], d.Kids[i+1]
			if k.Kind != 's' && (k.Kind != 'p' || refNull(k.Text)) {
				return misfit(k, t)
			}
			for _, f := range fields {
				if f.key != k.Text {
					continue
				}
				if e.Kind == 'n' || e.Kind == 'p' && refNull(e.Text) {
					if filled {
						return &refErr{open: true}
					}
					continue keys
				}
				if err := refDecode(e, f.get(v, true), c, f.omitempty, filled); err != nil {
					return err
				}
				continue keys
			}
			if c.Disallow {
				return &refErr{unknown: k.Text, what: "unknown field " + k.Text}
			}
		}
	default:
		x, ok, neg := refInt(d.Text)
		if !scalar || !ok {
			return misfit(d, t)
		}
		lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(t.Bits()))
		if v.CanInt() {
			hi.Rsh(hi, 1)
			lo.Neg(hi)
		} else if neg {
			return &refErr{open: x.Sign() == 0, what: "negative"}
		}
		if x.Cmp(lo) < 0 || x.Cmp(hi) >= 0 {
			return misfit(d, t)
		}
		if v.CanInt() {
			v.SetInt(x.Int64())
		} else {
			v.SetUint(x.Uint64())
		}
	}
	return nil
}

// fullCopy copies a value so that nothing is shared.
func fullValue(t reflect.Type, c gen.Combo) (v reflect.Value) {
	Enumerate(0, func(ch *Chooser) bool {
		v = makeValue(ch, t, c, 0)
		return false
	})
	p := reflect.New(t).Elem()
	p.Set(v)
	return p
}

func p14Doc(c *fw.Ctx, g *generated, d *T, filled bool) string {
	if s := p14From(c, g, d, filled, nil); s != "" || !filled {
		return s
	}
	if l := holders(g.combo); l != nil {
		v := fullValue(g.typ, g.combo)
		if holds(v, &l[0]) {
			return p14From(c, g, d, filled, &l[0])
		}
	}
	return ""
}

func p14From(c *fw.Ctx, g *generated, d *T, filled bool, set *reflect.Value) string {
	src := flowText(d)
	fresh := func() reflect.Value {
		if filled {
			v := fullValue(g.typ, g.combo)
			if set != nil {
				holds(v, set)
			}
			return v.Addr()
		}
		return reflect.New(g.typ)
	}
	want, got := fresh(), fresh()
	err := g.unmarshal([]byte(src), got)
	rootNull := d.Kind == 'n' || d.Kind == 'p' && refNull(d.Text)
	if rootNull && (filled || g.combo.Engine == "goyaml" || g.typ.Kind() != reflect.Struct) {
		return "" // go-yaml handles these without calling generated code
	}
	werr := refDecode(d, want.Elem(), g.combo, g.combo.Omitempty, filled)
	if re, ok := werr.(*refErr); ok && re.open {
		return ""
	}
	c.AddTraces(1)
	start := "a zero value"
	if filled {
		start = show(fresh().Elem())
	}
	if (err != nil) != (werr != nil) {
		return fmt.Sprintf("unmarshalling %s into %s gives %s (error %v), expected %s (error %v)", src, start, show(got.Elem()), err, show(want.Elem()), werr)
	}
	if err != nil {
		if re := werr.(*refErr); re.unknown != "" && g.combo.Engine == "yayamls" {
			var ue *yamly.UnknownFieldError
			if !errors.As(err, &ue) || ue.Field != re.unknown {
				return fmt.Sprintf("unmarshalling %s reports %v, the field %q is unknown", src, err, re.unknown)
			}
		}
		return ""
	}
	if w, s := show(want.Elem()), show(got.Elem()); w != s {
		return fmt.Sprintf("unmarshalling %s into %s gives\n%s, expected\n%s", src, start, s, w)
	}
	return ""
}

func distinctKeys(d *T) bool {
	ok := true
	d.walk(func(t *T) {
		if t.Kind != 'm' {
			return
		}
		seen := map[string]bool{}
		for i := 0; i < len(t.Kids); i += 2 {
			k := strings.Trim(t.Kids[i].String(), "\"")
			if seen[k] {
				ok = false
			}
			seen[k] = true
		}
	})
	return ok
}

// p14Deep tells whether two deviations are explored.
func p14Deep(c *fw.Ctx, o gen.Combo, docs int) bool {
	all := gen.Combo{Engine: o.Engine, Omitempty: true, Disallow: true, PtrRecv: true, Inline: true}
	return c.Thorough() || docs <= 150 && (o == gen.Combo{Engine: o.Engine} || o == all)
}

func p14Run(c *fw.Ctx) {
	specs := genSpecs(c)
	type job struct {
		s    gen.Spec
		g    *generated
		docs int
	}
	var jobs []job
	for _, s := range specs {
		var names []string
		for n := range generatedTypes[s.Name] {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			jobs = append(jobs, job{s, generatedTypes[s.Name][n], 0})
		}
	}
	for dev := 1; dev <= maxDev(2); dev++ {
		fw.Parallel(c, func(emit func(*job) bool) {
			for i := range jobs {
				if dev == 2 && !p14Deep(c, jobs[i].g.combo, jobs[i].docs) {
					continue
				}
				if !emit(&jobs[i]) {
					return
				}
			}
		}, func(j *job) {
			failed := false
			n := 0
			Enumerate(dev, func(ch *Chooser) bool {
				d := makeDoc(ch, j.g.typ, j.g.combo, 0)
				if !distinctKeys(d) {
					return true
				}
				text := d.String()
				c.State(j.g.combo.Name() + j.s.Name + text)
				n++
				c.Case(fmt.Sprintf("%s: %s: %s", j.g.combo.Name(), j.s.Tag, text), func() (detail string) {
					for _, filled := range []bool{false, true} {
						detail = fw.Protect(func() string { return p14Doc(c, j.g, d, filled) })
						c.AddTransitions(1)
						if detail != "" {
							failed = true
							return
						}
					}
					return
				})
				return !failed && !c.Expired()
			})
			j.docs = n
		})
	}
	c.Bound("%d target types, %d combinations of engine and options", len(specs), len(genCombos))
	c.Bound("documents with up to 2 deviations (%s) from one that fits: other texts, nulls, collections in the place of scalars and the reverse, other sizes, missing and unknown fields, another order", map[bool]string{true: "everywhere", false: "for types with up to 150 such documents with one deviation, without options and with all of them; otherwise 1"}[c.Thorough()])
}
