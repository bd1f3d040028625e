package checks

import (
	"encoding"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"net"
	"os"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/KSpaceer/yamly/engines/yayamls"
	"gopkg.in/yaml.v3"

	"verif/mc/gen"
)

// GenDir is where code was generated.
var GenDir string

type generated struct {
	combo gen.Combo
	spec  string
	typ   reflect.Type
}

var generatedTypes = map[string]map[string]*generated{} // by spec and combination
var genCombos []gen.Combo

// AddGenerated registers types with generated code.
func AddGenerated(c gen.Combo, types map[string]func() any) {
	genCombos = append(genCombos, c)
	for n, f := range types {
		if generatedTypes[n] == nil {
			generatedTypes[n] = map[string]*generated{}
		}
		generatedTypes[n][c.Name()] = &generated{c, n, reflect.TypeOf(f()).Elem()}
	}
}

type genProblem struct{ Combo, Spec, Tag, Stage, Text string }

func genProblems() (l []genProblem) {
	data, err := os.ReadFile(GenDir + "/problems.json")
	if err == nil {
		json.Unmarshal(data, &l)
	}
	return
}

// marshal encodes a value with its generated code, as a user would.
func (g *generated) marshal(ptr reflect.Value) ([]byte, error) {
	v := ptr.Elem().Interface()
	if g.combo.PtrRecv {
		v = ptr.Interface()
	}
	if g.combo.Engine == "yayamls" {
		return v.(yayamls.Marshaler).MarshalYAML()
	}
	return yaml.Marshal(v)
}

// unmarshal decodes into a value with its generated code.
func (g *generated) unmarshal(data []byte, ptr reflect.Value) error {
	if g.combo.Engine == "yayamls" {
		return ptr.Interface().(yayamls.Unmarshaler).UnmarshalYAML(data)
	}
	return yaml.Unmarshal(data, ptr.Interface())
}

var (
	timeType    = reflect.TypeOf(time.Time{})
	bigType     = reflect.TypeOf(big.Int{})
	ipType      = reflect.TypeOf(net.IP{})
	textMarshal = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
)

// kinds of types whose code does not follow from their structure
func isCustom(t reflect.Type) bool {
	switch t.Name() {
	case "YV", "YP", "EV", "EP", "YI", "YL":
		return true
	}
	return false
}

func isText(t reflect.Type) bool {
	return t != timeType && !isCustom(t) && !isTarget(t) && t.Kind() != reflect.Interface && t.Kind() != reflect.Pointer && reflect.PointerTo(t).Implements(textMarshal)
}

func isTarget(t reflect.Type) bool {
	return len(t.Name()) == 5 && t.Name()[0] == 'S' && strings.HasPrefix(t.PkgPath(), "verif/gen/")
}

func isBytes(t reflect.Type) bool {
	return (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) && t.Elem() == reflect.TypeOf(byte(0))
}

// rfield is a field of a struct as it appears in documents.
type rfield struct {
	key       string
	goName    string
	index     []int
	typ       reflect.Type
	omitempty bool
	ptrs      int // pointers on the way
}

// structFields are the represented fields: exported ones which are not marked
// with "-", with those of inlined structs in the place of the struct.
func structFields(t reflect.Type, c gen.Combo) (l []rfield) {
	own := map[string]bool{}
	var inlined []rfield
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		opts := strings.Split(f.Tag.Get("yaml"), ",")
		inl := f.Anonymous && c.Inline && opts[0] == ""
		omit := c.Omitempty
		for _, o := range opts[1:] {
			inl = inl || o == "inline"
			omit = omit || o == "omitempty"
		}
		st := f.Type
		ptr := 0
		if st.Kind() == reflect.Pointer {
			st, ptr = st.Elem(), 1
		}
		if inl && st.Kind() == reflect.Struct {
			for _, n := range structFields(st, c) {
				n.index = append([]int{i}, n.index...)
				n.ptrs += ptr
				if !f.Anonymous {
					n.goName = f.Name + "." + n.goName
				}
				inlined = append(inlined, n)
			}
			continue
		}
		if f.Name == "_" || strings.ToUpper(f.Name[:1]) != f.Name[:1] && f.Name[0] < 0x80 {
			continue
		}
		own[f.Name] = true
		if len(opts) == 1 && opts[0] == "-" {
			continue
		}
		key := opts[0]
		if key == "" {
			key = f.Name
		}
		l = append(l, rfield{key, f.Name, []int{i}, f.Type, omit, 0})
	}
	for _, n := range inlined {
		if !own[n.goName] {
			l = append(l, n)
		}
	}
	return
}

// get follows the index of a field; it is invalid behind a nil pointer.
func (f rfield) get(v reflect.Value, alloc bool) reflect.Value {
	for k, i := range f.index {
		if k > 0 && v.Kind() == reflect.Pointer {
			if v.IsNil() {
				if !alloc {
					return reflect.Value{}
				}
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
		v = v.Field(i)
		if !v.CanSet() && v.CanAddr() { // unexported embedded structs
			v = reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem()
		}
	}
	return v
}

func isEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.String:
		return v.Len() == 0
	case reflect.Pointer, reflect.Interface:
		return v.IsNil()
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return v.IsZero()
	}
	return false
}

// isNull tells whether a value is represented by null.
func isNull(v reflect.Value) bool {
	if isText(v.Type()) || isCustom(v.Type()) {
		return false
	}
	switch v.Kind() {
	case reflect.Pointer:
		return v.IsNil() || isNull(v.Elem())
	case reflect.Slice, reflect.Map, reflect.Interface:
		return v.IsNil()
	}
	return false
}

// kept is the value which is expected back when v was encoded: what is not
// represented is zero, pointers to what is represented by null are nil.
func kept(v reflect.Value, c gen.Combo, omit bool) reflect.Value {
	t := v.Type()
	out := reflect.New(t).Elem()
	if t == timeType || isText(t) || isCustom(t) {
		out.Set(v)
		return out
	}
	switch t.Kind() {
	case reflect.Pointer:
		if !isNull(v) {
			out.Set(reflect.New(t.Elem()))
			out.Elem().Set(kept(v.Elem(), c, omit))
		}
	case reflect.Struct:
		for _, f := range structFields(t, c) {
			x := f.get(v, false)
			if !x.IsValid() || f.omitempty && isEmpty(x) || isNull(x) {
				continue
			}
			f.get(out, true).Set(kept(x, c, f.omitempty))
		}
	case reflect.Slice:
		if !v.IsNil() {
			out.Set(reflect.MakeSlice(t, v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(kept(v.Index(i), c, omit))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(kept(v.Index(i), c, omit))
		}
	case reflect.Map:
		if !v.IsNil() && !(v.Len() == 0 && (omit || c.Omitempty)) {
			out.Set(reflect.MakeMap(t))
			for _, k := range v.MapKeys() {
				out.SetMapIndex(kept(k, c, omit), kept(v.MapIndex(k), c, omit))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

// show is a canonical text of a value, telling apart nil and empty.
func show(v reflect.Value) string {
	var sb strings.Builder
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		if !v.IsValid() {
			sb.WriteString("nil")
			return
		}
		t := v.Type()
		switch t {
		case timeType:
			sb.WriteString(showVal(v.Interface()))
			return
		case bigType:
			x := v.Interface().(big.Int)
			sb.WriteString("big " + x.String())
			return
		case ipType:
			fmt.Fprintf(&sb, "ip %v", v.Interface())
			return
		}
		switch t.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				sb.WriteString("nil")
				return
			}
			sb.WriteString("&")
			rec(v.Elem())
		case reflect.Interface:
			if v.IsNil() {
				sb.WriteString("any(nil)")
				return
			}
			sb.WriteString("any ")
			rec(v.Elem())
		case reflect.Struct:
			sb.WriteString("{")
			for i := 0; i < t.NumField(); i++ {
				if t.Field(i).Type.Kind() == reflect.Func || t.Field(i).Type.Kind() == reflect.Chan {
					continue
				}
				fmt.Fprintf(&sb, " %s:", t.Field(i).Name)
				x := v.Field(i)
				if !x.CanInterface() && v.CanAddr() {
					x = reflect.NewAt(x.Type(), x.Addr().UnsafePointer()).Elem()
				}
				if x.CanInterface() {
					rec(x)
				} else {
					fmt.Fprint(&sb, x)
				}
			}
			sb.WriteString("}")
		case reflect.Slice, reflect.Array:
			if t.Kind() == reflect.Slice && v.IsNil() {
				sb.WriteString("nil")
				return
			}
			if isBytes(t) {
				b := make([]byte, v.Len())
				for i := range b {
					b[i] = byte(v.Index(i).Uint())
				}
				fmt.Fprintf(&sb, "%q", b)
				return
			}
			sb.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				sb.WriteString(" ")
				rec(v.Index(i))
			}
			sb.WriteString("]")
		case reflect.Map:
			if v.IsNil() {
				sb.WriteString("nil")
				return
			}
			var l []string
			for _, k := range v.MapKeys() {
				l = append(l, show(k)+": "+show(v.MapIndex(k)))
			}
			sort.Strings(l)
			sb.WriteString("map{" + strings.Join(l, ", ") + "}")
		case reflect.Float32, reflect.Float64:
			if math.IsNaN(v.Float()) {
				sb.WriteString("NaN")
			} else {
				fmt.Fprintf(&sb, "%x", v.Float())
			}
		case reflect.String:
			fmt.Fprintf(&sb, "%q", v.String())
		case reflect.Bool:
			fmt.Fprint(&sb, v.Bool())
		case reflect.Func, reflect.Chan:
			sb.WriteString("-")
		default:
			if v.CanInt() {
				fmt.Fprint(&sb, v.Int())
			} else if v.CanUint() {
				fmt.Fprint(&sb, v.Uint())
			} else {
				fmt.Fprint(&sb, v)
			}
		}
	}
	rec(v)
	return sb.String()
}

// holders are values with their own methods for interfaces.
func holders(c gen.Combo) (l []reflect.Value) {
	yp, yv := generatedTypes["YP"][c.Name()], generatedTypes["YV"][c.Name()]
	if yp == nil || yv == nil {
		return
	}
	p := reflect.New(yp.typ)
	p.Elem().Field(0).Set(reflect.ValueOf([]int{1, 2}))
	v := reflect.New(yv.typ)
	v.Elem().Field(0).SetInt(5)
	return []reflect.Value{p, v, v.Elem()}
}

// holds tells whether an interface in the value has something with methods,
// which cannot be read back; with set they are all put there.
func holds(v reflect.Value, set *reflect.Value) bool {
	t := v.Type()
	if t == timeType || isText(t) || isCustom(t) {
		return false
	}
	r := false
	switch t.Kind() {
	case reflect.Interface:
		if set != nil && set.Type().Implements(t) {
			n := reflect.New(set.Type().Elem())
			n.Elem().Set(set.Elem())
			v.Set(n)
		}
		if v.IsNil() {
			return false
		}
		e := v.Elem().Type()
		return isCustom(e) || e.Kind() == reflect.Pointer
	case reflect.Pointer:
		return !v.IsNil() && holds(v.Elem(), set)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if x := v.Field(i); x.CanInterface() && (set == nil || x.CanSet()) {
				r = holds(x, set) || r
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			r = holds(v.Index(i), set) || r
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			x := reflect.New(t.Elem()).Elem()
			x.Set(v.MapIndex(k))
			r = holds(x, set) || r
			if set != nil {
				v.SetMapIndex(k, x)
			}
		}
	}
	return r
}

// valuesOf lists values of the types which are not composed of others.
func valuesOf(t reflect.Type, c gen.Combo) (l []reflect.Value) {
	conv := func(xs ...any) {
		for _, x := range xs {
			l = append(l, reflect.ValueOf(x).Convert(t))
		}
	}
	set := func(f func(reflect.Value)) {
		v := reflect.New(t).Elem()
		f(v)
		l = append(l, v)
	}
	switch {
	case t == timeType:
		conv(time.Date(2001, 12, 14, 21, 59, 43, 100000000, time.UTC), time.Date(2002, 12, 14, 0, 0, 0, 0, time.UTC), time.Date(1999, 1, 2, 3, 4, 5, 678901234, time.FixedZone("", -5*3600)), time.Time{})
		return
	case t == bigType:
		for _, s := range []string{"5", "0", "-7", "1000000000000000000000000000000"} {
			x, _ := new(big.Int).SetString(s, 10)
			l = append(l, reflect.ValueOf(*x))
		}
		return
	case t == ipType:
		conv(net.ParseIP("127.0.0.1"), net.ParseIP("::1"))
		return
	case t.Name() == "TU":
		set(func(v reflect.Value) { v.Index(0).SetUint(1); v.Index(1).SetUint(171) })
		set(func(v reflect.Value) {})
		return
	case t.Name() == "TL":
		for _, n := range [][]int{{1, 2}, {7}, {}} {
			l = append(l, reflect.ValueOf(n).Convert(t))
		}
		return
	case t.Name() == "TM":
		for _, m := range []map[string]int{{"0": 0, "1": 1}, {"0": 0}, {}} {
			l = append(l, reflect.ValueOf(m).Convert(t))
		}
		return
	case t.Name() == "TP":
		set(func(v reflect.Value) { v.Field(0).Set(reflect.ValueOf([]string{"a", "b c"})) })
		set(func(v reflect.Value) {})
		return
	case t.Name() == "YI":
		conv(3, 0, 44)
		return
	case t.Name() == "YL":
		conv([]int{1, 2}, []int{7})
		return
	case t.Name() == "YV" || t.Name() == "EV":
		for _, n := range []int64{3, 0, 44} {
			set(func(v reflect.Value) { v.Field(0).SetInt(n) })
		}
		return
	case t.Name() == "YP" || t.Name() == "EP":
		for _, n := range [][]int{{1, 2}, {7}, nil} {
			if n == nil && t.Name() == "EP" {
				n = []int{8, 9, 10}
			}
			set(func(v reflect.Value) { v.Field(0).Set(reflect.ValueOf(n)) })
		}
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		conv(true, false)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		bits := t.Bits()
		for _, n := range []int64{1, 0, -1, -1 << (bits - 1), 1<<(bits-1) - 1} {
			set(func(v reflect.Value) { v.SetInt(n) })
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		for _, n := range []uint64{1, 0, 1<<t.Bits() - 1} {
			set(func(v reflect.Value) { v.SetUint(n) })
		}
	case reflect.Float32:
		conv(1.5, 0.0, float32(0.1), math.MaxFloat32, math.Inf(-1), math.NaN(), 3.0)
	case reflect.Float64:
		conv(1.5, 0.0, 0.1, math.MaxFloat64, math.Inf(1), math.NaN(), -1e-300, 3.0)
	case reflect.String:
		conv("a", "", "null", "1", "x: y", "l1\nl2\n", "'\"\té", "~", "- a", "true", "2001-01-01", " b ", "#", "<<", "0x1F", "*a", "\x00\u2028", "---", "- - a")
	case reflect.Interface:
		conv := func(xs ...any) {
			for _, x := range xs {
				v := reflect.New(t).Elem()
				if x != nil {
					v.Set(reflect.ValueOf(x))
				}
				l = append(l, v)
			}
		}
		if c.Engine == "yayamls" || t.NumMethod() > 0 { // encoding of any is not implemented there
			conv(nil)
		} else {
			conv("a", nil, true, 1.5, uint64(5), int64(-5), "", []any{"x", nil, true}, map[string]any{"k": "v", "l": []any{}})
		}
		for _, x := range holders(c) { // marshalled by their own methods
			if x.Type().Implements(t) {
				v := reflect.New(t).Elem()
				v.Set(x)
				l = append(l, v)
			}
		}
	}
	if isBytes(t) {
		if t.Kind() == reflect.Slice {
			for _, b := range [][]byte{[]byte("ab"), nil, {}, []byte("null"), []byte("1: x\n")} {
				set(func(v reflect.Value) {
					if b != nil {
						v.Set(reflect.ValueOf(b).Convert(t))
					}
				})
			}
		} else {
			for _, b := range []string{"abcdef", "123456", " x y z"} {
				set(func(v reflect.Value) { reflect.Copy(v, reflect.ValueOf([]byte(b))) })
			}
		}
	}
	return
}

// makeValue makes a value out of choices; the default is a full value.
func makeValue(ch *Chooser, t reflect.Type, c gen.Combo, depth int) reflect.Value {
	if l := valuesOf(t, c); len(l) > 0 {
		return l[ch.Dev(len(l))]
	}
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Pointer:
		if depth > 3 || ch.Dev(2) == 1 {
			return v
		}
		v.Set(reflect.New(t.Elem()))
		v.Elem().Set(makeValue(ch, t.Elem(), c, depth+1))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			x := v.Field(i)
			if f.Type.Kind() == reflect.Func || f.Type.Kind() == reflect.Chan || f.Name == "_" {
				continue
			}
			if !x.CanSet() {
				if !f.Anonymous {
					continue
				}
				x = reflect.NewAt(x.Type(), x.Addr().UnsafePointer()).Elem()
			}
			x.Set(makeValue(ch, f.Type, c, depth+1))
		}
	case reflect.Slice:
		n := []int{2, -1, 0, 1, 3}[ch.Dev(5)]
		if depth > 3 {
			n = -1
		}
		if n < 0 {
			return v
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			v.Index(i).Set(makeValue(ch, t.Elem(), c, depth+1))
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(makeValue(ch, t.Elem(), c, depth+1))
		}
	case reflect.Map:
		n := []int{1, -1, 0, 2}[ch.Dev(4)]
		if depth > 3 {
			n = -1
		}
		if n < 0 {
			return v
		}
		v.Set(reflect.MakeMap(t))
		if n > 0 {
			k := makeValue(ch, t.Key(), c, depth+1)
			if !k.Equal(k) { // not a number
				return v
			}
			v.SetMapIndex(k, makeValue(ch, t.Elem(), c, depth+1))
		}
		if n > 1 {
			if l := valuesOf(t.Key(), c); len(l) > 1 {
				v.SetMapIndex(l[1], makeValue(ch, t.Elem(), c, depth+1))
			}
		}
	}
	return v
}

// matches compares a document with what the value is expected to look like
// and returns how they differ.
func matches(v reflect.Value, n *yaml.Node, c gen.Combo) string {
	bad := func(what string) string {
		return fmt.Sprintf("%s is written as %s (%s)", show(v), fromYaml3(n), what)
	}
	t := v.Type()
	text := func(s string, str bool) string {
		if n.Kind != yaml.ScalarNode || n.Value != s || str && n.ShortTag() != "!!str" {
			return bad(fmt.Sprintf("a scalar %q expected", s))
		}
		return ""
	}
	switch {
	case isCustom(t):
		f := v
		if t.Kind() == reflect.Struct {
			f = v.Field(0)
		}
		kids := func(kind yaml.Kind, n *yaml.Node, l ...string) string {
			if n.Kind != kind || len(n.Content) != len(l) {
				return bad(fmt.Sprintf("%d nodes expected", len(l)))
			}
			for i := range l {
				if l[i] != "" && n.Content[i].Value != l[i] {
					return bad("its own form expected")
				}
			}
			return ""
		}
		ints := func(kind yaml.Kind, n *yaml.Node, more ...string) string {
			var l []string
			for i := 0; i < f.Len(); i++ {
				l = append(append(l, fmt.Sprint(f.Index(i).Int())), more...)
			}
			return kids(kind, n, l...)
		}
		switch t.Name() {
		case "YV", "YI":
			return kids(yaml.SequenceNode, n, fmt.Sprint(f.Int()))
		case "EV":
			return kids(yaml.SequenceNode, n, "ev", fmt.Sprint(f.Int()))
		case "YP", "YL":
			return ints(yaml.MappingNode, n, "")
		}
		if s := kids(yaml.MappingNode, n, "ep", ""); s != "" {
			return s
		}
		return ints(yaml.SequenceNode, n.Content[1])
	case isText(t):
		m := reflect.New(t)
		m.Elem().Set(v)
		data, err := m.Interface().(encoding.TextMarshaler).MarshalText()
		if err != nil {
			return ""
		}
		return text(string(data), false)
	case t == timeType:
		rt, verdict := refTimestamp(n.Value)
		if n.Kind != yaml.ScalarNode || verdict == timeNo || !sameTime(v.Interface().(time.Time), rt) {
			return bad("that timestamp expected")
		}
		return ""
	}
	if isNull(v) {
		if n.Kind != yaml.ScalarNode || n.ShortTag() != "!!null" {
			return bad("null expected")
		}
		return ""
	}
	if isBytes(t) {
		b := make([]byte, v.Len())
		reflect.Copy(reflect.ValueOf(b), v.Convert(t))
		for i := range b {
			b[i] = byte(v.Index(i).Uint())
		}
		return text(string(b), true)
	}
	switch t.Kind() {
	case reflect.Pointer:
		return matches(v.Elem(), n, c)
	case reflect.Interface:
		if v.Elem().Kind() == reflect.Pointer {
			return matches(v.Elem().Elem(), n, c)
		}
		return matches(v.Elem(), n, c)
	case reflect.Bool:
		if b, ok := refBool(n.Value); n.Kind != yaml.ScalarNode || n.Style&(yaml.DoubleQuotedStyle|yaml.SingleQuotedStyle) != 0 || !ok || b != v.Bool() {
			return bad("that boolean expected")
		}
	case reflect.String:
		return text(v.String(), true)
	case reflect.Float32, reflect.Float64:
		f, inf, nan, ok := refFloat(n.Value)
		x := v.Float()
		switch {
		case n.Kind != yaml.ScalarNode || !ok:
			return bad("a float expected")
		case nan || math.IsNaN(x):
			if nan != math.IsNaN(x) {
				return bad("that float expected")
			}
		case inf != 0 || math.IsInf(x, 0):
			if !math.IsInf(x, inf) || inf == 0 {
				return bad("that float expected")
			}
		default:
			y, _ := f.Float64()
			if t.Kind() == reflect.Float32 {
				z, _ := f.Float32()
				y = float64(z)
			}
			if x != y {
				return bad("that float expected")
			}
		}
	case reflect.Struct:
		if n.Kind != yaml.MappingNode {
			return bad("a mapping expected")
		}
		want := map[string]reflect.Value{}
		for _, f := range structFields(t, c) {
			x := f.get(v, false)
			if x.IsValid() && !(f.omitempty && isEmpty(x)) {
				want[f.key] = x
			}
		}
		for i := 0; i < len(n.Content); i += 2 {
			k := n.Content[i]
			x, ok := want[k.Value]
			if k.Kind != yaml.ScalarNode || k.ShortTag() != "!!str" || !ok {
				return bad(fmt.Sprintf("key %q not expected", k.Value))
			}
			if d := matches(x, n.Content[i+1], c); d != "" {
				return d
			}
			delete(want, k.Value)
		}
		for k := range want {
			return bad(fmt.Sprintf("key %q is missing", k))
		}
	case reflect.Slice, reflect.Array:
		if n.Kind != yaml.SequenceNode || len(n.Content) != v.Len() {
			return bad("a sequence of the same length expected")
		}
		for i := range n.Content {
			if d := matches(v.Index(i), n.Content[i], c); d != "" {
				return d
			}
		}
	case reflect.Map:
		if n.Kind != yaml.MappingNode || len(n.Content) != 2*v.Len() {
			return bad("a mapping of the same size expected")
		}
		for _, k := range v.MapKeys() {
			found := false
			why := ""
			for i := 0; i < len(n.Content) && !found; i += 2 {
				if matches(k, n.Content[i], c) == "" {
					why = matches(v.MapIndex(k), n.Content[i+1], c)
					found = why == ""
				}
			}
			if !found {
				if why != "" {
					return why
				}
				return bad("key " + show(k) + " is missing")
			}
		}
	default:
		x, ok, _ := refInt(n.Value)
		want := new(big.Int)
		if v.CanInt() {
			want.SetInt64(v.Int())
		} else {
			want.SetUint64(v.Uint())
		}
		if n.Kind != yaml.ScalarNode || n.Style&(yaml.DoubleQuotedStyle|yaml.SingleQuotedStyle) != 0 || !ok || x.Cmp(want) != 0 {
			return bad("that integer expected")
		}
	}
	return ""
}
