// Package gen enumerates Go types for which code is generated.
package gen

import (
	"fmt"
	"sort"
	"strings"
)

// Spec is one target type.
type Spec struct {
	Name string
	Decl string // declaration, "type NAME ..."
	Tag  string // what it exercises
}

// Combo is one way of generating.
type Combo struct {
	Engine                               string
	Omitempty, Disallow, PtrRecv, Inline bool
}

// Name is a package name.
func (c Combo) Name() string {
	s := "c" + c.Engine[:1]
	for _, o := range []struct {
		on   bool
		name string
	}{{c.Omitempty, "o"}, {c.Disallow, "d"}, {c.PtrRecv, "p"}, {c.Inline, "i"}} {
		if o.on {
			s += o.name
		}
	}
	return s
}

// Combos are the explored combinations of engine and options.
func Combos(all bool) (l []Combo) {
	for _, e := range []string{"yayamls", "goyaml"} {
		for i := 0; i < 16; i++ {
			c := Combo{e, i&1 > 0, i&2 > 0, i&4 > 0, i&8 > 0}
			switch i {
			case 0, 1, 8, 15, 6:
			default:
				if !all {
					continue
				}
			}
			l = append(l, c)
		}
	}
	return
}

type expr struct {
	src        string
	comparable bool
	named      bool
	leaf       string
}

// exprs of depth 0
func leaves() (l []expr) {
	for _, s := range strings.Fields("bool int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 float32 float64 string NI NS NB NU NF NA NSt TV time.Duration") {
		l = append(l, expr{s, true, true, s})
	}
	for _, s := range strings.Fields("[3]byte YV EV") {
		l = append(l, expr{s, true, false, s})
	}
	for _, s := range strings.Fields("[]byte time.Time NBy NL NM NUs NSO TP YP EP json.RawMessage net.IP any") {
		l = append(l, expr{s, false, s != "[]byte", s})
	}
	return
}

func wrap(x expr) (l []expr) {
	for _, f := range []string{"[]%s", "[2]%s", "*%s", "map[string]%s", "map[%s]int", "struct { Z %s }"} {
		if strings.HasPrefix(f, "map[%s]") && !x.comparable {
			continue
		}
		comp := x.comparable && (f[0] == '[' && f[1] == '2' || f[0] == 's')
		l = append(l, expr{fmt.Sprintf(f, x.src), comp, false, x.leaf})
	}
	return
}

// Specs enumerates the target types.
func Specs(deep bool) (l []Spec) {
	var e0, e1, e2 []expr
	e0 = leaves()
	for _, x := range e0 {
		e1 = append(e1, wrap(x)...)
	}
	core := map[string]bool{"int": true, "NSt": true}
	if deep {
		for _, s := range strings.Fields("string []byte time.Time TV NL") {
			core[s] = true
		}
	}
	for _, x := range e1 {
		if core[x.leaf] {
			e2 = append(e2, wrap(x)...)
		}
	}
	n := 0
	add := func(tag, decl string) {
		name := fmt.Sprintf("S%04d", n)
		n++
		l = append(l, Spec{name, "type " + name + " " + strings.ReplaceAll(decl, "$", name), tag})
	}
	for _, es := range [][]expr{e0, e1, e2} {
		for _, x := range es {
			if x.src[0] != '*' && x.src != "any" && x.src != "time.Time" { // no methods, no exported fields
				add("direct "+x.src, x.src)
			}
			add("field "+x.src, "struct { F "+x.src+"; G int }")
		}
	}
	for _, es := range [][]expr{e0, e1} {
		for _, x := range es {
			add("omitempty "+x.src, "struct { F "+x.src+" `yaml:\"f,omitempty\"`; G int }")
		}
	}
	for _, d := range special {
		add("special "+d, d)
	}
	for _, k := range keyNames {
		add(fmt.Sprintf("key %q", k), fmt.Sprintf("struct { F int `yaml:%q`; G string }", k))
	}
	for _, k := range fieldNames {
		add("name "+k, "struct { "+k+" int; "+k+"X []int; X map[string]"+"string }")
	}
	return
}

var keyNames = []string{"a b", "null", "1", "true", "~", "é", "a:b", "a: b", "- x", "'q'", "#c", "x #y", " lead", "trail ", "&a", "*a", "!t", "{}", "[", "2001-01-01", "-", "?", "<<x", "0x1F", "1.5", "%d", "a\tb", "F", "key"}

var fieldNames = []string{"In", "Out", "V", "Key", "Err", "Yamly", "Type", "Map", "V1", "É", "Ключ", "A_B", "Decode", "Encode", "Yaml", "M"}

// special declarations; $ is the name of the type
var special = []string{
	// recursion
	"struct { V int; Next *$ }",
	"struct { V int; Kids []$ }",
	"struct { V int; Kids map[string]$ }",
	"struct { V int; Kids map[string]*$; More []*$ }",
	"struct { V int; H struct { P *$ } }",
	"[]$",
	"map[string]$",
	"struct { V int; O *Rec1 }",
	// embedding
	"struct { NSt; F int }",
	"struct { *NSt; F int }",
	"struct { F int; NSt }",
	"struct { NSt `yaml:\"nst\"`; F int }",
	"struct { NSt `yaml:\",inline\"`; F int }",
	"struct { *NSt `yaml:\",inline\"`; F int }",
	"struct { E NSt `yaml:\",inline\"`; F int }",
	"struct { E *NSt `yaml:\",inline\"`; F int }",
	"struct { E struct { X int; Y string } `yaml:\",inline\"`; F int }",
	"struct { E Inl1 `yaml:\",inline\"`; F int }",
	"struct { Inl1; F int }",
	"struct { *Inl1; F int }",
	"struct { NSt; A string }", // the outer field shadows
	"struct { NI; F int }",
	"struct { NL; F int }",
	"struct { NM; F int }",
	"struct { *NI; F int }",
	"struct { NS `yaml:\"ns\"`; F int }",
	"struct { TV; F int }",
	"struct { YVS; F int }",
	"struct { low; F int }",
	"struct { low `yaml:\",inline\"`; F int }",
	"struct { ext.Ext; F int }",
	// tags
	"struct { F int `yaml:\"-\"`; G int }",
	"struct { F func() `yaml:\"-\"`; G int }",
	"struct { F chan int `yaml:\"-\"`; G int }",
	"struct { f int; G int }",
	"struct { f func(); G int }",
	"struct { _ int; G int }",
	"struct { F int `json:\"x\"`; G int }",
	"struct { F int `yaml:\"f\" json:\"x\"`; G int }",
	"struct { F int `yaml:\",omitempty\"`; G int }",
	"struct { F int `yaml:\"f,omitempty,flow\"`; G int }",
	"struct { F, G int; H string `yaml:\"h\"`; I bool `yaml:\"i,omitempty\"` }",
	"struct { }",
	"struct { F struct{}; G int }",
	"struct { F []struct{}; G int }",
	"struct { F *struct{}; G int }",
	"struct { A struct { B struct { C []map[string]*int } } }",
	"struct { A struct { X int }; B struct { X string } }",
	"struct { A struct { X int }; B struct { X int } }",
	"struct { A []struct { X int `yaml:\"x\"` }; B struct { X int `yaml:\"y\"` } }",
	"struct { A struct { X NSt; Y *ext.Ext } }",
	"struct { A struct { NSt } }",
	"struct { A struct { x int; Y int } }",
	// interfaces
	"struct { F IY; G int }",
	"struct { F IY `yaml:\"f,omitempty\"`; G int }",
	"struct { F *IY; G int }",
	// packages
	"struct { A ext.Ext; B decode.D; C v2.V; D dash.D; E yamly.Y; F encode.E }",
	"struct { A *ext.Ext; B []decode.D; C map[string]v2.V }",
	"struct { A ext.Ints; B ext.Str; C ext.M }",
	"struct { A struct { B ext.Ext } }",
	"ext.Ext",
	"ext.Ints",
	"struct { A big.Int; B *big.Int; C url.URL }",
	"struct { A, B NSt; C []NSt; D map[string]NSt }",
	"struct { A **int; B ***string; C *[]int; D *map[string]int; E *[2]int; F *[]byte }",
	"struct { A []*int; B [2]*NSt; C map[string]*NSt; D []*NSt }",
	"struct { A map[string]map[string][]int; B [][]int; C [2][2]int }",
	"struct { A map[[2]int]string; B map[NSt]int; C map[bool]int; D map[float64]int }",
	"struct { A []any; B map[string]any; C [2]any; D *any }",
	"struct { A [0]int; B [0]byte; C [1]byte }",
	"struct { A, B, C, D, E, F, G, H time.Time }",
	"struct { A *time.Time; B []time.Time; C map[string]time.Time; D *time.Duration }",
	"struct { F TU; G TI; H TL; I TM }",
	"struct { F YI; G YL; H *YI; I []YL; J map[string]YI; K *YL; L [2]YI }",
	"struct { F YI `yaml:\"f,omitempty\"`; G YL `yaml:\"g,omitempty\"`; H *YL `yaml:\"h,omitempty\"` }",
	"struct { F TU `yaml:\"f,omitempty\"`; G TI `yaml:\"g,omitempty\"`; H TL `yaml:\"h,omitempty\"`; I TM `yaml:\"i,omitempty\"` }",
	"struct { A *TU; B []TU; C map[string]TU; D [2]TI; E *TI; F map[TI]TL }",
	"struct { A *TL; B []TL; C *TM; D []TM; E map[TU]TM }",
	"struct { A *TP; B []TP; C map[string]TP; D []*TP; E *TV; F map[TV]TV }",
	"struct { A *YP; B []YP; C map[string]YP; D []*YP; E *YV; F map[string]*YV }",
	"struct { A *EP; B []EP; C map[string]EP; D []*EP; E *EV; F map[string]*EV }",
}

// Types is the source shared by all packages, for one engine; stubs adds
// methods as the bootstrap generator does.
func Types(pkg, module, engine string, specs []Spec, stubs, ptr bool) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n", pkg)
	for _, i := range []string{"encoding/json", "fmt", "math/big", "net", "net/url", "strconv", "strings", "time"} {
		fmt.Fprintf(&sb, "\t%q\n", i)
	}
	fmt.Fprintf(&sb, "\tlib %q\n", "github.com/KSpaceer/yamly")
	if engine == "goyaml" {
		fmt.Fprintf(&sb, "\tyaml3 %q\n", "gopkg.in/yaml.v3")
	}
	var paths []string
	for p := range Externals {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		name := strings.Fields(Externals[p])[1]
		fmt.Fprintf(&sb, "\t%s %q\n", name, module+"/"+p)
	}
	sb.WriteString(")\n" + common)
	sb.WriteString(engineTypes[engine])
	for _, s := range specs {
		sb.WriteString(s.Decl + "\n")
		if stubs {
			recv := s.Name
			if ptr {
				recv = "*" + recv
			}
			fmt.Fprintf(&sb, "func (%s) MarshalYAML() ([]byte, error) { return nil, nil }\nfunc (*%s) UnmarshalYAML([]byte) error { return nil }\nfunc (%s) MarshalYamly(lib.Inserter) {}\nfunc (*%s) UnmarshalYamly(lib.Decoder) {}\n", recv, s.Name, recv, s.Name)
		}
	}
	return sb.String()
}

// Externals are packages types are taken from.
var Externals = map[string]string{
	"ext":        "package ext\n\ntype Ext struct { A int; B string `yaml:\"b\"`; hidden int }\ntype Ints []int\ntype Str string\ntype M map[string]Ext\n",
	"x/decode":   "package decode\n\ntype D struct { A int }\n",
	"x/encode":   "package encode\n\ntype E struct { A int }\n",
	"x/yamly":    "package yamly\n\ntype Y struct { A int }\n",
	"x/v2":       "package v2\n\ntype V struct { A int }\n",
	"x/da-sh.go": "package dash\n\ntype D struct { A int }\n",
}

const common = `
var (
	_ json.RawMessage
	_ big.Int
	_ net.IP
	_ url.URL
	_ time.Time
	_ ext.Ext
	_ decode.D
	_ encode.E
	_ yamly.Y
	_ v2.V
	_ dash.D
)

type (
	NI  int
	NS  string
	NB  bool
	NU  uint8
	NF  float32
	NBy []byte
	NL  []int
	NA  [2]string
	NM  map[string]int
	NUs []NU
	IY  interface {
		MarshalYamly(lib.Inserter)
		UnmarshalYamly(lib.Decoder)
	}
	NSt struct {
		A int
		B string
	}
	NSO struct {
		A int      ` + "`yaml:\"a,omitempty\"`" + `
		B []string
	}
	NSO2 struct {
		C int
		B string
	}
	Inl1 struct {
		NSt ` + "`yaml:\",inline\"`" + `
		D   bool
	}
	low struct {
		X int
		y int
	}
	Rec1 struct {
		N int
		O *Rec2
	}
	Rec2 struct {
		M map[string]Rec1
	}
)

// TV is marshalled as a text by value.
type TV string

func (v TV) MarshalText() ([]byte, error)     { return []byte("<" + string(v) + ">"), nil }
func (v *TV) UnmarshalText(data []byte) error {
	s := string(data)
	if len(s) < 2 || s[0] != '<' || s[len(s)-1] != '>' {
		return fmt.Errorf("not a TV: %q", s)
	}
	*v = TV(s[1 : len(s)-1])
	return nil
}

// TP is marshalled as a text by pointer.
type TP struct{ L []string }

func (v *TP) MarshalText() ([]byte, error) { return []byte("(" + strings.Join(v.L, "/") + ")"), nil }
func (v *TP) UnmarshalText(data []byte) error {
	s := string(data)
	if len(s) < 2 || s[0] != '(' || s[len(s)-1] != ')' {
		return fmt.Errorf("not a TP: %q", s)
	}
	v.L = nil
	if len(s) > 2 {
		v.L = strings.Split(s[1:len(s)-1], "/")
	}
	return nil
}

// TU, TI, TL and TM are marshalled as texts, other kinds underlie them.
type (
	TU [2]byte
	TI int
	TL []int
	TM map[string]int
)

func (v TU) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("u%02x%02x", v[0], v[1])), nil }
func (v *TU) UnmarshalText(data []byte) error {
	if len(data) != 5 {
		return fmt.Errorf("not a TU: %q", data)
	}
	_, err := fmt.Sscanf(string(data), "u%02x%02x", &v[0], &v[1])
	return err
}
func (v TI) MarshalText() ([]byte, error) { return []byte("i" + strconv.Itoa(int(v))), nil }
func (v *TI) UnmarshalText(data []byte) error {
	n, err := strconv.Atoi(strings.TrimPrefix(string(data), "i"))
	if err != nil || data[0] != 'i' {
		return fmt.Errorf("not a TI: %q", data)
	}
	*v = TI(n)
	return nil
}
func (v TL) MarshalText() ([]byte, error) { return []byte("l" + strings.ReplaceAll(strings.Trim(fmt.Sprint([]int(v)), "[]"), " ", "_")), nil }
func (v *TL) UnmarshalText(data []byte) error {
	if len(data) < 1 || data[0] != 'l' {
		return fmt.Errorf("not a TL: %q", data)
	}
	*v = TL{}
	for _, s := range strings.FieldsFunc(string(data[1:]), func(r rune) bool { return r == '_' }) {
		n, err := strconv.Atoi(s)
		if err != nil {
			return err
		}
		*v = append(*v, n)
	}
	return nil
}
func (v TM) MarshalText() ([]byte, error) { return []byte("m" + strconv.Itoa(len(v))), nil }
func (v *TM) UnmarshalText(data []byte) error {
	n, err := strconv.Atoi(strings.TrimPrefix(string(data), "m"))
	if err != nil || data[0] != 'm' {
		return fmt.Errorf("not a TM: %q", data)
	}
	*v = TM{}
	for i := 0; i < n; i++ {
		(*v)[strconv.Itoa(i)] = i
	}
	return nil
}

// YV marshals itself by value.
type YV struct{ N int }

func (v YV) MarshalYamly(out lib.Inserter) {
	out.StartSequence()
	out.InsertInteger(int64(v.N))
	out.EndSequence()
}
func (v *YV) UnmarshalYamly(in lib.Decoder) {
	st := in.Sequence()
	for st.HasUnprocessedItems() {
		v.N = int(in.Integer(64))
	}
}

// YI and YL marshal themselves, other kinds underlie them.
type (
	YI int
	YL []int
)

func (v YI) MarshalYamly(out lib.Inserter)    { YV{int(v)}.MarshalYamly(out) }
func (v *YI) UnmarshalYamly(in lib.Decoder) {
	var x YV
	x.UnmarshalYamly(in)
	*v = YI(x.N)
}
func (v YL) MarshalYamly(out lib.Inserter)    { (&YP{v}).MarshalYamly(out) }
func (v *YL) UnmarshalYamly(in lib.Decoder) {
	var x YP
	x.UnmarshalYamly(in)
	*v = x.N
}

// YVS can be embedded.
type YVS struct{ X int }

// YP marshals itself by pointer.
type YP struct{ N []int }

func (v *YP) MarshalYamly(out lib.Inserter) {
	out.StartMapping()
	for _, n := range v.N {
		out.InsertInteger(int64(n))
		out.InsertNull()
	}
	out.EndMapping()
}
func (v *YP) UnmarshalYamly(in lib.Decoder) {
	v.N = nil
	st := in.Mapping()
	for st.HasUnprocessedItems() {
		v.N = append(v.N, int(in.Integer(64)))
		in.Skip()
	}
}
`

var engineTypes = map[string]string{
	"yayamls": `
// EV has methods of the engine by value.
type EV struct{ N int }

func (v EV) MarshalYAML() ([]byte, error) { return []byte(fmt.Sprintf("[ev, %d]", v.N)), nil }
func (v *EV) UnmarshalYAML(data []byte) error {
	_, err := fmt.Sscanf(strings.Join(strings.FieldsFunc(string(data), func(r rune) bool { return strings.ContainsRune("-[], \n\"", r) }), " "), "ev %d", &v.N)
	return err
}

// EP has methods of the engine by pointer.
type EP struct{ N []int }

func (v *EP) MarshalYAML() ([]byte, error) {
	s := "ep:\n"
	for _, n := range v.N {
		s += fmt.Sprintf("- %d\n", n)
	}
	return []byte(s), nil
}
func (v *EP) UnmarshalYAML(data []byte) error {
	v.N = nil
	l := strings.FieldsFunc(string(data), func(r rune) bool { return strings.ContainsRune("-:[], \n\"", r) })
	if len(l) == 0 || l[0] != "ep" {
		return fmt.Errorf("not an EP: %q", data)
	}
	for _, s := range l[1:] {
		var n int
		if s == "null" {
			continue
		}
		if _, err := fmt.Sscanf(s, "%d", &n); err != nil {
			return err
		}
		v.N = append(v.N, n)
	}
	return nil
}
`,
	"goyaml": `
// EV has methods of the engine by value.
type EV struct{ N int }

func (v EV) MarshalYAML() (any, error) { return []any{"ev", v.N}, nil }
func (v *EV) UnmarshalYAML(n *yaml3.Node) error {
	if n.Kind != yaml3.SequenceNode || len(n.Content) != 2 {
		return fmt.Errorf("not an EV")
	}
	return n.Content[1].Decode(&v.N)
}

// EP has methods of the engine by pointer.
type EP struct{ N []int }

func (v *EP) MarshalYAML() (any, error) { return map[string][]int{"ep": v.N}, nil }
func (v *EP) UnmarshalYAML(n *yaml3.Node) error {
	var m map[string][]int
	err := n.Decode(&m)
	if err == nil && m["ep"] == nil {
		return fmt.Errorf("not an EP")
	}
	v.N = m["ep"]
	if len(v.N) == 0 {
		v.N = nil
	}
	return err
}
var _ = strings.Join
`,
}
