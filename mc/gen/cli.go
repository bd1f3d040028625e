package gen

import (
	"fmt"
	"strings"
)

// Layout is one way of calling the command line tool: on which package, from
// where and with which arguments. $DIR in arguments is the package directory.
type Layout struct {
	Name   string
	Module string   // text of go.mod's module line, "" for the shared module
	Dir    string   // package directory inside of the module
	Pkg    string   // package name
	Args   []string // arguments; none: the directory is given by the working directory
	Gofile bool     // with GOFILE, as from go generate
	Tags   string   // build tags the result needs
	Output string
}

// Layouts are the ways of calling the tool.
var Layouts = []Layout{
	{Name: "absolute directory", Dir: "la/abs", Pkg: "abs", Args: []string{"$DIR"}},
	{Name: "relative directory", Dir: "la/rel", Pkg: "rel", Args: []string{"./la/rel"}},
	{Name: "relative directory with a trailing slash", Dir: "la/slash", Pkg: "slash", Args: []string{"la/slash/"}},
	{Name: "working directory", Dir: "la/cwd", Pkg: "cwd"},
	{Name: "go generate", Dir: "la/gen", Pkg: "gen", Gofile: true},
	{Name: "package name differs", Dir: "la/some-dir.v2", Pkg: "other", Args: []string{"$DIR"}},
	{Name: "deep directory", Dir: "la/a/b/c/d", Pkg: "d", Args: []string{"$DIR"}},
	{Name: "output name", Dir: "la/out", Pkg: "out", Args: []string{"$DIR"}, Output: "zz_custom.go"},
	{Name: "build tag", Dir: "la/tag", Pkg: "tag", Args: []string{"$DIR"}, Tags: "sometag"},
	{Name: "build tags", Dir: "la/tags", Pkg: "tags", Args: []string{"$DIR"}, Tags: "tagone,tagtwo"},
	{Name: "module root", Module: "module example.com/root", Dir: ".", Pkg: "root", Args: []string{"$DIR"}},
	{Name: "module root, working directory", Module: "module example.com/rootcwd", Dir: ".", Pkg: "root"},
	{Name: "quoted module path", Module: "module \"example.com/quoted\"", Dir: "sub", Pkg: "sub", Args: []string{"$DIR"}},
	{Name: "commented module path", Module: "// module wrong\nmodule   example.com/commented // module x", Dir: "sub", Pkg: "sub", Args: []string{"$DIR"}},
	{Name: "version in module path", Module: "module example.com/mod/v3", Dir: "in/ner", Pkg: "ner", Args: []string{"$DIR"}},
	{Name: "package path like module path", Module: "module gen", Dir: "gen/gen", Pkg: "gen", Args: []string{"$DIR"}},
}

// CLISpecs are the types of the packages the tool is called on.
var CLISpecs = []Spec{
	{"S9000", "type S9000 struct {\n\tNSt\n\tF []int\n\tM map[string]int `yaml:\"m\"`\n\tP *NSO `yaml:\"p,omitempty\"`\n\tO *S9001\n}", "cli S9000"},
	{"S9001", "type S9001 struct {\n\tB *S9000\n\tT []TV\n}", "cli S9001"},
	{"S9002", "type S9002 []S9001", "cli S9002"},
}

// Refused are calls which cannot be fulfilled.
var Refused = [][]string{
	{},
	{"-type", ""},
	{"-engine", "none", "-type", "S9000"},
	{"-type", "S9000", "-output", "sub/x.go"},
	{"-type", "S9000", "-output", "../x.go"},
	{"-type", "Absent"},
	{"-type", "S9000", "a", "b"},
	{"-type", "S9000", "types.go"},
	{"-type", "S9000", "absent"},
	{"-type", "S9000", "-unknown-flag"},
}

// Unsupported are types no code exists for.
var Unsupported = []string{
	"struct { F chan int }", "struct { F func() }", "struct { F complex128 }", "struct { F uintptr }",
	"struct { F interface{ Foo() } }", "map[string]chan int", "[]func()", "struct { F map[string][]*chan int }",
	"struct { F struct { G complex64 } }",
}

// NameCase is a package whose names the tool has to cope with.
type NameCase struct {
	Name string
	Pkgs [][2]string // packages next to it: directory and text
	Src  string      // declarations; a type S is generated
	Type string
}

// NameCases combine names of packages and types.
func NameCases() (l []NameCase) {
	const t = "type T struct{ A int }\n"
	for _, b := range []string{"a", "v", "v2", "go-x", "x.v3", "x+y", "x~y", "_x", "x_", "go", "func", "type", "3d", "in", "out", "key", "zeroValue", "structMappingState",
		"v1", "yamly", "decode", "encode", "yaml", "string", "int", "error", "any", "nil", "make", "append", "len", "bool", "new", "err", "m", "ok", "node", "vendor1"} {
		l = append(l, NameCase{"package " + b, [][2]string{{b, "package pk\n\n" + t}},
			"import x0 \"$/" + b + "\"\n\ntype S struct { F x0.T; G []x0.T; M map[string]*x0.T; K int; E *x0.T; I any }\n", "S"})
	}
	for _, a := range []string{"yamly", "decode", "encode", "yaml", "time", "x", "in"} {
		for _, b := range []string{"yamly", "decode", "encode", "yaml", "time", "x", "in"} {
			l = append(l, NameCase{"packages " + a + " and " + b, [][2]string{{"a/" + a, "package pk\n\n" + t}, {"b/" + b, "package " + b + "\n\n" + t + "type Time struct { B int }\n"}},
				"import x0 \"$/a/" + a + "\"\nimport x1 \"$/b/" + b + "\"\nimport tt \"time\"\n\ntype S struct { F x0.T; G []x1.T; M map[string]tt.Time; K tt.Duration; O x1.Time; P *x1.Time }\n", "S"})
		}
	}
	// paths which differ in punctuation or case only, or have parts with a meaning elsewhere
	paths := []string{"a/b/c", "a-b/c", "a.b/c", "a_b/c", "ab/c", "a/bc/c", "vendors/c", "a/vendorb/c", "a/xvendor/c", "internal/c", "a/testdata/c", "v2/c", "A/bd/c"}
	for i, a := range paths {
		for _, b := range paths[:i+1] {
			src := "import x0 \"$/" + a + "\"\nimport x1 \"$/" + b + "\"\n\ntype S struct { F x0.T; G []x1.T; H *x0.U; I map[string]x1.U; J x0.T; K x1.T }\n"
			l = append(l, NameCase{"paths " + a + " and " + b, [][2]string{
				{b, "package c\n\ntype T struct{ A int }\n\ntype U struct{ T T }\n"},
				{a, "package c\n\ntype T struct{ B string }\n\ntype U struct{ T []T }\n"}}, src, "S"})
		}
	}
	for _, n := range []string{"Имя", "имя", "élan", "Ünder", "x", "err", "first", "A_B", "T_", "state", "value", "v9x", "i", "ok", "m", "strconv", "time", "rune", "node", "MarshalYAML", "zeroValue"} {
		l = append(l, NameCase{"type " + n, nil, "type " + n + " struct { F int; P *" + n + "; L []" + n + "; M map[string]" + n + "; T uu }\n\ntype uu struct { A *" + n + "; B []" + n + "; C map[string]" + n + " }\n", n},
			NameCase{"key type " + n, nil, "type " + n + " string\n\ntype S struct { F " + n + "; P *" + n + "; L []" + n + "; M map[" + n + "]" + n + "; A [2]" + n + "; E struct{ X " + n + " `yaml:\"x,omitempty\"` } }\n", "S"})
	}
	// names which lead to the same function name
	same := []string{"AB", "A_B", "A_b", "A__B"}
	for mask := 3; mask < 1<<len(same); mask++ {
		src, fields := "", ""
		for i, n := range same {
			if mask>>i&1 == 1 {
				src += "type " + n + " struct { F" + strings.Repeat("x", i) + " int }\n"
				fields += "X" + n + " " + n + "; Y" + n + " []" + n + "; "
			}
		}
		l = append(l, NameCase{fmt.Sprintf("colliding names %d", mask), nil, src + "type S struct { " + fields + " }\n", "S"})
	}
	return
}
