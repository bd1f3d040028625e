package checks

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"

	"gopkg.in/yaml.v3"

	"verif/mc/fw"
	"verif/mc/gen"
)

func init() {
	fw.Register(fw.Check{
		Property:  "P13",
		Technique: "exhaustive enumeration of Go types, generator options and values; the real generator's code is compiled and run, marshalled documents are compared with a reflective reference and read back by the code of both engines",
		Assumptions: []string{
			"fields of a struct have distinct keys; the inner values of types with their own methods round-trip",
			"values behind pointers which are represented by null come back as nil pointers, empty values of omitempty fields as zero values",
			"encoding any with yayamls is not implemented in the repository, only nil is used there",
		},
		Run: p13Run,
	})
}

// maxDev lets experiments explore less.
func maxDev(n int) int {
	if m, err := strconv.Atoi(os.Getenv("MC_DEV")); err == nil && m < n {
		return m
	}
	return n
}

func genSpecs(c *fw.Ctx) []gen.Spec { return gen.Specs(c.Thorough()) }

func p13Value(c *fw.Ctx, g *generated, cross *generated, v reflect.Value) string {
	ptr := reflect.New(g.typ)
	ptr.Elem().Set(v)
	before := show(ptr.Elem())
	data, err := g.marshal(ptr)
	if err != nil {
		return fmt.Sprintf("marshalling %s fails: %v", before, err)
	}
	if after := show(ptr.Elem()); after != before {
		return fmt.Sprintf("marshalling changes %s to %s", before, after)
	}
	var doc yaml.Node
	if err := yaml.Unmarshal(data, &doc); err != nil {
		return fmt.Sprintf("marshalling %s gives a document which cannot be parsed: %v\n%s", before, err, data)
	}
	if len(doc.Content) == 1 {
		if d := matches(ptr.Elem(), doc.Content[0], g.combo); d != "" {
			return fmt.Sprintf("marshalling %s gives\n%s\n%s", before, data, d)
		}
	}
	if holds(ptr.Elem(), nil) {
		c.AddTraces(1)
		return ""
	}
	want := show(kept(ptr.Elem(), g.combo, false))
	back := reflect.New(g.typ)
	if err := g.unmarshal(data, back); err != nil {
		return fmt.Sprintf("unmarshalling what %s is marshalled to fails: %v\n%s", before, err, data)
	}
	if got := show(back.Elem()); got != want {
		return fmt.Sprintf("%s is marshalled to\n%s\nand unmarshalled as %s, expected %s", before, data, got, want)
	}
	if cross != nil {
		back := reflect.New(cross.typ)
		if err := cross.unmarshal(data, back); err != nil {
			return fmt.Sprintf("unmarshalling what %s is marshalled to with the other engine fails: %v\n%s", before, err, data)
		}
		if got := show(back.Elem()); got != want {
			return fmt.Sprintf("%s is marshalled to\n%s\nand unmarshalled by the other engine as %s, expected %s", before, data, got, want)
		}
	}
	c.AddTraces(1)
	c.AddTransitions(3)
	return ""
}

func p13Run(c *fw.Ctx) {
	specs := genSpecs(c)
	dev := maxDev(2)
	for _, p := range genProblems() {
		p := p
		if p.Stage == "repeat" {
			continue
		}
		c.Case(fmt.Sprintf("%s of %s with %s", p.Stage, p.Tag, p.Combo), func() string { return p.Text })
	}
	type job struct {
		s gen.Spec
		g *generated
	}
	fw.Parallel(c, func(emit func(job) bool) {
		for _, s := range specs {
			var names []string
			for n := range generatedTypes[s.Name] {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				if !emit(job{s, generatedTypes[s.Name][n]}) {
					return
				}
			}
		}
	}, func(j job) {
		other := j.g.combo
		other.Engine = map[string]string{"yayamls": "goyaml", "goyaml": "yayamls"}[other.Engine]
		cross := generatedTypes[j.s.Name][other.Name()]
		if usesEngineTypes(j.g.typ, map[reflect.Type]bool{}) {
			cross = nil
		}
		failed := false
		Enumerate(dev, func(ch *Chooser) bool {
			v := makeValue(ch, j.g.typ, j.g.combo, 0)
			text := show(v)
			c.State(j.g.combo.Name() + j.s.Name + text)
			c.Case(fmt.Sprintf("%s: %s: %s", j.g.combo.Name(), j.s.Tag, text), func() string {
				detail := fw.Protect(func() string { return p13Value(c, j.g, cross, v) })
				failed = detail != ""
				return detail
			})
			return !failed && !c.Expired()
		})
	})
	c.Bound("%d target types (all compositions of slices, arrays, pointers, maps as values and keys, anonymous structs over %s), %d combinations of engine and options", len(specs), "37 leaf types", len(genCombos))
	c.Bound("values with up to %d deviations from a full value, each position over all values of its type's list", dev)
}

// usesEngineTypes tells whether types with methods of one engine are inside.
func usesEngineTypes(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Name() {
	case "EV", "EP":
		return true
	}
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Array:
		return usesEngineTypes(t.Elem(), seen)
	case reflect.Map:
		return usesEngineTypes(t.Key(), seen) || usesEngineTypes(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if usesEngineTypes(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}
