package checks

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"verif/mc/fw"
	"verif/mc/gen"
)

func init() {
	fw.Register(fw.Check{
		Property:  "P18",
		Technique: "exhaustive enumeration of Go types and option sets through the real generator (several times each) and the compiler, and of flag sets, ways of calling and orders of types through the real command line tool, whose code is compiled, linked and run against the references of P13 and P14",
		Assumptions: []string{
			"struct fields have distinct keys; fields of functions, channels and interfaces of one engine are not supported",
			"no type is named like a variable or an import of generated code (in, out, key, v1, decode, ...), nor generic with arguments of named types",
			"the tool is called on importable packages (not main) of modules",
		},
		Run: p18Run,
	})
}

type cliTypes struct {
	name  string
	types []*generated
}

var cliPkgs []cliTypes

// AddCLI registers types with code made by the command line tool.
func AddCLI(name string, c gen.Combo, types map[string]func() any) {
	p := cliTypes{name: name}
	for n, f := range types {
		p.types = append(p.types, &generated{c, n, reflect.TypeOf(f()).Elem()})
	}
	sort.Slice(p.types, func(i, j int) bool { return p.types[i].spec < p.types[j].spec })
	cliPkgs = append(cliPkgs, p)
}

func p18Run(c *fw.Ctx) {
	specs := genSpecs(c)
	bad := map[string]string{}
	for _, p := range genProblems() {
		if p.Stage == "cli" {
			p := p
			c.Case("yamlygen: "+p.Tag+" "+p.Combo, func() string { return p.Text })
			continue
		}
		bad[p.Combo+" "+p.Spec] += p.Stage + ": " + p.Text + "; "
	}
	for _, o := range genCombos {
		for _, s := range specs {
			c.State(o.Name() + " " + s.Name)
			c.AddTransitions(5)
			c.AddTraces(1)
			c.Case(fmt.Sprintf("%s: %s", o.Name(), s.Tag), func() string { return strings.TrimSuffix(bad[o.Name()+" "+s.Name], "; ") })
		}
	}
	data, _ := os.ReadFile(GenDir + "/cli.json")
	runs, _ := strconv.Atoi(strings.TrimSpace(string(data)))
	c.Extra("command_line_runs", runs)
	c.AddTransitions(runs)
	type job struct {
		name string
		g    *generated
	}
	dev := c.Pick(1, 2)
	fw.Parallel(c, func(emit func(job) bool) {
		for _, p := range cliPkgs {
			for _, g := range p.types {
				if !emit(job{p.name, g}) {
					return
				}
			}
		}
	}, func(j job) {
		head := fmt.Sprintf("yamlygen: %s: %s: %s", j.name, j.g.combo.Name(), j.g.spec)
		failed := false
		one := func(key string, f func() string) bool {
			c.State(head + key)
			c.Case(head+key, func() string {
				d := fw.Protect(f)
				failed = failed || d != ""
				return d
			})
			return !failed && !c.Expired()
		}
		Enumerate(dev, func(ch *Chooser) bool {
			v := makeValue(ch, j.g.typ, j.g.combo, 0)
			return one(": value "+show(v), func() string { return p13Value(c, j.g, nil, v) })
		})
		failed = false
		Enumerate(dev, func(ch *Chooser) bool {
			d := makeDoc(ch, j.g.typ, j.g.combo, 0)
			if !distinctKeys(d) {
				return true
			}
			return one(": document "+d.String(), func() string {
				if s := p14Doc(c, j.g, d, false); s != "" {
					return s
				}
				return p14Doc(c, j.g, d, true)
			})
		})
	})
	c.Bound("%d types × %d combinations generated 5 times and compiled", len(specs), len(genCombos))
	c.Bound("yamlygen: all 32 combinations of flags, %d ways of calling, orders of 3 types referring to each other, %d calls to be refused; each call twice", len(gen.Layouts), len(gen.Refused)+2*len(gen.Unsupported))
	c.Bound("code of the tool run on values and documents with up to %d deviations", dev)
}
