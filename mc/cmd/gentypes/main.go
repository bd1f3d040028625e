// Command gentypes writes a module with the enumerated types, runs the code
// generator of the repository on every one of them with every combination of
// engine and options, compiles what it emitted and writes a driver which
// links everything that compiled with the explorer.
//
//	gentypes DIR quick|thorough VERIFROOT
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verif/mc/gen"
)

const module = "verif/gen"

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "gentypes:", err)
		os.Exit(3)
	}
}

func write(path, text string) {
	check(os.MkdirAll(filepath.Dir(path), 0o755))
	check(os.WriteFile(path, []byte(text), 0o644))
}

func run(dir string, args ...string) (string, error) {
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	return string(out), err
}

// genmain runs the generating program and returns which targets were begun
// and not ended.
func genmain(dir string, skip []string, only string) (open map[string]string, out string, err error) {
	args := []string{dir, module, strings.Join(skip, ",")}
	if only != "" {
		args = append(args, only)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, dir+"/genmain/genmain", args...)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err = cmd.Run()
	open = map[string]string{}
	for _, l := range strings.Split(stdout.String(), "\n") {
		f := strings.Fields(l)
		switch {
		case len(f) == 4 && f[0] == "begin":
			open[f[1]] = f[2] + " " + f[3]
		case len(f) == 2 && f[0] == "end":
			delete(open, f[1])
		}
	}
	out = stderr.String()
	if len(out) > 300 {
		out = out[:300]
	}
	return
}

// base names the package whose types are given to the generator.
func base(c gen.Combo) string {
	if c.PtrRecv {
		return c.Engine + "p"
	}
	return c.Engine
}

// Problem is a target type whose code could not be generated or compiled.
type Problem struct{ Combo, Spec, Tag, Stage, Text string }

func main() {
	dir, tier, root := os.Args[1], os.Args[2], os.Args[3]
	thorough := tier == "thorough"
	specs, combos := gen.Specs(thorough), gen.Combos(thorough)
	mod, err := os.ReadFile(root + "/mc/go.mod")
	check(err)
	sum, err := os.ReadFile(root + "/mc/go.sum")
	check(err)
	text := strings.Replace(string(mod), "module verif/mc", "module "+module, 1)
	write(dir+"/go.mod", text+"\nrequire verif/mc v0.0.0\n\nreplace verif/mc => "+root+"/mc\n")
	write(dir+"/go.sum", string(sum))
	for p, src := range gen.Externals {
		write(dir+"/"+p+"/x.go", src)
	}
	byName := map[string]gen.Spec{}
	for _, s := range specs {
		byName[s.Name] = s
	}
	engines := map[string]bool{}
	for _, c := range combos {
		if !engines[base(c)] {
			engines[base(c)] = true
			write(dir+"/base"+base(c)+"/types.go", gen.Types("p", module, c.Engine, specs, true, c.PtrRecv))
		}
		write(dir+"/"+c.Name()+"/types.go", gen.Types("p", module, c.Engine, specs, false, false))
	}
	// the program generating all code
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"verif/mc/gen\"\n\t\"verif/mc/gen/run\"\n")
	for e := range engines {
		fmt.Fprintf(&sb, "\t%s %q\n", e, module+"/base"+e)
	}
	sb.WriteString(")\n\n")
	for e := range engines {
		fmt.Fprintf(&sb, "var types%s = []run.Type{\n", e)
		for _, s := range specs {
			fmt.Fprintf(&sb, "\t{%q, (*%s.%s)(nil)},\n", s.Name, e, s.Name)
		}
		sb.WriteString("}\n\n")
	}
	sb.WriteString("func main() {\n\tvar l []run.Target\n")
	for _, c := range combos {
		fmt.Fprintf(&sb, "\tl = append(l, run.Targets(%#v, types%s)...)\n", c, base(c))
	}
	sb.WriteString("\trun.Main(l)\n\t_ = gen.Combo{}\n}\n")
	write(dir+"/genmain/main.go", sb.String())
	if out, err := run(dir, "go", "build", "-o", "genmain/genmain", "./genmain"); err != nil {
		fmt.Fprintln(os.Stderr, out)
		check(fmt.Errorf("the generator does not build: %w", err))
	}
	var problems []Problem
	var skip []string
	for {
		open, out, err := genmain(dir, skip, "")
		if err == nil {
			break
		}
		found := false
		for i, name := range open { // confirm each of them alone
			if alone, text, err := genmain(dir, nil, i); err != nil && alone[i] != "" {
				found = true
				skip = append(skip, i)
				f := strings.Fields(name)
				problems = append(problems, Problem{f[0], f[1], byName[f[1]].Tag, "generate", "the generator does not end: " + text})
			}
		}
		if !found || len(skip) > 100 {
			fmt.Fprintln(os.Stderr, out)
			check(fmt.Errorf("generating failed: %w", err))
		}
	}
	data, err := os.ReadFile(dir + "/generated.json")
	check(err)
	var res []struct{ Combo, Spec, Err, Diff string }
	check(json.Unmarshal(data, &res))
	bad := map[string]bool{}
	for _, r := range res {
		if r.Err != "" {
			problems = append(problems, Problem{r.Combo, r.Spec, byName[r.Spec].Tag, "generate", r.Err})
			bad[r.Combo+"/"+r.Spec] = true
		}
		if r.Diff != "" {
			problems = append(problems, Problem{r.Combo, r.Spec, byName[r.Spec].Tag, "repeat", r.Diff})
		}
	}
	// compile; files which do not compile are reported and taken out
	re := regexp.MustCompile(`(?m)^(c\w+)/(S\d+)_yamly\.go:(\d+):\d+: (.*)$`)
	for round := 0; ; round++ {
		args := []string{"go", "build", "-gcflags=" + module + "/...=-N -l -e"}
		for _, c := range combos {
			args = append(args, "./"+c.Name())
		}
		out, err := run(dir, args...)
		if err == nil {
			break
		}
		found := false
		for _, m := range re.FindAllStringSubmatch(out, -1) {
			key := m[1] + "/" + m[2]
			if bad[key] {
				continue
			}
			found, bad[key] = true, true
			problems = append(problems, Problem{m[1], m[2], byName[m[2]].Tag, "compile", "line " + m[3] + ": " + m[4]})
			check(os.Rename(dir+"/"+key+"_yamly.go", dir+"/"+key+"_yamly.go.broken"))
		}
		if !found || round > 20 {
			fmt.Fprintln(os.Stderr, out)
			check(fmt.Errorf("the generated packages do not build: %w", err))
		}
	}
	var cliPkgs []cliPkg
	cliRuns := 0
	if len(os.Args) > 4 && os.Args[4] == "cli" {
		var l []Problem
		l, cliPkgs, cliRuns = cli(dir, string(mod), string(sum))
		problems = append(problems, l...)
	}
	write(dir+"/cli.json", fmt.Sprint(cliRuns))
	data, err = json.MarshalIndent(problems, "", " ")
	check(err)
	write(dir+"/problems.json", string(data))
	// the driver
	sb.Reset()
	sb.WriteString("package main\n\nimport (\n\t\"verif/mc/app\"\n\t\"verif/mc/checks\"\n\t\"verif/mc/gen\"\n")
	for _, c := range combos {
		fmt.Fprintf(&sb, "\t%q\n", module+"/driver/r"+c.Name())
	}
	for i, p := range cliPkgs {
		fmt.Fprintf(&sb, "\tl%d %q\n", i, p.path)
	}
	fmt.Fprintf(&sb, ")\n\nfunc main() {\n\tchecks.GenDir = %q\n", dir)
	for _, c := range combos {
		fmt.Fprintf(&sb, "\tchecks.AddGenerated(%#v, r%s.Types)\n", c, c.Name())
	}
	for i, p := range cliPkgs {
		fmt.Fprintf(&sb, "\tchecks.AddCLI(%q, %#v, map[string]func() any{", p.name, p.combo)
		for _, n := range p.types {
			fmt.Fprintf(&sb, "%q: func() any { return new(l%d.%s) }, ", n, i, n)
		}
		sb.WriteString("})\n")
	}
	sb.WriteString("\tapp.Main()\n\t_ = gen.Combo{}\n}\n")
	write(dir+"/driver/main.go", sb.String())
	for _, c := range combos {
		sb.Reset()
		fmt.Fprintf(&sb, "package r%s\n\nimport p %q\n\nvar Types = map[string]func() any{\n", c.Name(), module+"/"+c.Name())
		sb.WriteString("\t\"YP\": func() any { return new(p.YP) },\n\t\"YV\": func() any { return new(p.YV) },\n")
		for _, s := range specs {
			if !bad[c.Name()+"/"+s.Name] {
				fmt.Fprintf(&sb, "\t%q: func() any { return new(p.%s) },\n", s.Name, s.Name)
			}
		}
		sb.WriteString("}\n")
		write(dir+"/driver/r"+c.Name()+"/r.go", sb.String())
	}
}
