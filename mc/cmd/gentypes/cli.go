package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"verif/mc/gen"
)

// cliPkg is a package with code made by the command line tool.
type cliPkg struct {
	name, path string
	combo      gen.Combo
	types      []string
}

// cliJob is a series of calls of the tool on one package.
type cliJob struct {
	name  string
	combo gen.Combo
	lay   gen.Layout
	types []string
}

func flags(c gen.Combo) (l []string) {
	l = append(l, "-engine", c.Engine)
	for _, f := range []struct {
		on   bool
		name string
	}{{c.Omitempty, "-omitempty"}, {c.Disallow, "-disallow-unknown-fields"}, {c.PtrRecv, "-encode-pointer-receiver"}, {c.Inline, "-inline-embedded"}} {
		if f.on {
			l = append(l, f.name)
		}
	}
	return
}

// files are the contents of a directory.
func files(dir string) map[string]string {
	m := map[string]string{}
	entries, err := os.ReadDir(dir)
	check(err)
	for _, e := range entries {
		if !e.IsDir() {
			data, err := os.ReadFile(dir + "/" + e.Name())
			check(err)
			m[e.Name()] = string(data)
		}
	}
	return m
}

func call(tool, dir string, env []string, args ...string) (string, error) {
	cmd := exec.Command(tool, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	cmd.Env = append(cmd.Env, "GOFLAGS=-mod=mod")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	s := out.String()
	if len(s) > 400 {
		s = s[:400]
	}
	return s, err
}

// cliOne calls the tool for all types of a job, each of them twice.
func cliOne(tool, dir, mod, sum string, n int, j cliJob) (why, path string, runs int) {
	root, path := dir, module
	if j.lay.Module != "" {
		root = fmt.Sprintf("%s/climod%d", dir, n)
		_, rest, _ := strings.Cut(mod, "module verif/mc")
		write(root+"/go.mod", j.lay.Module+rest+"\nrequire verif/gen v0.0.0\n\nreplace verif/gen => "+dir+"\n")
		write(root+"/go.sum", sum)
		path = strings.Trim(strings.Fields(strings.TrimPrefix(j.lay.Module, "// module wrong\n"))[1], "\"")
	}
	pkg := filepath.Join(root, j.lay.Dir)
	path = filepath.Join(path, j.lay.Dir)
	write(pkg+"/types.go", gen.Types(j.lay.Pkg, module, j.combo.Engine, gen.CLISpecs, false, false))
	for round := 0; round < 2; round++ {
		for _, t := range j.types {
			before := files(pkg)
			args := append(flags(j.combo), "-type", t)
			if j.lay.Output != "" {
				args = append(args, "-output", j.lay.Output)
			}
			if j.lay.Tags != "" {
				args = append(args, "-build-tags", j.lay.Tags)
			}
			from := root
			if len(j.lay.Args) == 0 {
				from = pkg
			}
			for _, a := range j.lay.Args {
				args = append(args, strings.ReplaceAll(a, "$DIR", pkg))
			}
			var env []string
			if j.lay.Gofile {
				env = append(env, "GOFILE=types.go")
			}
			out, err := call(tool, from, env, args...)
			runs++
			if err != nil {
				return fmt.Sprintf("yamlygen %s fails: %v: %s", strings.Join(args, " "), err, out), path, runs
			}
			after := files(pkg)
			var fresh []string
			for f, text := range after {
				if old, ok := before[f]; !ok {
					fresh = append(fresh, f)
				} else if old != text {
					if round == 0 || len(j.types) == 1 {
						return fmt.Sprintf("yamlygen %s changes %s: %s", strings.Join(args, " "), f, diff(old, text)), path, runs
					}
				}
			}
			sort.Strings(fresh)
			if round == 0 && (len(fresh) != 1 || j.lay.Output != "" && fresh[0] != j.lay.Output) || round > 0 && len(fresh) > 0 || len(after) < len(before) {
				return fmt.Sprintf("yamlygen %s leaves the files %q", strings.Join(args, " "), fresh), path, runs
			}
		}
	}
	tags := []string{""}
	if j.lay.Tags != "" {
		tags = append(tags, j.lay.Tags)
	}
	for _, tag := range tags {
		with := tag == j.lay.Tags
		use := "package use\n\nimport p \"" + path + "\"\n\nvar _ = p.NSt{}\n"
		if with {
			for _, t := range j.types {
				use += fmt.Sprintf("var _ = (*p.%s).UnmarshalYAML\n", t)
				if j.combo.PtrRecv {
					use += fmt.Sprintf("var _ = (*p.%s).MarshalYAML\n", t)
				} else {
					use += fmt.Sprintf("var _ = p.%s.MarshalYAML\n", t)
				}
			}
		}
		write(root+fmt.Sprintf("/use%d/use.go", n), use)
		if out, err := call("go", root, nil, "build", "-gcflags="+module+"/...=-N -l", "-tags", tag, fmt.Sprintf("./use%d", n)); err != nil {
			return fmt.Sprintf("the code does not compile (tags %q): %s", tag, out), path, runs
		}
	}
	if j.lay.Tags != "" { // without the tags there is no code
		if out, _ := call("go", root, nil, "list", "-f", "{{.IgnoredGoFiles}}", "./"+j.lay.Dir); strings.Count(out, ".go") != len(j.types) {
			return "build tags have no effect: without them ignored files are " + out, path, runs
		}
	}
	return "", path, runs
}

// nameCase generates and builds a package with both engines.
func nameCase(tool, dir string, n int, c gen.NameCase) (why string, runs int) {
	base := fmt.Sprintf("nm%d", n)
	defer os.RemoveAll(dir + "/" + base)
	for _, p := range c.Pkgs {
		write(dir+"/"+base+"/"+p[0]+"/x.go", p[1])
	}
	for _, e := range []string{"goyaml", "yayamls"} {
		d := base + "/t" + e
		write(dir+"/"+d+"/types.go", "package p\n\n"+strings.ReplaceAll(c.Src, "$", module+"/"+base))
		runs++
		if out, err := call(tool, dir+"/"+d, nil, "-engine", e, "-type", c.Type); err != nil {
			return fmt.Sprintf("yamlygen -engine %s -type %s fails: %v: %s", e, c.Type, err, out), runs
		}
		if out, err := call("go", dir, nil, "build", "-gcflags=-N -l", "./"+d); err != nil {
			return fmt.Sprintf("the code of yamlygen -engine %s -type %s does not compile: %s", e, c.Type, out), runs
		}
	}
	return "", runs
}

func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			return fmt.Sprintf("line %d: %q", i+1, x[i])
		}
	}
	return "one is longer"
}

func cli(dir, mod, sum string) (problems []Problem, pkgs []cliPkg, runs int) {
	tool := dir + "/yamlygen"
	if out, err := run(dir, "go", "build", "-o", tool, "github.com/KSpaceer/yamly/cmd/yamlygen"); err != nil {
		problems = append(problems, Problem{"", "", "yamlygen", "cli", "the command does not build: " + out})
		return
	}
	var jobs []cliJob
	for _, c := range gen.Combos(true) {
		jobs = append(jobs, cliJob{"flags", c, gen.Layout{Name: "flags", Dir: "l" + c.Name(), Pkg: "p", Args: []string{"$DIR"}}, []string{"S9000"}})
	}
	for i, l := range gen.Layouts {
		engine := []string{"goyaml", "yayamls"}[i%2]
		jobs = append(jobs, cliJob{"layout", gen.Combo{Engine: engine}, l, []string{"S9000"}})
	}
	// several types of one package, in every order
	for _, e := range []string{"yayamls", "goyaml"} {
		for i, o := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
			var types []string
			for _, k := range o {
				types = append(types, gen.CLISpecs[k].Name)
			}
			d := fmt.Sprintf("ord%d%s", i, e)
			jobs = append(jobs, cliJob{"order", gen.Combo{Engine: e, PtrRecv: i > 2}, gen.Layout{Name: "order " + strings.Join(types, " "), Dir: d, Pkg: "p", Args: []string{"$DIR"}}, types})
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := make(chan int)
	res := make([]cliPkg, len(jobs))
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				j := jobs[i]
				why, path, n := cliOne(tool, dir, mod, sum, i, j)
				mu.Lock()
				runs += n
				if why != "" {
					problems = append(problems, Problem{j.combo.Name(), "", j.lay.Name, "cli", why})
				} else if j.lay.Module == "" && j.lay.Tags == "" {
					res[i] = cliPkg{j.lay.Name, path, j.combo, j.types}
				}
				mu.Unlock()
			}
		}()
	}
	for i := range jobs {
		next <- i
	}
	close(next)
	wg.Wait()
	for _, p := range res {
		if p.path != "" {
			pkgs = append(pkgs, p)
		}
	}
	cases := gen.NameCases()
	next = make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				why, n := nameCase(tool, dir, i, cases[i])
				mu.Lock()
				runs += n
				if why != "" {
					problems = append(problems, Problem{"", "", cases[i].Name, "cli", why})
				}
				mu.Unlock()
			}
		}()
	}
	for i := range cases {
		next <- i
	}
	close(next)
	wg.Wait()
	refused := gen.Refused
	bad := ""
	for i, t := range gen.Unsupported {
		bad += fmt.Sprintf("\ntype Bad%d %s\n", i, t)
		for _, e := range []string{"goyaml", "yayamls"} {
			refused = append(refused, []string{"-engine", e, "-type", fmt.Sprintf("Bad%d", i)})
		}
	}
	next = make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				args := refused[i]
				d := fmt.Sprintf("%s/refused%d", dir, i)
				write(d+"/types.go", gen.Types("p", module, "goyaml", gen.CLISpecs, false, false)+bad)
				_, err := call(tool, d, nil, args...)
				left := len(files(d))
				mu.Lock()
				runs++
				if err == nil {
					problems = append(problems, Problem{"", "", fmt.Sprintf("%q", args), "cli", fmt.Sprintf("yamlygen %q succeeds", args)})
				} else if i < len(gen.Refused) && !strings.Contains(strings.Join(args, " "), "Absent") && left != 1 {
					problems = append(problems, Problem{"", "", fmt.Sprintf("%q", args), "cli", fmt.Sprintf("yamlygen %q fails and leaves %d files", args, left)})
				}
				mu.Unlock()
				os.RemoveAll(d)
			}
		}()
	}
	for i := range refused {
		next <- i
	}
	close(next)
	wg.Wait()
	sort.Slice(problems, func(i, j int) bool {
		return problems[i].Combo+problems[i].Tag+problems[i].Text < problems[j].Combo+problems[j].Tag+problems[j].Text
	})
	return
}
