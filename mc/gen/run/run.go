// Package run generates code for all targets.
package run

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/format"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"

	"github.com/KSpaceer/yamly/engines/goyaml"
	"github.com/KSpaceer/yamly/engines/yayamls"
	"github.com/KSpaceer/yamly/generator"

	"verif/mc/gen"
)

// Target is one type to generate code for.
type Target struct {
	Combo gen.Combo
	Spec  string
	Ptr   any
}

// Type is a target type.
type Type struct {
	Name string
	Ptr  any
}

// Targets are the types with one combination of options.
func Targets(c gen.Combo, types []Type) (l []Target) {
	for _, t := range types {
		l = append(l, Target{c, t.Name, t.Ptr})
	}
	return
}

// Generate generates the code of a target.
func Generate(t Target, module string) (code string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	g := generator.New(t.Spec + "_yamly.go")
	g.SetPkgName("p")
	base := module + "/base" + t.Combo.Engine
	if t.Combo.PtrRecv {
		base += "p"
	}
	g.SetPkgPath(base)
	if t.Combo.Engine == "goyaml" {
		g.SetEngineGenerator(goyaml.Generator)
	} else {
		g.SetEngineGenerator(yayamls.Generator)
	}
	g.SetOmitempty(t.Combo.Omitempty)
	g.SetDisallowUnknownFields(t.Combo.Disallow)
	g.SetEncodePointerReceiver(t.Combo.PtrRecv)
	g.SetInlineEmbedded(t.Combo.Inline)
	g.AddType(t.Ptr)
	var out bytes.Buffer
	if err := g.Generate(&out); err != nil {
		return "", err
	}
	data, err := format.Source(out.Bytes())
	if err != nil {
		return out.String(), fmt.Errorf("the generated code is not well formed: %w", err)
	}
	return string(data), nil
}

type result struct{ Combo, Spec, Err, Diff string }

// Main generates everything, several times; DIR MODULE [SKIP,... [ONLY]]. It
// tells its progress on standard output, so that a target which brings the
// process down is known.
func Main(l []Target) {
	debug.SetMaxStack(4 << 20)
	debug.SetGCPercent(50)
	dir, module := os.Args[1], os.Args[2]
	skip := map[string]bool{}
	if len(os.Args) > 3 {
		for _, s := range strings.Split(os.Args[3], ",") {
			skip[s] = true
		}
	}
	var mu sync.Mutex
	tell := func(a ...any) {
		mu.Lock()
		defer mu.Unlock()
		fmt.Println(a...)
	}
	res := make([]result, len(l))
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				t := l[i]
				tell("begin", i, t.Combo.Name(), t.Spec)
				code, err := Generate(t, module)
				r := result{Combo: t.Combo.Name(), Spec: t.Spec}
				if err != nil {
					r.Err = err.Error()
				}
				for k := 0; k < 4; k++ {
					again, _ := Generate(t, module)
					if again != code {
						r.Diff = firstDiff(code, again)
					}
				}
				if err == nil {
					if err := os.WriteFile(dir+"/"+r.Combo+"/"+t.Spec+"_yamly.go", []byte(code), 0o644); err != nil {
						panic(err)
					}
				}
				res[i] = r
				tell("end", i)
			}
		}()
	}
	for i := range l {
		n := strconv.Itoa(i)
		if !skip[n] && (len(os.Args) < 5 || os.Args[4] == n) {
			next <- i
		}
	}
	close(next)
	wg.Wait()
	data, _ := json.Marshal(res)
	if err := os.WriteFile(dir+"/generated.json", data, 0o644); err != nil {
		panic(err)
	}
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			o := ""
			if i < len(y) {
				o = y[i]
			}
			return fmt.Sprintf("line %d: %q and %q", i+1, x[i], o)
		}
	}
	return "one is longer"
}
