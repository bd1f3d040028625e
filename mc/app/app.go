// Package app is the command line of the explorer.
package app

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"

	_ "verif/mc/checks"
	"verif/mc/fw"
)

// Main runs one property's exploration.
func Main() {
	var (
		prop     = flag.String("property", "", "property id")
		tier     = flag.String("tier", "quick", "quick or thorough")
		cas      = flag.String("case", "", "run only this case")
		caseFile = flag.String("case-file", "", "replay file whose case is run")
		worker   = flag.Bool("worker", false, "internal")
		slots    = flag.String("slots", "", "internal")
		out      = flag.String("out", "", "internal")
		skipF    = flag.String("skip", "", "internal")
		deadline = flag.Int64("deadline", 0, "internal")
		solo     = flag.String("solo", "", "internal")
		list     = flag.Bool("list", false, "list properties")
	)
	flag.Parse()
	if *list {
		for _, p := range fw.All() {
			fmt.Println(p)
		}
		return
	}
	if *solo != "" {
		fmt.Println(fw.Solo(*solo))
		return
	}
	ch, ok := fw.Get(*prop)
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	if *worker {
		skip := map[string]bool{}
		if data, err := os.ReadFile(*skipF); err == nil {
			var l []string
			json.Unmarshal(data, &l)
			for _, s := range l {
				skip[s] = true
			}
		}
		fw.RunWorker(ch, *tier, *cas, *slots, *out, skip, time.Unix(0, *deadline))
		return
	}
	if *caseFile != "" {
		data, err := os.ReadFile(*caseFile)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var r struct {
			Case string `json:"case"`
		}
		json.Unmarshal(data, &r)
		*cas = r.Case
	}
	budget := 480 * time.Second
	if *tier == "thorough" {
		budget = 720 * time.Second
	}
	os.Exit(fw.Supervise(ch, *tier, *cas, budget))
}
