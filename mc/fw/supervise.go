package fw

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const (
	hangAfter    = 40 * time.Second  // a single case running longer than this is a suspect
	confirmAfter = 120 * time.Second // and it is a hang when alone it still runs after this
	maxCrashes   = 4
)

type runOut struct {
	res     Result
	crashed bool     // process died or was ended
	hung    []string // cases running too long when it was ended
	running []string // cases that were running when it died
	tail    string
}

// runWorkers spreads an exploration over processes.
func runWorkers(exe string, ch Check, tier, filter string, skip []string, deadline time.Time, scratch string, limit time.Duration) runOut {
	if ch.Shards <= 1 || filter != "" {
		return runWorkerProc(exe, ch.Property, tier, filter, skip, deadline, scratch, limit, "")
	}
	outs := make([]runOut, ch.Shards)
	var wg sync.WaitGroup
	for i := range outs {
		wg.Add(1)
		i := i
		go func() {
			defer wg.Done()
			dir := filepath.Join(scratch, strconv.Itoa(i))
			must(os.MkdirAll(dir, 0o755))
			outs[i] = runWorkerProc(exe, ch.Property, tier, filter, skip, deadline, dir, limit, fmt.Sprintf("%d/%d", i, ch.Shards))
		}()
	}
	wg.Wait()
	all := runOut{res: Result{Exhaustive: true, Done: true, Extra: map[string]any{}}}
	bounds := map[string]bool{}
	for _, o := range outs {
		if o.crashed {
			all.crashed = true
			all.hung = append(all.hung, o.hung...)
			all.running = append(all.running, o.running...)
			all.tail += o.tail
			continue
		}
		r := &all.res
		r.States += o.res.States
		r.Transitions += o.res.Transitions
		r.Traces += o.res.Traces
		r.Exhaustive = r.Exhaustive && o.res.Exhaustive
		for _, b := range o.res.Bounds {
			if !bounds[b] {
				bounds[b] = true
				r.Bounds = append(r.Bounds, b)
			}
		}
		for _, s := range o.res.Samples {
			if len(r.Samples) < 24 {
				r.Samples = append(r.Samples, s)
			}
		}
		for k, v := range o.res.Extra {
			if f, ok := v.(float64); ok {
				old, _ := r.Extra[k].(float64)
				r.Extra[k] = old + f
			} else {
				r.Extra[k] = v
			}
		}
		r.Violations = append(r.Violations, o.res.Violations...)
	}
	return all
}

func runWorkerProc(exe, prop, tier, filter string, skip []string, deadline time.Time, scratch string, limit time.Duration, shard string) runOut {
	slotFile := filepath.Join(scratch, "slots")
	outFile := filepath.Join(scratch, "out.json")
	skipFile := filepath.Join(scratch, "skip.json")
	os.Remove(slotFile)
	os.Remove(outFile)
	sd, _ := json.Marshal(skip)
	must(os.WriteFile(skipFile, sd, 0o644))
	cmd := exec.Command(exe, "-worker", "-property", prop, "-tier", tier, "-case", filter,
		"-slots", slotFile, "-out", outFile, "-skip", skipFile, "-deadline", strconv.FormatInt(deadline.UnixNano(), 10))
	var stderr bytes.Buffer
	cmd.Stdout = &limitedBuf{b: &stderr, max: 1 << 20}
	cmd.Stderr = cmd.Stdout
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "MC_SHARD="+shard)
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	var o runOut
	start := time.Now()
loop:
	for {
		select {
		case err := <-done:
			if data, rerr := os.ReadFile(outFile); err == nil && rerr == nil {
				if json.Unmarshal(data, &o.res) == nil && o.res.Done {
					return o
				}
			}
			o.crashed = true
			break loop
		case <-tick.C:
			_, _, since := readSlots(slotFile)
			var hung []string
			for k, t := range since {
				if time.Since(t) > limit {
					hung = append(hung, k)
				}
			}
			if len(hung) > 0 || time.Since(start) > time.Until(deadline)+time.Since(start)+90*time.Second {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				o.crashed = true
				o.hung = hung
				break loop
			}
		}
	}
	o.running, _, _ = readSlots(slotFile)
	t := stderr.String()
	if len(t) > 4000 {
		t = t[:4000]
	}
	o.tail = t
	return o
}

type limitedBuf struct {
	b   *bytes.Buffer
	max int
}

func (l *limitedBuf) Write(p []byte) (int, error) {
	if l.b.Len() < l.max {
		q := p
		if len(q) > l.max-l.b.Len() {
			q = q[:l.max-l.b.Len()]
		}
		l.b.Write(q)
	}
	return len(p), nil
}

// Supervise runs the check of a property and returns the exit code.
func Supervise(ch Check, tier, filter string, budget time.Duration) int {
	start := time.Now()
	deadline := start.Add(budget)
	exe, err := os.Executable()
	must(err)
	scratch, err := os.MkdirTemp("", "mc-"+ch.Property+"-")
	must(err)
	defer os.RemoveAll(scratch)

	var total Result
	var skip []string
	var crashViol []Violation
	crashes := 0
	incomplete := ""
	for {
		o := runWorkers(exe, ch, tier, filter, skip, deadline, scratch, hangAfter)
		if !o.crashed {
			total = o.res
			break
		}
		crashes++
		suspects := o.running
		if len(o.hung) > 0 {
			suspects = o.hung
		}
		confirmed := 0
		for _, s := range suspects {
			co := runWorkerProc(exe, ch.Property, tier, s, nil, time.Now().Add(confirmAfter+60*time.Second), scratch, confirmAfter, "")
			if co.crashed {
				confirmed++
				what := "the process crashed: " + co.tail
				if len(co.hung) > 0 {
					what = fmt.Sprintf("the operation did not return (alone, still running after %v)", confirmAfter)
				}
				crashViol = append(crashViol, Violation{Case: s, Detail: what})
				skip = append(skip, s)
				break // one confirmed crash at a time; the rest is explored again without it
			}
		}
		if confirmed == 0 {
			incomplete = "the exploring process ended without a reproducible case: " + OneLine(o.tail)
			if crashes >= 2 {
				break
			}
			continue
		}
		// A crash on an unlisted case already decides the verdict.
		if crashes >= maxCrashes || !isKnown(ch.Property, crashViol[len(crashViol)-1].Case) || time.Now().After(deadline) {
			break
		}
	}
	viol := append(crashViol, total.Violations...)

	known := LoadKnown()
	code := 0
	var fresh []Violation
	nKnown := 0
	for _, v := range viol {
		matched := false
		for _, k := range known {
			if k.Property == ch.Property && k.Status == "known" && k.Case == v.Case && (k.Detail == "" || k.Detail == v.Detail) {
				matched = true
				nKnown++
				fmt.Printf("KNOWN-FINDING: property=%s %s [case %s]\n", ch.Property, k.What, OneLine(v.Case))
			}
		}
		if !matched {
			fresh = append(fresh, v)
		}
	}
	replayDir := filepath.Join(VerifRoot(), "evidence", "replay")
	if len(fresh) > 0 {
		os.MkdirAll(replayDir, 0o755)
		for i, v := range fresh {
			p := filepath.Join(replayDir, ch.Property+"-"+hash(v.Case)+".json")
			data, _ := json.MarshalIndent(map[string]any{
				"property": ch.Property, "case": v.Case, "detail": v.Detail,
				"replay_cmd": fmt.Sprintf("%s/run.sh %s %s --case-file %s", VerifRoot(), ch.Property, tier, p),
			}, "", " ")
			must(os.WriteFile(p, data, 0o644))
			if i < 10 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", ch.Property, p)
				fmt.Printf("  case: %s\n  detail: %s\n", OneLine(v.Case), OneLine(v.Detail))
			}
		}
		code = 1
	}
	if filter == "" {
		cov := map[string]any{}
		for k, v := range total.Extra {
			cov[k] = v
		}
		if total.Samples == nil {
			total.Samples = []string{}
		}
		cov["states"] = total.States
		cov["transitions"] = total.Transitions
		cov["traces_validated_against_impl"] = total.Traces
		cov["samples"] = total.Samples
		cov["exhaustive"] = total.Exhaustive && total.Done && incomplete == ""
		cov["bounds"] = total.Bounds
		cov["technique"] = ch.Technique
		cov["known_findings_seen"] = nKnown
		if incomplete != "" {
			cov["incomplete"] = incomplete
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		ev := map[string]any{
			"property": ch.Property, "tier": tier, "seed": seed, "level": "model_checking",
			"coverage": cov, "assumptions": ch.Assumptions, "wall_s": time.Since(start).Seconds(),
			"violations": len(fresh),
		}
		data, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(VerifRoot(), "evidence"), 0o755)
		must(os.WriteFile(filepath.Join(VerifRoot(), "evidence", ch.Property+".json"), append(data, '\n'), 0o644))
	}
	if incomplete != "" && code == 0 {
		fmt.Fprintln(os.Stderr, "NOTE:", strings.TrimSpace(incomplete))
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d exhaustive=%v violations=%d known=%d %.1fs\n",
		ch.Property, tier, total.States, total.Transitions, total.Traces, total.Exhaustive && total.Done, len(fresh), nKnown, time.Since(start).Seconds())
	return code
}

func isKnown(prop, c string) bool {
	for _, k := range LoadKnown() {
		if k.Property == prop && k.Status == "known" && k.Case == c {
			return true
		}
	}
	return false
}
