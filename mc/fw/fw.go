// Package fw is the exploration framework shared by all checks: it enumerates
// cases on a pool of workers, supervises the exploring process so that crashes
// and hangs of the code under test become reported cases, and writes evidence.
package fw

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const (
	slotSize = 8192
	slots    = 64
)

// MaxViolations bounds how many violating cases one run keeps.
var MaxViolations = maxViolations()

func maxViolations() int {
	if n, err := strconv.Atoi(os.Getenv("MC_MAX_VIOLATIONS")); err == nil && n > 0 {
		return n
	}
	return 40
}

// Violation is one case on which the property failed.
type Violation struct {
	Case   string `json:"case"`
	Detail string `json:"detail"`
}

// Result is what a worker process hands to its supervisor.
type Result struct {
	States      int64          `json:"states"`
	Transitions int64          `json:"transitions"`
	Traces      int64          `json:"traces"`
	Exhaustive  bool           `json:"exhaustive"`
	Samples     []string       `json:"samples"`
	Extra       map[string]any `json:"extra"`
	Bounds      []string       `json:"bounds"`
	Violations  []Violation    `json:"violations"`
	Done        bool           `json:"done"`
}

// Ctx is handed to a check.
type Ctx struct {
	Property string
	Tier     string
	Filter   string // when non-empty only this case is run
	Skip     map[string]bool
	Deadline time.Time
	Workers  int

	states, transitions, traces atomic.Int64
	stopped                     atomic.Bool
	mu                          sync.Mutex
	res                         Result
	seen                        map[string]bool
	slotMem                     []byte
	slotFree                    chan int
	sampleEvery                 atomic.Int64
	sampleCount                 atomic.Int64
	distinct                    [256]distinctShard
	seed                        maphash.Seed
	matched                     atomic.Int64
	outPath                     string
	shard, shards               int
}

type distinctShard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

// Thorough tells whether the deep tier was requested.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

func (c *Ctx) AddStates(n int)      { c.states.Add(int64(n)) }
func (c *Ctx) AddTransitions(n int) { c.transitions.Add(int64(n)) }
func (c *Ctx) AddTraces(n int)      { c.traces.Add(int64(n)) }

// State records a distinct state by its canonical key.
func (c *Ctx) State(key string) {
	h := maphash.String(c.seed, key)
	sh := &c.distinct[h&255]
	sh.mu.Lock()
	if sh.m == nil {
		sh.m = map[uint64]struct{}{}
	}
	if _, ok := sh.m[h]; !ok {
		if len(sh.m) < 1<<17 {
			sh.m[h] = struct{}{}
		}
		c.states.Add(1)
	}
	sh.mu.Unlock()
}

// Bound documents one bound of the exploration in the evidence.
func (c *Ctx) Bound(format string, a ...any) {
	c.mu.Lock()
	c.res.Bounds = append(c.res.Bounds, fmt.Sprintf(format, a...))
	c.mu.Unlock()
}

// Extra records an extra evidence counter.
func (c *Ctx) Extra(k string, v any) {
	c.mu.Lock()
	if c.res.Extra == nil {
		c.res.Extra = map[string]any{}
	}
	c.res.Extra[k] = v
	c.mu.Unlock()
}

// Sample offers a case for the evidence samples (kept logarithmically).
func (c *Ctx) Sample(s func() string) {
	n := c.sampleCount.Add(1)
	if n&(n-1) != 0 && n%100003 != 0 {
		return
	}
	c.mu.Lock()
	if len(c.res.Samples) < 24 {
		x := s()
		if len(x) > 400 {
			x = x[:400] + "..."
		}
		c.res.Samples = append(c.res.Samples, x)
	}
	c.mu.Unlock()
}

// Expired reports that the exploration must stop (deadline or enough violations).
func (c *Ctx) Expired() bool {
	if c.stopped.Load() {
		return true
	}
	if time.Now().After(c.Deadline) {
		c.mu.Lock()
		c.res.Exhaustive = false
		c.mu.Unlock()
		c.stopped.Store(true)
		return true
	}
	return false
}

// Violate records a violation for a case.
func (c *Ctx) Violate(key, detail string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	if len(c.res.Violations) < MaxViolations {
		if len(detail) > 6000 {
			detail = detail[:6000] + "..."
		}
		c.res.Violations = append(c.res.Violations, Violation{key, detail})
	}
	if len(c.res.Violations) >= MaxViolations {
		c.stopped.Store(true)
		c.res.Exhaustive = false
	}
}

// Case runs f as the case named key, turning panics into violations.
func (c *Ctx) Case(key string, f func() string) {
	if c.Filter != "" && c.Filter != key {
		return
	}
	if c.Skip[key] {
		return
	}
	c.matched.Add(1)
	slot := <-c.slotFree
	c.setSlot(slot, key)
	defer func() {
		c.setSlot(slot, "")
		c.slotFree <- slot
	}()
	if d := Protect(f); d != "" {
		c.Violate(key, d)
	}
}

// Protect runs f and reports a panic as a failure text.
func Protect(f func() string) (detail string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			detail = fmt.Sprintf("panic: %v\n%s", r, st)
		}
	}()
	return f()
}

func (c *Ctx) setSlot(i int, key string) {
	b := c.slotMem[i*slotSize : (i+1)*slotSize]
	n := len(key)
	if n > slotSize-32 {
		n = slotSize - 32
	}
	// generation stamp lets the supervisor see progress
	now := uint64(time.Now().UnixNano())
	for j := 0; j < 8; j++ {
		b[8+j] = byte(now >> (8 * j))
	}
	for j := 0; j < 8; j++ {
		b[j] = byte(uint64(n) >> (8 * j))
	}
	copy(b[16:], key[:n])
}

// Parallel runs items produced by gen on all workers.
func Parallel[T any](c *Ctx, gen func(emit func(T) bool), run func(T)) {
	ch := make(chan []T, 4*c.Workers)
	var wg sync.WaitGroup
	for i := 0; i < c.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for batch := range ch {
				for _, x := range batch {
					if c.stopped.Load() {
						break
					}
					run(x)
				}
			}
		}()
	}
	const B = 32
	batch := make([]T, 0, B)
	gen(func(x T) bool {
		batch = append(batch, x)
		if len(batch) == B {
			ch <- batch
			batch = make([]T, 0, B)
			if c.Expired() {
				return false
			}
		}
		return true
	})
	ch <- batch
	close(ch)
	wg.Wait()
}

// Check is one registered property check.
type Check struct {
	Property    string
	Technique   string
	Assumptions []string
	Shards      int // processes the exploration is spread over; 0: one
	Run         func(*Ctx)
}

// Solo runs one operation of a check alone in a process.
var Solo func(arg string) string

// Mine tells whether the i-th unit of work belongs to this process.
func (c *Ctx) Mine(i int) bool { return c.shards <= 1 || i%c.shards == c.shard }

var registry = map[string]Check{}

// Register adds a check.
func Register(c Check) { registry[c.Property] = c }

// Get finds a check.
func Get(p string) (Check, bool) { c, ok := registry[p]; return c, ok }

// All lists registered properties.
func All() []string {
	var l []string
	for k := range registry {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// RunWorker explores in this process and writes the result file.
func RunWorker(ch Check, tier, filter, slotFile, outFile string, skip map[string]bool, deadline time.Time) {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(12 << 30)
	f, err := os.OpenFile(slotFile, os.O_RDWR|os.O_CREATE, 0o644)
	must(err)
	must(f.Truncate(slotSize * slots))
	mem, err := syscall.Mmap(int(f.Fd()), 0, slotSize*slots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	c := &Ctx{
		Property: ch.Property, Tier: tier, Filter: filter, Skip: skip, Deadline: deadline,
		Workers: runtime.GOMAXPROCS(0), seen: map[string]bool{}, slotMem: mem,
		slotFree: make(chan int, slots), seed: maphash.MakeSeed(), outPath: outFile,
	}
	if c.Workers > slots/2 {
		c.Workers = slots / 2
	}
	for i := 0; i < slots; i++ {
		c.slotFree <- i
	}
	c.res.Exhaustive = true
	fmt.Sscanf(os.Getenv("MC_SHARD"), "%d/%d", &c.shard, &c.shards)
	ch.Run(c)
	c.mu.Lock()
	c.res.States = c.states.Load()
	c.res.Transitions = c.transitions.Load()
	c.res.Traces = c.traces.Load()
	if len(c.Skip) > 0 {
		c.res.Exhaustive = false
	}
	c.res.Done = true
	data, err := json.Marshal(c.res)
	c.mu.Unlock()
	must(err)
	must(os.WriteFile(outFile, data, 0o644))
}

func readSlots(file string) (cases []string, newest time.Time, oldest map[string]time.Time) {
	oldest = map[string]time.Time{}
	data, err := os.ReadFile(file)
	if err != nil || len(data) < slotSize*slots {
		return
	}
	for i := 0; i < slots; i++ {
		b := data[i*slotSize : (i+1)*slotSize]
		var n, ts uint64
		for j := 0; j < 8; j++ {
			n |= uint64(b[j]) << (8 * j)
			ts |= uint64(b[8+j]) << (8 * j)
		}
		t := time.Unix(0, int64(ts))
		if ts != 0 && t.After(newest) {
			newest = t
		}
		if n == 0 || n > slotSize-32 {
			continue
		}
		k := string(b[16 : 16+n])
		cases = append(cases, k)
		oldest[k] = t
	}
	return
}

// KnownFinding is a line of known_findings.json.
type KnownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Case     string `json:"case,omitempty"`
	Detail   string `json:"detail,omitempty"` // what exactly is observed; anything else is reported
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func hash(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:6])
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "framework error:", err)
		os.Exit(3)
	}
}

// OneLine flattens text for a report line.
func OneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", " / ")
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// VerifRoot is the directory of the verification machinery.
func VerifRoot() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// LoadKnown reads the known findings file.
func LoadKnown() []KnownFinding {
	var out struct {
		Findings []KnownFinding `json:"findings"`
	}
	data, err := os.ReadFile(filepath.Join(VerifRoot(), "known_findings.json"))
	if err != nil {
		return nil
	}
	must(json.Unmarshal(data, &out))
	return out.Findings
}
