package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A Run is one execution of the check of one property.
// realOut stays the output of the checker while code under test that prints has os.Stdout redirected.
var realOut = os.Stdout

type Run struct {
	ID       string
	Tier     string
	Thorough bool
	Seed     int
	VerifDir string
	start    time.Time
	deadline time.Time

	// States: distinct states/cases visited (what that is, is explained by each check in StatesAre).
	States atomic.Int64
	// Transitions: elementary steps of the implementation that were driven or compared.
	Transitions atomic.Int64
	// Traces: complete executions of the implementation compared with the reference model.
	Traces atomic.Int64

	capped                   atomic.Bool
	accepts, rejects, gaveUp atomic.Int64
	sampleTick               atomic.Int64

	mu          sync.Mutex
	samples     []string
	bounds      []string
	extra       map[string]interface{}
	assumptions []string
	outcomes    map[string]int64
	known       map[string]*knownFinding
	knownSeen   map[string]bool
	violated    atomic.Int64

	slots [64]slot
}

type slot struct {
	mu    sync.Mutex
	since time.Time
	desc  func() string
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

type check struct {
	id  string
	run func(r *Run)
}

var checks = map[string]*check{}

func register(id string, f func(r *Run)) { checks[id] = &check{id, f} }

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "verif directory")
	budget := flag.Int("budget", 0, "seconds of exploration before stopping at the bound reached")
	prof := flag.String("cpuprofile", "", "")
	child := flag.Bool("child", false, "run the exploration in this process")
	flag.Parse()
	c := checks[*prop]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if !*child {
		os.Exit(supervise(*prop, *tier, *verif))
	}
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(8 << 30)
	r := &Run{ID: *prop, Tier: *tier, Thorough: *tier == "thorough", VerifDir: *verif, start: time.Now()}
	fmt.Sscan(os.Getenv("VERIF_SEED"), &r.Seed)
	b := *budget
	if b == 0 {
		b = 300
		if r.Thorough {
			b = 720
		}
	}
	r.deadline = r.start.Add(time.Duration(b) * time.Second)
	r.extra = map[string]interface{}{}
	r.outcomes = map[string]int64{}
	r.loadKnown()
	if *prof != "" {
		startProfile(*prof)
	}
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // the print functions under test
	}
	go r.watchdog()
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(stopRun); ok {
					return
				}
				fmt.Fprintln(os.Stderr, "harness panic:", x)
				debug.PrintStack()
				os.Exit(2)
			}
		}()
		c.run(r)
	}()
	if *prof != "" {
		stopProfile()
	}
	r.finish()
}

// supervise runs the exploration in a child process: a crash of the Go runtime that cannot be recovered
// (stack overflow, concurrent map access, deadlock) is reported as a violation if it happens twice.
func supervise(prop, tier, verif string) int {
	for try := 1; ; try++ {
		cmd := exec.Command(os.Args[0], append([]string{"-child"}, os.Args[1:]...)...)
		cmd.Stdout = realOut
		var tail tailBuffer
		cmd.Stderr = &tail
		err := cmd.Run()
		if err == nil {
			os.Stderr.Write(tail.head)
			return 0
		}
		ee, ok := err.(*exec.ExitError)
		if !ok {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if ee.ExitCode() == 1 {
			os.Stderr.Write(tail.head)
			return 1
		}
		text := string(tail.head)
		fatal := ""
		for _, k := range []string{"stack overflow", "stack exceeds", "fatal error: concurrent map", "all goroutines are asleep"} {
			if strings.Contains(text, k) && strings.Contains(text, "katydid/katydid") {
				fatal = k
			}
		}
		if fatal == "" {
			os.Stderr.WriteString(text)
			return 2
		}
		if try == 1 {
			continue
		}
		dir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, prop+".json")
		if len(text) > 20000 {
			text = text[:20000]
		}
		data, _ := json.MarshalIndent(map[string]string{"property": prop, "what": "the Go runtime aborts: " + fatal, "trace": text,
			"how": "bash /verif/run.sh " + prop + " " + tier + " explores in a fixed order and crashes again"}, "", " ")
		os.WriteFile(path, data, 0644)
		r := &Run{ID: prop, Tier: tier, VerifDir: verif, start: time.Now()}
		r.violated.Add(1)
		r.writeEvidence()
		fmt.Fprintf(realOut, "property %s is violated: the Go runtime aborts (%s), twice:\n%.3000s\n", prop, fatal, text)
		fmt.Fprintf(realOut, "VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
}

// tailBuffer keeps the first 64 KB written to it.
type tailBuffer struct{ head []byte }

func (t *tailBuffer) Write(p []byte) (int, error) {
	if n := 64<<10 - len(t.head); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		t.head = append(t.head, p[:n]...)
	}
	return len(p), nil
}

type stopRun struct{}

func (r *Run) loadKnown() {
	r.known = map[string]*knownFinding{}
	r.knownSeen = map[string]bool{}
	data, err := os.ReadFile(filepath.Join(r.VerifDir, "known_findings.json"))
	if err != nil {
		return
	}
	var file struct {
		Findings []*knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(data, &file); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	for _, k := range file.Findings {
		if k.Property == r.ID {
			r.known[k.Key] = k
		}
	}
}

func (r *Run) watchdog() {
	mem := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(time.Second)
		now := time.Now()
		metrics.Read(mem)
		if n := mem[0].Value.Uint64(); n > 14<<30 {
			var descs []string
			for i := range r.slots {
				if s := &r.slots[i]; s.mu.TryLock() {
					if s.desc != nil {
						descs = append(descs, s.desc())
					}
					s.mu.Unlock()
				}
			}
			r.Violation("memory", fmt.Sprintf("unbounded memory use: %d bytes live (normal: below 2 GB) while working on one of: %s", n, strings.Join(descs, " ;; ")), descs)
		}
		for i := range r.slots {
			s := &r.slots[i]
			s.mu.Lock()
			since, desc := s.since, s.desc
			s.mu.Unlock()
			if !since.IsZero() && now.Sub(since) > 150*time.Second {
				d := "?"
				if desc != nil {
					d = desc()
				}
				r.Violation("hang", "no termination within 150s (normal cost: below a second) for: "+d, d)
			}
		}
	}
}

// Out tells whether the time budget is used up (and records that the run is capped).
func (r *Run) Out() bool {
	if time.Now().After(r.deadline) {
		r.capped.Store(true)
		return true
	}
	return false
}

// Bound records a completed bound.
func (r *Run) Bound(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	if r.capped.Load() {
		s += " [capped: time budget reached]"
	}
	r.mu.Lock()
	r.bounds = append(r.bounds, s)
	r.mu.Unlock()
	if os.Getenv("VMC_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "%6.1fs %s (states=%d transitions=%d traces=%d)\n", time.Since(r.start).Seconds(), s, r.States.Load(), r.Transitions.Load(), r.Traces.Load())
	}
}

func (r *Run) Assume(s string) { r.assumptions = append(r.assumptions, s) }

func (r *Run) Sample(format string, args ...interface{}) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, fmt.Sprintf(format, args...))
	}
	r.mu.Unlock()
}

func (r *Run) Outcome(k string, n int64) {
	r.mu.Lock()
	r.outcomes[k] += n
	r.mu.Unlock()
}

// Violation reports one violation: key identifies the specific failing input or history.
// A key listed in known_findings.json is printed as a known finding; anything else ends the run.
func (r *Run) Violation(key, what string, replay interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if k, ok := r.known[key]; ok {
		if !r.knownSeen[key] {
			r.knownSeen[key] = true
			fmt.Fprintf(realOut, "KNOWN-FINDING: property=%s %s\n", r.ID, k.What)
		}
		return
	}
	if os.Getenv("VMC_ALL") != "" { // development only: list all violations
		n := r.violated.Add(1)
		fmt.Fprintf(realOut, "v%d key=%q\n  %s\n", n, key, what)
		if n > 12 {
			os.Exit(1)
		}
		return
	}
	dir := filepath.Join(r.VerifDir, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, r.ID+".json")
	data, _ := json.MarshalIndent(map[string]interface{}{
		"property": r.ID, "key": key, "what": what, "case": replay,
		"how": "bash /verif/run.sh " + r.ID + " " + r.Tier + " explores in a fixed order and stops at this case again",
	}, "", " ")
	os.WriteFile(path, data, 0644)
	fmt.Fprintf(realOut, "property %s is violated:\n%s\nkey: %s\n", r.ID, what, key)
	fmt.Fprintf(realOut, "VIOLATION property=%s replay=%s\n", r.ID, path)
	r.violated.Add(1)
	r.writeEvidence()
	os.Exit(1)
}

func (r *Run) writeEvidence() {
	exhaustive := !r.capped.Load() && r.violated.Load() == 0
	cov := map[string]interface{}{
		"states":                        r.States.Load(),
		"transitions":                   r.Transitions.Load(),
		"traces_validated_against_impl": r.Traces.Load(),
		"samples":                       r.samples,
		"exhaustive":                    exhaustive,
		"bounds_completed":              r.bounds,
		"outcomes":                      r.outcomes,
		"known_findings_seen":           len(r.knownSeen),
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property":    r.ID,
		"tier":        r.Tier,
		"seed":        r.Seed,
		"level":       "model_checking",
		"coverage":    cov,
		"assumptions": r.assumptions,
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  r.violated.Load(),
	}
	data, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	dir := filepath.Join(r.VerifDir, "evidence")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, r.ID+".json"), data, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func (r *Run) finish() {
	for k, v := range map[string]*atomic.Int64{"reference accepts": &r.accepts, "reference rejects": &r.rejects, "engine gave up (documented)": &r.gaveUp} {
		if v.Load() > 0 {
			r.outcomes[k] = v.Load()
		}
	}
	r.mu.Lock()
	r.writeEvidence()
	r.mu.Unlock()
	fmt.Fprintf(realOut, "%s %s: states=%d transitions=%d traces=%d exhaustive=%v wall=%.1fs\n", r.ID, r.Tier, r.States.Load(), r.Transitions.Load(), r.Traces.Load(), !r.capped.Load(), time.Since(r.start).Seconds())
	keys := make([]string, 0)
	for k := range r.outcomes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Fprintf(realOut, "  outcome %s: %d\n", k, r.outcomes[k])
	}
	if r.violated.Load() > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

// Par runs f(w, i) for all i in [0,n) on all cores; w is the worker number.
// It stops handing out work when the time budget is used up, and returns whether all were done.
func (r *Run) Par(n int, f func(w, i int)) bool {
	workers := runtime.GOMAXPROCS(0)
	if workers > 32 {
		workers = 32
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	var incomplete atomic.Bool
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer r.clear(w)
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				if i%16 == 0 && r.Out() || r.capped.Load() {
					incomplete.Store(true)
					return
				}
				r.mark(w, func() string { return fmt.Sprintf("%s work item %d", r.ID, i) })
				f(w, i)
			}
		}(w)
	}
	wg.Wait()
	return !incomplete.Load()
}

func (r *Run) mark(w int, desc func() string) {
	s := &r.slots[w]
	s.mu.Lock()
	s.since = time.Now()
	s.desc = desc
	s.mu.Unlock()
}

func (r *Run) clear(w int) {
	s := &r.slots[w]
	s.mu.Lock()
	s.since = time.Time{}
	s.desc = nil
	s.mu.Unlock()
}

// guard runs f and turns a panic into an error.
func guard(f func() error) (err error) {
	defer func() {
		if x := recover(); x != nil {
			err = &panicErr{fmt.Sprint(x), trimStack(string(debug.Stack()))}
		}
	}()
	return f()
}

type panicErr struct {
	msg   string
	stack string
}

func (p *panicErr) Error() string { return "panic: " + p.msg + "\n" + p.stack }

func isPanic(err error) bool { _, ok := err.(*panicErr); return ok }

func trimStack(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for _, l := range lines {
		if strings.HasPrefix(l, "\t") && strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (r *Run) outcomesAdd(acc, rej int64) {
	r.accepts.Add(acc)
	r.rejects.Add(rej)
}
