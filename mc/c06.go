package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/katydid/katydid/parser"
	jsonparser "github.com/katydid/katydid/parser/json"
	xmlparser "github.com/katydid/katydid/parser/xml"
	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/funcs"
)

func init() { register("C06", checkC06) }

// ---- a controlled scheduler: one thread runs at a time and hands the turn over at scheduling points.
// The functions are not instrumented by the race detector and use no synchronisation, so that the detector
// sees the threads' own accesses as unordered, whatever the schedule.

const maxPoints = 4096

type sched struct {
	turn     int
	diverged bool // the code did not repeat the same steps under the same schedule
	free     bool // given up on control (a thread did not come back in time)
	n        int
	done     [4]bool
	blocked  [4]bool // waits for a lock that another thread holds
	dead     bool    // every thread that is not done waits for a lock
	prefix   []int8
	npoints  int
	choice   [maxPoints]int8
	enabled  [maxPoints]uint8 // bit set of unfinished threads at the point
	running  [maxPoints]int8  // the thread that reached the point (-1: it finished there)
}

var cur *sched // one explorer per process

//go:norace
func (s *sched) decide(me int, alive bool) int {
	var mask uint8
	for i := 0; i < s.n; i++ {
		if !s.done[i] && !s.blocked[i] {
			mask |= 1 << uint(i)
		}
	}
	if mask == 0 {
		return -1
	}
	next := me
	if !alive {
		for i := 0; i < s.n; i++ {
			if mask&(1<<uint(i)) != 0 {
				next = i
				break
			}
		}
	}
	if s.npoints < maxPoints {
		if s.npoints < len(s.prefix) {
			if p := s.prefix[s.npoints]; mask&(1<<uint(p)) != 0 {
				next = int(p)
			} else {
				s.diverged = true
			}
		}
		s.choice[s.npoints] = int8(next)
		s.enabled[s.npoints] = mask
		if alive {
			s.running[s.npoints] = int8(me)
		} else {
			s.running[s.npoints] = -1
		}
		s.npoints++
	}
	return next
}

//go:norace
func (s *sched) wait(me int) {
	for n := 0; s.turn != me && !s.free; n++ {
		runtime.Gosched()
		if n&0xffff == 0xffff && spunTooLong(n) {
			s.free = true
		}
	}
}

//go:norace
func spunTooLong(n int) bool { return n > 1<<25 }

//go:norace
func (s *sched) yield(me int) {
	if s == nil || s.free {
		return
	}
	next := s.decide(me, true)
	if next != me {
		s.turn = next
		s.wait(me)
	}
}

//go:norace
func (s *sched) exit(me int) {
	s.done[me] = true
	if s.free {
		return
	}
	if next := s.decide(me, false); next >= 0 {
		s.turn = next
	} else {
		s.stuck()
	}
}

// stuck gives the threads up that wait for each other, if there are any.
//
//go:norace
func (s *sched) stuck() {
	for i := 0; i < s.n; i++ {
		if !s.done[i] {
			s.dead, s.free, everDead = true, true, true
		}
	}
}

var everDead bool

// the scheduling points of synchronised operations, see c06sync.go

//go:norace
func syncYield() bool {
	s := cur
	if s == nil || s.free {
		return false
	}
	s.yield(s.turn)
	return !s.free
}

//go:norace
func syncBlocked() bool {
	s := cur
	if s == nil {
		return false
	}
	if s.dead {
		panic("deadlock: every thread waits for a lock")
	}
	if s.free {
		return false
	}
	me := s.turn
	s.blocked[me] = true
	next := s.decide(me, false)
	if next < 0 {
		s.stuck()
		panic("deadlock: every thread waits for a lock")
	}
	s.turn = next
	s.wait(me)
	if s.dead {
		panic("deadlock: every thread waits for a lock")
	}
	return !s.free
}

//go:norace
func syncWoken() {
	if s := cur; s != nil {
		for i := range s.blocked {
			s.blocked[i] = false
		}
	}
}

//go:norace
func syncDead() bool { return everDead }

//go:norace
func (s *sched) current() int { return s.turn }

// yieldHere is the scheduling point for code that does not know its thread (user functions called by the validator).
//
//go:norace
func yieldHere() {
	if s := cur; s != nil && !s.free {
		s.yield(s.turn)
	}
}

// explore runs the threads under every schedule with at most bound preemptions (bound < 0: all schedules).
// check is called after every execution. It returns the number of schedules, or -1 if max was reached.
func explore(n int, bound int, max int, run func(t int), check func(schedule []int8) bool) (schedules int, points int, complete bool) {
	prefix := []int8{}
	preempt := 0
	for {
		s := &sched{n: n, prefix: prefix}
		cur = s
		s.turn = s.decide(0, false)
		var wg sync.WaitGroup
		for t := 0; t < n; t++ {
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				s.wait(t)
				run(t)
				s.exit(t)
			}(t)
		}
		wg.Wait()
		cur = nil
		schedules++
		points += s.npoints
		if !check(append([]int8{}, s.choice[:s.npoints]...)) {
			return schedules, points, false
		}
		if schedules >= max {
			return schedules, points, false
		}
		// the next schedule: the last point with an untried alternative within the preemption bound
		_ = preempt
		pre := make([]int, s.npoints+1)
		for i := 0; i < s.npoints; i++ {
			pre[i+1] = pre[i]
			if s.running[i] >= 0 && s.choice[i] != s.running[i] {
				pre[i+1]++
			}
		}
		found := false
		for i := s.npoints - 1; i >= 0 && !found; i-- {
			// alternatives are tried in the order: the default, then the other threads in increasing order
			def := s.running[i]
			if def < 0 {
				for t := 0; t < n; t++ {
					if s.enabled[i]&(1<<uint(t)) != 0 {
						def = int8(t)
						break
					}
				}
			}
			order := []int8{def}
			for t := 0; t < n; t++ {
				if int8(t) != def && s.enabled[i]&(1<<uint(t)) != 0 {
					order = append(order, int8(t))
				}
			}
			at := 0
			for at < len(order) && order[at] != s.choice[i] {
				at++
			}
			if at+1 < len(order) {
				cost := pre[i]
				if s.running[i] >= 0 && order[at+1] != s.running[i] {
					cost++
				}
				if bound < 0 || cost <= bound {
					prefix = append(append([]int8{}, s.choice[:i]...), order[at+1])
					found = true
				}
			}
		}
		if !found {
			return schedules, points, true
		}
	}
}

// ---- user functions with scheduling points in every method

type yieldFunc struct {
	V    funcs.Int
	hash uint64
}

func (f *yieldFunc) Eval() (bool, error) {
	yieldHere()
	v, err := f.V.Eval()
	yieldHere()
	return v == 1, err
}
func (f *yieldFunc) Compare(that funcs.Comparable) int {
	yieldHere()
	if f.Hash() != that.Hash() {
		if f.Hash() < that.Hash() {
			return -1
		}
		return 1
	}
	if o, ok := that.(*yieldFunc); ok {
		return f.V.Compare(o.V)
	}
	return strings.Compare(f.String(), that.String())
}
func (f *yieldFunc) Hash() uint64      { yieldHere(); return f.hash }
func (f *yieldFunc) String() string    { yieldHere(); return "vyield(" + f.V.String() + ")" }
func (f *yieldFunc) HasVariable() bool { return true }

func newYieldFunc(v funcs.Int) funcs.Bool {
	yieldHere()
	return funcs.TrimBool(&yieldFunc{v, 77771*31 + v.Hash()})
}

// ---- the thread programs

type yieldParser struct {
	p parser.Interface
	t int
}

func (y *yieldParser) Next() error              { cur.yield(y.t); return y.p.Next() }
func (y *yieldParser) IsLeaf() bool             { return y.p.IsLeaf() }
func (y *yieldParser) Up()                      { cur.yield(y.t); y.p.Up() }
func (y *yieldParser) Down()                    { cur.yield(y.t); y.p.Down() }
func (y *yieldParser) Double() (float64, error) { cur.yield(y.t); return y.p.Double() }
func (y *yieldParser) Int() (int64, error)      { cur.yield(y.t); return y.p.Int() }
func (y *yieldParser) Uint() (uint64, error)    { cur.yield(y.t); return y.p.Uint() }
func (y *yieldParser) Bool() (bool, error)      { cur.yield(y.t); return y.p.Bool() }
func (y *yieldParser) String() (string, error)  { cur.yield(y.t); return y.p.String() }
func (y *yieldParser) Bytes() ([]byte, error)   { cur.yield(y.t); return y.p.Bytes() }

var c06Grammars = []string{
	`a == 1`,
	`((a == 1 | b == "x"))*`,
	`{a:*; b == "x"; .c:*}`,
	`[_:@r, *] #r = (a:@r | <empty>)`,
	`!(.a ~= "x+") `,
	`(.a:(b == 1 & c:*) & .!(a)->contains($string, "x"))`,
	`[a -> vyield($int), (b:*)?]`,
	`(a -> or(vyield($int), eq($int, 2)) | a -> and(vyield($int), not(vyield(1))))`,
	`a:{.vyield(1) ; *}`,
}

func c06Text(i int) string {
	return strings.Replace(c06Grammars[i], ".vyield(1)", ".->vyield($int)", 1)
}

var c06Inputs = []string{
	`{"a":1}`,
	`{"b":"x"}`,
	`{"a":{"a":{}}}`,
	`{"a":"xx","b":"x","c":{}}`,
	`{"a":{"b":1,"c":2}}`,
	`{"a":1,"b":{}}`,
	`{"a":{"q":1,"b":[1,2]}}`,
}

var c06XML = []string{`<a>1</a>`, `<b>x</b>`, `<a><a/></a>`}

// one thread: engine x inputs, on a grammar shared by all threads
type c06Prog struct {
	eng    *Engine
	inputs []int
	format string
	parse  bool // parse the grammar text itself instead of using the shared one
	pre    bool // prepared before the threads start
}

func (p *c06Prog) String() string {
	s := p.eng.Name + " on"
	for _, i := range p.inputs {
		if p.format == "xml" {
			s += " " + c06XML[i]
		} else {
			s += " " + c06Inputs[i]
		}
	}
	if p.parse {
		s = "parsing the grammar, " + s
	}
	if p.pre {
		s = "(prepared beforehand) " + s
	}
	return s
}

func (p *c06Prog) run(t int, text string, shared *ast.Grammar, bufs [][]byte, pre validateFunc) string {
	g := shared
	var out []string
	err := guard(func() error {
		if p.parse {
			var err error
			if g, err = relapse.Parse(text); err != nil {
				return err
			}
		}
		v := pre
		if !p.pre {
			var err error
			if v, err = p.eng.Prepare(g); err != nil {
				return err
			}
			if v == nil {
				out = append(out, "gave up")
				return nil
			}
		}
		for _, i := range p.inputs {
			var in parser.Interface
			if p.format == "xml" {
				x := xmlparser.NewXMLParser()
				if err := x.Init([]byte(c06XML[i])); err != nil {
					return err
				}
				in = x
			} else {
				j := jsonparser.NewJsonParser()
				if err := j.Init(bufs[i]); err != nil { // the input buffer is shared too
					return err
				}
				in = j
			}
			ok, err := v(&yieldParser{in, t})
			out = append(out, fmt.Sprint(ok, err))
		}
		return nil
	})
	if err != nil {
		out = append(out, err.Error())
	}
	return strings.Join(out, ", ")
}

type c06Case struct {
	gram  int
	progs []*c06Prog
	bound int
	max   int
}

func c06Cases(thorough bool) []*c06Case {
	engines := []*Engine{engMem, engMemRecord, engIntern, engInterp, engAuto, engSimplify, engSimplifyRecord, engInternRecord}
	var out []*c06Case
	limit := 700
	bound := 2
	if thorough {
		limit, bound = 40000, 3
	}
	for g := range c06Grammars {
		// every pair of engines
		for i, e1 := range engines {
			for j, e2 := range engines {
				if j < i {
					continue
				}
				out = append(out, &c06Case{g, []*c06Prog{{eng: e1, inputs: []int{0, 3}}, {eng: e2, inputs: []int{3, 5}}}, bound, limit})
			}
		}
		// the memoizing validator on every pair of inputs, all schedules as far as the limit allows
		for i := range c06Inputs {
			for j := range c06Inputs {
				out = append(out, &c06Case{g, []*c06Prog{{eng: engMem, inputs: []int{i}}, {eng: engMem, inputs: []int{j}}}, bound, limit})
				if i <= j {
					out = append(out, &c06Case{g, []*c06Prog{{eng: engMem, inputs: []int{i}, pre: true}, {eng: engMem, inputs: []int{j}, pre: true}}, -1, 2 * limit})
				}
			}
		}
		for i := range c06XML {
			out = append(out, &c06Case{g, []*c06Prog{{eng: engMem, inputs: []int{i}, format: "xml"}, {eng: engMem, inputs: []int{i}}}, bound, limit})
			out = append(out, &c06Case{g, []*c06Prog{{eng: engMem, inputs: []int{i, 0}, format: "xml", parse: true}, {eng: engIntern, inputs: []int{i}, format: "xml", parse: true}}, bound, limit})
		}
		// three threads
		out = append(out,
			&c06Case{g, []*c06Prog{{eng: engMem, inputs: []int{0, 4}}, {eng: engMem, inputs: []int{4, 0}}, {eng: engMem, inputs: []int{5}}}, bound, limit},
			&c06Case{g, []*c06Prog{{eng: engMem, inputs: []int{3}, parse: true}, {eng: engAuto, inputs: []int{3}, parse: true}, {eng: engInterp, inputs: []int{3}}}, bound, limit},
			&c06Case{g, []*c06Prog{{eng: engMem, inputs: []int{6}}, {eng: engSimplify, inputs: []int{6}}, {eng: engMemRecord, inputs: []int{6}, pre: true}}, bound, limit})
	}
	return out
}

func c06Run(r *Run, shard, shards int) {
	funcs.Register("vyield", newYieldFunc)
	cases := c06Cases(r.Thorough)
	for ci, c := range cases {
		if ci%shards != shard {
			continue
		}
		if r.Out() {
			break
		}
		text := c06Text(c.gram)
		var names []string
		for _, p := range c.progs {
			names = append(names, p.String())
		}
		desc := fmt.Sprintf("grammar %s; %s", text, strings.Join(names, " || "))
		r.mark(0, func() string { return desc })
		mk := func() (*ast.Grammar, [][]byte, []validateFunc) {
			g, err := relapse.Parse(text)
			if err != nil {
				panic(err)
			}
			var bufs [][]byte
			for _, s := range c06Inputs {
				bufs = append(bufs, []byte(s))
			}
			pre := make([]validateFunc, len(c.progs))
			for i, p := range c.progs {
				if p.pre {
					if pre[i], err = p.eng.Prepare(g); err != nil {
						panic(err)
					}
				}
			}
			return g, bufs, pre
		}
		// alone, one after the other, each on its own grammar
		want := make([]string, len(c.progs))
		for i, p := range c.progs {
			g, bufs, pre := mk()
			want[i] = p.run(i, text, g, bufs, pre[i])
		}
		got := make([]string, len(c.progs))
		var g *ast.Grammar
		var bufs [][]byte
		var pre []validateFunc
		g, bufs, pre = mk()
		total, totalPoints, best := 0, 0, ""
		run := func(t int) { got[t] = c.progs[t].run(t, text, g, bufs, pre[t]) }
		check := func(schedule []int8) bool {
			for i := range want {
				if got[i] != want[i] {
					r.Violation(desc, fmt.Sprintf("%s\nthread %d gives %s, alone it gives %s\nschedule (the thread that runs after each scheduling point): %v", desc, i, got[i], want[i], schedule), map[string]interface{}{"case": desc, "schedule": schedule})
					return false
				}
			}
			g, bufs, pre = mk()
			return true
		}
		bounds := []int{1, 2, 3}[:max(c.bound, 1)]
		if c.bound < 0 {
			bounds = []int{1, -1}
		}
		for _, b := range bounds {
			n, points, complete := explore(len(c.progs), b, c.max, run, check)
			total += n
			totalPoints += points
			if !complete {
				break
			}
			best = fmt.Sprintf("every schedule with at most %d preemptions", b)
			if b < 0 {
				best = "every schedule"
			}
		}
		n, points := total, totalPoints
		r.States.Add(int64(points))
		r.Transitions.Add(int64(points))
		r.Traces.Add(int64(n))
		if best == "" {
			best = "less than every schedule with at most 1 preemption"
		}
		r.Outcome("cases with "+best, 1)
		if ci%50 == 0 || os.Getenv("VMC_VERBOSE") != "" {
			r.Sample("%s: %d schedules, %d scheduling points", desc, n, points)
		}
	}
}

func checkC06(r *Run) {
	if s := os.Getenv("VMC_SHARD"); s != "" {
		var shard, shards int
		fmt.Sscanf(s, "%d/%d", &shard, &shards)
		runtime.GOMAXPROCS(1)
		c06Run(r, shard, shards)
		return
	}
	r.Assume("the code between two scheduling points (parser calls, every method of a user function while preparing and evaluating, and every operation of package sync or sync/atomic in the repository) runs without interruption; unsynchronised conflicting accesses inside it are left to the race detector, which runs in every execution and sees no ordering between the threads")
	shards := runtime.NumCPU()
	if shards < 2 {
		shards = 2
	}
	type result struct {
		out  []byte
		code int
		err  string
		dir  string
	}
	results := make([]result, shards)
	var wg sync.WaitGroup
	deadline := r.deadline
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			dir, err := os.MkdirTemp("", "vmcshard")
			if err != nil {
				panic(err)
			}
			results[i].dir = dir
			copyFile(filepath.Join(r.VerifDir, "known_findings.json"), filepath.Join(dir, "known_findings.json"))
			cmd := exec.Command(os.Args[0], "-child", "-prop", "C06", "-tier", r.Tier, "-verif", dir, "-budget", fmt.Sprint(int(time.Until(deadline).Seconds())))
			cmd.Env = append(os.Environ(), fmt.Sprintf("VMC_SHARD=%d/%d", i, shards), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=3")
			var tail tailBuffer
			cmd.Stderr = &tail
			out, err := cmd.Output()
			results[i].out = out
			results[i].err = string(tail.head)
			if ee, ok := err.(*exec.ExitError); ok {
				results[i].code = ee.ExitCode()
			} else if err != nil {
				results[i].code = 2
				results[i].err += err.Error()
			}
		}(i)
	}
	wg.Wait()
	defer func() {
		for i := range results {
			os.RemoveAll(results[i].dir)
		}
	}()
	for i := range results {
		res := &results[i]
		switch {
		case res.code == 0:
			var ev struct {
				Coverage struct {
					States, Transitions int64
					Traces              int64 `json:"traces_validated_against_impl"`
					Samples             []string
					Exhaustive          bool
					Outcomes            map[string]int64
				}
			}
			data, err := os.ReadFile(filepath.Join(res.dir, "evidence", "C06.json"))
			if err == nil {
				err = json.Unmarshal(data, &ev)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			r.States.Add(ev.Coverage.States)
			r.Transitions.Add(ev.Coverage.Transitions)
			r.Traces.Add(ev.Coverage.Traces)
			for _, s := range ev.Coverage.Samples {
				r.Sample("%s", s)
			}
			for k, v := range ev.Coverage.Outcomes {
				r.Outcome(k, v)
			}
			if !ev.Coverage.Exhaustive {
				r.capped.Store(true)
			}
		case res.code == 1:
			data, _ := os.ReadFile(filepath.Join(res.dir, "evidence", "replay", "C06.json"))
			var v struct{ Key, What string }
			json.Unmarshal(data, &v)
			r.Violation(v.Key, v.What, json.RawMessage(data))
		case (res.code == 66 || strings.Contains(res.err, "WARNING: DATA RACE")) && strings.Contains(res.err, "katydid/katydid"):
			r.Violation("data race", "the race detector reports a data race between two validations that share nothing but the parsed grammar and the input buffer:\n"+res.err, res.err)
		case strings.Contains(res.err, "fatal error: concurrent map") || strings.Contains(res.err, "stack overflow"):
			r.Violation("runtime crash", "the Go runtime aborts:\n"+res.err, res.err)
		default:
			fmt.Fprintf(os.Stderr, "shard %d exits %d:\n%s\n%s\n", i, res.code, res.out, res.err)
			os.Exit(2)
		}
	}
	r.Bound("9 grammars x all pairs of 8 engines, all pairs of 7 inputs, shared grammar, shared input buffer, mixed parsers, three threads: every schedule with at most %d preemptions (and every schedule at all for short prepared pairs), each case limited as listed under outcomes", map[bool]int{false: 2, true: 3}[r.Thorough])
}

func copyFile(from, to string) {
	if data, err := os.ReadFile(from); err == nil {
		os.WriteFile(to, data, 0644)
	}
}
