package main

// Concurrent use of shared objects (S09): the race detector watches, and the
// results are compared with those of the same calls run alone.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

type outcome struct {
	res []any
	pan any
}

const routines = 8

// Cases from coldBase on are cold starts: each runs in a process of its own
// that has not used the library before, so that whatever the library sets up
// at its first use is set up by several goroutines at once.
const coldBase = 1000000000

func runConcurrent(c *Ctx) {
	if !raceBuild && os.Getenv("MON_NORACE") == "" {
		panic("harness: S09 needs the race detector")
	}
	before := raceErrors()
	if c.Idx >= coldBase {
		c.coldStart()
	} else if c.p(0.15) {
		c.ownEnvironments()
	} else {
		c.sharedObjects()
	}
	if n := raceErrors() - before; n > 0 {
		c.fail("%d data race(s) reported while these ran concurrently: %s", n, strings.Join(c.Trace, "; "))
	}
}

// coldStart runs the cases of the other properties, the same ones in every
// goroutine. The goroutines share no objects.
func (c *Ctx) coldStart() {
	var ids []string
	for id := range props {
		if id != "S09" {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	type job struct {
		p   *Prop
		idx int
	}
	var jobs []job
	for _, i := range c.perm(len(ids)) {
		n := 3
		if ids[i] == "S08" {
			n = 1
		}
		for k := 0; k < n; k++ {
			jobs = append(jobs, job{props[ids[i]], coldBase + c.n(100000000)})
		}
	}
	if c.p(0.5) {
		mixed := make([]job, 0, len(jobs))
		for _, i := range c.perm(len(jobs)) {
			mixed = append(mixed, jobs[i])
		}
		jobs = mixed
	}
	c.Trace = append(c.Trace, "cases of all other properties, from the start of the process")
	shift := c.p(0.3) // otherwise every call meets itself
	bad := make([][]Viol, routines)
	jobOf := make([][]job, routines)
	workers := make([]*worker, routines)
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < routines; i++ {
		workers[i] = &worker{counts: map[string]int{}, sigs: map[uint64]bool{}, cur: -1}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := range jobs {
				j := jobs[k]
				if shift {
					j = jobs[(k+i*3)%len(jobs)]
				}
				for _, v := range runCase(j.p, 1, j.idx, "quick", workers[i], false) {
					bad[i] = append(bad[i], v)
					jobOf[i] = append(jobOf[i], j)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	evals := 0
	for i, w := range workers {
		evals += w.evals
		for k, j := range jobOf[i] {
			w := &worker{counts: map[string]int{}, sigs: map[uint64]bool{}, cur: -1}
			if len(runCase(j.p, 1, j.idx, "quick", w, false)) == 0 {
				c.fail("case %d of %s, run in %d goroutines at once (and not when run alone): %s", j.idx, j.p.ID, routines, bad[i][k].Msg)
				return
			}
		}
	}
	c.count("cold starts")
	c.countN("evaluations of other properties in cold starts", evals)
	c.seen(true, "cold", c.Idx)
}

func (c *Ctx) sharedObjects() {
	p := newPool(c)
	// derived objects, as a program would have them
	for i := 0; i < c.n(6); i++ {
		if k := p.next(); k != nil {
			if res, pan := k.exec(); pan == nil {
				for _, x := range res {
					p.add(x)
				}
			}
		}
	}
	var calls []*call
	n := 6 + c.n(14)
	if c.p(0.3) { // many calls on few objects
		p.exprs = p.exprs[:min(3, len(p.exprs))]
	}
	for len(calls) < n {
		k := p.next()
		if k == nil {
			break
		}
		calls = append(calls, k)
	}
	if len(calls) == 0 {
		return
	}
	shared := p.roots()
	hashes := make([]uint64, len(shared))
	for i, x := range shared {
		hashes[i] = fullHash(x)
	}
	for _, k := range calls {
		c.Trace = append(c.Trace, clip(k.desc(), 160))
		c.count(k.name)
	}
	outs := make([][]outcome, routines)
	orders := make([][]int, routines)
	yields := make([]int, routines)
	for i := range orders {
		outs[i] = make([]outcome, len(calls))
		orders[i] = c.perm(len(calls))
		if c.p(0.4) { // all in the same order: the same call meets itself
			for j := range orders[i] {
				orders[i][j] = j
			}
		}
		yields[i] = c.n(4)
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < routines; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for j, k := range orders[i] {
				if yields[i] > 0 && j%yields[i] == 0 {
					runtime.Gosched()
				}
				res, pan := calls[k].exec()
				outs[i][k] = outcome{res, pan}
			}
		}()
	}
	close(start)
	wg.Wait()
	for i, x := range shared {
		if fullHash(x) != hashes[i] {
			c.fail("a shared object was changed by concurrent use; it is now %s; calls: %s", show(x), strings.Join(c.Trace, "; "))
			return
		}
	}
	for k, cl := range calls {
		res, pan := cl.exec()
		for i := range outs {
			if d := outcomeDiff(outs[i][k], outcome{res, pan}); d != "" {
				// a call whose results vary when run alone decides nothing here
				r2, p2 := cl.exec()
				if outcomeDiff(outcome{res, pan}, outcome{r2, p2}) != "" {
					c.count("varies alone")
					break
				}
				c.fail("%s gave another result when run concurrently with others: %s\n  others: %s", cl.desc(), d, strings.Join(c.Trace, "; "))
				return
			}
		}
	}
	c.countN("concurrent calls", routines*len(calls))
	c.seen(true, c.Trace, orders)
	c.sample("%d goroutines: %s", routines, strings.Join(c.Trace, "; "))
}

// outcomeDiff compares what two runs of one call gave.
func outcomeDiff(a, b outcome) string {
	if (a.pan == nil) != (b.pan == nil) {
		return fmt.Sprintf("panic %v, alone %v", a.pan, b.pan)
	}
	if len(a.res) != len(b.res) {
		return "different number of results"
	}
	for i := range a.res {
		x, y := a.res[i], b.res[i]
		if fmt.Sprintf("%T", x) != fmt.Sprintf("%T", y) {
			return fmt.Sprintf("%T, alone %T", x, y)
		}
		if hashAny(x) == hashAny(y) {
			continue
		}
		rx, ex := toRef(x)
		ry, ey := toRef(y)
		if ex == nil && ey == nil && mDiff(rx, ry, tolChain) == "" {
			continue
		}
		if _, ok := x.(error); ok {
			continue
		}
		return fmt.Sprintf("%s, alone %s", show(x), show(y))
	}
	return ""
}

// ownEnvironments: goroutines that create variables in environments of their own.
func (c *Ctx) ownEnvironments() {
	type step struct{ kind, n, m int }
	scripts := make([][]step, routines)
	names := make([]string, routines)
	for i := range scripts {
		n := 3 + c.n(10)
		for j := 0; j < n; j++ {
			scripts[i] = append(scripts[i], step{c.n(8), 1 + c.n(4), 1 + c.n(3)})
		}
		names[i] = []string{"same", fmt.Sprintf("env%d", i)}[c.n(2)]
	}
	run := func(i int) (log []string) {
		defer func() {
			if r := recover(); r != nil {
				log = append(log, fmt.Sprint("panic: ", r))
			}
		}()
		env := sym.MakeBasicEnvironment(names[i])
		put := func(vs ...sym.Variable) {
			for _, v := range vs {
				log = append(log, fmt.Sprintf("%d %v %v %v %q %v", v.ID, v.Lower, v.Upper, v.Type, v.Name, v.Environment == sym.Environment(&env)))
			}
		}
		var all sym.VariableVector
		for _, s := range scripts[i] {
			switch s.kind {
			case 0, 1:
				v := sym.NewVariable(&env)
				put(v)
				all = append(all, v)
			case 2:
				put(sym.NewContinuousVariable(&env))
			case 3:
				put(sym.NewBinaryVariable(&env))
			case 4:
				put(sym.NewVariableVector(s.n, &env)...)
			case 5:
				for _, r := range sym.NewVariableMatrix(s.n, s.m, &env) {
					put(r...)
				}
			case 6:
				put(env.AllTrackedVariables()...)
			default:
				if len(all) > 1 {
					e := all[0].Plus(all[1]).Multiply(all[len(all)-1])
					log = append(log, fmt.Sprint(e))
				}
			}
		}
		log = append(log, env.GetName(), fmt.Sprint(len(env.AllTrackedVariables())))
		return log
	}
	outs := make([][]string, routines)
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < routines; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			outs[i] = run(i)
		}()
	}
	close(start)
	wg.Wait()
	c.Trace = append(c.Trace, "creation of variables in environments of their own")
	for i := range outs {
		alone := run(i)
		if a, b := strings.Join(outs[i], "\n"), strings.Join(alone, "\n"); a != b {
			c.fail("goroutine %d, creating variables in its own environment while others did in theirs, got\n%s\nbut alone\n%s", i, clip(a, 1500), clip(b, 1500))
			return
		}
	}
	c.count("own environments")
	c.seen(true, scripts, names)
}

var raceFrame = regexp.MustCompile(`(?m)^  (github\.com/MatProGo-dev/[^\s(]+(?:\([^)]*\))?[^\s(]*)\(`)

// raceReports reads the race detector's logs. The cases that were running are
// reported by the cases themselves; here the places are named, and reports
// that no case accounts for become violations of their own.
func raceReports(dir string) ([]Viol, map[string]any) {
	files, _ := filepath.Glob(filepath.Join(dir, "race*"))
	n := 0
	places := map[string]int{}
	first := ""
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "DATA RACE") {
				continue
			}
			n++
			if first == "" {
				first = clip(blk, 2500)
			}
			if m := raceFrame.FindStringSubmatch(blk); m != nil {
				places[m[1]]++
			} else {
				places["(no library frame)"]++
			}
		}
	}
	var ps []string
	for p := range places {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	cov := map[string]any{"race_reports": n, "race_places": ps, "race_detector": raceBuild}
	if n > 0 {
		return []Viol{{0, fmt.Sprintf("%d race detector reports, in %v; the first:%s", n, ps, first)}}, cov
	}
	return nil, cov
}

func init() {
	register(&Prop{ID: "S09", Quick: 18000, Thorough: 160000, Run: runConcurrent, Serial: true,
		Rule:   "each case: 8 goroutines start together and run the same 6 to 19 calls (any methods and functions) on the same shared objects in their own orders, under the race detector; afterwards shared objects are compared with their snapshots and every result with that of the same call run alone; 15 % of the cases: goroutines creating variables in environments of their own; moreover cold starts: 8 goroutines of a new process run the same cases of all other properties at once; distinct: calls and orders",
		Assume: []string{"the race detector reports races of executed accesses only"}})
}
