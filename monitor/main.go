package main

// Driver: runs the cases of one property on all cores, watches them, and
// writes verdict, replay file and evidence.
//
// The process that the check starts is a supervisor. It runs the cases in a
// child process, so that a fatal error of the Go runtime (stack overflow,
// concurrent map writes) in the code under test is observed and attributed
// to the case that caused it.

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Viol is one observed violation.
type Viol struct {
	Case int    `json:"case"`
	Msg  string `json:"msg"`
}

// Prop is one property's monitor.
type Prop struct {
	ID       string
	Quick    int
	Thorough int
	Rule     string
	Run      func(c *Ctx)
	Serial   bool                     // one worker (the case itself is concurrent)
	Finish   func(cov map[string]any) // extra evidence
	Assume   []string
}

// Ctx is the context of one case.
type Ctx struct {
	*Gen
	P     *Prop
	Idx   int
	Tier  string
	w     *worker
	viols []Viol
	Trace []string
	verb  bool
}

type worker struct {
	mu      sync.Mutex
	cur     int
	tid     int
	started int64 // cpu ticks at the start of the case
	waited  int   // ticks of the clock since then
	active  bool
	counts  map[string]int
	sigs    map[uint64]bool
	evals   int
	samples []string
	viols   []Viol
}

func (c *Ctx) fail(format string, a ...any) {
	if len(c.viols) < 3 {
		msg := fmt.Sprintf(format, a...)
		c.viols = append(c.viols, Viol{c.Idx, clip(msg, 6000)})
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (c *Ctx) count(k string)         { c.w.counts[k]++ }
func (c *Ctx) countN(k string, n int) { c.w.counts[k] += n }

// seen records one evaluated execution; nontrivial ones are counted when distinct.
func (c *Ctx) seen(nontrivial bool, parts ...any) {
	c.w.evals++
	if nontrivial {
		c.w.sigs[deepHash(parts)] = true
	}
}

func (c *Ctx) sample(format string, a ...any) {
	if len(c.w.samples) < 3 && c.Idx%7 == 3 {
		c.w.samples = append(c.w.samples, clip(fmt.Sprintf(format, a...), 700))
	}
}

// try runs a library call, recovering from its panic.
func try(f func() any) (res any, pan any) {
	defer func() {
		if r := recover(); r != nil {
			pan = r
			if pan == nil {
				pan = "nil panic"
			}
			res = nil
		}
	}()
	return f(), nil
}

func str(x any) string {
	r, err := toRef(x)
	if r.E == nil {
		return fmt.Sprintf("%T{%v}", x, err)
	}
	return fmt.Sprintf("%s %s", kindOf(x), r.String())
}

func runCase(p *Prop, seed int64, idx int, tier string, w *worker, verb bool) (viols []Viol) {
	c := &Ctx{P: p, Idx: idx, Tier: tier, w: w, verb: verb}
	r := newRNG(seed, p.ID, idx)
	c.Gen = newGen(r, p.ID)
	if idx < coldBase {
		c.outsize(p.ID)
	}
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			_, rt := e.(runtime.Error)
			if !rt && !panickedInLibrary(st) {
				panic(fmt.Sprintf("HARNESS case %d of %s: %v\n%s", idx, p.ID, e, st))
			}
			// the code under test panicked, or gave an object of a kind that
			// the operation cannot have
			c.fail("unexpected panic: %v\n%s", e, clip(st, 1500))
			viols = c.viols
		}
	}()
	p.Run(c)
	return c.viols
}

// panickedInLibrary tells from the stack of a recovered panic whether the
// innermost frame of library or monitor code belongs to the library.
func panickedInLibrary(st string) bool {
	seen := false
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "github.com/MatProGo-dev/SymbolicMath.go") {
			return true
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	p, _ := strconv.ParseInt(f[1], 10, 64)
	return p * int64(os.Getpagesize())
}

const maxRSS = 12 << 30

func threadCPU(tid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/self/task/%d/stat", tid))
	if err != nil {
		return -1
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

// slowLog (development, MON_SLOW=seconds): cases that take longer go to $MON_SLOWLOG.
var slowLog, _ = strconv.ParseFloat(os.Getenv("MON_SLOW"), 64)

const hangCPU = 40.0  // seconds of processor time within one case
const hangTicks = 350 // ticks of 0.2 s within one case that hardly runs: blocked

type childOut struct {
	Viols   []Viol         `json:"viols"`
	Evals   int            `json:"evals"`
	Cases   int            `json:"cases"`
	Nontriv int            `json:"nontriv"`
	Counts  map[string]int `json:"counts"`
	Samples []string       `json:"samples"`
	Hung    []int          `json:"hung"`
	Extra   map[string]any `json:"extra"`
}

// shardCount processes run the cases of a property whose cases are themselves
// concurrent: one case at a time each, so that a race report has one cause.
const shardCount = 4

func (o *childOut) add(c childOut) {
	o.Viols = append(o.Viols, c.Viols...)
	o.Evals += c.Evals
	o.Cases += c.Cases
	o.Nontriv += c.Nontriv // of different cases
	for k, v := range c.Counts {
		o.Counts[k] += v
	}
	o.Samples = append(o.Samples, c.Samples...)
	if c.Extra != nil {
		o.Extra = c.Extra
	}
}

func child(p *Prop, seed int64, tier string, n int, skip map[int]bool, only, shard, shards int, out string, progress string) {
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(400)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if p.Serial || only >= 0 {
		nw = 1
	}
	var next int64 = -1
	var nviol int64
	var wg sync.WaitGroup
	ws := make([]*worker, nw)
	pf, err := os.OpenFile(progress, os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	var done int64
	for i := range ws {
		w := &worker{counts: map[string]int{}, sigs: map[uint64]bool{}, cur: -1}
		ws[i] = w
		wg.Add(1)
		slot := i
		go func() {
			runtime.LockOSThread()
			defer wg.Done()
			w.mu.Lock()
			w.tid = syscall.Gettid()
			w.mu.Unlock()
			for {
				k := int(atomic.AddInt64(&next, 1))
				if k >= n || atomic.LoadInt64(&nviol) > 40 {
					break
				}
				if only >= 0 {
					if k > 0 {
						break
					}
					k = only
				}
				if skip[k] || only < 0 && k%shards != shard {
					continue
				}
				pf.WriteAt([]byte(fmt.Sprintf("%-12d\n", k)), int64(slot*13))
				w.mu.Lock()
				w.cur, w.started, w.waited, w.active = k, int64(threadCPU(w.tid)*100), 0, true
				w.mu.Unlock()
				v := runCase(p, seed, k, tier, w, only >= 0)
				if slowLog > 0 {
					if t := threadCPU(w.tid) - float64(w.started)/100; t > slowLog {
						if f, err := os.OpenFile(os.Getenv("MON_SLOWLOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
							fmt.Fprintf(f, "%s %d %.2f\n", p.ID, k, t)
							f.Close()
						}
					}
				}
				w.mu.Lock()
				w.active = false
				w.viols = append(w.viols, v...)
				w.mu.Unlock()
				atomic.AddInt64(&nviol, int64(len(v)))
				atomic.AddInt64(&done, 1)
			}
			pf.WriteAt([]byte(fmt.Sprintf("%-12d\n", -1)), int64(slot*13))
			w.mu.Lock()
			w.active = false
			w.cur = -1
			w.mu.Unlock()
		}()
	}
	fin := make(chan bool)
	go func() { wg.Wait(); close(fin) }()
	var hung []int
	tick := time.NewTicker(200 * time.Millisecond)
loop:
	for {
		select {
		case <-fin:
			break loop
		case <-tick.C:
			if rss() > maxRSS {
				fmt.Fprintf(os.Stderr, "memory: more than %d GB in use\n", maxRSS>>30)
				os.Exit(3)
			}
			live, stuck := 0, 0
			hung = hung[:0]
			for _, w := range ws {
				w.mu.Lock()
				if w.active {
					live++
					used := threadCPU(w.tid) - float64(w.started)/100
					w.waited++
					if used > hangCPU || used < hangCPU/5 && w.waited > hangTicks {
						stuck++
						hung = append(hung, w.cur)
					}
				}
				w.mu.Unlock()
			}
			if stuck > 0 && (stuck == live || stuck >= 3) {
				break loop
			}
		}
	}
	var o childOut
	o.Counts = map[string]int{}
	sigs := map[uint64]bool{}
	o.Hung = hung
	o.Cases = int(done)
	for _, w := range ws {
		w.mu.Lock()
		if !w.active { // a hung worker's maps are still being written
			o.Evals += w.evals
			for k, v := range w.counts {
				o.Counts[k] += v
			}
			for k := range w.sigs {
				sigs[k] = true
			}
			o.Samples = append(o.Samples, w.samples...)
			o.Viols = append(o.Viols, w.viols...)
		}
		w.mu.Unlock()
	}
	o.Nontriv = len(sigs)
	if p.Finish != nil {
		o.Extra = map[string]any{}
		p.Finish(o.Extra)
	}
	b, _ := json.Marshal(o)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		panic(err)
	}
	os.Exit(0)
}

type replayFile struct {
	Property string `json:"property"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Case     int    `json:"case"`
	Msg      string `json:"msg"`
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	only := flag.Int("case", -1, "run this case only")
	nOver := flag.Int("n", 0, "number of cases (default: by tier)")
	div := flag.Int("div", 1, "run only one in div of the cases (development)")
	root := flag.String("root", "/verif", "directory for evidence and replays")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	isChild := flag.Bool("child", false, "")
	skipS := flag.String("skip", "", "")
	outF := flag.String("out", "", "")
	progF := flag.String("progress", "", "")
	replay := flag.String("replay", "", "replay file")
	race := flag.Bool("race", false, "race build: read the race logs")
	tmp := flag.String("tmp", os.TempDir(), "scratch directory")
	flag.Parse()
	if *replay != "" {
		var rf replayFile
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &rf)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*prop, *seed, *tier, *only = rf.Property, rf.Seed, rf.Tier, rf.Case
	}
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	n := p.Quick
	if *tier == "thorough" {
		n = p.Thorough
	}
	if n /= *div; n < 50 {
		n = 50
	}
	if *nOver > 0 {
		n = *nOver
	}
	if *isChild {
		skip := map[int]bool{}
		for _, s := range strings.Split(*skipS, ",") {
			if k, err := strconv.Atoi(s); err == nil {
				skip[k] = true
			}
		}
		child(p, *seed, *tier, n, skip, *only, *shard, *shards, *outF, *progF)
	}

	start := time.Now()
	dir, err := os.MkdirTemp(*tmp, "mon")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	var o childOut
	var fatals []Viol
	var hangs []int
	var inconclusive []string
	ns := 1
	if p.Serial && *only < 0 {
		ns = shardCount
	}
	o.Counts = map[string]int{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	// one process for each cold start
	cold := func(k int) {
		defer wg.Done()
		out := filepath.Join(dir, fmt.Sprintf("cold%d.json", k))
		cmd := exec.Command(os.Args[0], "-child", "-prop", *prop, "-tier", *tier, "-seed", fmt.Sprint(*seed),
			"-case", fmt.Sprint(k), "-out", out, "-progress", out+".p")
		var tail ring
		cmd.Stderr = &tail
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=4 atexit_sleep_ms=0 log_path="+filepath.Join(dir, "race"))
		rerr := cmd.Run()
		mu.Lock()
		defer mu.Unlock()
		if b, e := os.ReadFile(out); e == nil && rerr == nil {
			var c childOut
			json.Unmarshal(b, &c)
			for _, h := range c.Hung {
				c.Viols = append(c.Viols, Viol{h, hangMsg})
			}
			o.add(c)
			return
		}
		msg := tail.String()
		if strings.Contains(msg, "HARNESS") {
			fmt.Fprintln(os.Stderr, msg)
			os.Exit(2)
		}
		o.Viols = append(o.Viols, Viol{k, "the process ended while this case was running: " + firstLine(msg)})
	}
	run := func(i int) {
		defer wg.Done()
		skip := []string{}
		for attempt := 0; ; attempt++ {
			out, prog := filepath.Join(dir, fmt.Sprintf("out%d.json", i)), filepath.Join(dir, fmt.Sprintf("progress%d", i))
			os.Remove(out)
			os.Remove(prog)
			cmd := exec.Command(os.Args[0], "-child", "-prop", *prop, "-tier", *tier,
				"-seed", fmt.Sprint(*seed), "-case", fmt.Sprint(*only), "-n", fmt.Sprint(n),
				"-shard", fmt.Sprint(i), "-shards", fmt.Sprint(ns),
				"-skip", strings.Join(skip, ","), "-out", out, "-progress", prog)
			var tail ring
			cmd.Stderr = &tail
			cmd.Stdout = os.Stdout
			if *race {
				cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=4 log_path="+filepath.Join(dir, "race"))
			}
			rerr := cmd.Run()
			mu.Lock()
			if b, e := os.ReadFile(out); e == nil && rerr == nil {
				var c childOut
				json.Unmarshal(b, &c)
				hangs = append(hangs, c.Hung...)
				o.add(c)
				mu.Unlock()
				return
			}
			msg := tail.String()
			if strings.Contains(msg, "HARNESS") {
				fmt.Fprintln(os.Stderr, msg)
				os.Exit(2)
			}
			ks := readProgress(prog)
			what := firstLine(msg)
			for _, k := range ks {
				fatals = append(fatals, Viol{k, "fatal runtime error while this case was running: " + what})
				skip = append(skip, fmt.Sprint(k))
			}
			if len(ks) == 0 || attempt >= 3 || *only >= 0 {
				inconclusive = append(inconclusive, "child ended early: "+what)
				mu.Unlock()
				return
			}
			mu.Unlock()
		}
	}
	for i := 0; i < ns; i++ {
		wg.Add(1)
		go run(i)
	}
	wg.Wait()
	if p.Serial && *only < 0 {
		starts := 120
		if *tier == "thorough" {
			starts = 1200
		}
		slots := make(chan bool, 3)
		for i := 0; i < starts; i++ {
			slots <- true
			wg.Add(1)
			go func() { cold(coldBase + i); <-slots }()
		}
		wg.Wait()
	}
	viols := o.Viols
	// a case that did not finish, or ended the process, is rerun alone
	// (several were running at the time)
	if *only >= 0 {
		for _, k := range hangs {
			viols = append(viols, Viol{k, hangMsg})
		}
		viols = append(viols, fatals...)
	} else {
		for i, k := range hangs {
			if i >= 4 || len(viols) > 0 && i >= 1 {
				break
			}
			v, ok := alone(k, *prop, *tier, *seed, dir, *race)
			if !ok && p.Serial {
				v = []Viol{{k, hangMsg}} // depends on the schedule; it was the only case running
			} else if !ok {
				inconclusive = append(inconclusive, fmt.Sprintf("case %d did not finish among others, but does alone", k))
			}
			viols = append(viols, v...)
		}
		for i, f := range fatals {
			if i >= 12 {
				break
			}
			v, ok := alone(f.Case, *prop, *tier, *seed, dir, *race)
			if !ok && p.Serial {
				v = []Viol{f} // depends on the schedule; it was the only case running
			} else if !ok {
				inconclusive = append(inconclusive, fmt.Sprintf("case %d: %s (not when run alone)", f.Case, f.Msg))
			}
			viols = append(viols, v...)
		}
		if len(fatals) > 0 && len(viols) == 0 {
			viols = append(viols, fatals[0])
		}
	}
	if *race {
		v, cov := raceReports(dir)
		viols = append(viols, v...)
		if o.Extra == nil {
			o.Extra = map[string]any{}
		}
		for k, x := range cov {
			o.Extra[k] = x
		}
	}
	// shortest witness first
	sort.SliceStable(viols, func(i, j int) bool {
		if len(viols[i].Msg) != len(viols[j].Msg) {
			return len(viols[i].Msg) < len(viols[j].Msg)
		}
		return viols[i].Case < viols[j].Case
	})
	if *only >= 0 {
		for _, v := range viols {
			fmt.Printf("case %d: %s\n", v.Case, v.Msg)
		}
		os.RemoveAll(dir)
		if len(viols) > 0 {
			os.Exit(1)
		}
		fmt.Println("no violation in this case")
		os.Exit(0)
	}

	// evidence
	sort.Strings(o.Samples)
	if len(o.Samples) > 8 {
		o.Samples = o.Samples[:8]
	}
	if len(o.Samples) == 0 {
		o.Samples = []string{"(none)"}
	}
	cov := map[string]any{
		"evaluations":         o.Evals,
		"cases":               o.Cases,
		"distinct_nontrivial": o.Nontriv,
		"rule":                p.Rule,
		"samples":             o.Samples,
		"observed":            o.Counts,
		"inconclusive":        inconclusive,
	}
	for k, x := range o.Extra {
		cov[k] = x
	}
	ev := map[string]any{
		"property": p.ID, "tier": *tier, "seed": *seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(viols),
		"assumptions": p.Assume,
	}
	if p.Assume == nil {
		delete(ev, "assumptions")
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*root, "evidence", p.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.RemoveAll(dir)
		os.Exit(2)
	}
	os.RemoveAll(dir)
	if len(viols) > 0 {
		rd := filepath.Join(*root, "replays")
		os.MkdirAll(rd, 0o755)
		for i, v := range viols {
			if i >= 5 {
				break
			}
			path := filepath.Join(rd, fmt.Sprintf("%s-%d-%d.json", p.ID, *seed, v.Case))
			rb, _ := json.MarshalIndent(replayFile{p.ID, *seed, *tier, v.Case, v.Msg}, "", " ")
			os.WriteFile(path, rb, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			fmt.Printf("  case %d: %s\n", v.Case, clip(v.Msg, 700))
		}
		fmt.Printf("%s: %d violations in %d cases\n", p.ID, len(viols), o.Cases)
		os.Exit(1)
	}
	// A run that observed nothing decides nothing.
	if len(fatals) == 0 && len(hangs) == 0 && (o.Evals == 0 || o.Nontriv == 0 || o.Cases < n) {
		fmt.Fprintf(os.Stderr, "%s: observed too little (%d evaluations, %d cases of %d)\n", p.ID, o.Evals, o.Cases, n)
		os.Exit(2)
	}
	fmt.Printf("%s: held on %d evaluations (%d distinct non-trivial) in %d cases, %.1f s", p.ID, o.Evals, o.Nontriv, o.Cases, time.Since(start).Seconds())
	if len(inconclusive) > 0 {
		fmt.Printf("; inconclusive: %v", inconclusive)
	}
	fmt.Println()
}

const hangMsg = "an operation of this case did not finish (40 s of processor time, or 70 s blocked)"

// alone reruns one suspect case; it reports what happened, and whether
// anything did.
func alone(k int, prop, tier string, seed int64, dir string, race bool) ([]Viol, bool) {
	o := filepath.Join(dir, fmt.Sprintf("att%d", k))
	cmd := exec.Command(os.Args[0], "-child", "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed),
		"-case", fmt.Sprint(k), "-out", o, "-progress", o+".p")
	var tail ring
	cmd.Stderr = &tail
	if race {
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"))
	}
	if err := cmd.Run(); err != nil {
		return []Viol{{k, "the process ended while this case was running: " + firstLine(tail.String())}}, true
	}
	var co childOut
	if b, e := os.ReadFile(o); e == nil {
		json.Unmarshal(b, &co)
	}
	for _, h := range co.Hung {
		co.Viols = append(co.Viols, Viol{h, hangMsg})
	}
	return co.Viols, len(co.Viols) > 0
}

func readProgress(f string) []int {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var out []int
	sc := bufio.NewScanner(strings.NewReader(string(b)))
	for sc.Scan() {
		if k, e := strconv.Atoi(strings.TrimSpace(strings.Trim(sc.Text(), "\x00"))); e == nil && k >= 0 {
			out = append(out, k)
		}
	}
	return out
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			return clip(l, 300)
		}
	}
	return ""
}

// ring keeps the first 64 kB of what is written to it.
type ring struct{ b []byte }

func (r *ring) Write(p []byte) (int, error) {
	if len(r.b) < 64<<10 {
		r.b = append(r.b, p...)
	}
	return len(p), nil
}
func (r *ring) String() string { return string(r.b) }
