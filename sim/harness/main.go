package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"simrt"
)

func judge(h *Hist, prop string) *Out {
	o := &Out{h: h, prop: prop, marks: map[string]int{}}
	oracles[prop](h, o)
	var own []Violation
	for _, v := range h.Viol {
		if v.Prop == prop {
			own = append(own, v)
		}
	}
	h.Viol = own
	return o
}

func dump(h *Hist) {
	for _, l := range h.Trace {
		fmt.Println(l)
	}
	for _, n := range h.Nodes {
		for _, l := range n.Lines {
			fmt.Printf("%s %.6f %s\n", n.Name, float64(l.At)/1e9, l.Text)
		}
		fmt.Println(n.Name, n.State, n.ExitHow, n.ExitCode, n.ExitMsg)
	}
	fmt.Println(h.EndCause, h.Hash, len(h.Stmts), h.Steps, h.Wall)
	for _, v := range h.Viol {
		fmt.Printf("VIOL %s/%s %s\n", v.Prop, v.Class, v.Msg)
	}
}

// seedOf spreads the run number over the seed space.
func seedOf(base uint64, i int) uint64 { return base*1_000_000_007 + uint64(i) }

// Agg is what a worker did.
type Agg struct {
	Runs, Evals, Relevant       int
	Marks, Faults, Ends         map[string]int
	SimNS                       int64
	Steps, Switches, Preempts   uint64
	Stalls, Timers, Selects, Gs uint64
	Choices                     uint64
	States, Interesting         []uint64 // distinct interleaving hashes of this batch
	Next                        int
	Inconclusive                int
}

// Found is a violating run.
type Found struct {
	I    int
	Seed uint64
	V    Violation
}

type wline struct {
	Agg   *Agg   `json:",omitempty"`
	Found *Found `json:",omitempty"`
	At    *int   `json:",omitempty"` // run that starts
}

func worker(prop string, base uint64, from, step int, until time.Time, max int) {
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	var a *Agg
	fresh := func() {
		a = &Agg{Marks: map[string]int{}, Faults: map[string]int{}, Ends: map[string]int{}}
	}
	fresh()
	flush := func(i int) {
		a.Next = i
		enc.Encode(wline{Agg: a})
		out.Flush()
		fresh()
	}
	last := time.Now()
	for i := from; i < max; i += step {
		if time.Now().After(until) {
			break
		}
		seed := seedOf(base, i)
		h := execute(generate(prop, seed), nil, false)
		o := judge(h, prop)
		a.Runs++
		a.Evals += o.evals
		a.Relevant += o.rel
		for k, v := range o.marks {
			a.Marks[k] += v
		}
		for k, v := range h.Faults {
			a.Faults[k] += v
		}
		a.Ends[h.EndCause]++
		if h.End < ms(h.Sc.MaxMS) {
			a.SimNS += h.End
		} else {
			a.SimNS += ms(h.Sc.MaxMS)
		}
		a.Steps += h.Steps
		a.Switches += h.Stat.Switches
		a.Preempts += h.Stat.Preempts
		a.Stalls += h.Stat.StallsN
		a.Timers += h.Stat.TimersFired
		a.Selects += h.Stat.Selects
		a.Gs += h.Stat.Goroutines
		a.Choices += uint64(len(h.Choices))
		a.States = append(a.States, h.States)
		if o.rel > 0 {
			a.Interesting = append(a.Interesting, h.States)
		}
		for _, v := range h.Viol {
			enc.Encode(wline{Found: &Found{i, seed, v}})
			out.Flush()
		}
		if time.Since(last) > 500*time.Millisecond {
			last = time.Now()
			flush(i + step)
		}
	}
	flush(max)
}

// ---------------------------------------------------------------- replay file

type choiceJ struct {
	Kind string
	K    uint8
	G    string
	N    uint64
	V    uint32
}

// Replay is a replay file.
type Replay struct {
	Property string
	Class    string
	Message  string
	Seed     uint64
	Note     string
	Scenario *Scenario
	Choices  []choiceJ
	Hash     string
	Orig     struct {
		Choices, Stmts int
	}
	Trace []string
}

func encChoices(m map[simrt.Key]uint32) []choiceJ {
	var l []choiceJ
	for k, v := range m {
		l = append(l, choiceJ{k.Kind.String(), uint8(k.Kind), strconv.FormatUint(k.G, 16), k.N, v})
	}
	sort.Slice(l, func(i, j int) bool {
		a, b := l[i], l[j]
		if a.G != b.G {
			return a.G < b.G
		}
		if a.K != b.K {
			return a.K < b.K
		}
		return a.N < b.N
	})
	return l
}

func decChoices(l []choiceJ) map[simrt.Key]uint32 {
	m := map[simrt.Key]uint32{}
	for _, c := range l {
		g, _ := strconv.ParseUint(c.G, 16, 64)
		m[simrt.Key{Kind: simrt.Kind(c.K), G: g, N: c.N}] = c.V
	}
	return m
}

func traceOf(h *Hist) []string {
	t := append([]string{}, h.Trace...)
	for _, n := range h.Nodes {
		for _, l := range n.Lines {
			t = append(t, fmt.Sprintf("%12.6f %s output %s", float64(l.At)/1e9, n.Name, l.Text))
		}
	}
	if len(t) > 4000 {
		t = append(t[:2000:2000], t[len(t)-2000:]...)
	}
	return t
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	h := execute(rp.Scenario, decChoices(rp.Choices), true)
	judge(h, rp.Property)
	for _, v := range h.Viol {
		if v.Class == rp.Class {
			same := "identical execution"
			if fmt.Sprintf("%x", h.Hash) != rp.Hash {
				same = "different execution (the code differs from the recorded one)"
			}
			fmt.Printf("replayed %s seed=%d: %s: %s\n", rp.Property, rp.Seed, v.Class, v.Msg)
			fmt.Println(same)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
			return 1
		}
	}
	fmt.Printf("replayed %s seed=%d: no violation of class %s\n", rp.Property, rp.Seed, rp.Class)
	return 0
}

// ---------------------------------------------------------------- master

type finding struct{ prop, class, re, text string }

// known reads the known findings: lines
// finding: property=<id> class=<class> match=/<regexp>/ <what fails>
func known(path, prop string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) class=(\S+) match=/(.*?)/ (.*)$`)
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == prop {
			out = append(out, finding{m[1], m[2], m[3], m[4]})
		}
	}
	return out
}

type budget struct {
	d      time.Duration
	max    int
	shrink time.Duration
}

var budgets = map[string]budget{
	"quick":    {28 * time.Second, 1 << 30, 40 * time.Second},
	"thorough": {1500 * time.Second, 1 << 30, 120 * time.Second},
}

func master(prop, tier string, seed uint64, verif string) int {
	b, ok := budgets[tier]
	if !ok {
		b = budgets["quick"]
		tier = "quick"
	}
	if s := os.Getenv("VERIF_SIM_SECONDS"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			b.d = time.Duration(n) * time.Second
		}
	}
	t0 := time.Now()
	fmt.Printf("property %s, tier %s, seed %d\n", prop, tier, seed)
	// determinism: the same seeds twice, here and in the workers, give the same
	// event log; a run replayed from its recorded choices too.
	det, bad := selftest(prop, seed, 24)
	if bad != "" {
		fmt.Fprintln(os.Stderr, "simulation is not deterministic: "+bad)
		return 3
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	self, _ := os.Executable()
	until := t0.Add(b.d)
	var mu sync.Mutex
	tot := &Agg{Marks: map[string]int{}, Faults: map[string]int{}, Ends: map[string]int{}}
	states := map[uint64]struct{}{}
	inter := map[uint64]struct{}{}
	founds := map[string]*Found{}
	var procs []*exec.Cmd
	var errs []string
	stopAll := func() {
		for _, p := range procs {
			p.Process.Kill()
		}
	}
	finds := known(filepath.Join(verif, "known_findings.txt"), prop)
	isKnown := func(v Violation) bool {
		for _, f := range finds {
			if ok, _ := regexp.MatchString(f.re, v.Msg); ok && f.class == v.Class {
				return true
			}
		}
		return false
	}
	var wg sync.WaitGroup
	stopping := false
	nKnown := 0
	for w := 0; w < nw; w++ {
		c := exec.Command(self, "worker", prop, fmt.Sprint(seed), fmt.Sprint(w), fmt.Sprint(nw), fmt.Sprint(until.UnixMilli()), fmt.Sprint(b.max))
		c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200", "GOMEMLIMIT=2500MiB")
		var eb strings.Builder
		c.Stderr = &eb
		so, err := c.StdoutPipe()
		if err == nil {
			err = c.Start()
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		procs = append(procs, c)
		wg.Add(1)
		go func() {
			defer wg.Done()
			sc := bufio.NewScanner(so)
			sc.Buffer(make([]byte, 1<<20), 1<<28)
			done := false
			for sc.Scan() {
				var l wline
				if json.Unmarshal(sc.Bytes(), &l) != nil {
					continue
				}
				mu.Lock()
				if l.Found != nil {
					if isKnown(l.Found.V) {
						nKnown++
					} else {
						f := founds[l.Found.V.Class]
						if f == nil || l.Found.I < f.I {
							founds[l.Found.V.Class] = l.Found
						}
						if !stopping {
							// let the others finish their runs, then stop
							stopping = true
							go func() { time.Sleep(1500 * time.Millisecond); stopAll() }()
						}
					}
				}
				if a := l.Agg; a != nil {
					done = a.Next >= b.max
					tot.Runs += a.Runs
					tot.Evals += a.Evals
					tot.Relevant += a.Relevant
					for k, v := range a.Marks {
						tot.Marks[k] += v
					}
					for k, v := range a.Faults {
						tot.Faults[k] += v
					}
					for k, v := range a.Ends {
						tot.Ends[k] += v
					}
					tot.SimNS += a.SimNS
					tot.Steps += a.Steps
					tot.Switches += a.Switches
					tot.Preempts += a.Preempts
					tot.Stalls += a.Stalls
					tot.Timers += a.Timers
					tot.Selects += a.Selects
					tot.Gs += a.Gs
					tot.Choices += a.Choices
					for _, s := range a.States {
						states[s] = struct{}{}
					}
					for _, s := range a.Interesting {
						inter[s] = struct{}{}
					}
				}
				mu.Unlock()
			}
			err := c.Wait()
			mu.Lock()
			if !stopping && (err != nil || !done) {
				e := eb.String()
				if len(e) > 3000 {
					e = e[:3000]
				}
				errs = append(errs, fmt.Sprintf("worker failed: %v\n%s", err, e))
			}
			mu.Unlock()
		}()
	}
	dog := time.AfterFunc(b.d+60*time.Second, func() {
		mu.Lock()
		errs = append(errs, "a worker did not end")
		mu.Unlock()
		stopAll()
	})
	wg.Wait()
	dog.Stop()
	wall := time.Since(t0)

	code := 0
	nv := 0
	var lines []string
	for _, f := range finds {
		lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, f.text))
	}
	if len(founds) > 0 {
		var fs []*Found
		for _, f := range founds {
			fs = append(fs, f)
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].I < fs[j].I })
		nv = len(fs)
		for i, f := range fs {
			fmt.Printf("violation of %s: %s (seed %d): %.1500s\n", prop, f.V.Class, f.Seed, f.V.Msg)
			if i >= 2 {
				continue
			}
			d := b.shrink
			if i > 0 {
				d /= 2
			}
			path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%s-%d.json", prop, f.V.Class, f.Seed))
			ctx := exec.Command(self, "shrink", prop, fmt.Sprint(f.Seed), f.V.Class, path, fmt.Sprint(int(d.Seconds())))
			ctx.Stdout, ctx.Stderr = os.Stdout, os.Stderr
			k := time.AfterFunc(d+60*time.Second, func() { ctx.Process.Kill() })
			err := ctx.Run()
			k.Stop()
			if err != nil {
				fmt.Fprintln(os.Stderr, "minimising failed:", err)
			}
			// the replay file reproduces the violation in a fresh process
			out, _ := exec.Command(self, "replay", path).CombinedOutput()
			if !strings.Contains(string(out), "VIOLATION property=") || !strings.Contains(string(out), "identical execution") {
				errs = append(errs, "the replay file does not reproduce the violation: "+string(out))
				continue
			}
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path))
			code = 1
		}
	}
	if tot.Runs == 0 {
		errs = append(errs, "no run was made")
	}
	if code == 0 && len(founds) == 0 && float64(tot.Relevant) < float64(tot.Runs)*0.02 {
		errs = append(errs, fmt.Sprintf("only %d relevant situations in %d runs: the check does not reach what it checks", tot.Relevant, tot.Runs))
	}
	if inc := tot.Marks["inconclusive"]; code == 0 && inc*20 > tot.Runs {
		errs = append(errs, fmt.Sprintf("%d of %d runs could not be judged (%v)", inc, tot.Runs, tot.Ends))
	}
	writeEvidence(prop, tier, seed, verif, tot, len(states), len(inter), det, wall, nv, nKnown)
	fmt.Printf("%d runs, %.0f per hour, %.0f s simulated, %d distinct interleavings, %d relevant situations\nfaults: %v\nreached: %v\n", tot.Runs, float64(tot.Runs)/wall.Hours(), float64(tot.SimNS)/1e9, len(states), tot.Relevant, tot.Faults, tot.Marks)
	for _, l := range lines {
		fmt.Println(l)
	}
	if code == 1 {
		return 1
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "check error: "+e)
		}
		return 3
	}
	return 0
}

// selftest runs n scenarios twice and once more from their recorded choices.
func selftest(prop string, seed uint64, n int) (int, string) {
	k := 0
	for i := 0; i < n; i++ {
		s := seedOf(seed, 1_000_000+i)
		a := execute(generate(prop, s), nil, false)
		ah, ac, as := a.Hash, a.Choices, len(a.Stmts)
		if a.EndCause == "wall-limit" { // cut by real time
			continue
		}
		b := execute(generate(prop, s), nil, true)
		if ah != b.Hash {
			return k, fmt.Sprintf("seed %d: two executions differ", s)
		}
		c := execute(generate(prop, s), ac, false)
		if ah != c.Hash || as != len(c.Stmts) {
			return k, fmt.Sprintf("seed %d: the execution and its replay differ", s)
		}
		k += 3
	}
	return k, ""
}

func writeEvidence(prop, tier string, seed uint64, verif string, t *Agg, states, inter, det int, wall time.Duration, nv, nKnown int) {
	// two sample runs, written out
	var samples []any
	for i := 0; i < 2; i++ {
		s := seedOf(seed, i)
		h := execute(generate(prop, s), nil, true)
		tr := h.Trace
		if len(tr) > 40 {
			tr = append(append([]string{}, tr[:25]...), tr[len(tr)-15:]...)
		}
		samples = append(samples, map[string]any{"seed": s, "simulated_s": float64(h.End) / 1e9, "end": h.EndCause, "choices": len(h.Choices), "faults": h.Faults, "statements": len(h.Stmts), "events": tr})
	}
	cov := map[string]any{
		"evaluations":                    t.Runs,
		"distinct_nontrivial":            inter,
		"rule":                           ruleOf(prop),
		"samples":                        samples,
		"runs_per_hour":                  int(float64(t.Runs) / wall.Hours()),
		"seeds":                          fmt.Sprintf("%d runs, run i has seed VERIF_SEED*1000000007+i", t.Runs),
		"simulated_seconds":              float64(t.SimNS) / 1e9,
		"items_checked":                  t.Evals,
		"relevant_situations":            t.Relevant,
		"situations":                     t.Marks,
		"faults_injected":                t.Faults,
		"how_runs_ended":                 t.Ends,
		"schedule":                       map[string]any{"nondefault_choices": t.Choices, "goroutines": t.Gs, "context_switches": t.Switches, "preemptions": t.Preempts, "stalls": t.Stalls, "timers_fired": t.Timers, "selects": t.Selects},
		"distinct_interleavings":         states,
		"distinct_interleavings_measure": "hash of the sequence of (kind of observable event, goroutine) of the run: statements sent and answered, connections, messages sent and received, reports, process starts and ends; times and values left out",
		"determinism_self_test_runs":     det,
		"known_findings_seen":            nKnown,
		"real_code":                      "all packages of finch (client, compute, config, data, dbconn, limit, proto, stage, stats, trx, workload, bin) from the working tree, Go's database/sql, gopkg.in/yaml; rewritten so that goroutines, channels, locks, clocks, maps, randomness, files, processes and sockets go through the simulator",
		"stubs":                          "MySQL server and driver (simulated server with sessions, transactions, tables, prepared statements, errors), net/http (simulated network), file system, process environment, clock, random source, prometheus/AWS helpers",
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"wall_s": wall.Seconds(), "violations": nv,
		"assumptions": []string{"the simulated MySQL server, driver, HTTP and file system behave like the real ones in what finch uses of them", "seeded sampling: what was not sampled is not covered"},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

var rules = map[string]string{}

func ruleOf(prop string) string {
	return "one evaluation is one simulated execution of the whole program on a generated scenario (stages, trx files, data keys, client groups, limits, instances, faults) under a seeded schedule; it is non-trivial if the oracle met at least one situation in which the property can fail (" + rules[prop] + "), and distinct if its sequence of observable events by goroutine differs"
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	arg := func(i int) string {
		if i < len(os.Args) {
			return os.Args[i]
		}
		return ""
	}
	num := func(i int) uint64 { n, _ := strconv.ParseUint(arg(i), 10, 64); return n }
	switch os.Args[1] {
	case "run": // run PROP TIER SEED VERIFDIR
		os.Exit(master(arg(2), arg(3), num(4), arg(5)))
	case "worker":
		worker(arg(2), num(3), int(num(4)), int(num(5)), time.UnixMilli(int64(num(6))), int(num(7)))
	case "shrink":
		os.Exit(shrinkMain(arg(2), num(3), arg(4), arg(5), time.Duration(num(6))*time.Second))
	case "replay":
		os.Exit(replayFile(arg(2)))
	case "selftest":
		fmt.Println(selftest(arg(2), num(3), int(num(4))))
	case "props":
		for _, k := range sortedKeys(oracles) {
			fmt.Println(k)
		}
	case "one": // one PROP SEED: full trace
		h := execute(generate(arg(2), num(3)), nil, true)
		judge(h, arg(2))
		dump(h)
	case "show": // show PROP SEED: the scenario
		b, _ := json.MarshalIndent(generate(arg(2), num(3)), "", " ")
		fmt.Println(string(b))
	case "sweep": // sweep PROP FROM N
		sweep(arg(2), num(3), num(4))
	}
}

func sweep(prop string, from, n uint64) {
	classes := map[string][]string{}
	marks := map[string]int{}
	faults := map[string]int{}
	t0 := time.Now()
	var evals int
	ends := map[string]int{}
	var slow time.Duration
	var slowSeed, maxSteps uint64
	maxStmts := 0
	var mu sync.Mutex
	_ = mu
	for s := from; s < from+n; s++ {
		h := execute(generate(prop, s), nil, false)
		o := judge(h, prop)
		evals += o.evals
		ends[h.EndCause]++
		if h.Wall > slow {
			slow, slowSeed = h.Wall, s
		}
		maxSteps = max(maxSteps, h.Steps)
		maxStmts = max(maxStmts, len(h.Stmts))
		for k, v := range o.marks {
			marks[k] += v
		}
		for k, v := range h.Faults {
			faults[k] += v
		}
		for _, v := range h.Viol {
			classes[v.Class] = append(classes[v.Class], fmt.Sprintf("seed %d: %.600s", s, v.Msg))
		}
	}
	for _, k := range sortedKeys(classes) {
		fmt.Printf("== %s: %d\n", k, len(classes[k]))
		for i, m := range classes[k] {
			if i < 3 {
				fmt.Println("   ", m)
			}
		}
	}
	fmt.Println("runs", n, "evals", evals, "ends", ends, "time", time.Since(t0), "slowest", slow, slowSeed, "max steps", maxSteps, "max statements", maxStmts)
	fmt.Println("marks", marks)
	fmt.Println("faults", faults)
}
