package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Statistics of a single instance: S01, S02, and S04 without remote instances.

func init() {
	rules["S01"] = "a report whose interval ended while clients were executing, or with errors"
	rules["S02"] = "an interval with queries whose statistics were compared with the latencies of the simulated MySQL"
	rules["S04"] = "the end of statistics of a stage, by what it coincided with"
	profiles["S01"] = func(r *R, sc *Scenario) { statsProfile(r, sc, false) }
	oracles["S01"] = checkS01
	profiles["S02"] = func(r *R, sc *Scenario) { statsProfile(r, sc, true) }
	oracles["S02"] = checkS02
}

const (
	tRead = iota
	tWrite
	tCommit
	tTotal
)

var typeName = []string{"read", "write", "commit", "total"}

func statsProfile(r *R, sc *Scenario, quiet bool) {
	ns := r.of(1, 1, 1, 2)
	for i := 0; i < ns; i++ {
		o := runOpt
		o.maxStmts = 5
		o.csv, o.copies = 0.1, 0.1
		st := r.workStage(sc, i, o)
		st.FreqMS = r.of(0, 1, 2, 5, 10, 20, 20, 50, 50, 100, 200, 1000)
		st.StatsOff = r.p(0.03)
		for _, t := range st.Trx {
			for _, s := range t.Stmts {
				switch {
				case s.Kind == "update" && r.p(0.3):
					s.Verb = r.str("DELETE", "delete", "REPLACE", "Update", "update")
				case s.Kind == "insert" && r.p(0.2):
					s.Verb = r.str("REPLACE", "insert", "Replace")
				case s.Kind == "begin" && r.p(0.3):
					s.Verb = r.str("START TRANSACTION", "begin")
				case s.Kind == "commit" && r.p(0.2):
					s.Verb = "commit"
				case s.Kind == "select" && r.p(0.2):
					s.Verb = r.str("select", "Select")
				}
				if s.IdleMS > 70 {
					s.IdleMS = 70
				}
				if r.p(0.1) && s.IdleMS == 0 {
					s.SlowMS = r.of(1, 3, 10, 50)
				}
				if s.Kind == "insert" && s.Copies == 0 && r.p(0.15) { // never reached
					s.TableSize = r.of(1<<30, 1<<30, 1<<32, 1<<40)
					sc.MySQL.AuxMS = r.of(0, 10, 30, 100)
				}
			}
		}
		for _, g := range st.Groups {
			g.Iter = r.of(0, 1, 2, 5, 10, 20)
			if g.Iter == 0 {
				g.IterClients = r.in(1, 60)
			}
			g.NoStats = r.p(0.1)
			if r.p(0.15) {
				g.QPSC = r.of(50, 200, 1000)
			}
		}
		if r.p(0.3) {
			f := st.FreqMS
			if f == 0 {
				f = 20
			}
			st.RuntimeMS = f*r.in(1, 6) + r.of(0, 0, 0, f/2, r.n(f+1))
			for st.RuntimeMS < 12 {
				st.RuntimeMS += f
			}
			if r.p(0.6) {
				for _, g := range st.Groups {
					g.Iter, g.IterClients = 0, 0
				}
			}
		}
		// few statements per interval and many intervals are slow
		n := 0
		for _, g := range st.Groups {
			n += g.Clients
		}
		if st.FreqMS > 0 && st.FreqMS < 5 && n > 2 {
			st.FreqMS = 5
		}
		st.CSV = r.p(0.4)
		st.Stdout = r.p(0.4)
		for n := r.of(0, 0, 1, 2, 3); n > 0; n-- {
			st.Pcts = append(st.Pcts, r.str("50", "P95", "p99", "99.9", "P99.99", "75", "1", "100", "10", "90"))
		}
		sc.Stages = append(sc.Stages, st)
	}
	r.mysql(sc, r.f(0, 0, 0.5, 1))
	for _, st := range sc.Stages { // not too many intervals
		lim := 5
		if len(sc.MySQL.Errs) > 0 || sc.MySQL.DropP > 0 || sc.MySQL.RowErrP > 0 || sc.MySQL.ConnP > 0 {
			lim = 20
		}
		if st.FreqMS > 0 && st.FreqMS < lim && r.p(0.8) {
			st.FreqMS = lim
		}
	}
	if r.p(0.7) {
		sc.Sched.Cost = 100
	}
	if quiet && r.p(0.7) {
		sc.Sched.StallP, sc.Sched.StallMax = 0, 0
	}
	if r.p(0.1) {
		sc.Events = append(sc.Events, EventS{Kind: "interrupt", On: "work", AtMS: r.n(100)})
	}
	for _, st := range sc.Stages {
		if st.RuntimeMS > 0 || len(sc.Events) > 0 {
			sc.MySQL.AuxMS = 0 // clients do not stop while these queries run
		}
		if st.RuntimeMS > 500 && sc.MySQL.LatUS < 500 {
			sc.MySQL.LatUS, sc.MySQL.LatSpread = 500, 1500
		}
	}
	if r.p(0.03) {
		r.long(sc)
	}
}

// statTol is how far apart things that are done one after the other can be.
func (h *Hist) statTol() int64 {
	t := ms(5)
	if h.Sc.Sched.Cost > 100 {
		t = ms(20)
	}
	return t + int64(h.Stat.StallNS) + int64(h.Stat.SpinNS)
}

// sev is a query as the statistics should see it.
type sev struct {
	trx  string
	typ  int
	t0   int64
	t1   int64 // result returned, -1: never
	rec  int64 // certainly counted by then: the next sign of the client
	code int   // error code counted, -1: none
	last bool  // last of its client: the error might not count
}

// statEvents are the queries of a stage on an instance that must be counted.
// cut: how many more might be counted, queries that were not sent.
func (h *Hist) statEvents(node, gen, stage int) (evs []sev, cut int) {
	for _, c := range h.clients() {
		if c.Stage != stage || c.Node != node || c.Gen != gen || c.Grp == nil || c.Grp.NoStats {
			continue
		}
		if h.cutShort(c) {
			cut++
		}
		for i, e := range c.Evs {
			if e.Kind != "work" {
				continue
			}
			s := h.Sc.stmtByTag[e.Tag]
			x := sev{trx: s.trx.Name, t0: e.T0, t1: e.T1, code: -1, typ: tTotal}
			switch s.Kind {
			case "select":
				x.typ = tRead
			case "insert", "update":
				x.typ = tWrite
			case "commit":
				x.typ = tCommit
			}
			if failed(e) && !e.Ctx {
				x.code = e.Code
				if e.Lost {
					x.code = 0
				}
			}
			later := false
			for _, y := range c.Evs[i+1:] {
				if y.Kind == "work" {
					later = true
				}
			}
			x.last = !later && h.cutShort(c)
			x.rec = math.MaxInt64
			if e.T1 >= 0 {
				if c.End >= 0 {
					x.rec = c.End
				}
				if i+1 < len(c.Evs) && c.Evs[i+1].T0 < x.rec {
					x.rec = c.Evs[i+1].T0
				}
				for _, cn := range c.Conns {
					if cn.T0 >= e.T1 && cn.T0 < x.rec {
						x.rec = cn.T0
					}
				}
			}
			evs = append(evs, x)
		}
	}
	return
}

// lastEnd is when the last query of a stage returned; first is the first sign
// of a client.
func (h *Hist) span(node, gen, stage int) (first, last int64, open bool) {
	first, last = -1, -1
	for _, c := range h.clients() {
		if c.Stage != stage || c.Node != node || c.Gen != gen {
			continue
		}
		if h.clientEnd(c) < 0 {
			open = true
		}
		for _, cn := range c.Conns {
			if first < 0 || cn.T0 < first {
				first = cn.T0
			}
		}
		for _, e := range c.Evs {
			if first < 0 || e.T0 < first {
				first = e.T0
			}
			t := endOf(e)
			if t < 0 {
				open = true
			}
			if t > last {
				last = t
			}
		}
	}
	return
}

// runningAt is when a stage began to run, before the statistics started.
func (h *Hist) runningAt(node, stage int, before int64) int64 {
	at := int64(-1)
	for _, l := range h.Nodes[node].Lines {
		if l.At <= before && strings.Contains(l.Text, "["+h.Sc.Stages[stage].Name+"] Running") {
			at = l.At
		}
	}
	return at
}

// collected is the earliest time at which the statistics of a report can have
// been collected.
func (h *Hist) collected(rp *Report, stage int) int64 {
	at := h.runningAt(rp.Rec.Node, stage, rp.At)
	if at < 0 || len(rp.Insts) != 1 {
		return -1
	}
	return at + int64(rp.Insts[0].Runtime*1e9)
}

// reportsOf are the reports of a recorder and when it was stopped.
func (h *Hist) reportsOf(rec *Recorder) (reps []*Report, stop int64) {
	stop = -1
	for _, r := range h.Reports {
		if r.Rec != rec {
			continue
		}
		if r.Stop {
			stop = r.At
		} else {
			reps = append(reps, r)
		}
	}
	return
}

func (sc *Scenario) stageNo(name string) int {
	for i, st := range sc.Stages {
		if st.Name == name {
			return i
		}
	}
	return -1
}

// ended tells whether the process ended by itself.
func (h *Hist) ended(node, gen int) bool {
	for _, x := range h.Exits {
		if x.Node == node && x.Gen == gen {
			return x.How != "kill" && x.How != "signal" && x.How != "fatal" && x.How != "panic"
		}
	}
	return false
}

type cnt4 [4]uint64

// tally adds up what was reported, in total ("") and per trx.
type tally struct {
	sum  map[string]*cnt4
	errs map[string]map[string]uint64
}

func newTally() *tally {
	return &tally{map[string]*cnt4{}, map[string]map[string]uint64{}}
}

func (t *tally) get(k string) *cnt4 {
	if t.sum[k] == nil {
		t.sum[k] = &cnt4{}
		t.errs[k] = map[string]uint64{}
	}
	return t.sum[k]
}

func (t *tally) add(o *Out, k string, s *StatsJ) bool {
	c := t.get(k)
	for i := range c {
		c[i] += s.N[i]
		var b uint64
		for _, v := range s.Buckets[i] {
			b += v
		}
		if b != s.N[i] {
			o.fail("buckets", "%s: the histogram of %s queries has %d entries, the count is %d", k, typeName[i], b, s.N[i])
			return false
		}
	}
	if s.N[tTotal] < s.N[tRead]+s.N[tWrite]+s.N[tCommit] {
		o.fail("total", "%s: %d queries in total, fewer than reads, writes and commits together %v", k, s.N[tTotal], s.N)
		return false
	}
	for c, n := range s.Errors {
		t.errs[k][c] += n
	}
	return true
}

func (t *tally) addInst(o *Out, in Inst, who string) bool {
	if !t.add(o, "", in.Total) {
		return false
	}
	var tot cnt4
	for _, name := range sortedKeys(in.Trx) {
		if !t.add(o, name, in.Trx[name]) {
			return false
		}
		for j := range tot {
			tot[j] += in.Trx[name].N[j]
		}
	}
	for j := range tot {
		if tot[j] != in.Total.N[j] {
			o.fail("trx-sum", "interval %d of %s: %d %s queries in all trx together, %d in total", in.Interval, who, tot[j], typeName[j], in.Total.N[j])
			return false
		}
	}
	return true
}

// compare compares with what was executed; queries counted before lastCol must
// be reported.
func (t *tally) compare(o *Out, who string, evs []sev, cut int, lastCol int64) bool {
	min, max := map[string]*cnt4{}, map[string]*cnt4{}
	emin, emax := map[string]map[string]uint64{}, map[string]map[string]uint64{}
	min[""], max[""] = &cnt4{}, &cnt4{}
	emin[""], emax[""] = map[string]uint64{}, map[string]uint64{}
	for _, e := range evs {
		sure := e.rec < lastCol
		for _, k := range []string{"", e.trx} {
			if min[k] == nil {
				min[k], max[k] = &cnt4{}, &cnt4{}
				emin[k], emax[k] = map[string]uint64{}, map[string]uint64{}
			}
			max[k][tTotal]++
			if e.typ != tTotal {
				max[k][e.typ]++
			}
			if sure {
				min[k][tTotal]++
				if e.typ != tTotal {
					min[k][e.typ]++
				}
			}
			if e.code >= 0 {
				c := strconv.Itoa(e.code)
				emax[k][c]++
				if sure && !e.last {
					emin[k][c]++
				}
			}
		}
	}
	what := func(k string) string {
		if k == "" {
			return who
		}
		return who + ", trx " + k
	}
	for _, k := range sortedKeys(max) {
		s := t.get(k)
		for j := range s {
			if s[j] < min[k][j] {
				o.fail("lost", "%s: %d %s queries were executed before statistics were last collected, all reports together contain %d", what(k), min[k][j], typeName[j], s[j])
				return false
			}
			if s[j] > max[k][j]+uint64(cut) {
				o.fail("too-many", "%s: all reports together contain %d %s queries, only %d were executed", what(k), s[j], typeName[j], max[k][j])
				return false
			}
		}
		for _, c := range sortedKeys(emin[k]) {
			n := emin[k][c]
			if t.errs[k][c] < n {
				o.fail("error-lost", "%s: %d queries failed with error %s, all reports together contain %d", what(k), n, c, t.errs[k][c])
				return false
			}
		}
		for _, c := range sortedKeys(t.errs[k]) {
			n := t.errs[k][c]
			if n > emax[k][c] {
				o.fail("error-too-many", "%s: all reports together contain %d errors %s, %d queries failed with it", what(k), n, c, emax[k][c])
				return false
			}
			if n > 0 {
				o.hit("errors")
			}
		}
	}
	for _, k := range sortedKeys(t.sum) {
		if s := t.sum[k]; max[k] == nil && s[tTotal] > uint64(cut) {
			o.fail("too-many", "%s: all reports together contain %d queries, none was executed", what(k), s[tTotal])
			return false
		}
	}
	return true
}

func checkS01(h *Hist, o *Out) {
	if !h.healthy(o, true) || h.fatal() {
		return
	}
	seen := map[int]int{}
	for _, rec := range h.Recs {
		si := h.Sc.stageNo(rec.Stage)
		if si < 0 {
			o.fail("stage", "a reporter was made for an unknown stage %q", rec.Stage)
			return
		}
		seen[si]++
		st := h.Sc.Stages[si]
		reps, stop := h.reportsOf(rec)
		evs, cut := h.statEvents(rec.Node, rec.Gen, si)
		first, last, _ := h.span(rec.Node, rec.Gen, si)
		if stop < 0 || !h.ended(rec.Node, rec.Gen) {
			continue // S04's matter
		}
		freq := ms(st.FreqMS)
		lastAt, lastCol := first, int64(-1)
		ty := newTally()
		for i, rp := range reps {
			o.evals++
			if len(rp.Insts) != 1 {
				o.fail("instances", "a report of the only instance contains %d instances", len(rp.Insts))
				return
			}
			in := rp.Insts[0]
			if int(in.Interval) != i+1 {
				o.fail("interval", "report %d of stage %s has interval number %d", i+1, st.Name, in.Interval)
				return
			}
			if !ty.addInst(o, in, "stage "+st.Name) {
				return
			}
			lastAt, lastCol = rp.At, h.collected(rp, si)
			busy := false
			for _, e := range evs {
				if e.t0 <= rp.At && (e.t1 < 0 || e.t1 >= rp.At) {
					busy = true
				}
			}
			if busy {
				o.hit("busy")
			}
		}
		if freq == 0 && len(reps) != 1 {
			o.fail("reports", "stage %s was reported %d times, expected once (no frequency)", st.Name, len(reps))
			return
		}
		if len(reps) == 0 && len(evs) > 0 {
			o.fail("no-final", "stage %s executed %d queries and was never reported", st.Name, len(evs))
			return
		}
		if freq > 0 && last >= 0 && first >= 0 && last-lastAt >= freq/2 {
			o.fail("no-final", "the last query of stage %s ended at %s, %s s after the last report, though statistics are reported every %d ms", st.Name, sec(last), sec(last-lastAt), st.FreqMS)
			return
		}
		if !ty.compare(o, "stage "+st.Name, evs, cut, lastCol) {
			return
		}
	}
	for si, st := range h.Sc.Stages {
		first, _, _ := h.span(0, 1, si)
		if first < 0 {
			continue
		}
		if st.StatsOff && seen[si] > 0 {
			o.fail("disabled", "statistics of stage %s are disabled, but a reporter was made", st.Name)
		}
		if !st.StatsOff && seen[si] != 1 {
			o.fail("no-reporter", "stage %s was run, %d reporters were made for it", st.Name, seen[si])
		}
	}
}

// ---------------------------------------------------------------------------

const bktBase, bktFactor = 10.0, 1.0471285480508996

// bktHigh is the upper end of a histogram bucket, in microseconds.
func bktHigh(i int) float64 { return bktBase * math.Pow(bktFactor, float64(i)) }

func checkS02(h *Hist, o *Out) {
	if !h.healthy(o, true) || h.fatal() {
		return
	}
	// what stalls and switching between goroutines can add to a response time
	tol := h.statTol()
	slack := tol / 1000 // us
	pr := h.newPrinted()
	for _, rec := range h.Recs {
		si := h.Sc.stageNo(rec.Stage)
		if si < 0 {
			continue
		}
		st := h.Sc.Stages[si]
		reps, stop := h.reportsOf(rec)
		if stop < 0 || !h.ended(rec.Node, rec.Gen) {
			continue
		}
		evs, cut := h.statEvents(rec.Node, rec.Gen, si)
		first, _, _ := h.span(rec.Node, rec.Gen, si)
		clients := 0
		for _, eg := range h.groups(si) {
			for _, g := range eg {
				if !g.NoStats {
					clients += g.Clients
				}
			}
		}
		prev, prevCol := int64(-1), int64(-1)
		runtime := 0.0
		for i, rp := range reps {
			if len(rp.Insts) != 1 {
				return // S01's matter
			}
			in := rp.Insts[0]
			col := h.collected(rp, si)
			o.evals++
			// duration and running time
			runtime += in.Seconds
			if math.Abs(runtime-in.Runtime) > 1e-6 {
				o.fail("runtime", "interval %d: the durations of all intervals until now are %.6f s together, the reported running time is %.6f s", in.Interval, runtime, in.Runtime)
				return
			}
			if prev >= 0 {
				if d := float64(rp.At-prev) / 1e9; math.Abs(d-in.Seconds) > float64(tol)/1e9 {
					o.fail("duration", "interval %d was %.6f s long, reported are %.6f s", in.Interval, d, in.Seconds)
					return
				}
			} else if first >= 0 {
				if d := float64(rp.At-first) / 1e9; in.Seconds < d-float64(tol)/1e9 || in.Seconds > d+float64(tol)/1e9+0.01 {
					o.fail("duration", "the first interval was at least %.6f s long, reported are %.6f s", d, in.Seconds)
					return
				}
			}
			if st.FreqMS > 0 && i < len(reps)-1 && h.Stat.StallsN == 0 && h.Stat.SpinNS < uint64(ms(3)) {
				if d := in.Runtime*1000 - float64(st.FreqMS*(i+1)); math.Abs(d) > float64(tol)/1e6 {
					o.fail("frequency", "interval %d ended %.6f s after the start, statistics are reported every %d ms", in.Interval, in.Runtime, st.FreqMS)
					return
				}
			}
			if int(in.Clients) != clients {
				o.fail("clients", "%d clients reported, %d have statistics", in.Clients, clients)
				return
			}
			sets := map[string]*StatsJ{"": in.Total}
			for k, s := range in.Trx {
				sets[k] = s
			}
			for _, k := range sortedKeys(sets) {
				s := sets[k]
				for typ := 0; typ < 4; typ++ {
					var sure, maybe []int64 // response times
					unknown := cut
					for _, e := range evs {
						if k != "" && e.trx != k || typ != tTotal && e.typ != typ {
							continue
						}
						if e.t1 < 0 {
							if e.t0 < rp.At {
								unknown++
							}
							continue
						}
						if e.t1 > rp.At || e.rec < prevCol {
							continue
						}
						d := (e.t1 - e.t0) / 1000
						if e.t1 > prev && e.rec < col {
							sure = append(sure, d)
						} else {
							maybe = append(maybe, d)
						}
					}
					n := int(s.N[typ])
					what := fmt.Sprintf("interval %d of stage %s, %s queries", in.Interval, st.Name, typeName[typ])
					if k != "" {
						what += " of trx " + k
					}
					if n < len(sure) || n > len(sure)+len(maybe)+unknown {
						o.fail("count", "%s: %d counted, %d were executed in it and %d at its ends", what, n, len(sure), len(maybe))
						return
					}
					if n == 0 {
						if s.Min[typ] != 0 || s.Max[typ] != 0 {
							o.fail("min-max", "%s: minimum %d and maximum %d without queries", what, s.Min[typ], s.Max[typ])
							return
						}
						continue
					}
					all := append(append([]int64{}, sure...), maybe...)
					sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
					sort.Slice(sure, func(i, j int) bool { return sure[i] < sure[j] })
					if unknown == 0 && len(all) > 0 {
						if s.Min[typ] < all[0] || s.Max[typ] > all[len(all)-1]+slack+1 {
							o.fail("min-max", "%s: minimum %d us and maximum %d us, the response times were between %d us and %d us", what, s.Min[typ], s.Max[typ], all[0], all[len(all)-1])
							return
						}
					}
					if len(sure) > 0 {
						o.hit("compared")
						if s.Min[typ] > sure[0]+slack+1 || s.Max[typ] < sure[len(sure)-1] {
							o.fail("min-max", "%s: minimum %d us and maximum %d us, there were response times from %d us to %d us", what, s.Min[typ], s.Max[typ], sure[0], sure[len(sure)-1])
							return
						}
					}
					if s.Min[typ] > s.Max[typ] {
						o.fail("min-max", "%s: minimum %d us, maximum %d us", what, s.Min[typ], s.Max[typ])
						return
					}
					// the histogram
					if len(maybe) == 0 && unknown == 0 && n == len(sure) {
						j := 0
						for b, c := range s.Buckets[typ] {
							for ; c > 0; c-- {
								if j >= n {
									o.fail("histogram", "%s: more histogram entries than queries", what)
									return
								}
								lo := 0.0
								if b > 0 {
									lo = bktHigh(b - 1)
								}
								if bktHigh(b) < float64(sure[j])-0.001 || lo > float64(sure[j]+slack+1) {
									o.fail("histogram", "%s: the %dth shortest response time is %d us, counted in the histogram as %.0f-%.0f us", what, j+1, sure[j], lo, bktHigh(b))
									return
								}
								j++
							}
						}
						o.marks["histogram"]++
					}
				}
			}
			prev, prevCol = rp.At, col
		}
		if !pr.stage(o, st, reps) {
			return
		}
	}
	pr.stdout(h, o)
}

// printed compares CSV files and the printed statistics of node 0 with the
// reports.
type printed struct {
	csv  map[string][][]string
	want []Inst
	pcts [][]float64
}

func (h *Hist) newPrinted() *printed {
	p := &printed{csv: map[string][][]string{}}
	for _, st := range h.Sc.Stages {
		if st.CSV {
			if s, ok := h.Nodes[0].FS.Get("/out-" + st.Name + ".csv"); ok {
				var rows [][]string
				for _, l := range strings.Split(strings.TrimSpace(s), "\n") {
					rows = append(rows, strings.Split(l, ","))
				}
				p.csv[st.Name] = rows
			}
		}
	}
	return p
}

// combined adds up what several instances collected in an interval.
func combined(ins []Inst) Inst {
	x := ins[0]
	x.Hostname = fmt.Sprintf("(%d combined)", len(ins))
	x.Clients = 0
	x.Total = &StatsJ{Buckets: make([][]uint64, 4), Min: make([]int64, 4), Max: make([]int64, 4), N: make([]uint64, 4), Errors: map[string]uint64{}}
	for _, in := range ins {
		x.Clients += in.Clients
		for c, n := range in.Total.Errors {
			x.Total.Errors[c] += n
		}
		for t := 0; t < 4; t++ {
			s := in.Total
			if s.N[t] > 0 {
				if x.Total.N[t] == 0 || s.Min[t] < x.Total.Min[t] {
					x.Total.Min[t] = s.Min[t]
				}
				if s.Max[t] > x.Total.Max[t] {
					x.Total.Max[t] = s.Max[t]
				}
			}
			x.Total.N[t] += s.N[t]
			for len(x.Total.Buckets[t]) < len(s.Buckets[t]) {
				x.Total.Buckets[t] = append(x.Total.Buckets[t], 0)
			}
			for b, n := range s.Buckets[t] {
				x.Total.Buckets[t][b] += n
			}
		}
	}
	return x
}

// stage checks the CSV file of a stage.
func (p *printed) stage(o *Out, st *StageS, reps []*Report) bool {
	if st.CSV {
		rows := p.csv[st.Name]
		if len(rows) == 0 {
			o.fail("csv", "no CSV file for stage %s", st.Name)
			return false
		}
		if len(rows)-1 != len(reps) {
			o.fail("csv", "the CSV file of stage %s has %d lines, %d intervals were reported", st.Name, len(rows)-1, len(reps))
			return false
		}
		for i, rp := range reps {
			in := rp.Insts[0]
			if len(rp.Insts) > 1 {
				in = combined(rp.Insts)
				in.Hostname = strings.Trim(in.Hostname, "()")
				o.marks["csv-combined"]++
			}
			if why := checkRow(rows[i+1], &in, st.pcts(), in.Hostname); why != "" {
				o.fail("csv", "stage %s, CSV line %d: %s: %s", st.Name, i+1, why, strings.Join(rows[i+1], ","))
				return false
			}
			o.marks["csv"]++
		}
		if why := checkHeader(rows[0], st.pcts()); why != "" {
			o.fail("csv", "CSV header: %s: %s", why, strings.Join(rows[0], ","))
			return false
		}
	}
	if st.Stdout {
		for _, rp := range reps {
			ins := rp.Insts
			if len(ins) > 1 {
				ins = append(append([]Inst{}, ins...), combined(ins))
			}
			for _, in := range ins {
				p.want = append(p.want, in)
				p.pcts = append(p.pcts, st.pcts())
			}
		}
	}
	return true
}

func (p *printed) stdout(h *Hist, o *Out) {
	var rows [][]string
	for _, l := range h.Nodes[0].Lines {
		f := strings.Split(l.Text, "|")
		if len(f) < 18 || strings.Contains(l.Text, "QPS") {
			continue
		}
		for j := range f {
			f[j] = strings.ReplaceAll(strings.TrimSpace(f[j]), ",", "")
		}
		rows = append(rows, f)
	}
	if len(h.Nodes[0].Lines) > 4900 {
		return // output is cut
	}
	if len(rows) != len(p.want) {
		o.fail("stdout", "%d lines of statistics were printed, expected %d", len(rows), len(p.want))
		return
	}
	for i := range rows {
		if why := checkRow(rows[i], &p.want[i], p.pcts[i], p.want[i].Hostname); why != "" {
			o.fail("stdout", "line %d of the printed statistics: %s: %s", i+1, why, strings.Join(rows[i], "|"))
			return
		}
		o.marks["stdout"]++
	}
}

func (st *StageS) pcts() []float64 {
	if len(st.Pcts) == 0 {
		return []float64{99.9}
	}
	var out []float64
	for _, p := range st.Pcts {
		f, _ := strconv.ParseFloat(strings.TrimLeft(p, "Pp"), 64)
		out = append(out, f)
	}
	return out
}

func checkHeader(f []string, p []float64) string {
	want := []string{"interval", "duration", "runtime", "clients"}
	for i, t := range [][2]string{{"QPS", ""}, {"r_QPS", "r_"}, {"w_QPS", "w_"}, {"TPS", "c_"}} {
		_ = i
		want = append(want, t[0], t[1]+"min")
		for range p {
			want = append(want, t[1]+"P")
		}
		want = append(want, t[1]+"max")
	}
	want = append(want, "errors", "compute")
	if len(f) != len(want) {
		return fmt.Sprintf("%d columns, expected %d", len(f), len(want))
	}
	for i := range f {
		if f[i] != want[i] && !(strings.HasSuffix(want[i], "P") && strings.HasPrefix(f[i], want[i])) {
			return fmt.Sprintf("column %d is %q, expected %q", i+1, f[i], want[i])
		}
	}
	return ""
}

// checkRow compares a printed line of statistics with the reported values.
func checkRow(f []string, in *Inst, p []float64, host string) string {
	if len(f) != 4+4*(3+len(p))+2 {
		return fmt.Sprintf("%d columns, expected %d", len(f), 4+4*(3+len(p))+2)
	}
	at := 0
	bad := ""
	num := func(name string, want float64, tol float64) {
		v, err := strconv.ParseFloat(f[at], 64)
		if bad == "" && (err != nil || math.Abs(v-want) > tol) {
			bad = fmt.Sprintf("%s is %q, expected %v", name, f[at], want)
		}
		at++
	}
	num("interval", float64(in.Interval), 0)
	num("duration", in.Seconds, 0.0501)
	num("runtime", in.Runtime, 0.0501)
	num("clients", float64(in.Clients), 0)
	s := in.Total
	for _, typ := range []int{tTotal, tRead, tWrite, tCommit} {
		if in.Seconds > 0 {
			q := float64(s.N[typ]) / in.Seconds
			num(typeName[typ]+" rate", math.Floor(q), 1)
		} else {
			at++
		}
		num(typeName[typ]+" minimum", float64(s.Min[typ]), 0)
		for _, x := range p {
			v, err := strconv.ParseFloat(f[at], 64)
			at++
			if bad != "" {
				continue
			}
			if err != nil {
				bad = "no percentile"
				continue
			}
			if s.N[typ] == 0 {
				if v != 0 {
					bad = fmt.Sprintf("P%v of %s is %v without queries", x, typeName[typ], v)
				}
				continue
			}
			// the bucket of the percentile, allowing for rounding
			need := x / 100 * float64(s.N[typ])
			lo, hi := -1, -1
			n := 0.0
			for b, c := range s.Buckets[typ] {
				n += float64(c)
				if lo < 0 && n >= need-1e-6 && n > 0 {
					lo = b
				}
				if n >= need+1e-6 || n == float64(s.N[typ]) {
					hi = b
					break
				}
			}
			low := 0.0
			if lo > 0 {
				low = bktHigh(lo-1) - 1
			}
			if x > 0 && (v < low || v > bktHigh(hi)+1) {
				bad = fmt.Sprintf("P%v of %s is %v, but it is between %.0f and %.0f", x, typeName[typ], v, low+1, bktHigh(hi))
			}
		}
		num(typeName[typ]+" maximum", float64(s.Max[typ]), 0)
	}
	var e uint64
	for _, n := range s.Errors {
		e += n
	}
	num("errors", float64(e), 0)
	if bad == "" && host != "" && f[at] != host {
		bad = fmt.Sprintf("compute is %q, expected %q", f[at], host)
	}
	return bad
}

// ---------------------------------------------------------------------------

func init() {
	profiles["S04"] = func(r *R, sc *Scenario) {
		if r.p(0.3) {
			netS03(r, sc)
			return
		}
		statsProfile(r, sc, false)
		sc.MySQL.AuxMS = 0
		// the last tick should often coincide with the end of the stage
		for _, st := range sc.Stages {
			if st.FreqMS == 0 || r.p(0.3) {
				continue
			}
			st.RuntimeMS = st.FreqMS * r.in(1, 4)
			for st.RuntimeMS < 12 {
				st.RuntimeMS += st.FreqMS
			}
			if r.p(0.3) {
				st.RuntimeMS += r.of(-1, 1, st.FreqMS/2)
			}
			for _, g := range st.Groups {
				if r.p(0.6) {
					g.Iter, g.IterClients = 0, 0
				}
			}
		}
		if r.p(0.15) {
			sc.Events = []EventS{{Kind: "interrupt", On: "work", AtMS: r.n(150)}}
		}
	}
	oracles["S04"] = checkS04
}

func checkS04(h *Hist, o *Out) {
	if !h.healthy(o, len(h.Sc.Remotes) == 0) || h.fatal() {
		return
	}
	for _, x := range h.insts() { // their reporter sends what is left
		end := int64(-1)
		for _, c := range x.Clients {
			if c.End < 0 {
				end = -1
				break
			}
			if c.End > end {
				end = c.End
			}
		}
		if end >= 0 && x.DoneSent > end+ms(5200)+h.statTol() {
			o.fail("late", "the last client of instance %s ended at %s, statistics were sent until %s", x.name(h), sec(end), sec(x.DoneSent))
			return
		}
		if x.DoneSent < 0 || x.LastT0 <= 0 {
			continue
		}
		for _, r := range h.Reqs { // statistics are sent first, for up to 5 s
			if r.From.Idx != x.Node || r.Gen != x.Gen || r.Method+r.Path != "POST/stats" {
				continue
			}
			if r.Start <= x.LastEnd && (r.End <= 0 || r.End > x.LastEnd) {
				o.hit("stats-in-flight")
			}
			if (r.End <= 0 || r.End > x.DoneSent) && x.DoneSent < x.LastT0+ms(4900)-h.statTol() {
				o.fail("abandoned", "instance %s told the server at %s that it is done, the statistics that it sent at %s were not yet received", x.name(h), sec(x.DoneSent), sec(r.Start))
				return
			}
		}
	}
	for _, rec := range h.Recs {
		si := h.Sc.stageNo(rec.Stage)
		if si < 0 || !h.ended(rec.Node, rec.Gen) {
			continue
		}
		o.evals++
		st := h.Sc.Stages[si]
		reps, stop := h.reportsOf(rec)
		if rec.Stopped != 1 {
			o.fail("not-stopped", "a reporter of stage %s was stopped %d times until the program ended", st.Name, rec.Stopped)
			return
		}
		last := uint(0)
		for _, rp := range reps {
			if len(rp.Insts) == 0 {
				o.fail("empty", "a report of stage %s contains no statistics", st.Name)
				return
			}
			if n := rp.Insts[0].Interval; n <= last {
				o.fail("repeated", "interval %d of stage %s was reported after interval %d", n, st.Name, last)
				return
			} else {
				last = n
			}
		}
		// all clients ended: nothing more to wait for
		end, ran := int64(-1), false
		n := 0
		for _, eg := range h.groups(si) {
			for _, g := range eg {
				n += g.Clients
			}
		}
		for _, c := range h.clients() {
			if c.Stage != si || c.Node != rec.Node || c.Gen != rec.Gen {
				continue
			}
			if c.End < 0 || c.End > stop {
				n = -1
				break
			}
			n--
			if c.End > end {
				end = c.End
			}
			for _, e := range c.Evs {
				if e.Kind == "work" && c.Grp != nil && !c.Grp.NoStats {
					ran = true
				}
			}
		}
		if end < 0 || n != 0 {
			continue // some did not end, or did not get a connection
		}
		if ran && len(reps) == 0 {
			o.fail("no-report", "clients of stage %s executed queries, but it was never reported", st.Name)
			return
		}
		wait := ms(50)
		if len(h.Sc.Remotes) > 0 { // for statistics of remote instances
			wait = ms(3200)
			if len(reps) > 0 {
				rp := reps[len(reps)-1]
				if stop > rp.At+h.statTol() && stop > rp.At+ms(400)+h.statTol() && rp.At > end+h.statTol() && len(rp.Insts) == st.Instances {
					o.fail("late", "the last interval %d of stage %s was complete at %s, the reporters were stopped only at %s", rp.Insts[0].Interval, st.Name, sec(rp.At), sec(stop))
					return
				}
			}
			if stop > end+ms(2900) {
				o.hit("waited")
			} else {
				o.hit("not-waited")
			}
		}
		if late := stop - end - h.statTol() - wait; late > 0 {
			o.fail("late", "the last client of stage %s ended at %s, the reporters were stopped only at %s", st.Name, sec(end), sec(stop))
			return
		}
		if len(reps) > 0 {
			rp := reps[len(reps)-1]
			switch d := end - rp.At; {
			case d > 0 && d < ms(2):
				o.hit("tick-just-before-end")
			case d <= 0 && st.FreqMS > 0 && math.Abs(math.Mod(rp.Insts[0].Runtime*1000+0.5, float64(st.FreqMS))) < 1:
				o.hit("tick-during-end")
			case st.FreqMS > 0:
				o.hit("after-last-tick")
			default:
				o.hit("no-ticks")
			}
		}
	}
}
