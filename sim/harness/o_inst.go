package main

import (
	"encoding/json"
)

// Statistics of several instances: S03.

func init() {
	rules["S03"] = "a report of a stage run by several instances, a statistics message that came late, repeated or not at all"
	profiles["S03"] = netS03
	oracles["S03"] = checkS03
}

func netS03(r *R, sc *Scenario) {
	r.net(sc, r.of(1, 1, 1, 2))
	for _, st := range sc.Stages {
		st.StatsOff = false
		st.FreqMS = r.of(0, 200, 300, 500, 500, 1000)
		st.CSV = r.p(0.3)
		st.Stdout = r.p(0.3)
		for n := r.of(0, 0, 1, 2, 3); n > 0; n-- {
			st.Pcts = append(st.Pcts, r.str("50", "P95", "p99", "99.9", "P99.99", "75", "1", "100", "10", "90"))
		}
		for _, g := range st.Groups {
			g.NoStats = r.p(0.05)
		}
		if st.FreqMS > 0 && r.p(0.8) {
			st.RuntimeMS = st.FreqMS*r.in(1, 6) + r.of(0, 0, 1, st.FreqMS/2, r.n(st.FreqMS))
			for _, t := range st.Trx {
				t.Stmts = append(t.Stmts, &StmtS{Kind: "set", IdleMS: r.of(20, 50, 100)})
			}
			for _, g := range st.Groups {
				g.Iter, g.IterClients, g.IterExecGroup = 0, 0, 0
				if r.p(0.2) {
					g.Iter = r.in(1, 20)
				}
			}
		}
	}
	switch r.n(4) {
	case 0:
	case 1:
		r.loss(sc)
	case 2:
		sc.Net.LossP = r.f(0.05, 0.2)
		sc.Net.Kinds = 5
		sc.Net.LatP = r.f(0, 0.1, 0.3)
		sc.Net.Budget = 0
	case 3:
		sc.Net.LatP = r.f(0.05, 0.2, 0.5)
		sc.Net.Budget = 0
	}
	if r.p(0.2) {
		sc.Events = append(sc.Events, EventS{Kind: r.str("kill-remote", "partition", "partition"), On: "work", Node: r.in(1, len(sc.Remotes)), AtMS: r.n(3000), ForMS: r.of(300, 1000, 2000, 0)})
	}
	if r.p(0.1) {
		sc.Events = append(sc.Events, EventS{Kind: "interrupt", On: "work", AtMS: r.n(4000)})
	}
	if r.p(0.12) { // too long for a message with statistics, but not for the instance
		st := sc.Stages[0]
		if st.FreqMS < 300 {
			st.FreqMS = r.of(300, 500, 1000)
		}
		st.RuntimeMS = r.in(7000, 10000)
		for _, t := range st.Trx {
			t.Stmts = append(t.Stmts, &StmtS{Kind: "set", IdleMS: r.of(50, 100, 200)})
		}
		for _, g := range st.Groups {
			g.Iter, g.IterClients, g.IterExecGroup = 0, 0, 0
		}
		sc.Net.LossP, sc.Net.LateP, sc.Net.LatP = 0, 0, 0
		sc.Events = []EventS{{Kind: "partition", On: "work", Node: r.in(1, len(sc.Remotes)), AtMS: r.n(2000), ForMS: r.of(1000, 1500, 2000, 2200)}}
	}
	if r.p(0.6) {
		sc.Sched.StallP, sc.Sched.StallMax = 0, 0
	}
}

// arrival is a statistics message handled by the server.
type arrival struct {
	x    *inst
	in   Inst
	at   int64
	seen int // times it was handled
}

func instJSON(in Inst) string {
	b, _ := json.Marshal(in)
	return string(b)
}

type hostK struct {
	host string
	k    uint
}

func checkS03(h *Hist, o *Out) {
	if !h.healthy(o, false) {
		return
	}
	tol := h.statTol() + ms(10)
	pr := h.newPrinted()
	all := true
	for _, rec := range h.Recs {
		si := h.Sc.stageNo(rec.Stage)
		if rec.Node != 0 || si < 0 {
			continue
		}
		st := h.Sc.Stages[si]
		need := st.Instances
		reps, stop := h.reportsOf(rec)
		ended := h.ended(0, rec.Gen) && stop >= 0
		sent, arr, ok := h.statMsgs(o, si)
		if !ok {
			return
		}
		if !ended {
			all = false
		}
		if !h.statsResume(o, si, sent) {
			return
		}
		// one interval per report, one entry per instance
		local := ""
		last := uint(0)
		colls := map[hostK]int64{} // local collections
		for _, rp := range reps {
			o.evals++
			hosts := map[string]bool{}
			if len(rp.Insts) == 0 || len(rp.Insts) > need {
				o.fail("entries", "a report of stage %s has %d entries, %d instances run it", st.Name, len(rp.Insts), need)
				return
			}
			k := rp.Insts[0].Interval
			if k <= last {
				o.fail("order", "interval %d of stage %s was reported after interval %d", k, st.Name, last)
				return
			}
			last = k
			for _, in := range rp.Insts {
				if in.Interval != k {
					o.fail("mixed", "a report of stage %s has statistics of %s of interval %d and of %s of interval %d", st.Name, rp.Insts[0].Hostname, k, in.Hostname, in.Interval)
					return
				}
				if hosts[in.Hostname] {
					o.fail("doubled", "the report of interval %d of stage %s has two entries of %s", k, st.Name, in.Hostname)
					return
				}
				hosts[in.Hostname] = true
				key := hostK{in.Hostname, k}
				if !h.isRemote(in.Hostname) {
					if local != "" && local != in.Hostname || st.DisableLocal {
						o.fail("stranger", "the report of interval %d of stage %s has an entry of %s", k, st.Name, in.Hostname)
						return
					}
					local = in.Hostname
					if at := h.runningAt(0, si, rp.At); at >= 0 {
						colls[key] = at + int64(in.Runtime*1e9)
					}
					continue
				}
				a := arr[key]
				if a == nil || a.at > rp.At+tol {
					o.fail("invented", "the report of interval %d of stage %s has an entry of %s, which had not sent it", k, st.Name, in.Hostname)
					return
				}
				if got, want := instJSON(in), instJSON(a.in); got != want {
					o.fail("changed", "interval %d of stage %s: %s collected %s, the report says %s", k, st.Name, in.Hostname, want, got)
					return
				}
			}
			if len(rp.Insts) == need {
				o.hit("complete")
			} else {
				o.hit("incomplete")
			}
			// what had arrived must be in it
			for key, a := range arr {
				if key.k == k && !hosts[key.host] && a.at < rp.At-tol {
					o.fail("left-out", "the report of interval %d of stage %s made at %s does not contain the statistics of %s, which arrived at %s", k, st.Name, sec(rp.At), key.host, sec(a.at))
					return
				}
			}
		}
		if all && !pr.stage(o, st, reps) {
			return
		}
		when := func(in Inst) int64 {
			key := hostK{in.Hostname, in.Interval}
			if a := arr[key]; a != nil {
				return a.at
			}
			if at, ok := colls[key]; ok {
				return at
			}
			return -1
		}
		// every report was made in time and with reason
		lend := int64(-1)
		for _, c := range h.clients() {
			if c.Node == 0 && c.Stage == si {
				for _, e := range c.Evs {
					if t := endOf(e); t > lend && e.Kind == "work" {
						lend = t
					}
				}
			}
		}
		for i, rp := range reps {
			k := rp.Insts[0].Interval
			if len(rp.Insts) == need {
				t := int64(-1)
				for _, in := range rp.Insts {
					if w := when(in); w > t {
						t = w
					}
				}
				if rp.At > t+tol {
					o.fail("late", "interval %d of stage %s was complete at %s, but not reported until %s", k, st.Name, sec(t), sec(rp.At))
					return
				}
				continue
			}
			if i+1 < len(reps) {
				why := false
				for _, in := range reps[i+1].Insts {
					if w := when(in); w >= rp.At-tol && w <= rp.At+tol {
						why = true
					}
				}
				if !why {
					o.fail("premature", "interval %d of stage %s was reported at %s with %d of %d instances, but no statistics of a later interval arrived then", k, st.Name, sec(rp.At), len(rp.Insts), need)
					return
				}
				continue
			}
			if !ended {
				continue
			}
			if stop > rp.At+tol {
				o.fail("premature", "interval %d of stage %s was reported at %s with %d of %d instances, the end of statistics was %s", k, st.Name, sec(rp.At), len(rp.Insts), need, sec(stop))
				return
			}
			done := false // the last one with the local instance was complete
			for _, old := range reps[:i] {
				done = len(old.Insts) == need
			}
			for _, in := range rp.Insts {
				if in.Hostname == local {
					done = false
				}
			}
			if !st.DisableLocal && !done && lend >= 0 && rp.At < lend+ms(2500) {
				o.fail("not-waited", "the last interval %d of stage %s was reported at %s with %d of %d instances, the local instance had ended at %s", k, st.Name, sec(rp.At), len(rp.Insts), need, sec(lend))
				return
			}
			o.hit("final-timeout")
		}
		// what arrived is reported, or was too late
		past := func(key hostK, t int64) bool {
			for _, rp := range reps {
				if rp.At <= t+tol && rp.Insts[0].Interval >= key.k {
					return true
				}
			}
			for o, a := range arr {
				if o.k > key.k && a.at <= t+tol {
					return true
				}
			}
			for o, at := range colls {
				if o.k > key.k && at <= t+tol {
					return true
				}
			}
			return stop >= 0 && stop <= t+tol
		}
		in := map[hostK]bool{}
		for _, rp := range reps {
			for _, i := range rp.Insts {
				in[hostK{i.Hostname, i.Interval}] = true
			}
		}
		if ended {
			for key, a := range arr {
				if a.seen > 1 {
					o.hit("repeated")
				}
				if in[key] {
					continue
				}
				if !past(key, a.at) {
					o.fail("not-reported", "statistics of interval %d of stage %s from %s arrived at %s and were never reported", key.k, st.Name, key.host, sec(a.at))
					return
				}
				o.hit("too-late")
			}
		}
		// counts
		if !st.DisableLocal {
			if !h.sums(o, si, 0, rec.Gen, local, reps, past, ended) {
				return
			}
		}
		for _, x := range h.insts() {
			if x.Stage == si && !h.sent(o, x, sent[x]) {
				return
			}
		}
	}
	if all && h.ended(0, 1) {
		pr.stdout(h, o)
	}
}

// statMsgs are the statistics instances sent for a stage and those the server
// handled.
func (h *Hist) statMsgs(o *Out, si int) (map[*inst][]Inst, map[hostK]*arrival, bool) {
	sent := map[*inst][]Inst{}
	arr := map[hostK]*arrival{}
	for _, x := range h.insts() {
		if x.Stage != si {
			continue
		}
		by := map[uint]string{}
		for _, r := range h.Reqs {
			if r.From.Idx != x.Node || r.Gen != x.Gen || r.Method+r.Path != "POST/stats" {
				continue
			}
			var in Inst
			if err := json.Unmarshal(r.Body, &in); err != nil || in.Total == nil {
				o.fail("message", "instance %s sent statistics %.100q: %v", x.name(h), r.Body, err)
				return nil, nil, false
			}
			s := instJSON(in)
			if in.Hostname != h.Nodes[x.Node].Host {
				o.fail("stranger", "instance %s sent statistics of %s", x.name(h), in.Hostname)
				return nil, nil, false
			}
			if old, ok := by[in.Interval]; !ok {
				by[in.Interval] = s
				sent[x] = append(sent[x], in)
			} else if old != s {
				o.fail("resent", "instance %s sent interval %d twice: %s and %s", x.name(h), in.Interval, old, s)
				return nil, nil, false
			}
			if at := handledOK(r); at >= 0 {
				key := hostK{in.Hostname, in.Interval}
				a := arr[key]
				if a == nil {
					a = &arrival{x: x, in: in, at: at}
					arr[key] = a
				} else if at < a.at {
					a.at = at
				}
				a.seen++
			}
		}
	}
	return sent, arr, true
}

// statsResume: an instance sends the statistics of every interval, and goes on
// with it when messages got through again.
func (h *Hist) statsResume(o *Out, si int, sent map[*inst][]Inst) bool {
	st := h.Sc.Stages[si]
	if st.FreqMS == 0 || st.StatsOff {
		return true
	}
	for _, x := range h.insts() {
		if x.Stage != si || x.RunAt < 0 || x.LastEnd < 0 {
			continue
		}
		fail := int64(-1)
		for _, r := range h.Reqs {
			if r.From.Idx == x.Node && r.Gen == x.Gen && r.Method+r.Path == "POST/stats" && r.Status != 200 {
				end := r.End
				if end < r.Start {
					end = h.End
				}
				if end > fail {
					fail = end
				}
			}
		}
		from := x.RunAt
		if fail >= 0 {
			from = fail + ms(2000) // at most 6 waited to be sent
		}
		from += h.stallSlack()
		has := map[uint]bool{}
		for _, in := range sent[x] {
			has[in.Interval] = true
		}
		for k := 1; ; k++ {
			at := x.RunAt + ms(k*st.FreqMS)
			if at+ms(500)+2*h.stallSlack() >= x.LastEnd {
				break
			}
			if at < from {
				continue
			}
			if fail >= 0 {
				o.hit("resumed")
			}
			if !has[uint(k)] {
				o.fail("not-sent", "instance %s never sent the statistics of interval %d, which ended at %s; the last failed message was given up at %s", x.name(h), k, sec(at), sec(fail))
				return false
			}
		}
	}
	return true
}

// sums compares all reported statistics of the local instance with what it
// executed.
func (h *Hist) sums(o *Out, si, node, gen int, host string, reps []*Report, past func(hostK, int64) bool, ended bool) bool {
	st := h.Sc.Stages[si]
	ty := newTally()
	who := "stage " + st.Name + " on the server's local instance"
	lastCol := int64(-1)
	next, all := uint(1), true
	for _, rp := range reps {
		for _, in := range rp.Insts {
			if in.Hostname != host {
				continue
			}
			if !ty.addInst(o, in, who) {
				return false
			}
			at := h.runningAt(node, si, rp.At)
			for ; next < in.Interval; next++ {
				all = false
				if st.FreqMS == 0 || at < 0 {
					continue
				}
				if t := at + int64(next)*ms(st.FreqMS); !past(hostK{host, next}, t) {
					o.fail("local-lost", "%s: interval %d was never reported", who, next)
					return false
				}
			}
			next = in.Interval + 1
			if at >= 0 {
				lastCol = at + int64(in.Runtime*1e9)
			}
		}
	}
	if !all || !ended {
		lastCol = -1
	}
	evs, cut := h.statEvents(node, gen, si)
	return ty.compare(o, who, evs, cut, lastCol)
}

// sent compares the statistics a remote instance sent with what it executed.
func (h *Hist) sent(o *Out, x *inst, sent []Inst) bool {
	if x.RunAt < 0 {
		return true
	}
	st := h.Sc.Stages[x.Stage]
	who := "stage " + st.Name + " on " + h.Nodes[x.Node].Name
	ty := newTally()
	lastCol := int64(-1)
	run := int64(-1)
	if x.LastT0 >= 0 {
		run = h.runningAt(x.Node, x.Stage, x.FirstT0)
	}
	all := true
	for i, in := range sent {
		if !ty.addInst(o, in, who) {
			return false
		}
		if int(in.Interval) != i+1 {
			all = false
		}
		if run >= 0 {
			lastCol = run + int64(in.Runtime*1e9)
		}
	}
	evs, cut := h.statEvents(x.Node, x.Gen, x.Stage)
	o.evals++
	if !all {
		lastCol = -1
		o.hit("not-sent")
	} else if !h.statsFailed(x) && x.How == "return" && x.StopAt < 0 && x.LastEnd >= 0 && len(evs) > 0 && lastCol < x.LastEnd-ms(st.FreqMS)/2-h.statTol() {
		o.fail("no-final", "%s: the last statement ended at %s, the last statistics that were sent are of %s", who, sec(x.LastEnd), sec(lastCol))
		return false
	}
	return ty.compare(o, who, evs, cut, lastCol)
}

// statsFailed: the server did not answer every statistics message, so that the
// queue of the instance could fill up.
func (h *Hist) statsFailed(x *inst) bool {
	for _, r := range h.Reqs {
		if r.From.Idx == x.Node && r.Gen == x.Gen && r.Method+r.Path == "POST/stats" && r.Status != 200 {
			return true
		}
	}
	return false
}
