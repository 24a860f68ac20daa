package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"simrt"
	"simrt/simnet"
)

// Distributed runs: a server and remote instances (N01 to N07).

func init() {
	rules["N01"] = "a stage run by several instances: each one that took part, and each start signal"
	rules["N02"] = "an instance that failed or died while booting, and a place that was taken again"
	rules["N03"] = "a trx file or stage configuration fetched by a remote instance, by what is special about it"
	rules["N04"] = "a request or response that was lost, delayed or repeated during a run that had to complete"
	rules["N05"] = "an interrupt, or a remote instance that was lost, by the phase of the run"
	rules["N06"] = "a remote instance whose server stopped the stage or disappeared, or came back in time"
	rules["N07"] = "an instance that booted, or failed to boot, in test mode"
	profiles["N01"] = netN01
	oracles["N01"] = checkN01
	profiles["N02"] = netN02
	oracles["N02"] = checkN02
	profiles["N03"] = netN03
	oracles["N03"] = checkN03
	profiles["N04"] = netN04
	oracles["N04"] = checkN04
	profiles["N05"] = netN05
	oracles["N05"] = checkN05
	profiles["N06"] = netN06
	oracles["N06"] = checkN06
	profiles["N07"] = netN07
	oracles["N07"] = checkN07
}

// netStage is a stage of a distributed run.
func (r *R) netStage(sc *Scenario, i, remotes int) *StageS {
	o := runOpt
	o.maxTrx, o.maxStmts, o.idle = 2, 3, 0
	st := r.workStage(sc, i, o)
	st.FreqMS = r.of(0, 0, 500, 1000, 2000)
	st.StatsOff = r.p(0.05)
	st.DisableLocal = r.p(0.3)
	st.Instances = remotes
	if !st.DisableLocal {
		st.Instances++
	}
	for _, g := range st.Groups {
		g.Clients = r.in(1, 2)
	}
	mode := r.n(4)
	for _, t := range st.Trx {
		switch mode {
		case 0:
		default:
			t.Stmts = append(t.Stmts, &StmtS{Kind: "set", IdleMS: r.of(20, 100, 300, 700)})
		}
	}
	switch mode {
	case 2:
		for _, g := range st.Groups {
			g.Iter = r.in(3, 10)
		}
	case 3:
		st.RuntimeMS = r.of(500, 1000, 1500, 2000, 3000, 5000) + r.of(0, 0, r.n(500))
		for _, g := range st.Groups {
			g.Iter, g.IterClients, g.IterExecGroup = 0, 0, 0
		}
	}
	return st
}

// net makes a distributed run.
func (r *R) net(sc *Scenario, stages int) {
	sc.Server = true
	sc.MaxMS = 300_000
	nr := r.of(1, 1, 2, 2, 3)
	for i := 0; i < stages; i++ {
		sc.Stages = append(sc.Stages, r.netStage(sc, i, nr))
	}
	n := nr
	for n < maxNodes-1 && r.p(0.25) {
		n++
	}
	for i := 1; i <= n; i++ {
		sc.Remotes = append(sc.Remotes, RemoteS{Name: fmt.Sprintf("r%d", i), StartMS: r.of(0, 0, 1, r.n(300), r.n(3000)), Again: 2 * (stages - 1), AgainMS: r.of(1, 50, 500)})
	}
	r.mysql(sc, r.f(0, 0, 0.5))
	sc.MySQL.ConnP = 0
	if sc.MySQL.LatUS < 500 {
		sc.MySQL.LatUS, sc.MySQL.LatSpread = 500, 1500
	}
	sc.Net.LatUS = r.of(50, 200, 1000, 10000)
	sc.Net.LatSpread = sc.Net.LatUS * r.of(1, 3)
}

// loss adds faults of the network that retries have to cover.
func (r *R) loss(sc *Scenario) {
	sc.Net.LossP = r.f(0.02, 0.1, 0.3)
	sc.Net.Kinds = r.of(2, 4, 5)
	sc.Net.LateP = r.f(0, 0, 0.05, 0.2, 0.4)
	sc.Net.LatP = r.f(0, 0.05, 0.2)
	sc.Net.Budget = r.in(1, 2)
}

// inst is one process of a remote instance and what it did with the server.
type inst struct {
	Node, Gen        int
	Start, End       int64
	How              string
	Code             int
	Stage            int // -1: none received
	ID               string
	BootAt           int64 // stage received
	AckSent, AckH    int64 // boot acknowledged: sent, handled by the server
	FailSent, FailH  int64 // boot error: sent, handled
	RunSent          int64
	RunAt, ResetAt   int64 // told to run, to stop while waiting
	DoneSent, DoneH  int64
	StopAt           int64 // ping told it to stop
	Clients          []*Client
	FirstT0, LastEnd int64 // of its workload statements
	LastT0           int64
}

func (i *inst) name(h *Hist) string {
	return fmt.Sprintf("%s (process %d)", h.Nodes[i.Node].Name, i.Gen)
}

func bodyErr(b []byte) bool { return len(strings.TrimSpace(string(b))) > 0 }

// stageOf reads the stage in the response to GET /boot.
func stageOf(r *simnet.Req) (name, id string) {
	var m map[string]any
	if json.Unmarshal(r.RespBody, &m) != nil {
		return
	}
	for k, v := range m {
		switch strings.ToLower(k) {
		case "name":
			name, _ = v.(string)
		case "id":
			id, _ = v.(string)
		}
	}
	return
}

func handledOK(r *simnet.Req) int64 {
	if r.Handled > 0 && r.HStatus == 200 {
		return r.HandlerEnd
	}
	return -1
}

// insts are the processes of the remote instances.
func (h *Hist) insts() []*inst {
	if h.insts_ != nil {
		return h.insts_
	}
	by := map[[2]int]*inst{}
	for i := 1; i < len(h.Nodes); i++ {
		for gen, at := range h.Starts[i] {
			x := &inst{Node: i, Gen: gen + 1, Start: at, End: -1, Stage: -1, BootAt: -1, AckSent: -1, AckH: -1, FailSent: -1, FailH: -1, RunSent: -1, RunAt: -1, ResetAt: -1, DoneSent: -1, DoneH: -1, StopAt: -1, FirstT0: -1, LastEnd: -1, LastT0: -1}
			by[[2]int{i, gen + 1}] = x
			h.insts_ = append(h.insts_, x)
		}
	}
	for _, e := range h.Exits {
		if x := by[[2]int{e.Node, e.Gen}]; x != nil {
			x.End, x.How, x.Code = e.At, e.How, e.Code
		}
	}
	first := func(p *int64, v int64) {
		if v >= 0 && (*p < 0 || v < *p) {
			*p = v
		}
	}
	for _, r := range h.Reqs {
		x := by[[2]int{r.From.Idx, r.Gen}]
		if x == nil {
			continue
		}
		switch r.Method + r.Path {
		case "GET/boot":
			if r.Status == 200 && x.Stage < 0 {
				name, id := stageOf(r)
				x.Stage, x.ID, x.BootAt = h.Sc.stageNo(name), id, r.End
			}
		case "POST/boot":
			if bodyErr(r.Body) {
				first(&x.FailSent, r.Start)
				first(&x.FailH, handledOK(r))
			} else {
				first(&x.AckSent, r.Start)
				first(&x.AckH, handledOK(r))
			}
		case "GET/run":
			first(&x.RunSent, r.Start)
			if r.Status == 200 {
				first(&x.RunAt, r.End)
			}
			if r.Status == 205 {
				first(&x.ResetAt, r.End)
			}
		case "POST/run":
			first(&x.DoneSent, r.Start)
			first(&x.DoneH, handledOK(r))
		case "GET/ping":
			if r.Status == 205 {
				first(&x.StopAt, r.End)
			}
		}
	}
	for _, c := range h.clients() {
		x := by[[2]int{c.Node, c.Gen}]
		if x == nil {
			continue
		}
		x.Clients = append(x.Clients, c)
		for _, e := range c.Evs {
			if e.Kind != "work" || e.NotSent {
				continue
			}
			first(&x.FirstT0, e.T0)
			if e.T0 > x.LastT0 {
				x.LastT0 = e.T0
			}
			if t := endOf(e); t > x.LastEnd {
				x.LastEnd = t
			}
		}
	}
	return h.insts_
}

// remotesOf is the number of remote instances of a stage.
func (st *StageS) remotesOf() int {
	if st.DisableLocal {
		return st.Instances
	}
	return st.Instances - 1
}

// stageSpan is when workload statements of a stage were executed, by instance
// (node 0 is the server's local one).
func (h *Hist) stageSpan(si int) (first, last int64) {
	first, last = -1, -1
	for _, c := range h.clients() {
		if c.Stage != si {
			continue
		}
		for _, e := range c.Evs {
			if e.Kind == "work" && !e.NotSent {
				if first < 0 || e.T0 < first {
					first = e.T0
				}
				if e.T0 > last {
					last = e.T0
				}
			}
		}
	}
	return
}

func netN01(r *R, sc *Scenario) {
	r.net(sc, r.of(1, 1, 1, 2, 3))
	if r.p(0.5) {
		r.loss(sc)
	}
	if r.p(0.1) {
		sc.Events = append(sc.Events, EventS{Kind: "kill-remote", Node: r.in(1, len(sc.Remotes)), AtMS: r.n(4000), ForMS: r.of(0, 1, 100, 1000)})
	}
	if r.p(0.04) {
		r.long(sc)
	}
}

// startOf is when the server started a stage, by its remote instances: the
// first answer to run.
func (h *Hist) wholeRun(x *inst, o *Out) bool {
	st := h.Sc.Stages[x.Stage]
	per := map[*grp]int{}
	for _, c := range x.Clients {
		if c.Grp == nil {
			o.fail("other-work", "instance %s executed statements of a client group that is not configured", x.name(h))
			return false
		}
		steps, at, bad := h.walk(c)
		if bad != "" {
			if at != nil {
				o.fail("other-work", "a client of instance %s sent %s", x.name(h), bad)
			}
			return false
		}
		per[c.Grp]++
		g := c.Grp
		it := iterations(steps)
		if g.Iter > 0 && it > g.Iter {
			o.fail("run-again", "a client of instance %s started %d iterations of stage %s, iter is %d", x.name(h), it, st.Name, g.Iter)
			return false
		}
		ls, _ := h.legitStop(c)
		if g.Iter > 0 && it < g.Iter && !ls && st.RuntimeMS == 0 && x.How == "return" && x.StopAt < 0 && h.calm() {
			o.fail("incomplete", "a client of instance %s started only %d iterations of stage %s, iter is %d", x.name(h), it, st.Name, g.Iter)
			return false
		}
	}
	for _, eg := range h.groups(x.Stage) {
		for _, g := range eg {
			n := per[g]
			o.evals++
			if n > g.Clients {
				o.fail("run-again", "%d clients of client group %d/%d of stage %s worked on instance %s, %d are configured", n, g.EG, g.CG, st.Name, x.name(h), g.Clients)
				return false
			}
			if n < g.Clients && g.Iter > 0 && st.RuntimeMS == 0 && x.How == "return" && x.StopAt < 0 && h.calm() {
				o.fail("incomplete", "only %d clients of client group %d/%d of stage %s worked on instance %s, %d are configured", n, g.EG, g.CG, st.Name, x.name(h), g.Clients)
				return false
			}
		}
	}
	return true
}

// calm: no event of the environment stops instances.
func (h *Hist) calm() bool {
	for _, m := range h.Marks {
		switch m.Kind {
		case "interrupt", "kill-remote", "kill-server", "partition":
			return false
		}
	}
	return !h.Sc.Net.lossy() || h.Sc.Net.Budget > 0
}

func (h *Hist) exitOf(node int) *ExitEv {
	for i := range h.Exits {
		if h.Exits[i].Node == node {
			return &h.Exits[i]
		}
	}
	return nil
}

func checkN01(h *Hist, o *Out) {
	if !h.healthy(o, h.calm()) {
		return
	}
	for si, st := range h.Sc.Stages {
		need := st.remotesOf()
		first, _ := h.stageSpan(si)
		if first < 0 {
			continue
		}
		// instances that have booted and taken part
		acked := map[string]bool{}
		var part []*inst
		for _, x := range h.insts() {
			if x.Stage == si && x.AckH >= 0 && x.AckH <= first {
				acked[h.Nodes[x.Node].Name] = true
			}
			if x.FirstT0 >= 0 {
				for _, c := range x.Clients {
					if c.Stage == si {
						part = append(part, x)
						break
					}
				}
			}
		}
		o.evals++
		if len(acked) < need {
			o.fail("early", "the first statement of stage %s was executed at %s when %d of %d remote instances had booted it", st.Name, sec(first), len(acked), need)
			return
		}
		o.hit("started")
		if len(part) > need {
			o.fail("extra", "%d remote instances executed statements of stage %s, %d are configured", len(part), st.Name, need)
			return
		}
		nodes := map[int]bool{}
		for _, x := range part {
			if nodes[x.Node] {
				o.fail("twice", "instance %s executed stage %s twice", h.Nodes[x.Node].Name, st.Name)
				return
			}
			nodes[x.Node] = true
			if x.Stage != si {
				o.fail("other-stage", "instance %s executed statements of stage %s, which the server did not send it", x.name(h), st.Name)
				return
			}
			if x.RunAt < 0 || x.RunAt > x.FirstT0 {
				o.fail("unasked", "instance %s executed statements of stage %s before the server told it to run", x.name(h), st.Name)
				return
			}
			o.hit("took-part")
			if !h.wholeRun(x, o) {
				return
			}
			if x.DoneH >= 0 {
				for _, c := range x.Clients {
					for _, e := range c.Evs {
						if e.Kind == "work" && !e.NotSent && e.T0 > x.DoneSent {
							o.fail("after-done", "instance %s executed %q at %s after it had told the server at %s that it is done", x.name(h), e.Text, sec(e.T0), sec(x.DoneSent))
							return
						}
					}
				}
			}
		}
		srv := h.exitOf(0)
		if h.calm() && srv != nil && srv.How == "return" && len(part) < need && st.RuntimeMS == 0 {
			o.fail("missing", "only %d of %d remote instances executed stage %s", len(part), need, st.Name)
			return
		}
		if st.DisableLocal {
			for _, c := range h.clients() {
				if c.Node == 0 && c.Stage == si {
					o.fail("local", "the server executed statements of stage %s, its local instance is disabled", st.Name)
					return
				}
			}
		}
		if h.calm() {
			for sj := si + 1; sj < len(h.Sc.Stages); sj++ {
				f, _ := h.stageSpan(sj)
				_, l := h.stageSpan(si)
				if f >= 0 && l > f {
					o.fail("overlap", "stage %s was executed until %s, but stage %s was started at %s", st.Name, sec(l), h.Sc.Stages[sj].Name, sec(f))
					return
				}
				if f >= 0 {
					o.hit("next-stage")
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------

func netN02(r *R, sc *Scenario) {
	r.net(sc, r.of(1, 1, 1, 1, 2))
	n := len(sc.Remotes)
	need := sc.Stages[0].remotesOf()
	for i := range sc.Remotes {
		sc.Remotes[i].Again = 60
		sc.Remotes[i].AgainMS = r.of(1, 200, 1000)
	}
	if r.p(0.3) {
		r.loss(sc)
	}
	for tries := 0; tries < 2 || sc.FS.P == 0 && len(sc.MySQL.BadNodes) == 0 && len(sc.Events) == 0; tries++ {
		switch r.n(4) {
		case 0:
			sc.FS.P, sc.FS.Until = r.f(0.1, 0.5), r.in(500, 8000)
		case 1:
			sc.MySQL.BadNodes = nil
			for i := 1; i <= n; i++ {
				if r.p(0.5) {
					sc.MySQL.BadNodes = append(sc.MySQL.BadNodes, i)
				}
			}
			if len(sc.MySQL.BadNodes) > n-need || r.p(0.5) {
				sc.MySQL.BadUntil = r.in(500, 8000)
			}
		case 2:
			e := EventS{Kind: "kill-remote", Node: r.in(1, n), AtMS: r.n(r.of(10, 300, 4000)), ForMS: r.of(1, 20, 100, 1000)}
			if n > need && r.p(0.3) && len(sc.Stages) == 1 && len(sc.MySQL.BadNodes) == 0 && !sc.hasEvent("kill-remote") {
				e.ForMS = 0
			}
			sc.Events = append(sc.Events, e)
		case 3:
			sc.Events = append(sc.Events, EventS{Kind: "partition", Node: r.in(1, n), AtMS: r.n(4000), ForMS: r.of(100, 1000, 4000)})
		}
	}
	if sc.hasEvent("kill-remote") && n > need { // keep enough healthy ones
		sc.MySQL.BadUntil = 3000
	}
}

func (sc *Scenario) hasEvent(kind string) bool {
	for _, e := range sc.Events {
		if e.Kind == kind {
			return true
		}
	}
	return false
}

// runSignal is when the server first answered that a stage runs.
func (h *Hist) runSignal(si int) int64 {
	at := int64(-1)
	for _, x := range h.insts() {
		if x.Stage != si {
			continue
		}
		for _, r := range h.Reqs {
			if r.From.Idx == x.Node && r.Gen == x.Gen && r.Method+r.Path == "GET/run" && r.Handled > 0 && r.HStatus == 200 && !r.HGone {
				if at < 0 || r.HandlerEnd < at {
					at = r.HandlerEnd
				}
			}
		}
	}
	return at
}

// cutAt tells whether a partition kept the end of an instance from being
// noticed by the server.
func (h *Hist) cutAt(node int, from, to int64) bool {
	for _, m := range h.Marks {
		if m.Kind == "partition" && (m.Node == 0 || m.Node == node) && m.At <= to && (m.For == 0 || m.At+m.For+ms(100) >= from && m.At+m.For >= to-ms(100)) {
			return true
		}
	}
	return false
}

func checkN02(h *Hist, o *Out) {
	if !h.healthy(o, false) {
		return
	}
	srv := h.exitOf(0)
	for _, x := range h.insts() {
		o.evals++
		if x.FailSent >= 0 || x.AckSent < 0 {
			if x.FirstT0 >= 0 {
				o.fail("failed-runs", "instance %s did not boot stage successfully, but executed statements at %s", x.name(h), sec(x.FirstT0))
				return
			}
		}
		if x.FailSent >= 0 {
			o.hit("boot-failed")
		} else if x.Stage >= 0 && x.AckSent < 0 && x.How == "kill" {
			o.hit("died-booting")
		} else if x.AckSent >= 0 && x.RunAt < 0 && x.How == "kill" {
			o.hit("died-waiting")
		}
		if x.Stage >= 0 && x.AckSent < 0 && x.FailSent < 0 && x.End >= 0 && x.How != "kill" && h.calm() && (srv == nil || srv.At > x.End) && x.StopAt < 0 {
			o.fail("not-told", "instance %s did not boot stage %s and ended at %s (%s %d) without telling the server", x.name(h), h.Sc.Stages[x.Stage].Name, sec(x.End), x.How, x.Code)
			return
		}
		if x.FailH >= 0 && (srv == nil || srv.At > x.FailH+ms(500)) {
			told := false
			for _, l := range h.Nodes[0].Lines {
				if l.At >= x.BootAt && l.At <= x.FailH+ms(1000) && strings.Contains(l.Text, h.Nodes[x.Node].Host) && strings.Contains(strings.ToLower(l.Text), "error") {
					told = true
				}
			}
			if !told {
				o.fail("not-reported", "instance %s told the server at %s that it failed to boot, the server did not report it", x.name(h), sec(x.FailH))
				return
			}
		}
		// a second answer to a failed boot must not make it count: checked below
	}
	for si, st := range h.Sc.Stages {
		T := h.runSignal(si)
		if T < 0 {
			continue
		}
		need := st.remotesOf()
		n := map[int]bool{}
		var dead []string
		for _, x := range h.insts() {
			if x.Stage != si || x.FailSent >= 0 {
				continue
			}
			if x.AckH >= 0 && x.AckH <= T {
				if x.End >= 0 && x.End < T-ms(100)-h.stallSlack() && !h.cutAt(x.Node, x.End, T) {
					dead = append(dead, x.name(h))
					continue
				}
				n[x.Node] = true
			}
		}
		if len(n) < need {
			o.fail("dead-counted", "the server started stage %s at %s with %d of %d remote instances that had booted and were running; dead ones: %v", st.Name, sec(T), len(n), need, dead)
			return
		}
		o.hit("started")
	}
	// progress: the place of a failed or dead instance is taken again
	last := 0
	up := func(n int) {
		if n > last {
			last = n
		}
	}
	up(h.Sc.FS.Until)
	up(h.Sc.MySQL.BadUntil)
	for _, r := range h.Sc.Remotes {
		up(r.StartMS)
	}
	for _, e := range h.Sc.Events {
		up(e.AtMS + e.ForMS)
	}
	if f, _ := h.stageSpan(0); f < 0 && h.firstW < 0 {
		gone := map[int]bool{}
		for _, b := range h.Sc.MySQL.BadNodes {
			if h.Sc.MySQL.BadUntil == 0 {
				gone[b] = true
			}
		}
		for _, e := range h.Sc.Events {
			if e.Kind == "kill-remote" && e.ForMS == 0 {
				gone[e.Node] = true
			}
		}
		limit := ms(last) + ms(60_000) + ms(15_000) + h.stallSlack()
		if h.Sc.FS.P > 0 && h.Sc.FS.Until == 0 || h.Sc.Stages[0].remotesOf() > len(h.Sc.Remotes)-len(gone) || h.Sc.hasEvent("interrupt") || h.Sc.Net.lossy() && h.Sc.Net.Budget == 0 {
			return
		}
		if h.End > limit {
			o.fail("blocked", "the required instances were able to boot since %s, but the first stage was not started until %s", sec(ms(last)), sec(h.End))
		}
	}
}

// ---------------------------------------------------------------------------

func netN03(r *R, sc *Scenario) {
	r.net(sc, 1)
	st := sc.Stages[0]
	if r.p(0.5) {
		r.loss(sc)
	}
	if r.p(0.3) {
		st.PadParams = r.of(3000, 5000, 70000, 200000)
	}
	same := r.p(0.5)
	for i, t := range st.Trx {
		if same {
			t.Dir, t.File = fmt.Sprintf("trx/%c", 'a'+i), "q.sql"
		}
		if r.p(0.4) {
			t.Pad = r.of(1, 3000, 5000, 9000, 70000, 300000)
			t.PadTop = r.p(0.5)
		}
		t.Local = r.p(0.1)
	}
	if same && len(st.Trx) == 1 && r.p(0.7) { // needs two files
		u := r.trx(runOpt, 0, 1)
		u.Dir, u.File = "trx/b", "q.sql"
		st.Trx = append(st.Trx, u)
		for _, g := range st.Groups {
			if len(g.Trx) > 0 {
				g.Trx = append(g.Trx, u.Name)
			}
		}
	}
	if r.p(0.15) {
		sc.FS.P, sc.FS.Until = r.f(0.05, 0.3), r.in(500, 8000)
		for i := range sc.Remotes {
			sc.Remotes[i].Again = 20
			sc.Remotes[i].AgainMS = 100
		}
	}
	if r.p(0.1) {
		sc.Events = append(sc.Events, EventS{Kind: "interrupt", Node: r.in(1, len(sc.Remotes)), AtMS: r.n(3000)}, EventS{Kind: "interrupt", AtMS: 4000})
	}
}

// Snap is what a remote instance had stored when it told the server that it
// has booted.
type Snap struct {
	Files   map[string]string
	Private bool
	Open    string // first path that others can read
}

// snapshot looks at the temporary files of a node.
func snapshot(n *simrt.Node) *Snap {
	s := &Snap{Files: map[string]string{}, Private: true}
	for _, p := range n.FS.List("/tmp/") {
		if b, ok := n.FS.Get(p); ok {
			s.Files[p] = b
			top := "/tmp/" + strings.SplitN(strings.TrimPrefix(p, "/tmp/"), "/", 2)[0]
			if n.FS.Mode(top)&0077 != 0 {
				s.Private, s.Open = false, top
			}
		}
	}
	return s
}

func checkN03(h *Hist, o *Out) {
	if !h.healthy(o, false) {
		return
	}
	for _, x := range h.insts() {
		if x.Stage < 0 {
			continue
		}
		st := h.Sc.Stages[x.Stage]
		k := [2]int{x.Node, x.Gen}
		old := h.begin[k]
		if st.PadParams > 3500 {
			o.hit("big-config")
		}
		if s := h.snaps[k]; s != nil {
			want := map[string]int{}
			base := map[string]bool{}
			for _, t := range st.Trx {
				if t.Local {
					o.hit("has-file")
					continue
				}
				if base[t.File] {
					o.hit("same-name")
				}
				base[t.File] = true
				want[t.render(literal)]++
				o.evals++
				if len(t.render(literal)) > 4096 {
					o.hit("big-file")
				} else {
					o.hit("file")
				}
			}
			have := map[string]int{}
			var paths []string
			for p := range s.Files {
				paths = append(paths, p)
			}
			sort.Strings(paths)
			for _, p := range paths {
				if old[p] {
					continue
				}
				b := s.Files[p]
				have[b]++
				if want[b] == 0 {
					o.fail("wrong-file", "instance %s told the server that it booted stage %s with file %s of %d bytes, which is none of the server's files", x.name(h), st.Name, p, len(b))
					return
				}
			}
			for b, n := range want {
				if have[b] < n {
					o.fail("missing-file", "instance %s told the server that it booted stage %s without a trx file of the server of %d bytes (it has %d files)", x.name(h), st.Name, len(b), len(have))
					return
				}
			}
			if !s.Private {
				o.fail("not-private", "instance %s keeps trx files in %s, which others can read", x.name(h), s.Open)
				return
			}
		}
		for _, c := range x.Clients {
			steps, at, bad := h.walk(c)
			if bad != "" {
				if at != nil {
					bad = "sent " + bad
				}
				o.fail("other-work", "a client of instance %s %s", x.name(h), bad)
				return
			}
			for _, s := range steps {
				o.evals++
				if got, want := squash(s.Ev.Text), wantText(s.Exp); got != want {
					o.fail("other-statement", "instance %s sent %q, the server's trx file says %q", x.name(h), s.Ev.Text, s.Exp.S.body())
					return
				}
			}
		}
		if x.FailSent >= 0 && h.calm() && h.Sc.FS.P == 0 {
			o.fail("not-obtained", "instance %s failed to boot stage %s although it could obtain everything", x.name(h), st.Name)
			return
		}
		if x.How == "return" || x.How == "exit" {
			if l := h.left[k]; l != "" {
				o.fail("left-behind", "instance %s ended and left %s behind", x.name(h), l)
				return
			}
		}
	}
}

// ---------------------------------------------------------------------------

func netN04(r *R, sc *Scenario) {
	r.net(sc, r.of(1, 1, 1, 2))
	if r.p(0.8) {
		r.loss(sc)
	} else {
		for i := r.in(1, 3); i > 0; i-- {
			sc.Events = append(sc.Events, EventS{Kind: "partition", Node: r.in(1, len(sc.Remotes)), AtMS: 3000*(i-1) + r.n(2000), ForMS: r.of(50, 200, 500), On: r.str("", "work")})
		}
	}
	if sc.Sched.StallMax > 3 {
		sc.Sched.StallMax = 3
	}
	if sc.Net.LatUS > 1000 {
		sc.Net.LatUS, sc.Net.LatSpread = 5000, 10000
	}
}

func checkN04(h *Hist, o *Out) {
	if !h.healthy(o, true) {
		return
	}
	for k, n := range h.Faults {
		if strings.HasPrefix(k, "net-") || k == "partition" {
			o.rel += n
			o.marks[k] += n
		}
	}
	for _, x := range h.Exits {
		if x.Node > 0 && h.insts()[0] != nil {
			took := false
			for _, y := range h.insts() {
				if y.Node == x.Node && y.Gen == x.Gen && y.Stage >= 0 {
					took = true
				}
			}
			if !took {
				continue
			}
		}
		if x.How != "return" || x.Code != 0 {
			o.fail("failed", "%s ended with %s %d %.200s although all faults were shorter than the retry limits", h.Nodes[x.Node].Name, x.How, x.Code, x.Msg)
			return
		}
	}
	for si, st := range h.Sc.Stages {
		part := 0
		for _, x := range h.insts() {
			if x.Stage != si {
				continue
			}
			if x.FailSent >= 0 || x.RunAt < 0 && x.FirstT0 < 0 {
				o.fail("not-run", "instance %s got stage %s but did not run it although all faults were shorter than the retry limits", x.name(h), st.Name)
				return
			}
			if x.FirstT0 >= 0 {
				part++
			}
			if x.StopAt >= 0 && st.RuntimeMS == 0 {
				o.fail("stopped", "instance %s was told to stop stage %s early", x.name(h), st.Name)
				return
			}
			for _, c := range x.Clients {
				if c.Grp == nil {
					return
				}
				steps, _, bad := h.walk(c)
				if bad != "" {
					return
				}
				o.evals += len(steps)
				ls, _ := h.legitStop(c)
				if it := iterations(steps); c.Grp.Iter > 0 && it < c.Grp.Iter && !ls && st.RuntimeMS == 0 {
					o.fail("incomplete", "a client of instance %s started only %d iterations of stage %s, iter is %d", x.name(h), it, st.Name, c.Grp.Iter)
					return
				}
			}
			if st.RuntimeMS > 0 && x.RunAt >= 0 && x.LastT0 >= 0 && x.LastT0 < x.RunAt+ms(st.RuntimeMS)-ms(1100)-h.stallSlack() && !h.anyErrors() {
				o.fail("incomplete", "instance %s executed stage %s only until %s, it started at %s and the runtime is %d ms", x.name(h), st.Name, sec(x.LastT0), sec(x.RunAt), st.RuntimeMS)
				return
			}
		}
		if part < st.remotesOf() && st.RuntimeMS == 0 {
			o.fail("missing", "only %d of %d remote instances executed stage %s", part, st.remotesOf(), st.Name)
			return
		}
		if !h.statsArrive(o, si) {
			return
		}
	}
}

func (h *Hist) anyErrors() bool {
	for k := range h.Faults {
		if strings.HasPrefix(k, "mysql") || strings.HasPrefix(k, "connect") || strings.HasPrefix(k, "conn-") || strings.HasPrefix(k, "latency") {
			return true
		}
	}
	return false
}

// statsArrive: what the instances sent in time was reported.
func (h *Hist) statsArrive(o *Out, si int) bool {
	st := h.Sc.Stages[si]
	if st.StatsOff || h.Sc.hasEvent("partition") || st.FreqMS > 0 && st.FreqMS < 1000 {
		return true
	}
	rep := map[string]bool{}
	stop := int64(-1)
	localMax := uint(0)
	short := map[uint]bool{} // a last local interval that was too short for the remote statistics of the one before
	for _, r := range h.Reports {
		if r.Node != 0 || r.Stage != st.Name {
			continue
		}
		if r.Stop {
			stop = r.At
			continue
		}
		for _, in := range r.Insts {
			rep[fmt.Sprintf("%s#%d", in.Hostname, in.Interval)] = true
			if !h.isRemote(in.Hostname) {
				if in.Interval > localMax {
					localMax = in.Interval
				}
				short[in.Interval] = in.Seconds < 0.95
			}
		}
	}
	var lo, hi int64 = -1, -1
	for _, x := range h.insts() {
		if x.Stage == si && x.RunAt >= 0 {
			if lo < 0 || x.RunAt < lo {
				lo = x.RunAt
			}
			if x.RunAt > hi {
				hi = x.RunAt
			}
		}
	}
	first, _ := h.stageSpan(si)
	if lo < 0 || hi-first > ms(250) || hi-lo > ms(250) {
		return true // some started too late: their intervals are late, too
	}
	for _, x := range h.insts() {
		if x.Stage != si {
			continue
		}
		sent := map[uint]int64{} // first time a payload was sent
		for _, r := range h.Reqs {
			if r.From.Idx != x.Node || r.Gen != x.Gen || r.Method+r.Path != "POST/stats" {
				continue
			}
			var in Inst
			if json.Unmarshal(r.Body, &in) != nil || in.Interval == 0 {
				continue
			}
			if _, ok := sent[in.Interval]; !ok {
				sent[in.Interval] = r.Start
			}
		}
		for k, at := range sent {
			if at > stop-ms(1100) || !st.DisableLocal && (k > localMax || short[k+1] || st.FreqMS == 0 && at > stop-ms(1100)) {
				continue
			}
			o.hit("stats")
			if !rep[fmt.Sprintf("%s#%d", h.Nodes[x.Node].Host, k)] {
				o.fail("stats-lost", "the statistics of interval %d that instance %s sent at %s were never reported, the last report was made at %s", k, x.name(h), sec(at), sec(stop))
				return false
			}
		}
		if len(sent) == 0 && x.FirstT0 >= 0 && st.FreqMS == 0 {
			all := true
			for _, g := range st.Groups {
				if g.NoStats {
					all = false
				}
			}
			if all {
				o.fail("no-stats", "instance %s executed stage %s but never sent statistics", x.name(h), st.Name)
				return false
			}
		}
	}
	return true
}

func (h *Hist) isRemote(host string) bool {
	for i := 1; i < len(h.Nodes); i++ {
		if h.Nodes[i].Host == host {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------

func netN05(r *R, sc *Scenario) {
	r.net(sc, r.of(1, 1, 1, 2))
	if r.p(0.25) {
		sc.Net.LatP = r.f(0.05, 0.3)
		sc.Net.LossP = r.f(0, 0.1)
		sc.Net.Kinds = 5
	}
	on := "work"
	if r.p(0.3) {
		on = ""
	}
	lost := r.p(0.7)
	if lost {
		for i := r.in(1, len(sc.Remotes)); i > 0; i-- {
			e := EventS{Kind: r.str("kill-remote", "partition"), Node: i, On: on, AtMS: r.n(r.of(5, 500, 3000))}
			if e.Kind == "kill-remote" && r.p(0.3) {
				e.ForMS = r.of(1, 100, 1000)
			}
			if e.Kind == "partition" && r.p(0.2) {
				e.ForMS = r.of(1000, 5000, 20000)
			}
			sc.Events = append(sc.Events, e)
		}
	}
	if !lost || r.p(0.6) {
		e := EventS{Kind: "interrupt", On: on, AtMS: r.n(r.of(5, 500, 3000, 12000))}
		sc.Events = append(sc.Events, e)
		if r.p(0.1) {
			e.AtMS += r.n(2000)
			sc.Events = append(sc.Events, e)
		}
	}
}

func checkN05(h *Hist, o *Out) {
	if !h.healthy(o, false) {
		return
	}
	srv := h.exitOf(0)
	end := h.End
	if srv != nil {
		end = srv.At
	}
	if h.Stat.SpinNS > uint64(ms(1000)) {
		o.fail("spins", "the processes used about %s s of CPU time in a run with %d statements", sec(int64(h.Stat.SpinNS)), len(h.Stmts))
		return
	}
	o.evals++
	slack := h.stallSlack()
	phase := "booting"
	if h.firstW >= 0 {
		phase = "running"
	}
	if at := h.interrupted(); at >= 0 {
		if h.firstW < 0 || h.firstW > at {
			o.hit("interrupt-booting")
		} else {
			o.hit("interrupt-running")
		}
		if end > at+ms(8000)+slack {
			o.fail("late-end", "the server was interrupted at %s and did not end until %s (%s)", sec(at), sec(end), phase)
			return
		}
		if srv != nil && srv.At >= at && (srv.How != "return" && srv.How != "exit" && srv.How != "signal" && (srv.How != "kill" || at > ms(10)+slack)) {
			o.fail("bad-end", "the server was interrupted at %s and ended with %s %.200s", sec(at), srv.How, srv.Msg)
			return
		}
		return
	}
	// without an interrupt: instances lost after the last stage had begun
	si := len(h.Sc.Stages) - 1
	if first, _ := h.stageSpan(si); first < 0 {
		return
	}
	last := int64(0)
	up := func(t int64) {
		if t > last {
			last = t
		}
	}
	n := 0
	for _, x := range h.insts() {
		if x.Stage != si || x.RunSent < 0 {
			continue
		}
		for _, m := range h.Marks {
			if m.Node == x.Node && (m.Kind == "partition" || m.Kind == "kill-remote") {
				up(m.At)
				n++
			}
		}
		if x.DoneSent >= 0 {
			up(x.DoneSent)
		}
		if x.LastEnd > 0 {
			up(x.LastEnd)
		}
		if x.End >= 0 {
			up(x.End)
		}
		up(x.RunSent)
	}
	for _, c := range h.clients() {
		if c.Node == 0 && c.Stage == si {
			up(h.clientEnd(c))
			for _, e := range c.Evs {
				up(endOf(e))
			}
		}
	}
	if n > 0 {
		o.hit("lost-" + phase)
	}
	if end > last+ms(25_000)+slack {
		o.fail("hangs", "the server still waited at %s, but all instances had ended or were lost at %s", sec(end), sec(last))
	}
}

// ---------------------------------------------------------------------------

func netN06(r *R, sc *Scenario) {
	r.net(sc, r.of(1, 1, 1, 2))
	for _, st := range sc.Stages { // long enough for pings
		if r.p(0.7) && st.RuntimeMS == 0 {
			for _, t := range st.Trx {
				t.Stmts = append(t.Stmts, &StmtS{Kind: "set", IdleMS: r.of(50, 100, 300)})
			}
			for _, g := range st.Groups {
				g.Iter = r.in(10, 40)
			}
		}
		if st.RuntimeMS > 0 {
			st.RuntimeMS = r.of(3000, 8000, 15000)
		}
	}
	e := EventS{On: "work", AtMS: r.n(r.of(5, 500, 3000))}
	if r.p(0.25) {
		e.On = ""
	}
	switch r.n(5) {
	case 0:
		e.Kind = "interrupt"
	case 1:
		e.Kind = "kill-server"
	case 2:
		e.Kind, e.Node = "partition", r.in(1, len(sc.Remotes))
	default:
		e.Kind, e.Node, e.ForMS = "partition", r.in(1, len(sc.Remotes)), r.of(100, 1000, 2000, 2200)
		if r.p(0.3) {
			e.Node = 0
		}
		if sc.Sched.StallMax > 3 {
			sc.Sched.StallMax = 3
		}
		if sc.Net.LatUS > 1000 {
			sc.Net.LatUS, sc.Net.LatSpread = 1000, 1000
		}
	}
	sc.Events = append(sc.Events, e)
}

func checkN06(h *Hist, o *Out) {
	if !h.healthy(o, false) {
		return
	}
	slack := h.stallSlack() + ms(300) + 4*int64(h.Sc.Net.LatUS+h.Sc.Net.LatSpread)*1000
	maxIdle := int64(0)
	for _, st := range h.Sc.Stages {
		for _, t := range st.Trx {
			n := int64(0)
			for _, s := range t.Stmts {
				n += ms(s.IdleMS)
			}
			if n > maxIdle {
				maxIdle = n
			}
		}
	}
	short := false
	for _, m := range h.Marks {
		for _, x := range h.insts() {
			if x.Start > m.At || x.End >= 0 && x.End < m.At || x.Stage < 0 {
				continue
			}
			if m.Kind == "partition" && m.Node > 0 && m.Node != x.Node {
				continue
			}
			o.evals++
			ranThen := x.RunAt >= 0 && x.RunAt <= m.At && (x.DoneSent < 0 || x.DoneSent > m.At)
			var bound, endBound int64
			switch {
			case m.Kind == "interrupt" && m.Node == 0:
				bound = ms(1000)
				endBound = ms(9000)
			case m.Kind == "kill-server":
				bound = ms(4000)
				endBound = ms(12_000)
			case m.Kind == "partition" && m.For == 0:
				bound = ms(4500)
				endBound = ms(15_000)
				if !ranThen {
					endBound = ms(210_000)
				}
			case m.Kind == "partition" && m.For <= ms(2200):
				short = true
				if ranThen {
					o.hit("back-in-time")
				}
				continue
			default:
				continue
			}
			if ranThen {
				o.hit("stop-by-" + m.Kind)
			} else {
				o.hit("waiting-" + m.Kind)
				bound += endBound
			}
			if x.LastT0 > m.At+bound+slack {
				o.fail("runs-on", "instance %s executed a statement at %s, %s s after %s", x.name(h), sec(x.LastT0), sec(x.LastT0-m.At), m.Kind)
				return
			}
			e := x.End
			if e < 0 {
				e = h.End
			}
			if x.BootAt <= m.At && e > m.At+endBound+slack+maxIdle {
				o.fail("no-exit", "instance %s did not end within %s s after %s", x.name(h), sec(e-m.At), m.Kind)
				return
			}
		}
	}
	if short && len(h.Marks) == 1 {
		for _, x := range h.insts() {
			if x.Stage < 0 || x.RunAt < 0 {
				continue
			}
			if x.StopAt >= 0 || x.How != "" && (x.How != "return" || x.Code != 0) {
				o.fail("gave-up", "instance %s stopped (%s %d) although the server was away for %d ms only", x.name(h), x.How, x.Code, h.Marks[0].For/1e6)
				return
			}
			st := h.Sc.Stages[x.Stage]
			for _, c := range x.Clients {
				if c.Grp == nil {
					return
				}
				steps, _, bad := h.walk(c)
				if bad != "" {
					return
				}
				ls, _ := h.legitStop(c)
				if it := iterations(steps); c.Grp.Iter > 0 && it < c.Grp.Iter && !ls && st.RuntimeMS == 0 {
					o.fail("gave-up", "a client of instance %s started only %d iterations of stage %s, iter is %d; the server was away for %d ms only", x.name(h), it, st.Name, c.Grp.Iter, h.Marks[0].For/1e6)
					return
				}
			}
			if st.RuntimeMS > 0 && x.LastT0 >= 0 && x.LastT0 < x.RunAt+ms(st.RuntimeMS)-ms(800)-maxIdle-h.stallSlack() && !h.anyErrors() {
				o.fail("gave-up", "instance %s executed stage %s only until %s, it started at %s and the runtime is %d ms; the server was away for %d ms only", x.name(h), st.Name, sec(x.LastT0), sec(x.RunAt), st.RuntimeMS, h.Marks[0].For/1e6)
				return
			}
		}
	}
}

// ---------------------------------------------------------------------------

func netN07(r *R, sc *Scenario) {
	if r.p(0.3) { // local only
		for i := r.in(1, 3); i > 0; i-- {
			o := runOpt
			o.ddl = r.p(0.2)
			sc.Stages = append(sc.Stages, r.workStage(sc, len(sc.Stages), o))
		}
		r.mysql(sc, 0)
	} else {
		r.net(sc, r.of(1, 1, 2, 3))
		if r.p(0.3) {
			r.loss(sc)
		}
	}
	sc.Test = true
	switch {
	case r.p(0.2) && !sc.Server:
		t := sc.Stages[r.n(len(sc.Stages))].Trx
		t[r.n(len(t))].Broken = r.in(1, 3)
	case r.p(0.2):
		sc.MySQL.BadNodes = []int{0}
	case r.p(0.3) && sc.Server:
		for i := range sc.Remotes {
			if r.p(0.6) {
				sc.MySQL.BadNodes = append(sc.MySQL.BadNodes, i+1)
			}
			sc.Remotes[i].Again = 40
		}
		sc.MySQL.BadUntil = r.in(500, 5000)
	}
}

func checkN07(h *Hist, o *Out) {
	if !h.healthy(o, true) {
		return
	}
	for _, e := range h.Stmts {
		if e.Kind == "work" && !e.NotSent {
			o.fail("executed", "%q was executed in test mode", e.Text)
			return
		}
	}
	srv := h.exitOf(0)
	o.evals++
	if srv == nil {
		return
	}
	bad := false
	for _, b := range h.Sc.MySQL.BadNodes {
		if b == 0 && h.Sc.MySQL.BadUntil == 0 {
			bad = true
		}
	}
	local := false
	for _, st := range h.Sc.Stages {
		if !st.DisableLocal {
			local = true
		}
	}
	ok := srv.Code == 0 && srv.How != "fatal" && srv.How != "panic"
	if bad && local {
		o.hit("server-cannot-boot")
		if ok {
			o.fail("passed", "a stage cannot boot on the server, but it ended with %s %d", srv.How, srv.Code)
			return
		}
		return
	}
	for _, st := range h.Sc.Stages {
		for _, t := range st.Trx {
			if t.Broken > 0 {
				o.hit("broken-trx")
				if ok {
					o.fail("passed", "trx file %s of stage %s cannot be used (%d), but the test ended with %s %d", t.Name, st.Name, t.Broken, srv.How, srv.Code)
				}
				return
			}
		}
	}
	if !ok && !bad {
		o.fail("failed", "every stage can boot, but the server ended with %s %d %.200s", srv.How, srv.Code, srv.Msg)
		return
	}
	if !h.Sc.Server {
		o.hit("local")
		// every stage was booted: each tested its connection
		n := 0
		for _, c := range h.Conns {
			if c.OK {
				n++
			}
		}
		if n < len(h.Sc.Stages) {
			o.fail("not-booted", "the test of %d stages connected %d times to MySQL", len(h.Sc.Stages), n)
		}
		return
	}
	for si, st := range h.Sc.Stages {
		n := map[int]bool{}
		lastAck := int64(-1)
		for _, x := range h.insts() {
			if x.Stage == si && x.AckH > lastAck {
				lastAck = x.AckH
			}
		}
		for _, x := range h.insts() {
			if x.Stage != si {
				continue
			}
			if x.AckH >= 0 {
				n[x.Node] = true
				o.hit("booted")
			}
			if x.FailSent >= 0 {
				o.hit("boot-failed")
			}
			if end := x.End; x.AckH >= 0 && !h.Sc.Net.lossy() && lastAck >= 0 {
				if end < 0 {
					end = h.End
				}
				bound := ms(5000)
				n := 0
				for _, r := range h.Reqs {
					if r.From.Idx == x.Node && r.Gen == x.Gen && r.Method+r.Path == "GET/run" && r.Start < lastAck+ms(1000) {
						n++
					}
				}
				if n > 1 { // maybe told while it was not listening
					bound = ms(20_000)
				}
				if end > lastAck+bound+h.stallSlack() {
					o.fail("not-told", "instance %s booted stage %s at %s, but did not end until %s; all instances had booted at %s", x.name(h), st.Name, sec(x.AckH), sec(end), sec(lastAck))
					return
				}
			}
			if x.AckH >= 0 && x.How == "return" && x.ResetAt < 0 && x.RunAt >= 0 {
				o.fail("told-to-run", "instance %s was told to run stage %s in test mode", x.name(h), st.Name)
				return
			}
		}
		if len(n) < st.remotesOf() && !bad {
			o.fail("not-booted", "the test of stage %s ended with %d of %d remote instances booted", st.Name, len(n), st.remotesOf())
			return
		}
	}
}
