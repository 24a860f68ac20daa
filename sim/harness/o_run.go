package main

import (
	"fmt"
	"sort"
)

// Execution groups, DDL, runtime limits and interrupts: W01, W02, R01, R02.

func init() {
	rules["W01"] = "an execution group that ran after or beside other client groups"
	rules["W02"] = "a client group with a DDL trx that was executed"
	rules["R01"] = "a runtime limit that ended clients, by what they were doing then"
	rules["R02"] = "an interrupt, by what the program was doing then"
	profiles["W01"] = groupsProfile
	oracles["W01"] = checkW01
	profiles["W02"] = ddlProfile
	oracles["W02"] = checkW02
	profiles["R01"] = runtimeProfile
	oracles["R01"] = checkR01
	profiles["R02"] = interruptProfile
	oracles["R02"] = checkR02
}

var runOpt = topt{maxTrx: 3, maxStmts: 4, begin: 0.4, prepare: 0.2, idle: 0.1, copies: 0.05, csv: 0.1, data: 0.2, gens: []string{"auto-inc", "int"}, nrows: 3}

// quiet makes a run without faults and stalls, so that progress can be judged.
func (r *R) quiet(sc *Scenario) {
	sc.Sched.StallP, sc.Sched.StallMax = 0, 0
	r.mysql(sc, 0)
}

func groupsProfile(r *R, sc *Scenario) {
	ns := r.of(1, 1, 2, 3)
	for i := 0; i < ns; i++ {
		o := runOpt
		o.ddl = r.p(0.2)
		st := &StageS{Name: fmt.Sprintf("st%d", i+1), FreqMS: r.of(0, 0, 50, 1000), StatsOff: r.p(0.1)}
		st.Trx = r.trxs(o, i)
		mode := r.n(3) // all named, all automatic, mixed
		explicit := r.p(0.7)
		names_ := []string{"a", "b", "c", "d", "e", "f"}
		cur := names_[0]
		for j := r.in(1, 5); j > 0; j-- {
			g := &GroupS{Clients: r.of(1, 2, 3, 4, 6)}
			switch r.n(5) {
			case 0:
				g.IterClients = r.in(1, 10)
			case 1:
				g.IterExecGroup = r.in(1, 10)
			default:
				g.Iter = r.in(1, 5)
			}
			if r.p(0.5) && len(st.Groups) > 0 && len(names_) > 1 { // names must be contiguous
				names_ = names_[1:]
				cur = names_[0]
			}
			if mode == 0 || mode == 2 && r.p(0.5) {
				g.Group = cur
			} else if mode == 2 && len(st.Groups) > 0 && st.Groups[len(st.Groups)-1].Group != "" && len(names_) > 1 {
				names_ = names_[1:]
				cur = names_[0]
			}
			if explicit {
				g.Trx = r.subset(names(st.Trx), 1)
				if r.p(0.1) {
					g.Trx = append(g.Trx, g.Trx[0])
				}
			}
			if r.p(0.1) {
				g.Db = r.str("db1", "db2")
			}
			g.NoStats = r.p(0.1)
			st.Groups = append(st.Groups, g)
		}
		sc.Stages = append(sc.Stages, st)
	}
	if r.p(0.5) {
		r.quiet(sc)
	} else {
		r.mysql(sc, r.f(0.3, 1))
		if r.p(0.2) {
			sc.Events = append(sc.Events, EventS{Kind: r.str("mysql-down", "mysql-hang", "break-conns", "read-only"), On: "work", AtMS: r.n(60), ForMS: r.in(100, 2000)})
		}
	}
	if r.p(0.2) {
		st := sc.Stages[r.n(ns)]
		st.RuntimeMS = r.in(20, 500)
	}
	if r.p(0.1) {
		sc.Stages[0].Groups[0].RuntimeMS = r.in(10, 200)
	}
	if r.p(0.06) {
		r.long(sc)
	}
}

// slower keeps long runs small.
func slower(sc *Scenario) {
	if sc.MySQL.LatUS < 500 {
		sc.MySQL.LatUS, sc.MySQL.LatSpread = 500, 1000
	}
}

// grun is what an execution group did on an instance.
type grun struct {
	node, gen, stage, eg int
	first                int64 // first sign of life
	firstBy              map[int]int64
	gs                   map[int]map[int]bool // client group -> goroutines
	stmts                []*StmtEv
	last                 int64 // end of the last statement
	open                 bool  // a statement never returned
}

func (h *Hist) gruns() []*grun {
	type k struct{ node, gen, stage, eg int }
	m := map[k]*grun{}
	var out []*grun
	get := func(l *Label, node int) *grun {
		si := -1
		for i, st := range h.Sc.Stages {
			if st.Name == l.StageName {
				si = i
			}
		}
		kk := k{node, l.Gen, si, int(l.EG)}
		g := m[kk]
		if g == nil {
			g = &grun{node: node, gen: l.Gen, stage: si, eg: int(l.EG), first: -1, gs: map[int]map[int]bool{}, firstBy: map[int]int64{}}
			m[kk] = g
			out = append(out, g)
		}
		return g
	}
	see := func(g *grun, cg int, t int64, id int) {
		if g.first < 0 || t < g.first {
			g.first = t
		}
		if f, ok := g.firstBy[cg]; !ok || t < f {
			g.firstBy[cg] = t
		}
		if g.gs[cg] == nil {
			g.gs[cg] = map[int]bool{}
		}
		g.gs[cg][id] = true
	}
	for _, e := range h.Conns {
		if e.Label != nil && e.Label.Stage > 0 {
			see(get(e.Label, e.Node), int(e.Label.CG), e.T0, e.G.Seq)
		}
	}
	for _, e := range h.Stmts {
		if e.Label == nil || e.Label.Stage == 0 {
			continue
		}
		g := get(e.Label, e.Node)
		see(g, int(e.Label.CG), e.T0, e.G.Seq)
		if e.NotSent {
			continue
		}
		g.stmts = append(g.stmts, e)
		if t := endOf(e); t < 0 {
			g.open = true
		} else if t > g.last {
			g.last = t
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].first < out[j].first })
	return out
}

// fatal: the program gave up, for example because MySQL cannot be reached.
func (h *Hist) fatal() bool {
	for _, x := range h.Exits {
		if x.How == "fatal" {
			return true
		}
	}
	return false
}

// interrupted is when the first interrupt was, or -1.
func (h *Hist) interrupted() int64 {
	for _, m := range h.Marks {
		if m.Kind == "interrupt" {
			return m.At
		}
	}
	return -1
}

func checkW01(h *Hist, o *Out) {
	if !h.healthy(o, true) {
		return
	}
	for _, c := range h.clients() {
		if _, _, bad := h.walk(c); bad != "" {
			o.fail("wrong-trx", "client g%d of client group %d/%d of stage %s sent %s", c.G.Seq, c.Label.EG, c.Label.CG, c.Label.StageName, bad)
			return
		}
	}
	runs := h.gruns()
	quiet := len(h.Faults) == 0 && h.Stat.StallsN == 0
	for i, g := range runs {
		o.evals += len(g.stmts)
		if g.stage < 0 {
			o.fail("groups", "a client of an unknown stage connected")
			return
		}
		egs := h.groups(g.stage)
		if g.eg < 1 || g.eg > len(egs) {
			o.fail("groups", "execution group %d was run, stage %s has only %d", g.eg, h.Sc.Stages[g.stage].Name, len(egs))
			return
		}
		eg := egs[g.eg-1]
		st := h.Sc.Stages[g.stage]
		if i > 0 {
			p := runs[i-1]
			if p.stage > g.stage || p.stage == g.stage && p.eg >= g.eg {
				o.fail("group-order", "execution group %d of stage %d was started after execution group %d of stage %d", g.eg, g.stage+1, p.eg, p.stage+1)
				return
			}
			o.hit("in-order")
			if p.stage == g.stage && p.eg != g.eg-1 && st.RuntimeMS == 0 && h.interrupted() < 0 {
				o.fail("group-skipped", "execution group %d was started after execution group %d of the same stage", g.eg, p.eg)
				return
			}
			if h.Sc.Stages[p.stage].RuntimeMS == 0 {
				for _, q := range runs[:i] {
					if q.open || q.last > g.first {
						o.fail("overlap", "execution group %d (%s) was started at %s while clients of execution group %d (%s) were still executing (until %s)", g.eg, eg[0].Name, sec(g.first), q.eg, h.Sc.Stages[q.stage].Name, sec(q.last))
						return
					}
				}
				if quiet && p.stage == g.stage {
					// idle time at the end of an iteration
					idle := int64(0)
					for _, pg := range egs[p.eg-1] {
						t := int64(0)
						for _, x := range h.Sc.expand(g.stage, pg.TrxL) {
							t += ms(x.S.IdleMS)
						}
						if t > idle {
							idle = t
						}
					}
					if g.first-p.last > idle+ms(500) {
						o.fail("late", "execution group %d was started %s s after the last statement of execution group %d", g.eg, sec(g.first-p.last), p.eg)
					}
				}
			}
		}
		limited := st.RuntimeMS > 0 || h.interrupted() >= 0
		for _, cg := range eg {
			n := len(g.gs[cg.CG])
			if n > cg.Clients {
				o.fail("clients", "client group %d/%d ran %d clients, %d are configured", g.eg, cg.CG, n, cg.Clients)
				return
			}
			if n < cg.Clients && !limited && cg.RuntimeMS == 0 {
				o.fail("clients", "client group %d/%d of stage %s ran %d clients, %d are configured", g.eg, cg.CG, st.Name, n, cg.Clients)
				return
			}
			if quiet && n > 0 {
				if d := g.firstBy[cg.CG] - g.first; d > ms(50) {
					o.fail("serial", "client group %d/%d was started %s s after the others of its execution group", g.eg, cg.CG, sec(d))
				}
			}
			if len(eg) > 1 {
				o.hit("parallel-groups")
			}
		}
		for cg := range g.gs {
			if cg < 1 || cg > len(eg) {
				o.fail("groups", "client group %d/%d was run, execution group %d has only %d", g.eg, cg, g.eg, len(eg))
				return
			}
		}
	}
	// all were run
	limited := h.interrupted() >= 0 || h.fatal()
	for _, st := range h.Sc.Stages {
		if st.RuntimeMS > 0 {
			limited = true
		}
	}
	if !limited {
		want := 0
		for si := range h.Sc.Stages {
			want += len(h.groups(si))
		}
		if len(runs) != want {
			o.fail("groups", "%d execution groups were run, %d are configured", len(runs), want)
		}
	}
	// and every client of every group really executed its trx
	ran := map[[4]int]int{}
	for _, c := range h.clients() {
		if c.Grp != nil {
			ran[[4]int{c.Node, c.Stage, c.Grp.EG, c.Grp.CG}]++
		}
	}
	if quiet && !limited {
		for si := range h.Sc.Stages {
			for _, eg := range h.groups(si) {
				for _, cg := range eg {
					if cg.Iter > 0 && cg.IterClients == 0 && cg.IterExecGroup == 0 && cg.RuntimeMS == 0 {
						if n := ran[[4]int{0, si, cg.EG, cg.CG}]; n != cg.Clients {
							o.fail("clients", "%d of the %d clients of client group %d/%d executed anything", n, cg.Clients, cg.EG, cg.CG)
						}
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------

var ddlVerbs = []string{"CREATE", "ALTER", "DROP", "RENAME", "TRUNCATE", "create", "Alter", "drop", "truncate"}

func ddlProfile(r *R, sc *Scenario) {
	st := &StageS{Name: "st1", FreqMS: r.of(0, 0, 50)}
	auto := r.p(0.7)
	n := r.in(1, 5)
	limit := r.p(0.6) // end by row limits, else by runtime
	for i := 0; i < n; i++ {
		t := &TrxS{Name: fmt.Sprintf("t%d.sql", i), Dir: "trx"}
		t.File = t.Name
		if r.p(0.5) {
			at := 0
			k := r.in(1, 3)
			for j := 0; j < k; j++ {
				t.Stmts = append(t.Stmts, &StmtS{Kind: r.str("update", "select", "set"), Cols: []string{"c"}})
			}
			at = r.n(k + 1)
			d := &StmtS{Kind: "ddl", Verb: ddlVerbs[r.n(len(ddlVerbs))]}
			t.Stmts = append(t.Stmts[:at], append([]*StmtS{d}, t.Stmts[at:]...)...)
			if r.p(0.3) {
				t.Stmts = append(t.Stmts, &StmtS{Kind: "ddl", Verb: ddlVerbs[r.n(len(ddlVerbs))]})
			}
			if r.p(0.2) {
				t.Stmts = []*StmtS{d}
			}
		} else {
			for j := r.in(0, 2); j > 0; j-- {
				t.Stmts = append(t.Stmts, &StmtS{Kind: r.str("update", "select", "set"), Cols: []string{"c"}})
			}
			s := &StmtS{Kind: "insert", Affected: 1}
			if limit {
				s.Rows = r.in(1, 12)
				s.Table = fmt.Sprintf("tab%d", i)
			}
			t.Stmts = append(t.Stmts, s)
		}
		if r.p(0.1) {
			t.Stmts = append(t.Stmts, &StmtS{Kind: "set", IdleMS: r.of(1, 5, 20)})
		}
		st.Trx = append(st.Trx, t)
	}
	if !limit {
		st.RuntimeMS = r.in(50, 400)
	}
	if !auto {
		for j := r.in(1, 4); j > 0; j-- {
			g := &GroupS{Clients: r.in(1, 3), Trx: r.subset(names(st.Trx), 1)}
			if !sc.hasDDLStage(st, g.Trx) {
				if !limit || r.p(0.5) {
					g.Iter = r.in(1, 5)
				}
			} else if r.p(0.15) {
				g.Iter = r.in(1, 3)
			}
			if r.p(0.2) {
				g.Group = fmt.Sprintf("x%d", j)
			}
			st.Groups = append(st.Groups, g)
		}
		st.RuntimeMS = 0
		for _, g := range st.Groups {
			if g.Iter == 0 && !sc.hasDDLStage(st, g.Trx) && !limit {
				g.Iter = 2
			}
		}
	}
	sc.Stages = []*StageS{st}
	if r.p(0.4) {
		r.quiet(sc)
	} else {
		r.mysql(sc, r.f(0.3, 1))
	}
}

func (sc *Scenario) hasDDLStage(st *StageS, trx []string) bool {
	for _, n := range trx {
		for _, t := range st.Trx {
			if t.Name == n {
				for _, s := range t.Stmts {
					if s.Kind == "ddl" {
						return true
					}
				}
			}
		}
	}
	return false
}

func checkW02(h *Hist, o *Out) {
	if !h.healthy(o, true) {
		return
	}
	st := h.Sc.Stages[0]
	auto := len(st.Groups) == 0
	by := map[[2]int][]*Client{}
	for _, c := range h.clients() {
		steps, _, bad := h.walk(c)
		if bad != "" {
			o.fail("wrong-trx", "client g%d of client group %d/%d sent %s", c.G.Seq, c.Label.EG, c.Label.CG, bad)
			return
		}
		by[[2]int{c.Grp.EG, c.Grp.CG}] = append(by[[2]int{c.Grp.EG, c.Grp.CG}], c)
		o.evals += len(steps)
		if !c.Grp.DDL {
			continue
		}
		o.hit("ddl")
		it := iterations(steps)
		if st.Groups == nil || st.Groups[c.Grp.Idx].Iter == 0 {
			if it > 1 {
				o.fail("ddl-repeated", "client g%d of client group %d/%d executed the DDL trx %v %d times, no iteration limit is configured", c.G.Seq, c.Grp.EG, c.Grp.CG, c.Grp.TrxL, it)
				return
			}
		}
		if auto {
			l := steps[len(steps)-1]
			exp := h.Sc.expand(0, c.Grp.TrxL)
			lp := len(exp) - 1
			for exp[lp].Idle {
				lp--
			}
			if !failed(l.Ev) && l.Pos != lp && !h.cutShort(c) {
				o.fail("ddl-incomplete", "client g%d stopped the DDL trx %v after statement %q", c.G.Seq, c.Grp.TrxL, l.Ev.Text)
			}
		}
	}
	if !auto {
		// exactly once by each client
		return
	}
	runs := h.gruns()
	for i, g := range runs {
		egs := h.groups(0)
		if g.eg < 1 || g.eg > len(egs) || len(g.gs) != 1 {
			o.fail("groups", "execution group %d with %d client groups was run, not expected", g.eg, len(g.gs))
			return
		}
		cg := egs[g.eg-1][0]
		if n := len(g.gs[1]); n != 1 {
			o.fail("ddl-clients", "%v was run by %d clients", cg.TrxL, n)
			return
		}
		if i > 0 {
			o.hit("sequence")
			p := runs[i-1]
			if st.RuntimeMS == 0 && (p.eg != g.eg-1 || p.open || p.last > g.first) {
				o.fail("ddl-order", "%v was started at %s, after or beside %v (until %s)", cg.TrxL, sec(g.first), egs[p.eg-1][0].TrxL, sec(p.last))
				return
			}
			if p.eg >= g.eg {
				o.fail("ddl-order", "%v was started after %v", cg.TrxL, egs[p.eg-1][0].TrxL)
				return
			}
		}
	}
	if st.RuntimeMS == 0 && len(runs) != len(h.groups(0)) {
		o.fail("groups", "%d groups of trx were run, expected %d", len(runs), len(h.groups(0)))
	}
}

// ---------------------------------------------------------------------------

// busyTrx makes trx that keep clients busy in different ways.
func (r *R) busyTrx(stage int, kinds ...string) []*TrxS {
	var out []*TrxS
	for i := r.in(1, 2); i > 0; i-- {
		t := &TrxS{Name: fmt.Sprintf("t%c%d.sql", 'a'+stage, i), Dir: "trx"}
		t.File = t.Name
		if r.p(0.4) {
			t.Stmts = append(t.Stmts, &StmtS{Kind: "begin"})
		}
		for k := r.in(1, 3); k > 0; k-- {
			s := &StmtS{Kind: r.str("select", "update", "insert", "set"), Prepare: r.p(0.2)}
			if s.Kind == "select" {
				s.Cols = []string{"c"}
				s.NRows = r.n(4)
			}
			t.Stmts = append(t.Stmts, s)
			switch kinds[r.n(len(kinds))] {
			case "idle":
				t.Stmts = append(t.Stmts, &StmtS{Kind: "set", IdleMS: r.of(1, 20, 70, 1000, 5000, 20000)})
			case "slow":
				s.SlowMS = r.of(20, 200, 1000, 5000, 30000)
			}
		}
		if t.Stmts[0].Kind == "begin" {
			t.Stmts = append(t.Stmts, &StmtS{Kind: "commit"})
		}
		out = append(out, t)
	}
	return out
}

// slowLimit adds a size limit whose own queries take long, longer than finch
// waits for clients that do not stop.
func (r *R) slowLimit(sc *Scenario) {
	if !r.p(0.2) {
		return
	}
	st := sc.Stages[r.n(len(sc.Stages))]
	t := st.Trx[r.n(len(st.Trx))]
	s := &StmtS{Kind: "insert", Table: "big", TableSize: 1 << 30}
	at := len(t.Stmts)
	if t.Stmts[at-1].Kind == "commit" {
		at--
	}
	t.Stmts = append(t.Stmts[:at], append([]*StmtS{s}, t.Stmts[at:]...)...)
	sc.MySQL.AuxMS = r.of(0, 300, 2000, 2000, 4000, 30000)
}

// inAux is when the query of a size limit that was running at t ended: finch
// does not interrupt these, they have their own time limit. All clients that
// share the limit wait for it. A client that was delayed may begin it up to
// slack later.
func (h *Hist) inAux(t, slack int64) int64 {
	if h.Sc.MySQL.AuxMS == 0 {
		return t
	}
	end := t
	for _, e := range h.Stmts {
		if (e.Kind == "analyze" || e.Kind == "size") && e.T0 <= t+ms(1)+slack {
			if x := endOf(e); x < 0 {
				return 1 << 62
			} else if x > end {
				end = x
			}
		}
	}
	return end
}

func runtimeProfile(r *R, sc *Scenario) {
	ns := r.of(1, 1, 1, 2)
	for i := 0; i < ns; i++ {
		st := &StageS{Name: fmt.Sprintf("st%d", i+1), FreqMS: r.of(0, 0, 100, 1000), StatsOff: r.p(0.1)}
		st.Trx = r.busyTrx(i, "idle", "slow", "", "", "", "")
		stageRT := r.p(0.75)
		if stageRT {
			st.RuntimeMS = r.of(50, 200, 500, 1000, 2500, 5000) + r.n(50)
		}
		if r.p(0.2) {
			st.QPS = r.of(1, 5, 50)
		}
		eg := 1
		for j := r.in(1, 4); j > 0; j-- {
			g := &GroupS{Clients: r.of(1, 2, 3, 5)}
			if len(st.Groups) > 0 && r.p(0.3) {
				eg++
			}
			g.Group = fmt.Sprintf("g%d", eg)
			if !stageRT || r.p(0.4) {
				g.RuntimeMS = r.of(20, 100, 300, 1000, 3000) + r.n(50)
			}
			if r.p(0.15) {
				g.Iter = r.in(1, 6)
			}
			switch r.n(8) {
			case 0:
				g.QPS = r.of(1, 5, 20, 200)
			case 1:
				g.TPSC = r.of(1, 5, 20)
			case 2:
				g.QPSC = r.of(1, 5, 20)
			case 3:
				g.QPSE = r.of(1, 5, 20)
			}
			st.Groups = append(st.Groups, g)
		}
		sc.Stages = append(sc.Stages, st)
	}
	if r.p(0.5) {
		r.quiet(sc)
	} else {
		r.mysql(sc, r.f(0, 0.5, 1))
	}
	slower(sc)
	r.slowLimit(sc)
	if r.p(0.4) {
		sc.Events = append(sc.Events, EventS{Kind: r.str("mysql-down", "mysql-hang", "mysql-hang", "break-conns"), On: "work", AtMS: r.n(2000), ForMS: r.of(100, 1000, 10000, 30000)})
	}
}

// stallSlack is what the delays the simulator injected can add.
func (h *Hist) stallSlack() int64 {
	if h.Stat.StallsN == 0 {
		return 0
	}
	return ms(700)
}

func checkR01(h *Hist, o *Out) {
	if !h.healthy(o, true) {
		return
	}
	slack := ms(20) + h.stallSlack()
	runs := h.gruns()
	stageEnd := map[int]int64{}
	stageStart := map[int]int64{}
	for _, g := range runs {
		if g.stage < 0 {
			continue
		}
		if s, ok := stageStart[g.stage]; !ok || g.first < s {
			stageStart[g.stage] = g.first
		}
	}
	for si, st := range h.Sc.Stages {
		if st.RuntimeMS == 0 {
			continue
		}
		if s, ok := stageStart[si]; ok {
			stageEnd[si] = s + ms(st.RuntimeMS)
		}
	}
	egStart := map[[2]int]int64{}
	for _, g := range runs {
		egStart[[2]int{g.stage, g.eg}] = g.first
	}
	lastDeadline := int64(-1)
	for _, c := range h.clients() {
		if c.Grp == nil {
			continue
		}
		dl, why := int64(-1), ""
		if d, ok := stageEnd[c.Stage]; ok {
			dl, why = d, "stage"
		}
		if c.Grp.RuntimeMS > 0 {
			d := egStart[[2]int{c.Stage, c.Grp.EG}] + ms(c.Grp.RuntimeMS)
			if dl < 0 || d < dl {
				dl, why = d, "client group"
			}
		}
		if dl < 0 {
			continue
		}
		if dl > lastDeadline {
			lastDeadline = dl
		}
		var last *StmtEv
		for _, e := range c.Evs {
			if e.Kind == "work" {
				o.evals++
				last = e
				if e.T0 > dl+slack && !e.NotSent {
					o.fail("past-runtime", "client g%d of client group %d/%d sent %q at %s, %s s after the runtime of the %s had elapsed", c.G.Seq, c.Grp.EG, c.Grp.CG, e.Text, sec(e.T0), sec(e.T0-dl), why)
					return
				}
				if t := endOf(e); !e.NotSent && (t < 0 || t > dl+slack) {
					// A statement that was running must be stopped
					if t < 0 && e.T0 < dl {
						o.fail("statement-not-stopped", "statement %q of client g%d, started at %s, was still running when the program ended although the runtime of the %s elapsed at %s", e.Text, c.G.Seq, sec(e.T0), why, sec(dl))
						return
					}
					o.fail("statement-not-stopped", "statement %q of client g%d was running until %s, %s s after the runtime of the %s had elapsed", e.Text, c.G.Seq, sec(t), sec(t-dl), why)
					return
				}
			}
		}
		end := h.clientEnd(c)
		aux := h.inAux(dl, slack)
		if aux > dl {
			o.hit(why + "-limit-query")
		}
		if t := c.sessEnd(); t > dl+slack+ms(100) && aux == dl {
			o.fail("client-runs-on", "client g%d of client group %d/%d kept its connection until %s s after the runtime of the %s had elapsed", c.G.Seq, c.Grp.EG, c.Grp.CG, sec(t-dl), why)
			return
		}
		// what it was doing
		if end >= dl-ms(1) {
			switch {
			case last.Ctx:
				o.hit(why + "-executing")
			case len(c.Conns) > 0 && !c.Conns[len(c.Conns)-1].OK:
				o.hit(why + "-connecting")
			default:
				o.hit(why + "-waiting")
			}
		}
		// early
		if end >= 0 && end < dl-slack && c.Grp.Iter == 0 {
			if ls, _ := h.legitStop(c); !ls {
				o.fail("early", "client g%d of client group %d/%d ended at %s, %s s before the runtime of the %s elapsed, though it has no other limit", c.G.Seq, c.Grp.EG, c.Grp.CG, sec(end), sec(dl-end), why)
				return
			}
		}
		// Still working until the end: its next statement was not due after
		// the last one. Only judged for clients that nothing else held up.
		g := c.Grp
		st := h.Sc.Stages[c.Stage]
		if len(h.Faults) == 0 && h.Stat.StallsN == 0 && g.Iter == 0 && g.QPS+g.QPSC+g.QPSE+g.TPSC+st.QPS == 0 && !egLimited(h.groups(c.Stage)[g.EG-1]) {
			hold := ms(50)
			for _, x := range h.Sc.expand(c.Stage, g.TrxL) {
				hold += ms(x.S.IdleMS + x.S.SlowMS)
				if x.S.TableSize > 0 {
					hold += 2 * ms(h.Sc.MySQL.AuxMS) // for each client that shares the limit
				}
			}
			if hold > ms(300) && h.Sc.MySQL.AuxMS > 0 {
				continue
			}
			if t := endOf(last); t < dl-hold {
				o.fail("early", "client g%d of client group %d/%d executed nothing after %s, the runtime of the %s elapsed at %s", c.G.Seq, g.EG, g.CG, sec(t), why, sec(dl))
				return
			}
			o.hit("until-the-end")
		}
	}
	// the program ends
	all := len(h.Sc.Stages) > 0
	for si, st := range h.Sc.Stages {
		if st.RuntimeMS == 0 {
			all = false
		}
		_ = si
	}
	if all && len(h.Exits) > 0 {
		si := len(h.Sc.Stages) - 1
		if d, ok := stageEnd[si]; ok {
			x := h.Exits[0]
			if x.At > d+ms(1500)+int64(h.Stat.StallNS) {
				o.fail("late-end", "the program ended %s s after the runtime of the stage had elapsed", sec(x.At-d))
			}
		}
	}
	for si := 1; si < len(h.Sc.Stages); si++ {
		if d, ok := stageEnd[si-1]; ok {
			if s, ok := stageStart[si]; ok && s > d+ms(1500)+int64(h.Stat.StallNS) && len(h.Faults) == 0 {
				o.fail("late-end", "the next stage was started %s s after the runtime of stage %d had elapsed", sec(s-d), si)
			}
		}
	}
}

// sessEnd is when the last session of a client was closed.
func (c *Client) sessEnd() int64 {
	t := int64(-1)
	for _, cn := range c.Conns {
		if cn.Sess == nil {
			continue
		}
		if cn.Sess.Closed < 0 {
			return 1 << 62
		}
		if cn.Sess.Closed > t {
			t = cn.Sess.Closed
		}
	}
	return t
}

func egLimited(eg []*grp) bool {
	return eg[0].QPSE > 0 || eg[0].TPSE > 0
}

// ---------------------------------------------------------------------------

func interruptProfile(r *R, sc *Scenario) {
	ns := r.of(1, 1, 2)
	for i := 0; i < ns; i++ {
		st := &StageS{Name: fmt.Sprintf("st%d", i+1), FreqMS: r.of(0, 0, 100, 500, 1000, 5000), StatsOff: r.p(0.1)}
		st.Trx = r.busyTrx(i, "idle", "slow", "", "", "")
		eg := 1
		for j := r.in(1, 4); j > 0; j-- {
			g := &GroupS{Clients: r.of(1, 2, 3, 5)}
			if len(st.Groups) > 0 && r.p(0.4) {
				eg++
			}
			g.Group = fmt.Sprintf("g%d", eg)
			if r.p(0.4) {
				g.Iter = r.in(1, 30)
			}
			if r.p(0.2) {
				g.RuntimeMS = r.in(20, 1000)
			}
			switch r.n(8) {
			case 0:
				g.QPS = r.of(1, 5, 20, 200)
			case 1:
				g.TPSC = r.of(1, 5, 20)
			case 2:
				g.QPSE = r.of(1, 5, 20)
			}
			st.Groups = append(st.Groups, g)
		}
		if r.p(0.2) {
			st.RuntimeMS = r.in(100, 3000)
		}
		sc.Stages = append(sc.Stages, st)
	}
	r.mysql(sc, r.f(0, 0.5, 1))
	r.slowLimit(sc)
	e := EventS{Kind: "interrupt", On: "work", AtMS: r.in(0, r.of(10, 100, 1000, 3000))}
	if r.p(0.1) {
		e.On, e.AtMS = "", r.n(20)
	}
	sc.Events = append(sc.Events, e)
	if r.p(0.35) {
		sc.Events = append(sc.Events, EventS{Kind: r.str("mysql-down", "mysql-hang", "mysql-hang", "break-conns"), On: "work", AtMS: r.n(e.AtMS + 100), ForMS: r.of(100, 1000, 30000)})
	}
	if r.p(0.1) { // impatient
		sc.Events = append(sc.Events, EventS{Kind: "interrupt", On: e.On, AtMS: e.AtMS + r.n(1000)})
	}
}

func checkR02(h *Hist, o *Out) {
	at := h.interrupted()
	if !h.healthy(o, at >= 0) {
		return
	}
	if at < 0 {
		return
	}
	slack := ms(100) + h.stallSlack()
	working := false
	started := map[[2]int]bool{}
	busy := ""
	for _, g := range h.gruns() {
		if g.first > at+slack {
			o.fail("started", "execution group %d of stage %d was started %s s after the interrupt", g.eg, g.stage+1, sec(g.first-at))
			return
		}
		started[[2]int{g.stage, g.eg}] = true
		for _, e := range g.stmts {
			o.evals++
			if e.T0 <= at && (endOf(e) < 0 || endOf(e) >= at) {
				busy = "executing"
			}
			if e.Kind == "work" && e.T0 > at+slack {
				o.fail("executed", "statement %q was sent %s s after the interrupt", e.Text, sec(e.T0-at))
				return
			}
		}
	}
	for _, c := range h.clients() {
		end := h.clientEnd(c)
		if end < 0 || end > at {
			working = true
		}
		aux := h.inAux(at, slack)
		if aux > at {
			o.hit("limit-query")
		}
		if t := c.sessEnd(); t > at+slack+ms(100) && aux == at {
			o.fail("client-runs-on", "client g%d kept its connection until %s s after the interrupt", c.G.Seq, sec(t-at))
			return
		}
	}
	if len(h.Exits) == 0 {
		return
	}
	x := h.Exits[0]
	if x.How == "kill" || x.At < at {
		return
	}
	if working {
		if busy == "" {
			busy = "waiting"
		}
		o.hit(busy)
	} else if h.firstW < 0 {
		o.hit("booting")
	} else {
		o.hit("between")
	}
	if st := int64(h.Stat.StallNS); x.At-at > ms(5000)+st || st < ms(1000) && h.grep(0, "Forcing exit", at) {
		o.fail("late-end", "the program ended %s s after the interrupt (%s %d)", sec(x.At-at), x.How, x.Code)
		return
	}
	// What was counted is reported. Run is left out if it ended before.
	for si, st := range h.Sc.Stages {
		if st.StatsOff {
			continue
		}
		var first, last int64 = -1, -1
		for _, c := range h.clients() {
			if c.Stage != si || c.Grp == nil || c.Grp.NoStats {
				continue
			}
			for _, e := range c.Evs {
				if e.Kind == "work" && endOf(e) >= 0 && !e.Ctx {
					t := endOf(e)
					if first < 0 || t < first {
						first = t
					}
					if t > last {
						last = t
					}
				}
			}
		}
		if first < 0 {
			continue
		}
		var rep, stop int64 = -1, -1
		var n uint64
		for _, r := range h.Reports {
			if r.Stage != st.Name || r.Node != 0 {
				continue
			}
			if r.Stop {
				stop = r.At
				continue
			}
			rep = r.At
			for _, in := range r.Insts {
				if in.Total != nil {
					n += in.Total.N[3]
				}
			}
		}
		if stop < 0 {
			o.fail("no-final-report", "stage %s executed statements, but its statistics reporters were not stopped at the end", st.Name)
			return
		}
		half := ms(st.FreqMS) / 2
		if rep < last-half-ms(5)-h.stallSlack() || rep < 0 {
			o.fail("no-final-report", "stage %s executed statements until %s, the last report was at %s (0: none)", st.Name, sec(last), sec(rep))
			return
		}
		if n == 0 && (st.FreqMS == 0 || last-first > half+h.stallSlack()) {
			o.fail("no-final-report", "stage %s executed statements, its reports contain none", st.Name)
			return
		}
		o.marks["reported"]++
	}
}
