package main

import (
	"fmt"
	"sort"
	"strconv"
)

// Rate, row and size limits: L01-L04.

func init() {
	rules["L01"] = "a time window in which a rate limit was the bound (its token bucket of rate*t ran at least half full)"
	rules["L02"] = "a rate-limited client or group judged over its run"
	rules["L03"] = "a row limit reached by a client"
	rules["L04"] = "a size limit reached, with the inserts before and after it"
	profiles["L01"] = func(r *R, sc *Scenario) { rateProfile(r, sc, false) }
	profiles["L02"] = func(r *R, sc *Scenario) { rateProfile(r, sc, true) }
	oracles["L01"] = checkL01
	oracles["L02"] = checkL02
	profiles["L03"] = rowsProfile
	oracles["L03"] = checkL03
	profiles["L04"] = sizeProfile
	oracles["L04"] = checkL04
}

// rateProfile: live = fast queries, no faults and no stalls, so that progress
// can be judged.
func rateProfile(r *R, sc *Scenario, live bool) {
	st := &StageS{Name: "st1"}
	for i := r.in(1, 2); i > 0; i-- {
		t := &TrxS{Name: fmt.Sprintf("t%d.sql", i), Dir: "trx"}
		t.File = t.Name
		begin := r.p(0.6)
		if begin {
			t.Stmts = append(t.Stmts, &StmtS{Kind: "begin"})
		}
		for k := r.in(1, 4); k > 0; k-- {
			s := &StmtS{Kind: r.str("select", "update", "insert")}
			if s.Kind == "select" {
				s.Cols = []string{"c"}
				s.NRows = r.n(3)
			}
			s.Prepare = r.p(0.2)
			if r.p(0.1) {
				s.Copies = r.in(2, 3)
			}
			if r.p(0.05) {
				t.Stmts = append(t.Stmts, &StmtS{Kind: "set", IdleMS: r.of(1, 5, 20)})
			}
			t.Stmts = append(t.Stmts, s)
		}
		if begin {
			t.Stmts = append(t.Stmts, &StmtS{Kind: "commit"})
			if r.p(0.15) { // a second transaction in the same file
				t.Stmts = append(t.Stmts, &StmtS{Kind: "begin"}, &StmtS{Kind: "update"}, &StmtS{Kind: "commit"})
			}
		}
		st.Trx = append(st.Trx, t)
	}
	rate := func(p float64) int {
		if !r.p(p) {
			return 0
		}
		return r.of(5, 10, 20, 40, 75, 100, 150, 250)
	}
	ms := r.of(1000, 2000, 3000, 5000)
	st.QPS, st.TPS = rate(0.3), rate(0.2)
	ng := r.in(1, 4)
	eg := 1
	q, t := rate(0.3), rate(0.2)
	for i := 0; i < ng; i++ {
		g := &GroupS{Clients: r.of(1, 2, 3, 5), Group: "g1"}
		if i > 0 && r.p(0.3) {
			eg++
			q, t = rate(0.3), rate(0.2)
		}
		g.Group = fmt.Sprintf("g%d", eg)
		g.QPSE, g.TPSE = q, t
		g.QPSC, g.TPSC = rate(0.3), rate(0.2)
		g.QPS, g.TPS = rate(0.3), rate(0.2)
		if !live && r.p(0.3) {
			g.Trx = r.subset(names(st.Trx), 1)
		}
		st.Groups = append(st.Groups, g)
	}
	for _, g := range st.Groups {
		if g.QPSE+g.QPSC+g.QPS+g.TPSE+g.TPSC+g.TPS+st.QPS+st.TPS == 0 {
			g.QPSC = r.of(20, 50, 100)
		}
		g.RuntimeMS = ms / eg
	}
	for i, g := range st.Groups { // all or none have explicit trx
		if g.Trx == nil && st.Groups[0].Trx != nil {
			g.Trx = names(st.Trx)
		} else if i > 0 && st.Groups[0].Trx == nil {
			g.Trx = nil
		}
	}
	st.FreqMS = r.of(0, 0, 200)
	st.StatsOff = r.p(0.2)
	sc.Stages = []*StageS{st}
	if live {
		sc.Sched.StallP, sc.Sched.StallMax = 0, 0
		r.mysql(sc, 0)
		sc.MySQL.LatUS, sc.MySQL.LatSpread = r.of(50, 200, 500), r.of(0, 100, 300)
	} else {
		r.mysql(sc, r.f(0, 0.3, 1))
		sc.MySQL.LatUS = r.of(50, 200, 500)
		sc.MySQL.LatSpread = sc.MySQL.LatUS
		if r.p(0.15) {
			sc.Events = append(sc.Events, EventS{Kind: r.str("mysql-down", "break-conns"), On: "work", AtMS: r.n(1000), ForMS: r.in(100, 1000)})
		}
	}
}

// limiter is one configured rate limit and the clients under it.
type limiter struct {
	name    string
	rate    int
	tps     bool
	clients []*Client
	nodes   int // client groups and clients below it, where permits can wait
}

func (h *Hist) limiters() []*limiter {
	var out []*limiter
	idx := map[string]*limiter{}
	add := func(name string, rate int, tps bool, c *Client) {
		if rate == 0 {
			return
		}
		kind := "qps"
		if tps {
			kind = "tps"
		}
		k := fmt.Sprintf("%s of %s", kind, name)
		l := idx[k]
		if l == nil {
			l = &limiter{name: k, rate: rate, tps: tps}
			idx[k] = l
			out = append(out, l)
		}
		l.clients = append(l.clients, c)
	}
	for _, c := range h.clients() {
		g := c.Grp
		if g == nil {
			continue
		}
		st := h.Sc.Stages[c.Stage]
		inst := ""
		if c.Node > 0 || h.Sc.Server {
			inst = fmt.Sprintf(" on instance %d", c.Node)
		}
		add("the stage"+inst, st.QPS, false, c)
		add("the stage"+inst, st.TPS, true, c)
		e := fmt.Sprintf("execution group %d%s", g.EG, inst)
		first := h.groups(c.Stage)[g.EG-1][0]
		add(e, first.QPSE, false, c)
		add(e, first.TPSE, true, c)
		cg := fmt.Sprintf("the clients of client group %d/%d%s", g.EG, g.CG, inst)
		add(cg, g.QPSC, false, c)
		add(cg, g.TPSC, true, c)
		cl := fmt.Sprintf("client g%d of client group %d/%d%s", c.G.Seq, g.EG, g.CG, inst)
		add(cl, g.QPS, false, c)
		add(cl, g.TPS, true, c)
	}
	return out
}

func (h *Hist) isBegin(e *StmtEv) bool {
	s := h.Sc.stmtByTag[e.Tag]
	return s != nil && s.Kind == "begin"
}

func checkL01(h *Hist, o *Out) {
	if !h.healthy(o, true) {
		return
	}
	for _, l := range h.limiters() {
		var ts []int64
		for _, c := range l.clients {
			for _, e := range c.Evs {
				if e.Kind == "work" && (!l.tps || h.isBegin(e)) {
					ts = append(ts, e.T0)
				}
			}
		}
		o.evals += len(ts)
		sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
		// Permits can wait in the limiter (1), at each level below it (at most
		// two), and with a client that has one and is about to execute (1).
		k := float64(6 + 4*len(l.clients))
		// leaky bucket: the largest excess over rate*t of any window
		level, from := 0.0, 0
		last := int64(0)
		for i, t := range ts {
			if i > 0 {
				level -= float64(l.rate) * float64(t-last) / 1e9
			}
			if level <= 0 {
				level, from = 0, i
			}
			level++
			last = t
			if level > k {
				o.fail("rate-exceeded", "%s is %d/s, but %d were executed from %s to %s (%.1f/s), %.0f more than %d/s, by %d clients", l.name, l.rate, i-from+1, sec(ts[from]), sec(t), float64(i-from+1)*1e9/float64(t-ts[from]+1), level, l.rate, len(l.clients))
				break
			}
		}
		if n := len(ts); n > 10 {
			d := float64(ts[n-1]-ts[0]) / 1e9
			if float64(n) > 0.5*float64(l.rate)*d {
				lv := "client"
				switch {
				case len(l.clients) > 1:
					lv = "shared"
				}
				if l.tps {
					o.hit("tps-" + lv)
				} else {
					o.hit("qps-" + lv)
				}
			}
		}
	}
}

func checkL02(h *Hist, o *Out) {
	if !h.healthy(o, true) {
		return
	}
	st := h.Sc.Stages[0]
	exp := h.Sc.expand(0, names(st.Trx))
	nq, nb, idle := 0.0, 0.0, 0.0
	for _, x := range exp {
		if x.Idle {
			idle += float64(x.S.IdleMS) / 1000
			continue
		}
		nq++
		if x.S.Kind == "begin" {
			nb++
		}
	}
	m := h.Sc.MySQL
	perIter := nq*float64(m.LatUS+m.LatSpread+400)/1e6 + idle // s of an iteration without limits
	lim := func(v float64, q, t int) float64 {
		if q > 0 && float64(q)/nq < v {
			v = float64(q) / nq
		}
		if t > 0 && nb > 0 && float64(t)/nb < v {
			v = float64(t) / nb
		}
		return v
	}
	by := map[[2]int][]*Client{}
	for _, c := range h.clients() {
		if c.Grp != nil {
			by[[2]int{c.Grp.EG, c.Grp.CG}] = append(by[[2]int{c.Grp.EG, c.Grp.CG}], c)
		}
	}
	for _, eg := range h.groups(0) {
		egCap, egN := 0.0, 0
		var egC []*Client
		T := float64(eg[0].RuntimeMS) / 1000
		// how long a client can have to wait for its turn
		turn := 0.0
		w := func(r, n int) {
			if r > 0 {
				turn += float64(n) / float64(r)
			}
		}
		for _, g := range eg {
			egN += g.Clients
		}
		// Combined limiters hold a permit of a shared limit each until they are
		// first used, those of the other execution groups too.
		drain := 0.0
		dr := func(r, n int) {
			if r > 0 {
				drain += float64(n) / float64(r)
			}
		}
		nodes := 1
		for _, e := range h.groups(0) {
			nodes++
			for _, g := range e {
				nodes += 1 + g.Clients
			}
		}
		dr(st.QPS, nodes)
		dr(st.TPS, nodes)
		dr(eg[0].QPSE, egN+len(eg)+1)
		dr(eg[0].TPSE, egN+len(eg)+1)
		w(st.QPS, egN)
		w(st.TPS, egN)
		w(eg[0].QPSE, egN)
		w(eg[0].TPSE, egN)
		var worst float64
		for _, g := range eg {
			own := turn
			if g.QPS > 0 {
				own += 1 / float64(g.QPS)
			}
			if g.TPS > 0 {
				own += 1 / float64(g.TPS)
			}
			if g.QPSC > 0 {
				own += float64(g.Clients) / float64(g.QPSC)
			}
			if g.TPSC > 0 {
				own += float64(g.Clients) / float64(g.TPSC)
			}
			if own > worst {
				worst = own
			}
			cl := by[[2]int{g.EG, g.CG}]
			egC = append(egC, cl...)
			if len(cl) < g.Clients && T > 3*own+1+drain {
				o.fail("starved", "only %d of the %d clients of client group %d/%d executed anything in %.1f s; the rate limits allow each a query every %.3f s", len(cl), g.Clients, g.EG, g.CG, T, own)
				return
			}
			c1 := lim(1/perIter, g.QPS, g.TPS)
			egCap += lim(c1*float64(g.Clients), g.QPSC, g.TPSC)
			for _, c := range cl {
				gap, at := maxGap(c, T)
				o.evals += len(c.Evs)
				if bound := 3*own + idle + drain + 0.8; gap > bound {
					o.fail("starved", "client g%d of client group %d/%d executed nothing for %.3f s from %s on; its rate limits make it wait %.3f s", c.G.Seq, g.EG, g.CG, gap, sec(at), own)
					return
				} else if T > bound {
					o.hit("client")
				}
			}
		}
		egCap = lim(egCap, st.QPS, st.TPS)
		egCap = lim(egCap, eg[0].QPSE, eg[0].TPSE)
		n := 0
		for _, c := range egC {
			for _, e := range c.Evs {
				if e.Kind == "work" {
					n++
				}
			}
		}
		want := 0.5*egCap*nq*(T-0.25-drain) - float64(2*egN+2)
		if want > 0 {
			o.hit("group")
			if float64(n) < want {
				o.fail("too-slow", "the %d clients of execution group %d executed %d statements in %.1f s, their rate limits allow %.0f (%.1f iterations/s of %.0f statements)", egN, eg[0].EG, n, T, egCap*nq*T, egCap, nq)
			}
		}
	}
}

// maxGap is the longest time a client executed nothing, in s.
func maxGap(c *Client, T float64) (float64, int64) {
	var best, from int64
	prev := int64(-1)
	for _, cn := range c.Conns {
		if cn.OK && prev < 0 {
			prev = cn.T1
		}
	}
	for _, e := range c.Evs {
		if e.Kind != "work" {
			continue
		}
		if prev >= 0 && e.T0-prev > best {
			best, from = e.T0-prev, prev
		}
		prev = e.T0
	}
	if c.End >= 0 && prev >= 0 && c.End-prev > best {
		best, from = c.End-prev, prev
	}
	return float64(best) / 1e9, from
}

// ---------------------------------------------------------------------------

func rowsProfile(r *R, sc *Scenario) {
	st := &StageS{Name: "st1", FreqMS: r.of(0, 0, 50)}
	var limited []string
	nt := r.in(1, 3)
	for i := 0; i < nt; i++ {
		t := &TrxS{Name: fmt.Sprintf("t%d.sql", i), Dir: "trx"}
		t.File = t.Name
		begin := r.p(0.3)
		if begin {
			t.Stmts = append(t.Stmts, &StmtS{Kind: "begin"})
		}
		ni := 1
		if r.p(0.2) {
			ni = 2
		}
		for k := 0; k < ni; k++ {
			if r.p(0.3) {
				t.Stmts = append(t.Stmts, &StmtS{Kind: "update"})
			}
			s := &StmtS{Kind: "insert", Prepare: r.p(0.3), Table: fmt.Sprintf("tab%d", i)}
			s.Affected = r.of(1, 1, 2, 5, 10)
			s.VaryRows = r.p(0.3)
			if i == 0 && k == 0 || r.p(0.8) {
				s.Rows = r.in(1, 60)
				if r.p(0.3) {
					s.RowsOffset = r.in(1, 70)
				}
				if r.p(0.2) { // with a size limit that is never reached
					s.SizeFirst = r.p(0.6)
					if r.p(0.5) {
						s.TableSize = 900000000
					} else {
						s.DBSize = 900000000
					}
				}
			}
			t.Stmts = append(t.Stmts, s)
		}
		if begin {
			t.Stmts = append(t.Stmts, &StmtS{Kind: "commit"})
		}
		for _, s := range t.Stmts {
			if s.Rows > 0 {
				limited = append(limited, t.Name)
				break
			}
		}
		st.Trx = append(st.Trx, t)
	}
	ng := r.in(1, 3)
	eg := 1
	for i := 0; i < ng; i++ {
		g := &GroupS{Clients: r.of(1, 1, 2, 4, 8)}
		if i > 0 && r.p(0.4) {
			eg++
		}
		g.Group = fmt.Sprintf("g%d", eg)
		g.Trx = r.subset(names(st.Trx), 1)
		has := false
		for _, n := range g.Trx {
			for _, l := range limited {
				has = has || n == l
			}
		}
		if !has {
			g.Trx = append(g.Trx, limited[r.n(len(limited))])
		}
		if r.p(0.15) {
			g.Iter = r.in(1, 30)
		}
		if r.p(0.15) {
			g.QPSC = r.of(200, 1000)
		}
		st.Groups = append(st.Groups, g)
	}
	sc.Stages = []*StageS{st}
	r.mysql(sc, r.f(0, 0, 0.5, 1))
	if r.p(0.6) { // exact judgement of the overshoot needs clients that are not stalled
		sc.Sched.StallP, sc.Sched.StallMax = 0, 0
	}
	sc.MySQL.LatUS = r.of(1000, 2000)
	sc.MySQL.LatSpread = r.of(0, 500, 3000)
	sc.MySQL.SpikeP = 0
}

// stopsOK: a client that ended was allowed to: its iterations were done, a
// limit was reached, or an error that stops it.
func checkL03(h *Hist, o *Out) {
	if !h.healthy(o, true) {
		return
	}
	calm := h.Sc.Sched.StallP == 0
	spin := int64(h.Stat.SpinNS)
	by := map[*StmtS][]*StmtEv{}
	for _, c := range h.clients() {
		if _, _, bad := h.walk(c); bad != "" {
			return
		}
		for _, e := range c.Evs {
			if s := h.Sc.stmtByTag[e.Tag]; e.Kind == "work" && s != nil && s.Rows > 0 {
				by[s] = append(by[s], e)
			}
		}
	}
	reached := map[*StmtS]int64{} // when the limit was reached
	var all []*StmtS
	for _, st := range h.Sc.Stages {
		for _, t := range st.Trx {
			for _, s := range t.Stmts {
				if s.Rows > 0 {
					all = append(all, s)
				}
			}
		}
	}
	for _, s := range all {
		evs := by[s]
		o.evals += len(evs)
		sort.SliceStable(evs, func(i, j int) bool { return endOf(evs[i]) < endOf(evs[j]) })
		n := int64(s.RowsOffset)
		R := int64(-1)
		var last *StmtEv
		if n >= int64(s.Rows) {
			R = 0
		}
		for _, e := range evs {
			if R >= 0 {
				break
			}
			if !failed(e) && e.T1 >= 0 {
				n += e.Affected
				if n >= int64(s.Rows) {
					R, last = e.T1, e
				}
			}
		}
		if R < 0 {
			continue
		}
		reached[s] = R
		o.hit("reached")
		per, after := map[any]int{}, map[any]int{}
		users := map[any]bool{}
		for _, e := range evs {
			users[e.G] = true
		}
		for _, e := range evs {
			if e == last {
				continue
			}
			aux := s.TableSize+s.DBSize > 0 // its queries are between the check of the rows and the insert
			if last != nil && e.G == last.G && e.T0 >= R && (len(users) == 1 || calm && !aux && e.T0 > R+ms(1)/5+spin) {
				o.fail("exceeded", "a client executed %q at %s after its insert at %s had reached the limit of %d rows (offset %d)", e.Text, sec(e.T0), sec(last.T0), s.Rows, s.RowsOffset)
				return
			}
			if R == 0 && last == nil {
				o.fail("exceeded", "%q was executed, but its row limit %d is reached by the offset %d", e.Text, s.Rows, s.RowsOffset)
				return
			}
			if e.T0 > R+ms(1)+spin+int64(h.Stat.StallNS) {
				if after[e.G]++; after[e.G] > 1 {
					o.fail("exceeded", "a client executed %q again at %s, but the acknowledged rows had reached its limit of %d rows (offset %d) at %s", e.Text, sec(e.T0), s.Rows, s.RowsOffset, sec(R))
					return
				}
			}
			if !calm {
				continue
			}
			if !aux && e.T0 > R+ms(1)*8/10+spin {
				o.fail("exceeded", "%q was executed at %s, but the acknowledged rows had reached its limit of %d rows (offset %d) at %s", e.Text, sec(e.T0), s.Rows, s.RowsOffset, sec(R))
				return
			}
			if e.T1 > R+ms(1)/5+spin {
				per[e.G]++
				o.hit("overshoot")
				if per[e.G] > 1 {
					o.fail("overshoot", "a client executed %q more than once after the acknowledged rows had reached its limit of %d rows at %s", e.Text, s.Rows, sec(R))
					return
				}
			}
		}
	}
	// nobody stops before a limit is reached
	for _, c := range h.clients() {
		if len(c.Evs) == 0 || h.cutShort(c) || c.Grp == nil {
			continue
		}
		if ok, _ := h.legitStop(c); ok {
			continue
		}
		steps, _, _ := h.walk(c)
		if g := c.Grp; g.Iter > 0 && iterations(steps) >= g.Iter {
			continue
		}
		end := h.clientEnd(c)
		stopped := false
		want := ""
		exp := h.Sc.expand(c.Stage, c.Grp.TrxL)
		for _, x := range exp {
			if x.S.Rows > 0 {
				if R, ok := reached[x.S]; ok && end >= 0 && R <= end {
					stopped = true
				}
				want = x.S.body()
			}
		}
		if stopped {
			o.hit("client-stopped")
		} else if want != "" {
			o.fail("early", "client g%d ended at %s, but the row limit of %q was not reached (last statement %q)", c.G.Seq, sec(end), want, c.Evs[len(c.Evs)-1].Text)
			return
		}
	}
}

// ---------------------------------------------------------------------------

func sizeProfile(r *R, sc *Scenario) {
	st := &StageS{Name: "st1", FreqMS: r.of(0, 0, 50)}
	nt := r.in(1, 3)
	sc.Views = map[string][]string{}
	for i := 0; i < nt; i++ {
		t := &TrxS{Name: fmt.Sprintf("t%d.sql", i), Dir: "trx"}
		t.File = t.Name
		if r.p(0.3) {
			t.Stmts = append(t.Stmts, &StmtS{Kind: "update", Table: fmt.Sprintf("tab%d", i)})
		}
		s := &StmtS{Kind: "insert", Prepare: r.p(0.3), Table: fmt.Sprintf("tab%d", r.n(nt))}
		s.Affected = r.of(1, 3, 10)
		s.RowBytes = r.of(100, 500, 1000)
		bytes := r.in(1, 60) * 1000
		switch r.n(4) {
		case 0, 1:
			s.TableSize = bytes
		default:
			s.DBSize = bytes
		}
		if r.p(0.35) {
			s.Rows = r.in(5, 100)
			s.SizeFirst = r.p(0.5)
		}
		t.Stmts = append(t.Stmts, s)
		st.Trx = append(st.Trx, t)
	}
	for _, t := range st.Trx {
		for _, s := range t.Stmts {
			n := s.TableSize + s.DBSize
			if n == 0 || !r.p(0.3) {
				continue
			}
			s.SizeUnit = r.str("k", "KB", "kB")
			if r.p(0.5) { // a table whose name ends like the size
				old := s.Table
				for _, t := range st.Trx {
					for _, x := range t.Stmts {
						if x.Table == old {
							x.Table = old + "_" + strconv.Itoa(n/1000) + s.SizeUnit
						}
					}
				}
			}
		}
	}
	if r.p(0.4) {
		sc.Views[defaultDB] = []string{"a_view", "z_view"}
	}
	ng := r.in(1, 2)
	eg := 1
	for i := 0; i < ng; i++ {
		g := &GroupS{Clients: r.of(1, 1, 2, 4)}
		if i > 0 && r.p(0.4) {
			eg++
		}
		g.Group = fmt.Sprintf("g%d", eg)
		g.Trx = r.subset(names(st.Trx), 1)
		st.Groups = append(st.Groups, g)
	}
	sc.Stages = []*StageS{st}
	r.mysql(sc, r.f(0, 0, 0.3))
	sc.MySQL.LatUS = r.of(200, 1000)
	sc.MySQL.LatSpread = sc.MySQL.LatUS
	if r.p(0.15) {
		sc.MySQL.AnalyzeErrP = r.f(0.05, 0.3)
	}
}

func checkL04(h *Hist, o *Out) {
	went := h.EndCause == "statement-limit"
	if !h.healthy(o, true) && !went {
		return
	}
	type sized struct {
		s     *StmtS
		reach int64 // when the real size reached the limit
	}
	for _, c := range h.clients() {
		if _, _, bad := h.walk(c); bad != "" {
			return
		}
	}
	// real size over time: inserts that were executed, in order of execution
	var ins []*StmtEv
	for _, e := range h.Stmts {
		if s := h.Sc.stmtByTag[e.Tag]; s != nil && s.Kind == "insert" && e.Kind == "work" && e.TX >= 0 && e.Affected > 0 && e.Executed {
			ins = append(ins, e)
		}
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].TX < ins[j].TX })
	reach := map[*StmtS]int64{}
	for _, st := range h.Sc.Stages {
		for _, t := range st.Trx {
			for _, s := range t.Stmts {
				max := int64(s.TableSize + s.DBSize)
				if max == 0 {
					continue
				}
				reach[s] = -1
				var size int64
				for _, e := range ins {
					x := h.Sc.stmtByTag[e.Tag]
					if s.TableSize > 0 && x.Table != s.Table {
						continue
					}
					size += e.Affected * int64(x.RowBytes)
					if size >= max {
						reach[s] = e.TX
						break
					}
				}
			}
		}
	}
	rows := map[*StmtS]int64{}
	for _, e := range ins {
		s := h.Sc.stmtByTag[e.Tag]
		if s.Rows > 0 && !failed(e) {
			rows[s] += e.Affected
		}
	}
	// stops are bounded
	for s, at := range reach {
		if at < 0 {
			continue
		}
		kind := "table-size"
		if s.DBSize > 0 {
			kind = "database-size"
		}
		n, cl := 0, map[any]bool{}
		for _, e := range h.Stmts {
			if e.Tag == s.tag && e.Kind == "work" {
				cl[e.G] = true
				if e.T0 > at {
					n++
				}
			}
		}
		o.evals += n
		if len(cl) == 0 {
			continue
		}
		o.hit(kind)
		total := 0
		for _, eg := range h.groups(0) {
			for _, g := range eg {
				total += g.Clients
			}
		}
		// the size is looked at in every third insert
		if n > 8+4*total {
			o.fail("not-stopped", "%d inserts %q were executed after the %s limit %d was reached at %s, by %d clients", n, s.body(), kind, s.TableSize+s.DBSize, sec(at), len(cl))
			return
		}
	}
	if went {
		return
	}
	// of a row and a size limit the first one counts
	for _, st := range h.Sc.Stages {
		for _, t := range st.Trx {
			for _, s := range t.Stmts {
				if s.Rows == 0 {
					continue
				}
				var acked int64
				var evs []*StmtEv
				for _, e := range h.Stmts {
					if e.Tag == s.tag && e.Kind == "work" && e.T1 >= 0 {
						evs = append(evs, e)
					}
				}
				sort.SliceStable(evs, func(i, j int) bool { return endOf(evs[i]) < endOf(evs[j]) })
				full, n := int64(-1), 0
				for _, e := range evs {
					if full < 0 && !failed(e) {
						if acked += e.Affected; acked >= int64(s.Rows) {
							full = endOf(e)
						}
					}
				}
				if full < 0 {
					continue
				}
				o.hit("row-limit-first")
				for _, e := range evs {
					if e.T0 > full {
						n++
					}
				}
				total := 0
				for _, eg := range h.groups(0) {
					for _, g := range eg {
						total += g.Clients
					}
				}
				if n > total {
					o.fail("rows-not-stopped", "%d inserts %q were executed after its limit of %d rows was reached at %s; it has a size limit, too", n, s.body(), s.Rows, sec(full))
					return
				}
			}
		}
	}
	// nobody stops before the size is reached
	for _, c := range h.clients() {
		if len(c.Evs) == 0 || c.Grp == nil || h.cutShort(c) {
			continue
		}
		if ok, _ := h.legitStop(c); ok {
			continue
		}
		last := c.Evs[len(c.Evs)-1]
		if last.Kind != "work" && last.Kind != "rollback" && failed(last) && last.Code != 1064 {
			o.marks["size-query-failed"]++
			continue // could not find out the size
		}
		ok, any := false, ""
		for _, x := range h.Sc.expand(c.Stage, c.Grp.TrxL) {
			s := x.S
			if at, has := reach[s]; has {
				any = s.body()
				if at >= 0 && at <= h.clientEnd(c) {
					ok = true
				}
				if s.Rows > 0 && rows[s] >= int64(s.Rows) {
					ok = true
				}
			}
		}
		if any == "" {
			continue
		}
		o.evals++
		if !ok {
			o.fail("early", "client g%d ended at %s, but the size limit of %q was not reached (last statement %q)", c.G.Seq, sec(c.End), any, last.Text)
			return
		}
		o.hit("client-stopped")
	}
}
