package main

import (
	"fmt"
	"strings"
)

func init() {
	work := func(r *R, sc *Scenario, o topt, strength float64) {
		ns := 1
		if r.p(0.15) {
			ns = 2
		}
		for i := 0; i < ns; i++ {
			sc.Stages = append(sc.Stages, r.workStage(sc, i, o))
		}
		r.mysql(sc, strength)
		if strength > 0 && r.p(0.2) {
			sc.Events = append(sc.Events, EventS{Kind: r.str("mysql-down", "mysql-hang", "break-conns", "read-only"), On: "work", AtMS: r.n(60), ForMS: r.in(100, 3000)})
		}
	}
	base := topt{maxTrx: 3, maxStmts: 4, begin: 0.4, prepare: 0.3, idle: 0.12, copies: 0.1, csv: 0.3, data: 0.4, gens: []string{"auto-inc", "int", "int-range"}, nrows: 3, save: 0.15}

	rules["C01"] = "a client whose sequence of statements was followed: restart of the trx list after an error, a complete iteration, idle time, stop on an error"
	rules["C02"] = "a client or client group that reached its iteration limit"
	rules["C03"] = "an error returned by MySQL and what the client did next, by error code"
	rules["C04"] = "a connection lost during the run that the client replaced, or an outage of MySQL"
	profiles["C01"] = func(r *R, sc *Scenario) {
		s := 1.0
		if r.p(0.25) {
			s = 0
		}
		work(r, sc, base, s)
		if r.p(0.04) {
			r.long(sc)
		}
	}
	oracles["C01"] = checkC01
	profiles["C02"] = func(r *R, sc *Scenario) {
		o := base
		o.maxTrx, o.maxStmts, o.idle, o.copies, o.save = 2, 2, 0.05, 0, 0
		st := &StageS{Name: "st1"}
		st.Trx = r.trxs(o, 0)
		combine := r.p(0.3)
		ng := r.in(1, 3)
		eg := 1
		kind := r.n(3)
		explicit := r.p(0.5)
		egIter := r.in(1, 12)
		for i := 0; i < ng; i++ {
			g := &GroupS{Clients: r.in(1, 5)}
			if i > 0 && r.p(0.4) {
				eg++
				egIter = r.in(1, 12)
				kind = r.n(3)
			}
			g.Group = fmt.Sprintf("g%d", eg)
			k := kind
			if k == 2 || combine && r.p(0.5) {
				g.IterExecGroup = egIter
			}
			if kind != 2 && r.p(0.3) {
				k = r.n(2)
			}
			if k == 1 || combine && r.p(0.5) {
				g.IterClients = r.in(1, 10)
			}
			if k == 0 || combine && r.p(0.5) || g.IterExecGroup+g.IterClients == 0 {
				g.Iter = r.in(1, 6)
			}
			if explicit {
				g.Trx = r.subset(names(st.Trx), 1)
			}
			st.Groups = append(st.Groups, g)
		}
		sc.Stages = []*StageS{st}
		r.mysql(sc, r.f(0, 0.5, 1))
	}
	oracles["C02"] = checkC02
	profiles["C03"] = func(r *R, sc *Scenario) {
		o := base
		o.begin, o.ddl, o.idle, o.save = 0.7, r.p(0.3), 0.03, 0.2
		work(r, sc, o, 1)
		for _, st := range sc.Stages {
			for _, g := range st.Groups {
				if g.Iter == 1 {
					g.Iter = 2
				}
			}
		}
		if len(sc.MySQL.Errs) == 0 {
			sc.MySQL.Errs = []int{1205, 1213, 1290, 1317, 1836, 1105}
			sc.MySQL.ErrP = 0.1
		}
		if r.p(0.3) {
			sc.MySQL.RollbackErrP = r.f(0.1, 0.5)
		}
	}
	oracles["C03"] = checkC03
	profiles["C04"] = func(r *R, sc *Scenario) {
		o := base
		o.prepare, o.idle, o.save = 0.5, 0.02, 0
		work(r, sc, o, 1)
		for _, st := range sc.Stages {
			for _, g := range st.Groups {
				g.Iter = r.in(2, 8)
				if r.p(0.4) {
					g.Db = r.str("db1", "db2")
				}
			}
		}
		sc.MySQL.DropP = r.f(0.02, 0.1)
		sc.MySQL.FaultUntil = r.of(200, 1000, 3000)
		if r.p(0.4) {
			sc.Events = []EventS{{Kind: r.str("mysql-down", "mysql-hang", "break-conns"), On: "work", AtMS: r.n(60), ForMS: r.in(100, 6000)}}
		}
	}
	oracles["C04"] = checkC04
}

func checkC01(h *Hist, o *Out) {
	if !h.healthy(o, true) {
		return
	}
	for _, c := range h.clients() {
		steps, at, bad := h.walk(c)
		o.evals += len(steps)
		if bad != "" {
			if at != nil {
				o.fail("order", "client g%d (%s) at %s sent %s", c.G.Seq, c.Label.StageName, sec(at.T0), bad)
			} else {
				o.fail("order", "%s", bad)
			}
			continue
		}
		exp := h.Sc.expand(c.Stage, c.Grp.TrxL)
		n := len(exp)
		for i, s := range steps {
			if got, want := squash(s.Ev.Text), wantText(s.Exp); got != want {
				o.fail("text", "statement sent is %q, the trx file says %q", s.Ev.Text, s.Exp.S.body())
			}
			if s.Exp.S.Prepare != s.Ev.Prepared {
				o.fail("text", "statement %q: prepared=%v, configured prepared=%v", s.Ev.Text, s.Ev.Prepared, s.Exp.S.Prepare)
			}
			// idle time between the previous statement and this one
			var idle int64
			from := int64(-1)
			if i == 0 {
				for _, cn := range c.Conns {
					if cn.OK && cn.Sess == s.Ev.Sess {
						from = cn.T1
					}
				}
				for p := 0; p < s.Pos; p++ {
					idle += ms(exp[p].S.IdleMS)
				}
			} else {
				p := steps[i-1]
				from = endOf(p.Ev)
				if failed(p.Ev) {
					for q := 0; q < s.Pos; q++ {
						idle += ms(exp[q].S.IdleMS)
					}
				} else {
					for q := (p.Pos + 1) % n; q != s.Pos; q = (q + 1) % n {
						idle += ms(exp[q].S.IdleMS)
					}
				}
			}
			if idle > 0 && from >= 0 {
				o.hit("idle")
				gap := s.Ev.T0 - from
				if gap < idle {
					o.fail("idle-short", "statement %q was sent %s s after the previous one, the idle time between them is %s s", s.Ev.Text, sec(gap), sec(idle))
				}
				if gap > idle+ms(3000) && !failed(s.prevOr(s.Ev)) {
					o.fail("idle-long", "statement %q was sent %s s after the previous one, the idle time between them is %s s", s.Ev.Text, sec(gap), sec(idle))
				}
			}
			if i > 0 && s.Pos != steps[0].Pos && s.Ev.Sess != steps[i-1].Ev.Sess {
				o.fail("session", "statement %q was sent on another session than the statement before it in the same iteration", s.Ev.Text)
			}
			if i > 0 && failed(steps[i-1].Ev) {
				o.hit("restart")
			}
			if i > 0 && steps[i-1].Ev.T1 < 0 {
				o.fail("concurrent", "statement %q was sent while the client's previous one was still running", s.Ev.Text)
			}
			if i > 0 && steps[i-1].Ev.T1 > s.Ev.T0 {
				o.fail("concurrent", "statement %q was sent before the client's previous one had ended", s.Ev.Text)
			}
		}
		if len(steps) > 0 {
			o.hit("iterations")
		}
		// the last iteration is complete
		if h.cutShort(c) || len(steps) == 0 {
			continue
		}
		if ok, _ := h.legitStop(c); ok {
			o.hit("stopped-on-error")
			continue
		}
		l := steps[len(steps)-1]
		if failed(l.Ev) {
			// the failed iteration was the last one, or the client stopped
			continue
		}
		rest := exp[l.Pos+1:]
		var idle int64
		for _, x := range rest {
			if !x.Idle {
				o.fail("skipped", "client g%d ended at %s after statement %q: the rest of its last iteration (%d statements, next %q) was never sent", c.G.Seq, sec(h.clientEnd(c)), l.Ev.Text, len(rest), x.S.body())
				break
			}
			idle += ms(x.S.IdleMS)
		}
		if end := h.clientEnd(c); idle > 0 && end >= 0 && end-endOf(l.Ev) < idle {
			o.fail("idle-short", "client ended %s s after its last statement, the idle time at the end of the iteration is %s s", sec(end-endOf(l.Ev)), sec(idle))
		}
	}
}

func (s Step) prevOr(e *StmtEv) *StmtEv {
	if s.Prev != nil {
		return s.Prev
	}
	return e
}

// iterations counts the iterations a client started.
func iterations(steps []Step) int {
	if len(steps) == 0 {
		return 0
	}
	return steps[len(steps)-1].Iter
}

func checkC02(h *Hist, o *Out) {
	if !h.healthy(o, true) {
		return
	}
	type cnt struct {
		total, clients, legit int
		per                   []int
	}
	type gk struct{ node, gen, stage, eg, cg int }
	by := map[gk]*cnt{}
	for _, c := range h.clients() {
		if c.Grp == nil {
			return
		}
		steps, _, bad := h.walk(c)
		if bad != "" {
			return // C01's matter
		}
		k := gk{c.Node, c.Gen, c.Stage, c.Grp.EG, c.Grp.CG}
		if by[k] == nil {
			by[k] = &cnt{}
		}
		b := by[k]
		it := iterations(steps)
		o.evals += it
		b.total += it
		b.clients++
		b.per = append(b.per, it)
		ls, _ := h.legitStop(c)
		if ls {
			b.legit++
		}
		g := c.Grp
		if g.Iter > 0 {
			o.hit("iter")
			if it > g.Iter {
				o.fail("iter-exceeded", "client g%d started %d iterations, iter is %d", c.G.Seq, it, g.Iter)
			}
			if it < g.Iter && !ls && g.IterClients == 0 && g.IterExecGroup == 0 && !h.cutShort(c) {
				o.fail("iter-missed", "client g%d started only %d iterations, iter is %d and nothing else stopped it", c.G.Seq, it, g.Iter)
			}
		}
	}
	for _, n := range h.Nodes {
		if n.Idx > 0 && !h.Sc.Server {
			continue
		}
		for gen := 1; gen <= n.Starts; gen++ {
			for si := range h.Sc.Stages {
				for _, eg := range h.groups(si) {
					egTotal, egLegit, egExact, lim := 0, 0, true, 0
					any := false
					egClients := 0
					for _, g := range eg {
						b := by[gk{n.Idx, gen, si, g.EG, g.CG}]
						if b == nil {
							b = &cnt{}
						} else {
							any = true
						}
						egTotal += b.total
						egLegit += b.legit
						egClients += g.Clients
						if g.IterExecGroup == 0 || g.Iter > 0 || g.IterClients > 0 {
							egExact = false
						}
						if g.IterExecGroup > lim {
							lim = g.IterExecGroup
						}
						if g.IterClients > 0 {
							o.hit("iter-clients")
							if b.total > g.IterClients {
								o.fail("iter-clients-exceeded", "the %d clients of client group %d/%d started %d iterations in total, iter-clients is %d", b.clients, g.EG, g.CG, b.total, g.IterClients)
							}
							if b.total < g.IterClients && g.Iter == 0 && g.IterExecGroup == 0 && b.legit < g.Clients && n.Idx == 0 && len(h.Sc.Events) == 0 {
								o.fail("iter-clients-missed", "the clients of client group %d/%d started only %d iterations in total, iter-clients is %d", g.EG, g.CG, b.total, g.IterClients)
							}
						}
					}
					if lim > 0 && any {
						o.hit("iter-exec-group")
						all := true
						for _, g := range eg {
							if g.IterExecGroup == 0 {
								all = false
							}
						}
						if all && egTotal > lim {
							o.fail("iter-exec-group-exceeded", "the clients of execution group %d started %d iterations in total, iter-exec-group is %d", eg[0].EG, egTotal, lim)
						}
						if egExact && egTotal < lim && egLegit < egClients && len(h.Sc.Events) == 0 {
							o.fail("iter-exec-group-missed", "the clients of execution group %d started only %d iterations in total, iter-exec-group is %d", eg[0].EG, egTotal, lim)
						}
					}
				}
			}
		}
	}
}

func checkC03(h *Hist, o *Out) {
	if !h.healthy(o, true) {
		return
	}
	for _, c := range h.clients() {
		if c.Grp == nil {
			continue
		}
		for i, e := range c.Evs {
			o.evals++
			if e.Kind == "rollback" && failed(e) && !e.Ctx {
				o.hit("rollback-failed")
				for _, x := range c.Evs[i+1:] {
					if x.Kind == "work" {
						o.fail("work-after-failed-rollback", "client g%d executed %q after its ROLLBACK had failed", c.G.Seq, x.Text)
						break
					}
				}
				if !h.reported(c.Node, e) && !h.cutShort(c) {
					o.fail("unreported", "the failed ROLLBACK of client g%d was not reported", c.G.Seq)
				}
				continue
			}
			if e.Kind != "work" || !failed(e) || e.Ctx || e.T1 < 0 {
				continue
			}
			if h.cutShort(c) {
				continue
			}
			st := h.Sc.stmtByTag[e.Tag]
			cont, rb := handledErr(e.Code)
			if e.Lost {
				cont, rb = false, false
			}
			var next *StmtEv // next statement of any kind
			var work *StmtEv
			for _, x := range c.Evs[i+1:] {
				if next == nil {
					next = x
				}
				if x.Kind == "work" {
					work = x
					break
				}
			}
			switch {
			case cont:
				o.hit(fmt.Sprintf("handled-%d", e.Code))
				if next != nil && next.Sess != e.Sess {
					o.fail("reconnected", "after error %d, which keeps the connection, client g%d used another session", e.Code, c.G.Seq)
				}
				if next == nil && h.expectMore(c, e) {
					o.fail("stopped", "after error %d client g%d stopped instead of starting a new iteration", e.Code, c.G.Seq)
				}
				if rb && e.InTrx && next != nil && next.Kind != "rollback" {
					o.fail("no-rollback", "after error %d in an open transaction client g%d sent %q, not ROLLBACK", e.Code, c.G.Seq, next.Text)
				}
			case st != nil && st.Kind == "ddl":
				o.hit("ddl-error")
				if next != nil {
					o.fail("ddl-continued", "client g%d went on with %q after the DDL statement %q had failed with an error that is not handled (%v)", c.G.Seq, next.Text, e.Text, e.Err)
				}
				if !h.reported(c.Node, e) {
					o.fail("unreported", "the error %v of the DDL statement %q was not reported", e.Err, e.Text)
				}
			default:
				o.hit("unhandled")
				if next != nil {
					if next.Sess == e.Sess {
						o.fail("no-reconnect", "after the error %v of %q client g%d went on with %q on the same session s%d", e.Err, e.Text, c.G.Seq, next.Text, e.Sess.ID)
					} else {
						if e.Sess.Closed < 0 || e.Sess.Closed > next.T0 {
							o.fail("not-dropped", "after the error %v of %q client g%d went on with a new session, but the old one (s%d) was still connected", e.Err, e.Text, c.G.Seq, e.Sess.ID)
						}
					}
				} else if h.expectMore(c, e) {
					o.fail("stopped", "after error %v client g%d stopped instead of starting a new iteration", e.Err, c.G.Seq)
				}
			}
			_ = work
		}
	}
}

// reported: the error text of a statement appears in the output.
func (h *Hist) reported(node int, e *StmtEv) bool {
	if e.Err == nil {
		return true
	}
	return h.grep(node, e.Err.Error(), e.T0)
}

// expectMore: the client must start another iteration after the failed
// statement e, by its own iteration limit.
func (h *Hist) expectMore(c *Client, e *StmtEv) bool {
	g := c.Grp
	if g.IterClients > 0 || g.IterExecGroup > 0 || g.Iter == 0 {
		return false
	}
	steps, _, bad := h.walk(c)
	if bad != "" {
		return false
	}
	for _, s := range steps {
		if s.Ev == e {
			return s.Iter < g.Iter
		}
	}
	return false
}

func checkC04(h *Hist, o *Out) {
	ended := h.healthy(o, true)
	for _, s := range h.Sess {
		var users []string
		var first *StmtEv
		gs := map[int]bool{}
		for _, e := range s.Evs {
			if e.Kind != "work" {
				continue
			}
			if first == nil {
				first = e
			}
			if !gs[e.G.Seq] {
				gs[e.G.Seq] = true
				users = append(users, fmt.Sprintf("g%d", e.G.Seq))
			}
		}
		if len(users) > 1 {
			o.fail("shared-session", "session s%d was used by several clients: %s", s.ID, strings.Join(users, ", "))
		}
	}
	for _, c := range h.clients() {
		if c.Grp == nil {
			continue
		}
		want := c.Grp.Db
		if want == "" {
			want = defaultDB
		}
		var prev *Sess
		seen := map[*Sess]bool{}
		var lastBad *StmtEv
		for _, e := range c.Evs {
			o.evals++
			if e.Kind != "work" {
				continue
			}
			if e.Db != want {
				o.fail("default-db", "client g%d executed %q with default database %q, its database is %q", c.G.Seq, e.Text, e.Db, want)
			}
			if e.Sess != prev {
				if prev != nil {
					o.hit("reconnected")
					if prev.Closed < 0 || prev.Closed > e.T0 {
						o.fail("old-session-open", "client g%d reconnected (session s%d) while its old session s%d was still connected", c.G.Seq, e.Sess.ID, prev.ID)
					}
				}
				if seen[e.Sess] {
					o.fail("old-session-used", "client g%d used session s%d again after it had reconnected", c.G.Seq, e.Sess.ID)
				}
				seen[e.Sess] = true
				if e.InTrx {
					o.fail("open-trx", "client g%d began on session s%d with a transaction already open", c.G.Seq, e.Sess.ID)
				}
				prev = e.Sess
			}
			if lastBad != nil && lastBad.Sess == e.Sess {
				o.fail("no-new-session", "client g%d executed %q on session s%d, whose connection had failed (%v)", c.G.Seq, e.Text, e.Sess.ID, lastBad.Err)
			}
			lastBad = nil
			if failed(e) && !e.Ctx {
				if cont, _ := handledErr(e.Code); !cont || e.Lost {
					lastBad = e
				}
			}
		}
		if !ended || h.cutShort(c) {
			continue
		}
		// all its iterations: it came back after every failure
		if ls, _ := h.legitStop(c); ls {
			continue
		}
		steps, _, bad := h.walk(c)
		if bad == "" && c.Grp.Iter > 0 && iterations(steps) < c.Grp.Iter {
			o.fail("gave-up", "client g%d stopped after %d of %d iterations although MySQL was reachable", c.G.Seq, iterations(steps), c.Grp.Iter)
		}
	}
	// outages: clients come back soon after
	for _, m := range h.Marks {
		if m.Kind != "mysql-down" && m.Kind != "mysql-hang" {
			continue
		}
		up := m.At + m.For
		o.hit("outage")
		for _, c := range h.clients() {
			end := h.clientEnd(c)
			if end >= 0 && end < up+ms(3000) || h.End < up+ms(3000) || h.cutShort(c) {
				continue
			}
			if len(c.Evs) == 0 || c.Evs[0].T0 > m.At {
				continue
			}
			if h.Sc.MySQL.FaultUntil > 0 && ms(h.Sc.MySQL.FaultUntil) > up {
				continue
			}
			ok := false
			for _, e := range c.Evs {
				if e.T0 >= m.At && e.T0 <= up+ms(3000) && e.Sess.Opened >= m.At {
					ok = true
				}
			}
			idle := false
			for _, x := range h.Sc.expand(c.Stage, c.Grp.TrxL) {
				if x.S.IdleMS > 500 {
					idle = true
				}
			}
			if !ok && !idle {
				o.fail("no-resume", "client g%d did not resume within 3 s after MySQL had been unreachable from %s to %s", c.G.Seq, sec(m.At), sec(up))
			}
		}
	}
}
