package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

var allScopes = []string{"", "statement", "value", "row", "trx", "iter", "client", "client-group", "exec-group", "workload", "stage", "global"}

func isShared(s string) bool { return s == "client-group" || s == "exec-group" || s == "workload" }

func init() {
	rules["D01"] = "a data key used again in its scope iteration, a new scope iteration, an explicit call, a shared key"
	rules["D02"] = "a shared sequence key used by two or more clients"
	rules["D03"] = "a statement that uses a saved column or insert id"

	profiles["D01"] = func(r *R, sc *Scenario) { dataScenario(r, sc, allScopes) }
	oracles["D01"] = checkD01
	profiles["D02"] = func(r *R, sc *Scenario) {
		dataScenario(r, sc, []string{"client-group", "exec-group", "workload"})
		if r.p(0.5) {
			sc.Sched.PMean = r.f(5, 20, 60)
		}
	}
	oracles["D02"] = checkD02
	profiles["D03"] = savedScenario
	oracles["D03"] = checkD03
}

// dataScenario: a pool of data keys that all trx of a stage share.
func dataScenario(r *R, sc *Scenario, scopes []string) {
	shared := len(scopes) == 3
	ns := 1
	if r.p(0.25) {
		ns = 2
	}
	o := topt{scopes: scopes, gens: []string{"auto-inc", "auto-inc", "int", "int-range", "int-range-seq", "client-id"}}
	if shared {
		o.gens = []string{"auto-inc", "int-range-seq"}
	}
	pool := keyNames
	if r.p(0.4) {
		pool = prefixNames
	}
	var globals []*DataS
	for si := 0; si < ns; si++ {
		st := &StageS{Name: fmt.Sprintf("st%d", si+1)}
		var keys []*DataS
		off := r.n(len(pool))
		for k := 0; k < r.in(1, 4); k++ {
			d := genData(r, pool[(off+k)%len(pool)], o)
			if d.Gen == "client-id" {
				d.Params = nil
			}
			for _, g := range globals {
				if g.Key == d.Key {
					d = g
				}
			}
			if d.Scope == "global" {
				globals = append(globals, d)
			}
			keys = append(keys, d)
		}
		nt := r.in(1, 3)
		for ti := 0; ti < nt; ti++ {
			t := &TrxS{Name: fmt.Sprintf("t%d%d.sql", si, ti), Dir: "trx"}
			t.File = t.Name
			if ti > 0 && r.p(0.3) { // other data keys with the same names
				keys = append([]*DataS{}, keys...)
				for i, d := range keys {
					if perTrx(d.Scope) && r.p(0.5) {
						keys[i] = variant(d, ti, func() *DataS { return genData(r, d.Key, o) })
					}
				}
			}
			begin := r.p(0.3)
			if begin {
				t.Stmts = append(t.Stmts, &StmtS{Kind: "begin"})
			}
			for k := r.in(1, 3); k > 0; k-- {
				s := &StmtS{Kind: r.str("select", "update", "insert", "set")}
				if s.Kind == "select" {
					s.Cols = []string{"c"}
					s.NRows = r.n(3)
				}
				if s.Kind == "insert" && r.p(0.5) {
					// rows of a multi-row insert
					s.CSV = r.in(1, 3)
					for n := r.in(1, 3); n > 0; n-- {
						d := keys[r.n(len(keys))]
						if d.Gen == "int-range" || d.Gen == "int-range-seq" || d.Scope == "" {
							continue
						}
						s.CSVInputs = append(s.CSVInputs, "@"+d.Key)
					}
					if len(s.CSVInputs) == 0 {
						s.CSV = 0
					}
				}
				if s.CSV == 0 {
					for n := r.in(1, 4); n > 0; n-- {
						d := keys[r.n(len(keys))]
						in := "@" + d.Key
						if r.p(0.15) && d.Scope != "stage" && d.Scope != "global" {
							in += "()"
						}
						s.Inputs = append(s.Inputs, in)
						if d.Gen == "int-range" || d.Gen == "int-range-seq" {
							s.Inputs = append(s.Inputs, "@PREV")
						}
					}
				}
				if r.p(0.3) {
					s.Prepare = true
				}
				if r.p(0.12) {
					s.Copies = r.in(2, 3)
					s.CopyNo = r.p(0.5)
				}
				t.Stmts = append(t.Stmts, s)
			}
			if begin {
				t.Stmts = append(t.Stmts, &StmtS{Kind: "commit"})
			}
			t.Data = append([]*DataS{}, keys...)
			used := map[string]bool{}
			for _, s := range t.Stmts {
				for _, k := range append(append([]string{}, s.Inputs...), s.CSVInputs...) {
					used[trimKey(k)] = true
				}
			}
			var l []*DataS
			for _, d := range t.Data {
				if used[d.Key] {
					dup := false
					for _, x := range l {
						dup = dup || x.Key == d.Key
					}
					if !dup {
						l = append(l, d)
					}
				}
			}
			t.Data = l
			st.Trx = append(st.Trx, t)
		}
		named := r.p(0.6)
		explicit := r.p(0.5)
		eg := 1
		for i := r.in(1, 4); i > 0; i-- {
			g := &GroupS{Clients: r.in(1, 4), Iter: r.in(1, 5)}
			if named {
				g.Group = fmt.Sprintf("g%d", eg)
				if r.p(0.4) {
					eg++
				}
			}
			if explicit {
				g.Trx = r.subset(names(st.Trx), 1)
			}
			st.Groups = append(st.Groups, g)
		}
		sc.Stages = append(sc.Stages, st)
	}
	r.mysql(sc, r.f(0, 0.5, 1))
	sc.MySQL.LatUS, sc.MySQL.LatSpread = r.of(10, 50, 200), r.of(0, 100, 400)
}

// use is one use of a data key in a statement that was executed.
type use struct {
	c        *Client
	step     Step
	d        *DataS
	explicit bool
	slot     int
	vals     []string // all values of the generator
	at       int
}

// slotsOf lists the uses of data keys in a statement, in order: key, explicit
// call, position of its first value.
type slotUse struct {
	d        *DataS
	explicit bool
	pos, n   int
}

func slotsOf(s *StmtS) (out []slotUse, total int) {
	find := func(k string) *DataS {
		for _, d := range s.trx.Data {
			if d.Key == k {
				return d
			}
		}
		return nil
	}
	add := func(in string, rowFirst map[string]bool) {
		k := trimKey(in)
		if k == "PREV" {
			if len(out) > 0 {
				out[len(out)-1].n++
			}
			total++
			return
		}
		d := find(k)
		ex := strings.HasSuffix(in, "()")
		if d != nil && rowFirst != nil && (d.Scope == "row" || d.Scope == "") && !rowFirst[k] {
			rowFirst[k] = true
			ex = true
		}
		out = append(out, slotUse{d, ex, total, 1})
		total++
	}
	for _, in := range s.Inputs {
		add(in, nil)
	}
	for i := 0; i < s.CSV; i++ {
		seen := map[string]bool{}
		for _, in := range s.CSVInputs {
			add(in, seen)
		}
	}
	return
}

// gen is one copy of a generator in the reference model.
type gen struct {
	d    *DataS
	seq  [][]string // values drawn, in order of observation
	seen map[string]bool
	iter string
	val  []string
	per  map[*Client]*struct {
		iter string
		val  []string
	}
	clients map[*Client]bool
	n       int
}

func num(p map[string]string, k string, def int64) int64 {
	if v, ok := p[k]; ok {
		n, _ := strconv.ParseInt(v, 10, 64)
		return n
	}
	return def
}

// nth is the n-th (1..) value a sequence generator returns to a single caller.
func nth(d *DataS, n int64) []string {
	f := func(v int64) string { return strconv.FormatInt(v, 10) }
	switch d.Gen {
	case "auto-inc":
		return []string{f(num(d.Params, "start", 0) + num(d.Params, "step", 1)*n)}
	case "int-range-seq":
		b, e, s := num(d.Params, "begin", 1), num(d.Params, "end", 100000), num(d.Params, "size", 100)
		tiles := (e-b)/s + 1
		k := (n - 1) % tiles
		lo := b + k*s
		hi := lo + s - 1
		if hi > e {
			hi = e
		}
		return []string{f(lo), f(hi)}
	}
	return nil
}

// sane checks a single value of a random generator.
func sane(d *DataS, v []string) string {
	p := make([]int64, len(v))
	for i, s := range v {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return fmt.Sprintf("%q is not a number", s)
		}
		p[i] = n
	}
	switch d.Gen {
	case "int":
		if len(p) != 1 || p[0] < num(d.Params, "min", 1) || p[0] > num(d.Params, "max", 100000) {
			return "out of range"
		}
	case "int-range":
		if len(p) != 2 || p[0] < num(d.Params, "min", 1) || p[1] > num(d.Params, "max", 100000) {
			return "out of range"
		}
		if p[1]-p[0]+1 != num(d.Params, "size", 100) && p[1] != num(d.Params, "max", 100000) {
			return "wrong size"
		}
	}
	return ""
}

// dataModel replays the uses of all data keys against the reference model.
// Shared generators get all values drawn; report says what to do with problems.
func dataModel(h *Hist, o *Out, report func(class, f string, a ...any)) map[string]*gen {
	gens := map[string]*gen{}
	get := func(id string, d *DataS) *gen {
		g := gens[id]
		if g == nil {
			g = &gen{d: d, seen: map[string]bool{}, clients: map[*Client]bool{}, per: map[*Client]*struct {
				iter string
				val  []string
			}{}}
			gens[id] = g
		}
		return g
	}
	type cu struct {
		c    *Client
		conn int
	}
	// all steps in order of time, so shared keys are seen in one order
	type item struct {
		c    *Client
		s    Step
		conn int
	}
	var items []item
	for ci, c := range h.clients() {
		_ = ci
		steps, _, bad := h.walk(c)
		if bad != "" {
			return nil
		}
		conn := 1
		for i, s := range steps {
			if i > 0 && failed(steps[i-1].Ev) {
				conn++
			}
			items = append(items, item{c, s, conn})
		}
	}
	sort.SliceStable(items, func(i, j int) bool { return items[i].s.Ev.N < items[j].s.Ev.N })
	cid := map[*Client]string{}
	idOf := func(c *Client) string {
		if v, ok := cid[c]; ok {
			return v
		}
		v := fmt.Sprintf("%d.%d.g%d", c.Node, c.Gen, c.G.Seq)
		cid[c] = v
		return v
	}
	clientNo := map[*Client]string{}
	for _, it := range items {
		c, s := it.c, it.s
		vals := s.Ev.values()
		slots, total := slotsOf(s.Exp.S)
		o.evals++
		if total != len(vals) {
			report("count", "statement %q has %d values, its trx file has %d data keys", s.Ev.Text, len(vals), total)
			continue
		}
		for si, u := range slots {
			if u.d == nil || u.d.Gen == "column" {
				continue
			}
			var v []string
			for _, x := range vals[u.pos : u.pos+u.n] {
				v = append(v, strings.Trim(x, "'"))
			}
			if u.d.Gen == "client-id" {
				// the number of the client in its group
				wide := u.d.Scope == "stage" || u.d.Scope == "global" // the value of any client
				n, err := strconv.Atoi(v[0])
				if err != nil || n < 1 || (n > c.Grp.Clients && !wide) {
					report("client-id", "client-id is %q in a client group of %d clients", v[0], c.Grp.Clients)
				}
				if p, ok := clientNo[c]; ok && p != v[0] && !wide {
					report("leak", "client g%d got client-id %s and %s", c.G.Seq, p, v[0])
				}
				if !wide {
					clientNo[c] = v[0]
				}
				continue
			}
			scope := u.d.Scope
			if scope == "" {
				scope = "statement"
				if s.Exp.S.CSV > 0 {
					scope = "row"
				}
			}
			exec := fmt.Sprint(s.Ev.N)
			st := fmt.Sprintf("%d.%d/%d", c.Node, c.Gen, c.Stage)
			var id, iter string
			k := u.d.Key
			if u.d.Var > 0 {
				k += fmt.Sprintf("#%d", u.d.Var)
			}
			switch scope {
			case "value":
				id, iter = fmt.Sprintf("%s/v%d/%d/%s", idOf(c), s.Pos, si, k), exec
			case "statement", "row":
				id, iter = fmt.Sprintf("%s/s%d/%s", idOf(c), s.Pos, k), exec
			case "trx":
				id, iter = fmt.Sprintf("%s/t%d/%s", idOf(c), s.Exp.TrxIdx, k), fmt.Sprint(s.Iter)
			case "iter":
				id, iter = fmt.Sprintf("%s/%s", idOf(c), k), fmt.Sprint(s.Iter)
			case "client":
				id, iter = fmt.Sprintf("%s/%s", idOf(c), k), fmt.Sprint(it.conn)
			case "client-group":
				id, iter = fmt.Sprintf("%s/e%dg%d/%s", st, c.Grp.EG, c.Grp.CG, k), fmt.Sprint(s.Iter)
			case "exec-group":
				id, iter = fmt.Sprintf("%s/e%d/%s", st, c.Grp.EG, k), fmt.Sprint(s.Iter)
			case "workload":
				id, iter = fmt.Sprintf("%s/w/%s", st, k), fmt.Sprint(s.Iter)
			case "stage":
				id, iter = fmt.Sprintf("%s/stage/%s", st, k), "1"
			case "global":
				id, iter = fmt.Sprintf("%d.%d/global/%s", c.Node, c.Gen, k), "1"
			}
			g := get(id, u.d)
			g.clients[c] = true
			cur := struct {
				iter *string
				val  *[]string
			}{&g.iter, &g.val}
			if isShared(scope) {
				p := g.per[c]
				if p == nil {
					p = &struct {
						iter string
						val  []string
					}{}
					g.per[c] = p
				}
				cur.iter, cur.val = &p.iter, &p.val
			}
			draw := u.explicit && scope != "stage" && scope != "global" || *cur.iter != iter
			what := fmt.Sprintf("@%s (%s, scope %s) in %q of client g%d, iteration %d", k, u.d.Gen, scope, s.Ev.Text, c.G.Seq, s.Iter)
			if s.Ev.Prepared {
				what += fmt.Sprintf(" with %v", vals)
			}
			if !draw {
				o.hit("same-" + scope)
				if strings.Join(v, ",") != strings.Join(*cur.val, ",") {
					report("changed", "%s is %v, but its scope iteration already has the value %v", what, v, *cur.val)
				}
				continue
			}
			if u.explicit {
				o.hit("explicit-" + scope)
			} else {
				o.hit("new-" + scope)
			}
			*cur.iter, *cur.val = iter, v
			g.n++
			g.seq = append(g.seq, v)
			key := strings.Join(v, ",")
			if bad := ""; u.d.Gen == "int" || u.d.Gen == "int-range" {
				if bad = sane(u.d, v); bad != "" {
					report("value", "%s is %v: %s", what, v, bad)
				}
			}
			if u.d.Gen != "int-range-seq" && g.seen[key] && !(u.d.Gen == "int" && key == u.d.Params["min"]) {
				report("not-new", "%s is %v, the same value as in another scope iteration (%s)", what, v, id)
			}
			g.seen[key] = true
			if !isShared(scope) {
				if w := nth(u.d, int64(g.n)); w != nil && strings.Join(w, ",") != key {
					report("sequence", "%s is %v, but value number %d of this generator is %v", what, v, g.n, w)
				}
			}
		}
	}
	return gens
}

func checkD01(h *Hist, o *Out) {
	if !h.healthy(o, true) {
		return
	}
	dataModel(h, o, func(class, f string, a ...any) { o.fail(class, f, a...) })
}

func checkD02(h *Hist, o *Out) {
	if !h.healthy(o, true) {
		return
	}
	dummy := &Out{h: h, prop: "D02", marks: map[string]int{}}
	// only what a client or iteration shares with others matters here
	gens := dataModel(h, dummy, func(string, string, ...any) {})
	o.evals += dummy.evals
	for _, id := range sortedKeys(gens) {
		g := gens[id]
		if !isShared(g.d.Scope) || g.d.Gen != "auto-inc" && g.d.Gen != "int-range-seq" {
			continue
		}
		if len(g.clients) > 1 {
			o.hit("shared-" + g.d.Gen)
		}
		want := map[string]int{}
		for i := 1; i <= len(g.seq); i++ {
			want[strings.Join(nth(g.d, int64(i)), "-")]++
		}
		var dup, extra []string
		for _, v := range g.seq {
			k := strings.Join(v, "-")
			want[k]--
			if want[k] < 0 {
				extra = append(extra, k)
			}
		}
		for _, k := range sortedKeys(want) {
			if want[k] > 0 {
				dup = append(dup, k)
			}
		}
		if len(extra) > 0 {
			o.fail("sequence", "the %d values that %d clients drew from @%s (%s %v, scope %s) are not those of a single caller: duplicated or unexpected %v, missing %v", len(g.seq), len(g.clients), g.d.Key, g.d.Gen, g.d.Params, g.d.Scope, extra, dup)
		}
		// each client sees increasing values
		if g.d.Gen == "auto-inc" {
			for c, p := range g.per {
				_ = p
				_ = c
			}
		}
	}
}

// ---------------------------------------------------------------- saved columns

func savedScenario(r *R, sc *Scenario) {
	st := &StageS{Name: "st1"}
	nt := r.in(1, 3)
	var global []string // keys that later trx may use
	for ti := 0; ti < nt; ti++ {
		t := &TrxS{Name: fmt.Sprintf("t%d.sql", ti), Dir: "trx"}
		t.File = t.Name
		var avail []string
		avail = append(avail, global...)
		refs := map[string]bool{}
		var own []string
		begin := r.p(0.3)
		if begin {
			t.Stmts = append(t.Stmts, &StmtS{Kind: "begin"})
		}
		mkKey := func(k string) {
			own = append(own, k)
			avail = append(avail, k)
			if r.p(0.5) {
				d := &DataS{Key: k, Gen: "column", Params: map[string]string{}}
				if r.p(0.3) {
					d.Params["quote-value"] = "true"
				}
				d.Scope = r.str("", "trx", "iter", "client")
				if d.Scope == "iter" || d.Scope == "client" {
					global = append(global, k)
				}
				if len(d.Params) == 0 && d.Scope == "" {
					d.Params["quote-value"] = "false"
				}
				t.Data = append(t.Data, d)
			}
		}
		for n := r.in(2, 5); n > 0; n-- {
			s := &StmtS{Kind: r.str("select", "select", "insert", "update", "set")}
			for i := r.n(3); i > 0 && len(avail) > 0; i-- {
				k := avail[r.n(len(avail))]
				s.Inputs = append(s.Inputs, "@"+k)
				refs[k] = true
			}
			s.Prepare = r.p(0.35)
			switch s.Kind {
			case "select":
				s.Cols = []string{"c", "d", "e"}[:r.in(1, 3)]
				s.NRows = r.in(0, 4)
				s.NumCols = r.p(0.4)
				s.VaryRows = r.p(0.5)
				if r.p(0.7) {
					any := false
					for range s.Cols {
						if r.p(0.25) {
							s.Save = append(s.Save, "_")
						} else {
							k := fmt.Sprintf("s%d_%d", ti, len(own))
							if r.p(0.3) {
								k = fmt.Sprintf("s%d_%dx", ti, len(own))
							}
							s.Save = append(s.Save, k)
							any = true
							mkKey(k)
						}
					}
					if !any {
						s.Save = nil
					}
				}
			case "insert":
				s.Affected = 1
				if r.p(0.6) {
					s.SaveID = fmt.Sprintf("id%d_%d", ti, len(own))
					mkKey(s.SaveID)
				}
			}
			t.Stmts = append(t.Stmts, s)
		}
		miss := []string{}
		for _, k := range own {
			if !refs[k] || r.p(0.3) {
				miss = append(miss, "@"+k)
			}
		}
		if len(miss) > 0 {
			t.Stmts = append(t.Stmts, &StmtS{Kind: "update", Inputs: miss, Prepare: r.p(0.4)})
		}
		if begin {
			t.Stmts = append(t.Stmts, &StmtS{Kind: "commit"})
		}
		st.Trx = append(st.Trx, t)
	}
	explicit := r.p(0.4)
	for i := r.in(1, 2); i > 0; i-- {
		g := &GroupS{Clients: r.in(1, 4), Iter: r.in(1, 6), Group: r.str("a", "a", "b")}
		if explicit {
			g.Trx = r.subset(names(st.Trx), 1)
		}
		st.Groups = append(st.Groups, g)
	}
	sc.Stages = []*StageS{st}
	r.mysql(sc, r.f(0, 0.5, 1))
	sc.MySQL.LatUS, sc.MySQL.LatSpread = r.of(10, 50, 200), r.of(0, 100, 400)
}

func checkD03(h *Hist, o *Out) {
	if !h.healthy(o, true) {
		return
	}
	for _, c := range h.clients() {
		steps, _, bad := h.walk(c)
		if bad != "" {
			return
		}
		// key -> where it is saved
		scopeOf := map[string]string{}
		for _, t := range h.Sc.Stages[c.Stage].Trx {
			for _, s := range t.Stmts {
				for _, k := range s.Save {
					scopeOf[k] = "trx"
				}
				if s.SaveID != "" {
					scopeOf[s.SaveID] = "trx"
				}
			}
			for _, d := range t.Data {
				if d.Gen == "column" && d.Scope != "" {
					scopeOf[d.Key] = d.Scope
				}
			}
		}
		cur := map[string][]string{} // acceptable values
		ref := func(k string, s Step) string {
			if scopeOf[k] == "trx" {
				return fmt.Sprintf("%s/%d", k, s.Exp.TrxIdx)
			}
			return k
		}
		for _, s := range steps {
			o.evals++
			vals := s.Ev.values()
			ins := s.Exp.S.Inputs
			if len(vals) != len(ins) && s.Exp.S.CSV == 0 {
				o.fail("count", "statement %q has %d values, its trx file has %d data keys", s.Ev.Text, len(vals), len(ins))
				continue
			}
			for i, in := range ins {
				k := trimKey(in)
				if scopeOf[k] == "" {
					continue
				}
				ok := cur[ref(k, s)]
				if ok == nil {
					continue // nothing was saved yet
				}
				o.hit("used-" + scopeOf[k])
				v := strings.Trim(vals[i], "<>'")
				hit := false
				for _, x := range ok {
					hit = hit || strings.Trim(x, "<>") == v
				}
				if !hit {
					o.fail("wrong-value", "%q of client g%d (iteration %d, values %v) uses %q for @%s, the value saved last is %v", s.Ev.Text, c.G.Seq, s.Iter, vals, v, k, ok)
				}
			}
			st := s.Exp.S
			e := s.Ev
			if st.SaveID != "" {
				if !failed(e) {
					cur[ref(st.SaveID, s)] = []string{strconv.FormatInt(e.InsertID, 10)}
				}
			}
			for i, k := range st.Save {
				if k == "_" || len(e.Rows) == 0 {
					continue
				}
				if !failed(e) {
					cur[ref(k, s)] = []string{e.Rows[len(e.Rows)-1][i]}
				} else if e.Executed || e.RowErr {
					// rows that were read before the error may have been saved
					l := append([]string{}, cur[ref(k, s)]...)
					if len(l) == 0 {
						l = append(l, "<nil>")
					}
					for j := 0; j < e.RowsRead && j < len(e.Rows); j++ {
						l = append(l, e.Rows[j][i])
					}
					cur[ref(k, s)] = l
				}
			}
		}
	}
}
