package main

import (
	"fmt"
	"strconv"
)

// R is the scenario generator's own random source.
type R struct{ x uint64 }

func (r *R) u() uint64 {
	r.x += 0x9e3779b97f4a7c15
	z := r.x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *R) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(r.u() % uint64(k))
}
func (r *R) in(a, b int) int        { return a + r.n(b-a+1) }
func (r *R) p(f float64) bool       { return float64(r.u()>>11)/(1<<53) < f }
func (r *R) of(v ...int) int        { return v[r.n(len(v))] }
func (r *R) str(v ...string) string { return v[r.n(len(v))] }
func (r *R) f(v ...float64) float64 { return v[r.n(len(v))] }

// sched draws a scheduler configuration. stall: how long goroutines may be
// stalled at most (index into simrt.Stalls, 0 = no stalls).
func sched(r *R, stall int) SchedS {
	s := SchedS{Policy: r.of(0, 0, 1, 2), SchedP: r.f(0, 0.02, 0.2), PMean: r.f(0, 60, 300, 2000, 20000), Cost: 2000}
	if s.PMean > 0 && stall > 0 {
		s.StallP = r.f(0, 0.02, 0.2, 0.5)
		s.StallMax = r.in(1, stall)
	}
	s.HotP = r.f(0, 0.02, 0.2, 0.5)
	if s.PMean == 0 {
		s.HotP = 0
	}
	s.MapP = r.f(0, 0.3, 1)
	s.TimerP = r.f(0, 0.3)
	return s
}

// topt says what trx to generate.
type topt struct {
	maxTrx, maxStmts int
	begin            float64 // probability of BEGIN..COMMIT
	prepare          float64
	idle             float64
	copies           float64
	csv              float64
	data             float64 // probability that a statement has inputs
	gens             []string
	scopes           []string
	save             float64
	ddl              bool
	nrows            int
	single           bool // only one trx
	oneClient        bool
	prefixKeys       bool
	slowMS           int
}

var keyNames = []string{"a", "b", "key", "val", "x1", "y_z", "n-m"}
var prefixNames = []string{"id", "id2", "id_x", "idx", "i"}

func (r *R) trxs(o topt, stage int) []*TrxS {
	n := r.in(1, o.maxTrx)
	if o.single {
		n = 1
	}
	var out []*TrxS
	for i := 0; i < n; i++ {
		out = append(out, r.trx(o, stage, i))
	}
	return out
}

func genData(r *R, key string, o topt) *DataS {
	g := "auto-inc"
	if len(o.gens) > 0 {
		g = o.gens[r.n(len(o.gens))]
	}
	d := &DataS{Key: key, Gen: g, Params: map[string]string{}}
	if len(o.scopes) > 0 {
		d.Scope = o.scopes[r.n(len(o.scopes))]
	}
	switch g {
	case "auto-inc":
		if r.p(0.8) {
			d.Params["start"] = strconv.Itoa(r.in(1, 9) * 1000000)
		}
		if r.p(0.5) {
			d.Params["step"] = strconv.Itoa(r.in(1, 7))
		}
	case "int":
		d.Params["min"] = "1"
		d.Params["max"] = "4000000000000000"
	case "int-range":
		d.Params["min"] = "1"
		d.Params["max"] = "4000000000000000"
		d.Params["size"] = strconv.Itoa(r.in(5, 50))
	case "int-range-seq":
		b := r.in(1, 50)
		sz := r.in(2, 20)
		d.Params["begin"] = strconv.Itoa(b)
		d.Params["size"] = strconv.Itoa(sz)
		d.Params["end"] = strconv.Itoa(b + sz*r.in(1, 6) + r.in(1, sz))
	}
	return d
}

func (r *R) trx(o topt, stage, i int) *TrxS {
	t := &TrxS{Name: fmt.Sprintf("t%c%d.sql", 'a'+stage, i), Dir: "trx"}
	t.File = t.Name
	if r.p(0.3) {
		t.Name = fmt.Sprintf("name-%c%d", 'A'+stage, i)
	}
	// keys
	names := keyNames
	if o.prefixKeys && r.p(0.5) {
		names = prefixNames
	}
	nk := 0
	if o.data > 0 {
		nk = r.in(1, 3)
	}
	off := r.n(len(names))
	for k := 0; k < nk; k++ {
		// data keys are global to a stage: keep them distinct per trx
		key := fmt.Sprintf("%s%s", names[(off+k)%len(names)], map[bool]string{true: "", false: fmt.Sprintf("t%d", i)}[i == 0])
		if o.prefixKeys && names[0] == "id" && i > 0 {
			key = fmt.Sprintf("%c%s", 'p'+i, names[(off+k)%len(names)])
		}
		t.Data = append(t.Data, genData(r, key, o))
	}
	ns := r.in(1, o.maxStmts)
	inTrx := r.p(o.begin)
	if inTrx {
		t.Stmts = append(t.Stmts, &StmtS{Kind: "begin"})
	}
	var savedCols []string
	colNo := 0
	for s := 0; s < ns; s++ {
		if r.p(o.idle) {
			// modifiers belong to a statement that is not executed
			t.Stmts = append(t.Stmts, &StmtS{Kind: "set", IdleMS: r.of(1, 2, 5, 20, 70, 1000)})
		}
		st := &StmtS{Kind: r.str("select", "select", "update", "insert", "set")}
		if o.ddl && s == 0 && r.p(0.5) {
			st.Kind = "ddl"
		}
		if st.Kind == "select" {
			st.Cols = []string{"c", "d", "e"}[:r.in(1, 3)]
			st.NRows = r.n(o.nrows + 1)
			st.NumCols = r.p(0.4)
		}
		if r.p(o.copies) && st.Kind != "ddl" {
			st.Copies = r.in(2, 3)
			st.CopyNo = r.p(0.6)
		}
		if nk > 0 && r.p(o.data) && st.Kind != "ddl" {
			for k := r.in(1, 3); k > 0; k-- {
				d := t.Data[r.n(nk)]
				st.Inputs = append(st.Inputs, "@"+d.Key)
				if d.Gen == "int-range" || d.Gen == "int-range-seq" {
					st.Inputs = append(st.Inputs, "@PREV")
				}
			}
		}
		if len(savedCols) > 0 && r.p(0.7) && st.Kind != "ddl" {
			st.Inputs = append(st.Inputs, "@"+savedCols[r.n(len(savedCols))])
		}
		if r.p(o.prepare) && (len(st.Inputs) > 0 || r.p(0.5)) && st.Kind != "ddl" {
			st.Prepare = true
		}
		if st.Kind == "insert" {
			if r.p(o.csv) {
				key := fmt.Sprintf("row%dx%d", i, s)
				d := &DataS{Key: key, Gen: "auto-inc", Params: map[string]string{"start": "100"}}
				t.Data = append(t.Data, d)
				st.Inputs = nil
				st.CSV = r.in(1, 4)
				st.CSVInputs = []string{"@" + key}
				if r.p(0.5) {
					st.CSVInputs = append(st.CSVInputs, "@"+key)
				}
				d.Scope = "row"
				if r.p(0.5) {
					d.Scope = ""
				}
			}
		}
		if o.save > 0 && st.Kind == "select" && st.Copies == 0 && r.p(o.save) {
			st.NRows = r.in(1, o.nrows+1)
			for range st.Cols {
				if r.p(0.3) && len(st.Save) < len(st.Cols)-1 {
					st.Save = append(st.Save, "_")
				} else {
					k := fmt.Sprintf("s%d_%dc%d", i, s, colNo)
					colNo++
					st.Save = append(st.Save, k)
				}
			}
		}
		if o.save > 0 && st.Kind == "insert" && st.Copies == 0 && r.p(o.save) {
			st.SaveID = fmt.Sprintf("ins%d_%d", i, s)
		}
		t.Stmts = append(t.Stmts, st)
		for _, k := range st.Save {
			if k != "_" {
				savedCols = append(savedCols, k)
			}
		}
		if st.SaveID != "" {
			savedCols = append(savedCols, st.SaveID)
		}
	}
	if r.p(o.idle / 2) {
		t.Stmts = append(t.Stmts, &StmtS{Kind: "set", IdleMS: r.of(1, 2, 5, 20)})
	}
	if inTrx {
		t.Stmts = append(t.Stmts, &StmtS{Kind: "commit"})
		if r.p(o.idle / 2) {
			t.Stmts = append(t.Stmts, &StmtS{Kind: "set", IdleMS: r.of(1, 2, 5, 20)})
		}
	}
	// every saved column must be referenced
	refs := map[string]bool{}
	for _, s := range t.Stmts {
		for _, in := range s.Inputs {
			refs[in] = true
		}
	}
	var miss []string
	for _, k := range savedCols {
		if !refs["@"+k] {
			miss = append(miss, "@"+k)
		}
	}
	if len(miss) > 0 {
		st := &StmtS{Kind: r.str("update", "set", "select"), Inputs: miss, Prepare: r.p(o.prepare)}
		if st.Kind == "select" {
			st.Cols = []string{"z"}
			st.NRows = 1
		}
		if inTrx {
			c := t.Stmts
			k := len(c) - 1
			for c[k].Kind != "commit" {
				k--
			}
			rest := append([]*StmtS{}, c[k:]...)
			t.Stmts = append(append(append([]*StmtS{}, c[:k]...), st), rest...)
		} else {
			t.Stmts = append(t.Stmts, st)
		}
	}
	onlyIdle := true
	for _, s := range t.Stmts {
		if s.IdleMS == 0 {
			onlyIdle = false
		}
	}
	if onlyIdle {
		t.Stmts = append(t.Stmts, &StmtS{Kind: "update"})
	}
	// drop data keys that are not used
	var used []*DataS
	for _, d := range t.Data {
		for _, s := range t.Stmts {
			hit := false
			for _, in := range append(append([]string{}, s.Inputs...), s.CSVInputs...) {
				if in == "@"+d.Key || in == "@"+d.Key+"()" {
					hit = true
				}
			}
			if hit {
				used = append(used, d)
				break
			}
		}
	}
	t.Data = used
	return t
}

func (r *R) subset(names []string, minN int) []string {
	var out []string
	// a random order and subset
	p := append([]string{}, names...)
	for i := len(p) - 1; i > 0; i-- {
		j := r.n(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	out = p[:r.in(minN, len(p))]
	return out
}

func names(ts []*TrxS) []string {
	var out []string
	for _, t := range ts {
		out = append(out, t.Name)
	}
	return out
}

// faults of MySQL used by most local profiles.
func (r *R) mysql(sc *Scenario, strength float64) {
	m := &sc.MySQL
	m.LatUS = r.of(50, 200, 500, 2000)
	m.LatSpread = m.LatUS * r.of(1, 3)
	if strength <= 0 {
		return
	}
	if r.p(0.7) {
		all := []int{1213, 1205, 1290, 1836, 1317, 1105, 1040, 2013, 1792, 1114}
		for _, c := range all {
			if r.p(0.5) {
				m.Errs = append(m.Errs, c)
			}
		}
		m.ErrP = strength * r.f(0.02, 0.1, 0.25)
	}
	if r.p(0.4) {
		m.DropP = strength * r.f(0.01, 0.05, 0.1)
	}
	if r.p(0.3) {
		m.RowErrP = strength * r.f(0.02, 0.1)
	}
	if r.p(0.3) {
		m.ConnP = strength * r.f(0.1, 0.4)
	}
	if r.p(0.3) {
		m.SpikeP = r.f(0.01, 0.05)
		m.SpikeMax = r.in(1, 3)
	}
}

// work is the general local workload: client groups with iteration limits.
func (r *R) workStage(sc *Scenario, si int, o topt) *StageS {
	st := &StageS{Name: fmt.Sprintf("st%d", si+1), FreqMS: r.of(0, 0, 50, 1000)}
	st.Trx = r.trxs(o, si)
	ng := r.in(1, 3)
	if o.single {
		ng = r.in(1, 2)
	}
	named := r.p(0.5)
	explicit := r.p(0.6)
	eg := 1
	for i := 0; i < ng; i++ {
		g := &GroupS{Clients: r.in(1, 4), Iter: r.in(1, 6)}
		if o.oneClient {
			g.Clients = 1
		}
		if named {
			if i > 0 && r.p(0.4) {
				eg++
			}
			g.Group = fmt.Sprintf("g%d", eg)
		}
		if explicit {
			g.Trx = r.subset(names(st.Trx), 1)
		}
		if r.p(0.3) {
			g.Db = r.str("db1", "db2")
		}
		st.Groups = append(st.Groups, g)
	}
	return st
}

// generate makes the scenario of a seed for a property.
func generate(prop string, seed uint64) *Scenario {
	r := &R{x: seed*0x9e3779b97f4a7c15 + 12345}
	r.u()
	sc := &Scenario{Prop: prop, Seed: seed, MaxMS: 120_000}
	sc.Sched = sched(r, 4)
	profiles[prop](r, sc)
	return sc
}

var profiles = map[string]func(*R, *Scenario){}

// long makes a statement of a stage last very long: nothing may give up on it.
func (r *R) long(sc *Scenario) {
	if len(sc.Events) > 0 {
		return
	}
	for _, st := range sc.Stages {
		if st.RuntimeMS > 0 || st.Disabled || st.FreqMS > 0 && st.FreqMS < 1000 {
			return
		}
		for _, g := range st.Groups {
			if g.RuntimeMS > 0 || g.Iter+g.IterClients+g.IterExecGroup == 0 || g.Iter > 10 {
				return
			}
		}
	}
	st := sc.Stages[r.n(len(sc.Stages))]
	if len(st.Trx) == 0 {
		return
	}
	t := st.Trx[r.n(len(st.Trx))]
	s := t.Stmts[r.n(len(t.Stmts))]
	if s.Copies > 0 || s.Rows > 0 || s.TableSize+s.DBSize > 0 || s.Kind == "ddl" {
		return
	}
	if v := r.of(12_000, 25_000, 65_000, 130_000); s.IdleMS > 0 {
		s.IdleMS = v
	} else {
		s.SlowMS = v
	}
	sc.MaxMS = 20_000_000
}
