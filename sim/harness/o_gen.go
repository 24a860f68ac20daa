package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// D04: what the built-in data generators promise about their values.

func init() {
	rules["D04"] = "a data generator whose values were all checked against its parameters, with enough of them to judge their distribution"
	profiles["D04"] = genScenario
	oracles["D04"] = checkD04
}

// valueKey draws a data key with parameters that make its values judgeable.
func valueKey(r *R, key string, scopes []string) *DataS {
	d := &DataS{Key: key, Gen: r.str("int", "int", "int", "int-gaps", "int-gaps", "int-range", "int-range-seq", "str-fill-az", "str-fill-az", "xid", "client-id", "auto-inc"), Params: map[string]string{}}
	d.Scope = scopes[r.n(len(scopes))]
	set := func(k string, n int) { d.Params[k] = strconv.Itoa(n) }
	span := func(lo, n string, min, size int) {
		set(lo, min)
		set(n, min+size-1)
	}
	min := r.of(1, 0, 1, 7, 1000, 4000000000)
	switch d.Gen {
	case "int":
		switch r.n(4) {
		case 0: // few values
			span("min", "max", min, r.in(1, 8))
		case 1:
			span("min", "max", min, r.of(100, 1000, 1000000, 5000000000))
		case 2: // normal, far from its bounds
			sd := r.in(1, 40)
			w := sd * r.in(11, 20)
			span("min", "max", min, 2*w+1)
			set("mean", min+w)
			set("stddev", sd)
			d.Params["dist"] = "normal"
		case 3: // normal that often leaves its bounds
			size := r.of(1, 2, 5, 20, 1000)
			span("min", "max", min, size)
			d.Params["dist"] = "normal"
			if r.p(0.6) {
				set("mean", min+r.in(-size, 2*size))
			}
			if r.p(0.6) {
				set("stddev", r.in(1, 3*size))
			}
			if d.Params["mean"] == "0" {
				delete(d.Params, "mean")
			}
		}
		if r.p(0.2) && d.Params["dist"] == "" {
			d.Params["dist"] = "uniform"
		}
	case "int-gaps":
		span("min", "max", min, r.of(2, 3, 5, 10, 40, 100, 1000))
		if r.p(0.8) {
			set("p", r.of(1, 5, 10, 20, 25, 50, 90, 100))
		}
	case "int-range":
		min = r.of(1, 0, -50, 1000, 4000000000)
		n := r.of(3, 5, 10, 100, 100000)
		span("min", "max", min, n)
		set("size", r.in(1, n-1))
		if n > 10 && r.p(0.5) {
			set("size", r.in(1, 5))
		}
	case "int-range-seq":
		n := r.in(3, 60)
		span("begin", "end", r.of(1, 0, -50, 1000, 4000000000), n)
		set("size", r.in(1, n-1))
	case "str-fill-az":
		set("len", r.of(1, 2, 9, 10, 11, 12, 16, 20, 21, 40, 100, 300))
		if r.p(0.1) {
			delete(d.Params, "len")
		}
	case "client-id":
		d.Params = nil
		if r.p(0.7) {
			ids := r.subset([]string{"client", "client-group", "exec-group", "iter", "conn"}, 1)
			d.Params = map[string]string{"ids": strings.Join(ids, ",")}
			if strings.Contains(d.Params["ids"], "iter") || strings.Contains(d.Params["ids"], "conn") {
				d.Scope = "statement"
			}
		}
	case "auto-inc":
		if r.p(0.8) {
			d.Params["start"] = r.str("0", "1", "99", "4294967290", "9000000000000000000")
		}
		if r.p(0.6) {
			set("step", r.of(1, 2, 7, 1000))
		}
	}
	return d
}

// perTrx: data keys of this scope are not shared by trx files, so each trx file
// can configure its own.
func perTrx(scope string) bool {
	switch scope {
	case "", "value", "row", "statement", "trx":
		return true
	}
	return false
}

// variant is a data key with the same name and scope and another
// configuration, for another trx file.
func variant(d *DataS, n int, gen func() *DataS) *DataS {
	for {
		v := gen()
		if fmt.Sprint(v.Gen, v.Params) != fmt.Sprint(d.Gen, d.Params) {
			v.Key, v.Scope, v.Var = d.Key, d.Scope, n
			return v
		}
	}
}

// valuesOf is the number of values a data generator returns.
func valuesOf(d *DataS) int {
	switch d.Gen {
	case "int-range", "int-range-seq":
		return 2
	case "client-id":
		return 1 + strings.Count(d.Params["ids"], ",")
	}
	return 1
}

func genScenario(r *R, sc *Scenario) {
	st := &StageS{Name: "st1"}
	scopes := []string{"", "statement", "statement", "value", "trx", "iter", "client-group", "exec-group", "workload"}
	var keys []*DataS
	for k := r.in(1, 5); k > 0; k-- {
		keys = append(keys, valueKey(r, keyNames[k], scopes))
	}
	n := 0
	for ti := r.in(1, 2); ti > 0; ti-- {
		if ti == 1 && len(st.Trx) > 0 && r.p(0.5) {
			keys = append([]*DataS{}, keys...)
			for i, d := range keys {
				if perTrx(d.Scope) && r.p(0.5) {
					keys[i] = variant(d, 1, func() *DataS { return valueKey(r, d.Key, []string{d.Scope}) })
				}
			}
		}
		t := &TrxS{Name: fmt.Sprintf("t%d.sql", ti), Dir: "trx"}
		t.File = t.Name
		for k := r.in(1, 3); k > 0; k-- {
			n++
			s := &StmtS{Kind: r.str("select", "update", "insert", "set")}
			if s.Kind == "select" {
				s.Cols = []string{"c"}
			}
			var one []*DataS
			for _, d := range keys {
				if valuesOf(d) == 1 && d.Scope == "" {
					one = append(one, d)
				}
			}
			if s.Kind == "insert" && len(one) > 0 && r.p(0.4) {
				s.CSV = r.in(1, 4)
				for i := r.in(1, 3); i > 0; i-- {
					s.CSVInputs = append(s.CSVInputs, "@"+one[r.n(len(one))].Key)
				}
			} else {
				for i := r.in(1, 4); i > 0; i-- {
					d := keys[r.n(len(keys))]
					in := "@" + d.Key
					if r.p(0.2) {
						in += "()"
					}
					s.Inputs = append(s.Inputs, in)
					for k := valuesOf(d); k > 1; k-- {
						s.Inputs = append(s.Inputs, "@PREV")
					}
				}
			}
			s.Prepare = r.p(0.3)
			t.Stmts = append(t.Stmts, s)
		}
		for _, d := range keys {
			for _, s := range t.Stmts {
				if strings.Contains(strings.Join(append(s.Inputs, s.CSVInputs...), " ")+" ", "@"+d.Key) {
					t.Data = append(t.Data, d)
					break
				}
			}
		}
		st.Trx = append(st.Trx, t)
	}
	clients := 0
	for i := r.in(1, 3); i > 0; i-- {
		g := &GroupS{Clients: r.in(1, 5), Group: fmt.Sprintf("g%d", r.in(1, 2)), Trx: names(st.Trx)}
		if l := len(st.Groups); l > 0 && g.Group < st.Groups[l-1].Group {
			g.Group = st.Groups[l-1].Group
		}
		clients += g.Clients
		st.Groups = append(st.Groups, g)
	}
	total := r.of(30, 200, 600, 1200) // statements
	for _, g := range st.Groups {
		g.Iter = 1 + total/(clients*n)
	}
	sc.Stages = append(sc.Stages, st)
	r.mysql(sc, r.f(0, 0.5, 1))
	sc.MySQL.LatUS, sc.MySQL.LatSpread = r.of(10, 50, 200), r.of(0, 100, 400)
}

// pool is the values of a data key that are all new.
type pool struct {
	d     *DataS
	n     []int64
	str   map[string]bool
	all   int // letters
	let   map[rune]int
	draws int
}

func checkD04(h *Hist, o *Out) {
	if !h.healthy(o, true) {
		return
	}
	pools := map[string]*pool{}
	var order []string
	for _, c := range h.clients() {
		steps, _, bad := h.walk(c)
		if bad != "" {
			return
		}
		conn := 1
		last := map[string]string{} // data key -> its last scope iteration
		for i, s := range steps {
			if i > 0 && failed(steps[i-1].Ev) {
				conn++
			}
			vals := s.Ev.values()
			slots, total := slotsOf(s.Exp.S)
			if total != len(vals) {
				o.fail("count", "statement %.300q has %d values, its trx file has %d data keys", s.Ev.Text, len(vals), total)
				return
			}
			seen := map[string]bool{}
			for _, u := range slots {
				if u.d == nil {
					continue
				}
				o.evals++
				d, v := u.d, append([]string{}, vals[u.pos:u.pos+u.n]...)
				what := fmt.Sprintf("@%s (%s %v, scope %s) in %.200q of client g%d, iteration %d", d.Key, d.Gen, d.Params, d.Scope, s.Ev.Text, c.G.Seq, s.Iter)
				if d.Gen == "str-fill-az" || d.Gen == "xid" {
					if !s.Ev.Prepared {
						x := v[0]
						if len(x) < 2 || x[0] != '\'' || x[len(x)-1] != '\'' {
							o.fail("quote", "%s: string value %.60s is not quoted", what, x)
							continue
						}
						v[0] = x[1 : len(x)-1]
					}
				}
				if bad := promised(d, v, s, c, conn); bad != "" {
					o.fail("value", "%s is %.300v: %s", what, v, bad)
					continue
				}
				// is it a new value?
				key := fmt.Sprint(d.Key, "#", d.Var)
				scope, ex := d.Scope, fmt.Sprint(s.Ev.N)
				iter := ""
				switch scope {
				case "value":
					iter = fmt.Sprint(ex, "/", u.pos)
				case "", "row", "statement":
					iter = ex
				case "trx":
					iter = fmt.Sprint(s.Iter, "/", s.Exp.TrxIdx)
				default: // iter and scopes shared by clients
					iter = fmt.Sprint(s.Iter)
				}
				isNew := u.explicit || last[key] != iter
				if scope == "trx" || scope == "iter" || isShared(scope) || scope == "" || scope == "statement" {
					if isNew && (seen[key] && !u.explicit) {
						isNew = false
					}
				}
				seen[key] = true
				last[key] = iter
				if !isNew {
					continue
				}
				p := pools[key]
				if p == nil {
					p = &pool{d: d, str: map[string]bool{}, let: map[rune]int{}}
					pools[key] = p
					order = append(order, key)
				}
				p.draws++
				switch d.Gen {
				case "int", "int-gaps", "int-range":
					n, _ := strconv.ParseInt(v[0], 10, 64)
					p.n = append(p.n, n)
				case "str-fill-az", "xid":
					if p.str[v[0]] && len(v[0]) >= 12 {
						o.fail("same", "%s is %.60s, like another new value of this data key", what, v[0])
					}
					p.str[v[0]] = true
					if d.Gen == "str-fill-az" {
						for _, x := range v[0] {
							p.let[x]++
							p.all++
						}
					}
				}
			}
		}
	}
	sort.Strings(order)
	for _, k := range order {
		p := pools[k]
		if bad := p.spread(o); bad != "" {
			o.fail("spread", "@%s (%s %v, scope %s): %s", k, p.d.Gen, p.d.Params, p.d.Scope, bad)
		}
	}
}

// promised checks one result of a generator.
func promised(d *DataS, v []string, s Step, c *Client, conn int) string {
	var n []int64
	switch d.Gen {
	case "str-fill-az":
		if l := num(d.Params, "len", 100); int64(len([]rune(v[0]))) != l {
			return fmt.Sprintf("length %d, not %d", len([]rune(v[0])), l)
		}
		for _, x := range v[0] {
			if !(x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z') {
				return fmt.Sprintf("character %q is not a letter", x)
			}
		}
		return ""
	case "xid":
		if len(v[0]) != 20 {
			return "not an xid"
		}
		return ""
	case "auto-inc":
		u, err := strconv.ParseUint(v[0], 10, 64)
		if err != nil {
			return "not a number"
		}
		start, step := uint64(num(d.Params, "start", 0)), uint64(num(d.Params, "step", 1))
		if u <= start || (u-start)%step != 0 {
			return "not start plus a number of steps"
		}
		return ""
	}
	for _, x := range v {
		i, err := strconv.ParseInt(x, 10, 64)
		if err != nil {
			return "not a number"
		}
		n = append(n, i)
	}
	min, max := num(d.Params, "min", 1), num(d.Params, "max", 100000)
	switch d.Gen {
	case "int", "int-gaps":
		if n[0] < min || n[0] > max {
			return "out of bounds"
		}
	case "int-range":
		sz := num(d.Params, "size", 100)
		if n[0] < min || n[0] > max || n[1] > max || n[1] < n[0] {
			return "out of bounds"
		}
		if n[1]-n[0]+1 != sz && !(n[1] == max && n[1]-n[0]+1 < sz) {
			return "wrong size"
		}
	case "int-range-seq":
		b, e, sz := num(d.Params, "begin", 1), num(d.Params, "end", 100000), num(d.Params, "size", 100)
		if n[0] < b || n[1] > e || (n[0]-b)%sz != 0 {
			return "not a range of the sequence"
		}
		if n[1]-n[0]+1 != sz && n[1] != e || n[1]-n[0]+1 > sz || n[1] < n[0] {
			return "wrong size"
		}
	case "client-id":
		ids := []string{"client"}
		if d.Params["ids"] != "" {
			ids = strings.Split(d.Params["ids"], ",")
		}
		for i, id := range ids {
			var lo, hi int64
			switch id {
			case "client":
				lo, hi = 1, int64(c.Grp.Clients)
			case "client-group":
				lo = int64(c.Grp.CG)
				hi = lo
			case "exec-group":
				lo = int64(c.Grp.EG)
				hi = lo
			case "iter":
				lo = int64(s.Iter)
				hi = lo
			case "conn":
				lo = int64(conn)
				hi = lo
			}
			if n[i] < lo || n[i] > hi {
				return fmt.Sprintf("%s is %d, not %d to %d", id, n[i], lo, hi)
			}
		}
	}
	return ""
}

// spread checks the distribution of many values. The bounds are so wide that
// a correct generator has no chance to be outside in all runs ever made.
func (p *pool) spread(o *Out) string {
	N := float64(len(p.n))
	cnt := map[int64]int{}
	for _, x := range p.n {
		cnt[x]++
	}
	min, max := num(p.d.Params, "min", 1), num(p.d.Params, "max", 100000)
	size := float64(max-min) + 1
	even := func(parts int, of func(x int64) int) string {
		b := make([]int, parts)
		for _, x := range p.n {
			b[of(x)]++
		}
		want := N / float64(parts)
		for i, k := range b {
			if math.Abs(float64(k)-want) > 9*math.Sqrt(want) {
				return fmt.Sprintf("%d of %d values are in part %d of %d of the values it can have", k, len(p.n), i+1, parts)
			}
		}
		return ""
	}
	switch p.d.Gen {
	case "int":
		if p.d.Params["dist"] == "normal" {
			mean, sd := float64(num(p.d.Params, "mean", 0)), float64(num(p.d.Params, "stddev", 0))
			if mean-11*sd < float64(min) || mean+11*sd > float64(max) || p.d.Params["stddev"] == "" || N < 50 {
				return ""
			}
			o.hit("int-normal")
			sum, sq := 0.0, 0.0
			for _, x := range p.n {
				z := float64(x) - mean
				if math.Abs(z) > 10*sd+1 {
					return fmt.Sprintf("value %d is more than 10 standard deviations from the mean", x)
				}
				sum += z
				sq += z * z
			}
			if a := sum / N; math.Abs(a) > 9*sd/math.Sqrt(N)+1 {
				return fmt.Sprintf("the average of %d values is %.2f away from the mean", len(p.n), a)
			}
			if v := math.Sqrt(sq / N); N >= 200 && sd >= 5 && (v < sd*0.6 || v > sd*1.5) {
				return fmt.Sprintf("%d values have standard deviation %.2f", len(p.n), v)
			}
			return ""
		}
		if N >= 60*size {
			o.hit("int-few")
			if bad := even(int(size), func(x int64) int { return int(x - min) }); bad != "" {
				return bad
			}
			if len(cnt) != int(size) {
				return fmt.Sprintf("only %d of %d values in %d draws", len(cnt), int(size), len(p.n))
			}
		} else if size >= 100 && N >= 200 {
			o.hit("int-many")
			return even(4, func(x int64) int { return int(float64(x-min) / size * 4) })
		}
	case "int-gaps":
		k := math.Floor(size * float64(num(p.d.Params, "p", 20)) / 100)
		if float64(len(cnt)) > math.Max(k+1, 1) {
			return fmt.Sprintf("%d different values, more than %d%% of %d", len(cnt), num(p.d.Params, "p", 20), int64(size))
		}
		if N >= 60*math.Max(k, 1) {
			o.hit("int-gaps")
			if float64(len(cnt)) < math.Max(k-1, 1) {
				return fmt.Sprintf("only %d different values of %d in %d draws", len(cnt), int(k), len(p.n))
			}
			for _, x := range []int64{min, max} {
				if k >= 3 && cnt[x] == 0 {
					return fmt.Sprintf("%d is never drawn in %d draws", x, len(p.n))
				}
			}
			// gaps are even
			var l []int64
			for x := range cnt {
				l = append(l, x)
			}
			sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
			for i := 1; i < len(l) && len(l) >= 3 && N >= 80*k; i++ {
				if g, w := float64(l[i]-l[i-1]), size/float64(len(l)-1); g > w+2 || g < w-2 {
					return fmt.Sprintf("the gap between the values %d and %d is not like others (%.1f)", l[i-1], l[i], w)
				}
			}
		}
	case "int-range":
		if size >= 100 && N >= 200 {
			o.hit("int-range")
			return even(4, func(x int64) int { return int(float64(x-min) / size * 4) })
		} else if size <= 10 && N >= 80*size {
			o.hit("int-range")
			for x := min; x < max; x++ {
				if cnt[x] == 0 {
					return fmt.Sprintf("no range starts at %d in %d draws", x, len(p.n))
				}
			}
		}
	case "str-fill-az":
		if p.all >= 4000 {
			o.hit("str-fill-az")
			want := float64(p.all) / 52
			if len(p.let) != 52 {
				return fmt.Sprintf("only %d different letters in %d", len(p.let), p.all)
			}
			for x := 'A'; x <= 'z'; x++ {
				if n, ok := p.let[x]; ok && math.Abs(float64(n)-want) > 9*math.Sqrt(want) {
					return fmt.Sprintf("letter %c is drawn %d times in %d", x, n, p.all)
				}
			}
		}
	case "xid":
		if p.draws >= 2 {
			o.hit("xid")
		}
	}
	return ""
}
