package main

import (
	"fmt"
	"strings"
)

// T01: MySQL gets the text that is in the trx file.

func init() {
	rules["T01"] = "a statement with text that could be mistaken for something else, spread over lines, copied, or at the edge of its file"
	profiles["T01"] = textScenario
	oracles["T01"] = checkT01
}

// parts of statements that are no data keys, modifiers or substitutions.
var fragments = []string{
	"'a%'", "'%b%'", "'%s'", "'%d%d'", "'100%'", "c % 10", "c %2", "'%!v(x)'", "'%%'", "'%[1]d'", "'a  b   c'", "'it''s'", `'it\'s'`,
	`'C:\\dir\\n'`, "'x?y'", "'$1 $2'", "'${name}'", "'$params.x'", "'$HOME'", "'1k 2MB 3,000'", "'ünïcodé 日本語'", `"dq 'in' it"`, "`col name`", "'[a-z]+(x|y){2}'",
	"'a;b'", "'#c'", "'-- d'", "'/* e */'", "'tab\there'", "1.5e3", "-5", "0x1F", "NULL", "(SELECT 1)", "'copy-number'", "'csv 3 (a)'", "'\\\\'", "100MB", "5ms", "'&'",
}

var tails = []string{"/* tail */", "/* a */ /* b */", "FOR UPDATE", "LIMIT 10", "/*+ hint(t) */", "AND 'a' LIKE 'a%'"}

func textScenario(r *R, sc *Scenario) {
	st := &StageS{Name: "st1"}
	had := map[string]*DataS{}
	for ti := r.in(1, 3); ti > 0; ti-- {
		t := &TrxS{Name: fmt.Sprintf("t%d.sql", ti), Dir: "trx"}
		t.File = t.Name
		names := keyNames
		if r.p(0.5) {
			names = prefixNames
		}
		off := r.n(len(names))
		var keys []*DataS
		for k := r.in(1, 4); k > 0; k-- {
			d := valueKey(r, names[(off+k)%len(names)], []string{"", "statement", "value", "trx", "iter", "client-group", "workload"})
			d.Key = fmt.Sprintf("%s%d", d.Key, ti)
			if r.p(0.5) && ti == 1 { // prefix of the others
				d.Key = strings.TrimRight(d.Key, "1")
			}
			if p := had[d.Key]; p != nil {
				if !perTrx(p.Scope) {
					continue
				}
				d.Scope, d.Var = p.Scope, ti
			}
			dup := false
			for _, x := range keys {
				dup = dup || x.Key == d.Key
			}
			if dup {
				continue
			}
			had[d.Key] = d
			keys = append(keys, d)
		}
		if len(keys) == 0 {
			keys = append(keys, &DataS{Key: fmt.Sprintf("only%d", ti), Gen: "xid"})
		}
		for k := r.in(1, 4); k > 0; k-- {
			s := &StmtS{Kind: r.str("select", "select", "update", "insert", "insert", "set")}
			if s.Kind == "select" {
				s.Cols = []string{"c", "d", "e"}[:r.in(1, 3)]
				s.NRows = r.n(3)
			}
			switch s.Kind {
			case "select":
				s.Verb = r.str("", "", "select", "Select")
			case "update":
				s.Verb = r.str("", "", "update", "DELETE FROM")
			case "insert":
				s.Verb = r.str("", "", "REPLACE", "insert")
			}
			var one []*DataS
			for _, d := range keys {
				if valuesOf(d) == 1 {
					one = append(one, d)
				}
			}
			if s.Kind == "insert" && len(one) > 0 && r.p(0.5) {
				s.CSV = r.in(1, 5)
				for i := r.in(1, 3); i > 0; i-- {
					s.CSVInputs = append(s.CSVInputs, "@"+one[r.n(len(one))].Key)
				}
				for i := r.of(0, 0, 1, 2); i > 0; i-- {
					if f := fragments[r.n(len(fragments))]; !strings.Contains(f, "*/") { // which ends the template
						s.CSVFrags = append(s.CSVFrags, f)
					}
				}
			} else {
				for i := r.in(0, 4); i > 0; i-- {
					d := keys[r.n(len(keys))]
					in := "@" + d.Key
					if r.p(0.2) {
						in += "()"
					}
					s.Inputs = append(s.Inputs, in)
					for k := valuesOf(d); k > 1; k-- {
						s.Inputs = append(s.Inputs, "@PREV")
					}
				}
			}
			for i := r.of(0, 1, 1, 2, 3); i > 0; i-- {
				s.Frags = append(s.Frags, fragments[r.n(len(fragments))])
			}
			if r.p(0.35) {
				s.Tail = tails[r.n(len(tails))]
			}
			s.Prepare = r.p(0.3)
			if s.Prepare {
				for i, f := range s.Frags {
					s.Frags[i] = strings.ReplaceAll(f, "%%", "%")
				}
				for i, f := range s.CSVFrags {
					s.CSVFrags[i] = strings.ReplaceAll(f, "%%", "%")
				}
			}
			if r.p(0.3) {
				s.Copies = r.in(1, 4)
				s.ModFirst = r.p(0.5)
			}
			s.CopyNo = r.p(0.3)
			t.Stmts = append(t.Stmts, s)
		}
		if r.p(0.2) {
			t.Stmts = append([]*StmtS{{Kind: "begin"}}, append(t.Stmts, &StmtS{Kind: "commit"})...)
		}
		t.Layout = r.n(32)
		if r.p(0.15) {
			t.Pad = r.of(200, 3000, 70000)
			t.PadTop = true
		}
		t.Data = keys
		dropData(t)
		st.Trx = append(st.Trx, t)
	}
	g := &GroupS{Clients: r.in(1, 3), Iter: r.in(1, 4), Trx: names(st.Trx)}
	st.Groups = append(st.Groups, g)
	sc.Stages = append(sc.Stages, st)
	r.mysql(sc, r.f(0, 0, 0.5))
	sc.MySQL.LatUS, sc.MySQL.LatSpread = r.of(10, 50, 200), r.of(0, 100, 400)
}

func checkT01(h *Hist, o *Out) {
	if !h.healthy(o, true) {
		return
	}
	for _, c := range h.clients() {
		steps, at, bad := h.walk(c)
		for _, s := range steps {
			o.evals++
			x := s.Exp.S
			want := fullText(s.Exp)
			if w, g := words(want), words(s.Ev.Text); w != g {
				o.fail("text", "MySQL got %q, the trx file says %q", g, w)
				return
			}
			for _, f := range append(append([]string{}, x.CSVFrags...), x.Frags...) {
				if !x.Prepare {
					f = strings.ReplaceAll(f, "%%", "%")
				}
				if !strings.Contains(s.Ev.Text, f) {
					o.fail("text", "MySQL got %q, which does not have %s of the trx file", s.Ev.Text, f)
					return
				}
				switch {
				case strings.Contains(f, "%"):
					o.hit("percent")
				case strings.Contains(f, "  "):
					o.hit("spaces")
				default:
					o.hit("literal")
				}
			}
			if x.Prepare {
				if n := strings.Count(s.Ev.Text, "<?>"); n != len(s.Ev.Args) {
					o.fail("args", "prepared statement %q has %d placeholders, it is executed with %d values", s.Ev.Text, n, len(s.Ev.Args))
					return
				}
				o.hit("prepared")
			}
			if x.Copies > 0 {
				o.hit(fmt.Sprintf("copies-%d", x.Copies))
			}
			if x.CSV > 0 {
				o.hit("csv")
			}
			if x.trx.Layout&1 != 0 {
				o.hit("lines")
			}
		}
		if bad != "" {
			o.fail("statement", "client g%d sent %.300q: %s", c.G.Seq, at.Text, bad)
			return
		}
	}
}
