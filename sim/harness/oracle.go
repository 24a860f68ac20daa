package main

import (
	"fmt"
	"regexp"
	"strings"
	"time"

	"simrt"
)

// Out collects what an oracle finds.
type Out struct {
	h     *Hist
	prop  string
	evals int            // statements, reports, ... examined
	rel   int            // situations in which the property could have failed
	marks map[string]int // kinds of situations reached
}

func (o *Out) fail(class, f string, a ...any) {
	o.h.violate(o.prop, class, fmt.Sprintf(f, a...))
}
func (o *Out) hit(k string) { o.rel++; o.marks[k]++ }

type oracle func(h *Hist, o *Out)

var oracles = map[string]oracle{}

// Step is a workload statement of a client and what was expected there.
type Step struct {
	Ev   *StmtEv
	Exp  Exp
	Pos  int
	Iter int
	Prev *StmtEv // previous workload statement
}

func failed(e *StmtEv) bool {
	return e.Code != 0 || e.Lost || e.Ctx || e.RowErr || (e.Err != nil)
}

// endOf is when the client got the result of a statement.
func endOf(e *StmtEv) int64 {
	if e.T1 < 0 {
		return -1
	}
	if e.TRead > e.T1 {
		return e.TRead
	}
	return e.T1
}

// walk follows a client's workload statements along the reference order. It
// returns the steps and, if the client left the order, what was wrong.
func (h *Hist) walk(c *Client) (steps []Step, at *StmtEv, problem string) {
	if c.Grp == nil {
		return nil, nil, fmt.Sprintf("statements for a client group %d/%d that is not configured (stage %q)", c.Label.EG, c.Label.CG, c.Label.StageName)
	}
	exp := h.Sc.expand(c.Stage, c.Grp.TrxL)
	n := len(exp)
	next := func(p int) int { // next statement that is sent
		for i := 0; i < n; i++ {
			q := (p + i) % n
			if !exp[q].Idle {
				return q
			}
		}
		return -1
	}
	first := next(0)
	if first < 0 {
		return nil, nil, "no statements"
	}
	pos, iter := first, 1
	var prev *StmtEv
	for _, e := range c.Evs {
		if e.Kind != "work" {
			continue
		}
		if prev != nil && failed(prev) {
			pos = first
		}
		x := exp[pos]
		if x.S.tag != e.Tag {
			return steps, e, fmt.Sprintf("statement %q, expected statement %d of the iteration: %q", e.Text, pos+1, x.S.body())
		}
		if prev != nil && pos == first {
			iter++
		}
		steps = append(steps, Step{Ev: e, Exp: x, Pos: pos, Iter: iter, Prev: prev})
		prev = e
		pos = next((pos + 1) % n)
	}
	return steps, nil, ""
}

// firstPos is the position of the first statement that is sent.
func firstPos(exp []Exp) int {
	for i := range exp {
		if !exp[i].Idle {
			return i
		}
	}
	return -1
}

var angleRE = regexp.MustCompile(`<[^<>]*>`)
var spaceRE = regexp.MustCompile(`\s+`)
var csvRE = regexp.MustCompile(`/\*!csv \d+ (\(.*?\))\*/`)

// wantText is the statement text with values left out.
func wantText(x Exp) string { return squash(fullText(x)) }

func fullText(x Exp) string {
	s := x.S
	q := s.body()
	q = strings.ReplaceAll(q, "/*!copy-number*/", fmt.Sprint(x.Copy))
	if x.S.CSV > 0 {
		m := csvRE.FindStringSubmatch(q)
		if m != nil {
			rows := make([]string, x.S.CSV)
			for i := range rows {
				rows[i] = m[1]
			}
			q = strings.Replace(q, m[0], strings.Join(rows, ", "), 1)
		}
	}
	if !s.Prepare {
		q = strings.ReplaceAll(q, "%%", "%")
	}
	return q
}

func squash(q string) string {
	q = angleRE.ReplaceAllString(q, "<>")
	return spaceRE.ReplaceAllString(q, "")
}

var commaRE = regexp.MustCompile(`, *\(`)

// words is the text with values left out and one space between words.
func words(q string) string {
	q = angleRE.ReplaceAllString(q, "<>")
	return strings.TrimSpace(commaRE.ReplaceAllString(spaceRE.ReplaceAllString(q, " "), ", ("))
}

var valRE = regexp.MustCompile(`<([^<>]*)>`)

// values are the input values of a statement in order.
func (e *StmtEv) values() []string {
	if e.parsed {
		return e.vals
	}
	e.parsed = true
	if e.Prepared {
		e.vals = e.Args
	} else {
		for _, m := range valRE.FindAllStringSubmatch(e.Text, -1) {
			e.vals = append(e.vals, m[1])
		}
	}
	return e.vals
}

// cutShort tells whether something ended the client's work before its own
// limits: the stage's end of time or an interrupt.
func (h *Hist) cutShort(c *Client) bool {
	st := h.Sc.Stages[c.Stage]
	if st.RuntimeMS > 0 || c.Grp.RuntimeMS > 0 {
		return true
	}
	for _, m := range h.Marks {
		switch m.Kind {
		case "interrupt", "kill-remote", "kill-server", "partition":
			return true
		}
	}
	return h.Sc.Server && h.Sc.Net.lossy()
}

// legitStop: the client had to stop: an unhandled error of a DDL statement, a
// failed ROLLBACK, or a failure while setting up a new session.
func (h *Hist) legitStop(c *Client) (bool, string) {
	if len(c.Evs) == 0 {
		return false, ""
	}
	l := c.Evs[len(c.Evs)-1]
	switch l.Kind {
	case "rollback":
		if failed(l) {
			return true, "rollback"
		}
	case "use", "prepare":
		if failed(l) {
			return true, "setup"
		}
	case "analyze", "size", "show", "seldb":
		if failed(l) && strings.TrimSpace(l.Text) != "" && l.Code != 1064 {
			return true, "limit" // the size is not known
		}
	case "work":
		if failed(l) {
			st := h.Sc.stmtByTag[l.Tag]
			if st != nil && st.Kind == "ddl" {
				if cont, _ := handledErr(l.Code); !cont {
					return true, "ddl"
				}
			}
		}
	}
	return false, ""
}

// lines returns the output of a process.
func (h *Hist) grep(node int, sub string, from int64) bool {
	for _, l := range h.Nodes[node].Lines {
		if l.At >= from && strings.Contains(l.Text, sub) {
			return true
		}
	}
	return false
}

// clientEnd is when a client ended: its goroutine, or its process.
func (h *Hist) clientEnd(c *Client) int64 {
	if c.End >= 0 {
		return c.End
	}
	for _, x := range h.Exits {
		if x.Node == c.Node && x.Gen == c.Gen {
			return x.At
		}
	}
	return -1
}

func sec(ns int64) string { return fmt.Sprintf("%.6f", float64(ns)/1e9) }

// healthy checks that the program ended by itself without a crash. It returns
// false if the run cannot be judged.
func (h *Hist) healthy(o *Out, mustEnd bool) bool {
	for _, x := range h.Exits {
		if x.How == "panic" {
			o.fail("panic", "the program crashed: %.400s", x.Msg)
			return false
		}
	}
	for _, n := range h.Nodes {
		for _, l := range n.Lines {
			if i := strings.Index(l.Text, "PANIC"); i >= 0 {
				o.fail("panic", "a client crashed: %.300s", l.Text[i:])
				return false
			}
		}
	}
	if h.firstW < 0 && !h.Sc.mayBeEmpty() && h.Sc.MySQL.ConnP == 0 && !h.Sc.Test && len(h.Faults) == 0 {
		for _, x := range h.Exits {
			if x.Node == 0 && x.How != "kill" {
				o.fail("nothing-ran", "the program ended (%s %d %.300s) without running any statement of a valid workload", x.How, x.Code, x.Msg)
				return false
			}
		}
	}
	switch h.EndCause {
	case "done":
	case "deadlock", "time-limit":
		if mustEnd {
			var alive []string
			for _, n := range h.Nodes {
				if n.State == simrt.NodeEnded {
					alive = append(alive, n.Name)
				}
			}
			if len(alive) > 0 {
				o.fail("no-end", "the program did not end within %v of simulated time (%s), still running: %v", time.Duration(h.End), h.EndCause, alive)
			}
			return false
		}
	case "statement-limit":
		if mustEnd && h.Sc.finite() {
			o.fail("no-end", "the program did not end: it executed %d statements and went on", len(h.Stmts))
			return false
		}
		o.marks["inconclusive"]++
		return false
	default:
		o.marks["inconclusive"]++
		return false
	}
	return true
}

// booted checks that a local run got as far as running its stages.
func (h *Hist) exitOK(o *Out) {
}

// mayBeEmpty: a row limit that its offset has reached already can end the run
// before anything is executed.
func (sc *Scenario) mayBeEmpty() bool {
	for _, s := range sc.stmtByTag {
		if s.Rows > 0 && s.RowsOffset >= s.Rows {
			return true
		}
	}
	return sc.shortRun()
}

// shortRun: idle time can fill the whole runtime.
func (sc *Scenario) shortRun() bool {
	for _, st := range sc.Stages {
		rt := st.RuntimeMS
		for _, g := range st.Groups {
			if g.RuntimeMS > 0 && (rt == 0 || g.RuntimeMS < rt) {
				rt = g.RuntimeMS
			}
		}
		if rt == 0 {
			continue
		}
		all := 3 // limiters of clients that wait take a permit of a shared limit each
		for _, g := range st.Groups {
			all += g.Clients
		}
		low := func(n int) bool { return n > 0 && (n <= 5 || rt*n < 1000*all) }
		if low(st.QPS) || low(st.TPS) {
			return true
		}
		for _, g := range st.Groups {
			if low(g.QPS) || low(g.QPSC) || low(g.QPSE) || low(g.TPS) || low(g.TPSC) || low(g.TPSE) {
				return true
			}
		}
		for _, t := range st.Trx {
			idle := 0
			for _, s := range t.Stmts {
				idle += s.IdleMS
			}
			if idle > 0 && idle+20 >= rt {
				return true
			}
		}
	}
	return false
}
