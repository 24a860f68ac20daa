package main

import (
	"strings"

	"simrt"
)

// P02: the stages on the command line are run in that order, one after
// another, each once; nothing is run that is disabled or comes after a failure.

// badLoad: the configuration is not valid. badBoot: the stage cannot be
// prepared.
var badLoad = []string{"unknown-key", "not-yaml", "undefined-param", "undefined-env", "bad-number", "unknown-trx", "no-trx-file", "no-stage-file", "bad-freq", "bad-qps", "self-param", "duplicate-group", "bad-scope", "no-generator", "mixed-trx", "bad-runtime", "base"}
var badBoot = []string{"unknown-data-key", "bad-modifier", "unknown-generator", "bad-generator-param", "unknown-reporter", "unused-column", "bad-idle", "bad-dsn", "tls-no-key", "tls-no-file"}

func isBoot(bad string) bool {
	for _, b := range badBoot {
		if b == bad {
			return true
		}
	}
	return false
}

// spoil breaks the text of a stage file ("" = there is no file).
func (st *StageS) spoil(n *simrt.Node, txt string) string {
	if st.Disabled {
		txt = strings.Replace(txt, "stage:\n", "stage:\n  disable: true\n", 1)
	}
	trx := func(data, sql string) string {
		n.FS.MkdirAll("/work/trx")
		n.FS.Put("/work/trx/bad"+st.Name+".sql", sql)
		return strings.Replace(txt, "  trx:\n", "  trx:\n    - file: trx/bad"+st.Name+".sql\n"+data, 1)
	}
	group := func(s string) string {
		if !strings.Contains(txt, "  workload:\n") {
			txt += "  workload:\n"
		}
		return txt + s
	}
	switch st.Bad {
	case "unknown-key":
		return txt + "  worklod: []\n"
	case "not-yaml":
		return "stage: [\n" + txt
	case "undefined-param":
		return txt + "  qps: $params.nope\n"
	case "undefined-env":
		return txt + "  tps: $FX_NOPE\n"
	case "bad-number":
		return group("    - clients: many\n")
	case "bad-qps":
		return txt + "  qps: \"-5\"\n"
	case "bad-runtime":
		return txt + "  runtime: 10\n"
	case "unknown-trx":
		return group("    - clients: 1\n      trx: [nope]\n")
	case "mixed-trx":
		return group("    - clients: 1\n    - clients: 1\n      trx: [\"" + st.Trx[0].Name + "\"]\n")
	case "no-trx-file":
		return strings.Replace(txt, "  trx:\n", "  trx:\n    - file: trx/none.sql\n", 1)
	case "no-stage-file":
		return ""
	case "bad-freq":
		if st.FreqMS > 0 {
			return strings.Replace(txt, "    freq: ", "    freq: x", 1)
		}
		return strings.Replace(txt, "  stats:\n", "  stats:\n    freq: often\n", 1)
	case "self-param":
		return txt + "  params:\n    a: $params.b\n    b: ${params.a}\n"
	case "duplicate-group":
		return group("    - clients: 1\n      group: x1\n    - clients: 1\n      group: x2\n    - clients: 1\n      group: x1\n")
	case "bad-scope":
		return trx("      data:\n        zz:\n          generator: int\n          scope: everywhere\n", "UPDATE t SET c=@zz\n")
	case "no-generator":
		return trx("      data:\n        zz:\n          scope: trx\n", "UPDATE t SET c=@zz\n")
	case "base":
		n.FS.Put("/work/_all.yaml", "mysql:\n  host: typo\n")
		return txt
	case "unknown-data-key":
		return trx("", "SELECT c FROM t WHERE id = @nokey\n")
	case "bad-modifier":
		return trx("", "-- rows: some\nINSERT INTO t VALUES (1)\n")
	case "bad-idle":
		return trx("", "-- idle: long\nINSERT INTO t VALUES (1)\n")
	case "unknown-generator":
		return trx("      data:\n        zz:\n          generator: no-such\n", "UPDATE t SET c=@zz\n")
	case "bad-generator-param":
		return trx("      data:\n        zz:\n          generator: int\n          params:\n            max: \"-1x\"\n", "UPDATE t SET c=@zz\n")
	case "unused-column":
		return trx("      data:\n        zz:\n          generator: column\n", "-- save-columns: @zz\nSELECT c FROM t\n")
	case "bad-dsn":
		return strings.Replace(txt, "  mysql:\n", "  mysql:\n    dsn: localhost\n", 1)
	case "tls-no-key":
		n.FS.Put("/work/cert.pem", crtA)
		return strings.Replace(txt, "  mysql:\n", "  mysql:\n    tls:\n      cert: cert.pem\n", 1)
	case "tls-no-file":
		return strings.Replace(txt, "  mysql:\n", "  mysql:\n    tls:\n      ca: none.pem\n", 1)
	case "unknown-reporter":
		return strings.Replace(txt, "    report:\n", "    report:\n      nosuch:\n        a: b\n", 1)
	}
	return txt
}

func init() {
	rules["P02"] = "a stage that ran after another one, was disabled, or failed, by the reason"
	profiles["P02"] = func(r *R, sc *Scenario) {
		n := r.of(1, 2, 2, 3, 3, 4)
		o := topt{maxTrx: 2, maxStmts: 3, begin: 0.3, prepare: 0.2, idle: 0.1, nrows: 2}
		for i := 0; i < n; i++ {
			st := r.workStage(sc, i, o)
			for _, g := range st.Groups {
				g.Trx, g.Db = nil, ""
				g.Iter = r.in(1, 3)
				g.Clients = r.in(1, 3)
				if r.p(0.1) {
					g.QPSC = r.of(50, 200)
				}
			}
			st.Disabled = r.p(0.2)
			sc.Stages = append(sc.Stages, st)
		}
		if r.p(0.55) {
			st := sc.Stages[r.n(n)]
			if r.p(0.5) {
				st.Bad = badLoad[r.n(len(badLoad))]
			} else {
				st.Bad = badBoot[r.n(len(badBoot))]
			}
			if st.Disabled && (st.Bad == "unknown-key" || st.Bad == "not-yaml" || st.Bad == "no-stage-file" || st.Bad == "base") {
				st.Disabled = false
			}
		}
		r.mysql(sc, 0)
		sc.Test = r.p(0.1)
		if r.p(0.1) {
			sc.Events = append(sc.Events, EventS{Kind: "interrupt", On: "work", AtMS: r.n(60)})
		}
		if r.p(0.2) {
			sc.FS.P = r.f(0.003, 0.02, 0.1)
		}
	}
	oracles["P02"] = checkP02
}

func checkP02(h *Hist, o *Out) {
	sc := h.Sc
	var exit *ExitEv
	for i := range h.Exits {
		if h.Exits[i].Node == 0 {
			exit = &h.Exits[i]
		}
	}
	if exit != nil && exit.How == "panic" {
		o.fail("panic", "the program crashed: %.400s", exit.Msg)
		return
	}
	switch h.EndCause {
	case "done":
	case "deadlock", "time-limit":
		o.fail("no-end", "the program did not end (%s)", h.EndCause)
		return
	default:
		o.marks["inconclusive"]++
		return
	}
	if exit == nil {
		return
	}
	fault := h.Faults["fs-open"]+h.Faults["fs-read"]+h.Faults["fs-stat"] > 0
	intr := h.interrupted() >= 0
	// what has to be run
	var want []int
	why := ""
	for i, st := range sc.Stages {
		if st.Disabled {
			continue
		}
		if st.Bad != "" && !isBoot(st.Bad) {
			want, why = nil, st.Bad
			break
		}
		if why == "" && st.Bad != "" {
			why = st.Bad
		}
		if why == "" {
			want = append(want, i)
		}
	}
	if why == "" && !fault && !intr && exit.Code != 0 {
		o.fail("exit", "all stages are valid, but the program ended with %s %d %.200s", exit.How, exit.Code, exit.Msg)
		return
	}
	if why != "" && !fault && !intr && exit.Code == 0 {
		o.fail("exit-0", "the configuration of a stage is not valid (%s), but the program ended without an error", why)
		return
	}
	if sc.Test {
		want = nil
	}
	byStage := map[int][]*Client{}
	for _, c := range h.clients() {
		if c.Stage < 0 {
			o.fail("unknown", "statements of a stage %q that is not on the command line", c.Label.StageName)
			return
		}
		byStage[c.Stage] = append(byStage[c.Stage], c)
	}
	end := int64(-1) // of the previous stage
	prev := -1
	for k, i := range want {
		st := sc.Stages[i]
		cl := byStage[i]
		first := int64(-1)
		for _, c := range cl {
			for _, e := range c.Evs {
				if first < 0 || e.T0 < first {
					first = e.T0
				}
			}
		}
		if len(cl) == 0 {
			if !fault && !intr {
				o.fail("not-run", "stage %q (%d of %d) was not run", st.Name, i+1, len(sc.Stages))
				return
			}
			if exit.Code == 0 && !intr {
				o.fail("exit-0", "stage %q was not run because of an error of the file system, but the program ended without an error", st.Name)
				return
			}
			for _, j := range want[k+1:] {
				if len(byStage[j]) > 0 {
					o.fail("order", "stage %q was run, but stage %q before it was not", sc.Stages[j].Name, st.Name)
					return
				}
			}
			break
		}
		if first < end {
			o.fail("order", "stage %q began at %s, before stage %q ended at %s", st.Name, sec(first), sc.Stages[prev].Name, sec(end))
			return
		}
		if prev >= 0 {
			o.hit("next-stage")
		}
		// once, and completely
		n := map[[2]uint]int{}
		for _, c := range cl {
			steps, _, bad := h.walk(c)
			o.evals += len(steps)
			if bad != "" {
				return // C01
			}
			n[[2]uint{c.Label.EG, c.Label.CG}]++
			last := steps[len(steps)-1]
			x := sc.expand(i, c.Grp.TrxL)
			complete := true
			for p := last.Pos + 1; p < len(x); p++ {
				complete = complete && x[p].Idle
			}
			if !intr && (iterations(steps) != c.Grp.Iter || !complete) {
				o.fail("incomplete", "a client of stage %q executed %d iterations (the last one complete: %v), configured are %d", st.Name, iterations(steps), complete, c.Grp.Iter)
				return
			}
			t := h.clientEnd(c)
			for _, e := range c.Evs {
				if x := endOf(e); x > t {
					t = x
				}
			}
			if t > end {
				end = t
			}
		}
		if !intr {
			for _, eg := range h.groups(i) {
				for _, g := range eg {
					if k := n[[2]uint{uint(g.EG), uint(g.CG)}]; k != g.Clients {
						o.fail("clients", "%d clients of client group %d/%d of stage %q executed statements, configured are %d", k, g.EG, g.CG, st.Name, g.Clients)
						return
					}
				}
			}
		} else if t := h.interrupted(); first > t+ms(100) && first > t+int64(h.Stat.SpinNS)+ms(100) {
			o.fail("after-interrupt", "stage %q began at %s, after the interrupt at %s", st.Name, sec(first), sec(t))
			return
		}
		prev = i
	}
	for i, st := range sc.Stages {
		if len(byStage[i]) > 0 {
			run := false
			for _, k := range want {
				run = run || k == i
			}
			if !run {
				o.fail("must-not-run", "stage %q was run; disabled: %v, not valid: %s, test: %v", st.Name, st.Disabled, why, sc.Test)
				return
			}
		}
		if st.Disabled {
			o.hit("disabled")
		}
		if st.Bad != "" {
			o.hit("bad-" + st.Bad)
		}
	}
	if fault {
		o.hit("file-error")
	}
	if sc.Test {
		o.hit("test-mode")
	}
}
