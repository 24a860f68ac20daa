package main

import (
	"strings"

	mysqldrv "github.com/go-sql-driver/mysql"
)

// P01: the configuration that is written is the one that takes effect. The
// scenarios are those of another property, the theme, written in many ways;
// what the program then does is judged by the theme's oracle.

var confThemes = []string{"C01", "C01", "C02", "C02", "C04", "D01", "D02", "L01", "L02", "L03", "L04", "W01", "W02", "R01", "S02", "S01"}

func init() {
	rules["P01"] = "a setting that was not written as a plain value in the stage file, by how it was written"
	profiles["P01"] = func(r *R, sc *Scenario) {
		th := confThemes[r.n(len(confThemes))]
		profiles[th](r, sc)
		c := &ConfS{Seed: r.u(), Theme: th}
		sc.Conf = c
		c.Params = r.p(0.85)
		c.Env = r.p(0.4)
		c.Human = r.p(0.6)
		c.CLI = r.p(0.5)
		c.Base = r.p(0.6)
		c.Decoys = r.p(0.7)
		c.Dirs = r.p(0.5)
		c.MySQL = r.of(0, 1, 1, 1, 2, 3)
		c.MyCnf = c.MySQL > 0 && r.p(0.3)
		c.TLS = c.MySQL > 0 && r.p(0.4)
		c.BaseStats = r.p(0.4)
		if r.p(0.25) {
			c.Disabled = r.in(1, 2)
		}
		if r.p(0.35) {
			sc.highLimits(r)
		}
		if r.p(0.25) {
			sc.numberNames(r)
		}
		plain := true
		for _, st := range sc.Stages {
			st.NoName = r.p(0.3)
			for _, t := range st.Trx {
				for _, s := range t.Stmts {
					if s.TableSize+s.DBSize > 0 {
						plain = false
					}
				}
			}
		}
		for i, st := range sc.Stages {
			if st.NoName {
				st.Name = stageFile(i)
			}
		}
		if plain && c.MySQL < 2 && r.p(0.2) && th != "C04" {
			c.Db = "dbx"
			for _, st := range sc.Stages {
				for _, g := range st.Groups {
					g.Db = c.Db
				}
			}
		}
		if len(sc.Stages) == 1 && r.p(0.15) {
			c.FSP = r.f(0.005, 0.02, 0.1)
		}
	}
	oracles["P01"] = checkP01
}

// highLimits sets limits that are too high to be reached.
func (sc *Scenario) highLimits(r *R) {
	rate := func(n *int) {
		if *n == 0 && r.p(0.2) && sc.Conf.Theme != "L01" {
			*n = r.of(2000, 4096, 5000)
		}
	}
	iter := func(n *int) {
		if *n == 0 && r.p(0.2) {
			*n = r.of(1000000, 4096000)
		}
	}
	for _, st := range sc.Stages {
		rate(&st.QPS)
		rate(&st.TPS)
		var egs [][]*GroupS
		for i, g := range st.Groups {
			if i == 0 || g.Group == "" || g.Group != st.Groups[i-1].Group {
				egs = append(egs, nil)
			}
			egs[len(egs)-1] = append(egs[len(egs)-1], g)
		}
		for _, eg := range egs {
			for _, g := range eg {
				for _, n := range []*int{&g.QPS, &g.QPSC, &g.TPS, &g.TPSC} {
					rate(n)
				}
				if g.Iter+g.IterClients+g.IterExecGroup+g.RuntimeMS > 0 { // else DDL would be repeated
					iter(&g.Iter)
					iter(&g.IterClients)
				}
			}
			if eg[0].Group == "" {
				continue
			}
			// what the client groups of an execution group share
			shared := func(f func(*GroupS) *int, high func(*int)) {
				for _, g := range eg {
					if *f(g) != 0 {
						return
					}
				}
				high(f(eg[0]))
				for _, g := range eg {
					*f(g) = *f(eg[0])
				}
			}
			shared(func(g *GroupS) *int { return &g.QPSE }, rate)
			shared(func(g *GroupS) *int { return &g.TPSE }, rate)
			ends := true
			for _, g := range eg {
				ends = ends && g.Iter+g.IterClients+g.RuntimeMS > 0
			}
			if ends {
				shared(func(g *GroupS) *int { return &g.IterExecGroup }, iter)
			}
		}
	}
}

// numberNames gives stages, groups and trx names in which there is a number
// with a unit.
func (sc *Scenario) numberNames(r *R) {
	unit := r.str("1k", "2M", "10G", "1,000", "3b", "5KiB")
	for _, st := range sc.Stages {
		if r.p(0.5) {
			st.Name += "-" + unit
		}
		trx := map[string]string{}
		for _, t := range st.Trx {
			if r.p(0.5) && !strings.Contains(unit, ",") {
				n := "rows-" + unit + "-" + t.Name
				trx[t.Name] = n
				if t.File == t.Name {
					t.File = n
				}
				t.Name = n
			}
		}
		group := r.p(0.5)
		for _, g := range st.Groups {
			for i := range g.Trx {
				if n := trx[g.Trx[i]]; n != "" {
					g.Trx[i] = n
				}
			}
			if g.Group != "" && group {
				g.Group += "." + unit
			}
		}
	}
}

func checkP01(h *Hist, o *Out) {
	c := h.Sc.conf()
	for _, e := range h.Stmts {
		switch {
		case strings.Contains(e.Text, "/*DISABLED*/"):
			o.fail("disabled", "a disabled stage was run: %q", e.Text)
			return
		case strings.Contains(e.Text, "/*DECOY*/"):
			o.fail("other-file", "a trx file relative to the working directory was run, not the one relative to the stage file: %q", e.Text)
			return
		}
	}
	work := false
	for _, e := range h.Stmts {
		if e.Kind == "work" && h.Sc.Conf.Db != "" && e.Db != h.Sc.Conf.Db {
			o.fail("database", "%q was executed in database %q, the command line has --database %s", e.Text, e.Db, h.Sc.Conf.Db)
			return
		}
		work = work || e.Kind == "work"
	}
	if h.Faults["fs-stat"]+h.Faults["fs-open"]+h.Faults["fs-read"] > 0 {
		o.hit("file-error")
		for _, x := range h.Exits {
			if x.Node == 0 && !work && x.Code == 0 && x.How != "panic" {
				o.fail("error-ignored", "a configuration file could not be read, but the program ended without an error and without running the stage")
				return
			}
		}
		if !work {
			for _, x := range h.Exits {
				if x.How == "panic" {
					o.fail("panic", "the program crashed: %.400s", x.Msg)
				}
			}
			return
		}
	}
	key := func(c *mysqldrv.Config) string {
		return c.User + ":" + c.Passwd + "@" + c.Net + "(" + c.Addr + ")/" + c.DBName
	}
	for _, l := range h.DB.labels {
		got, err := mysqldrv.ParseDSN(l.DSN)
		if err != nil {
			o.fail("dsn", "the MySQL DSN %q is not valid: %v", l.DSN, err)
			return
		}
		ok, want, bad := false, "", ""
		for i := range c.my {
			if l.StageName != "" && h.Sc.Stages[i].Name != l.StageName {
				continue
			}
			want = key(&c.my[i])
			if want == key(got) {
				if bad = c.tls[i].check(l.TLS); bad == "" {
					ok = true
					if w := c.tls[i]; w.rds {
						o.hit("tls-rds")
					} else if w.on {
						o.hit("tls")
					} else {
						o.hit("no-tls")
					}
					break
				}
			}
		}
		o.evals++
		if !ok && bad != "" {
			o.fail("tls", "the MySQL connection of stage %q to %q: %s", l.StageName, key(got), bad)
			return
		}
		if !ok {
			o.fail("dsn", "stage %q connects to MySQL with %q, the configuration says %q", l.StageName, key(got), want)
			return
		}
	}
	for _, k := range sortedKeys(c.uses) {
		o.hit(k)
	}
	if h.Sc.Conf.MySQL > 0 {
		o.hit("mysql-layers")
	}
	o.hit("as-" + h.Sc.Conf.Theme)
	oracles[h.Sc.Conf.Theme](h, o)
}
