package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"

	"simrt"
)

func clone(sc *Scenario) *Scenario {
	b, _ := json.Marshal(sc)
	var c Scenario
	json.Unmarshal(b, &c)
	return &c
}

// shrinkMain minimises the scenario and the choices of a violating seed and
// writes the replay file.
func shrinkMain(prop string, seed uint64, class, path string, d time.Duration) int {
	until := time.Now().Add(d)
	sc := generate(prop, seed)
	ex := func(sc *Scenario, rp map[simrt.Key]uint32, tracing bool) (*Hist, *Violation) {
		h := execute(sc, rp, tracing)
		judge(h, prop)
		for i := range h.Viol {
			if h.Viol[i].Class == class {
				return h, &h.Viol[i]
			}
		}
		return h, nil
	}
	h, v := ex(sc, nil, false)
	if v == nil {
		fmt.Fprintln(os.Stderr, "seed does not reproduce the violation")
		return 3
	}
	cur, choices := sc, h.Choices
	orig := len(choices)
	origStmts := len(h.Stmts)
	write := func() bool {
		h, v := ex(cur, choices, true)
		if v == nil {
			return false
		}
		rp := Replay{Property: prop, Class: class, Message: v.Msg, Seed: seed, Scenario: cur, Choices: encChoices(h.Choices), Hash: fmt.Sprintf("%x", h.Hash), Trace: traceOf(h)}
		rp.Note = "replay with: /verif/check.sh replay FILE; Choices are the scheduling and fault decisions that differ from the default (first runnable goroutine, no fault)"
		rp.Orig.Choices, rp.Orig.Stmts = orig, origStmts
		b, _ := json.MarshalIndent(rp, "", " ")
		os.MkdirAll(filepath.Dir(path), 0o755)
		return os.WriteFile(path, append(b, '\n'), 0o644) == nil
	}
	if !write() {
		fmt.Fprintln(os.Stderr, "the recorded choices do not reproduce the violation")
		return 3
	}
	left := func() bool { return time.Now().Before(until) }
	// scenario
	for again := true; again && left(); {
		again = false
		for _, f := range edits(cur) {
			if !left() {
				break
			}
			c := clone(cur)
			if !f(c) || !valid(c) {
				continue
			}
			if h, v := ex(c, choices, false); v != nil {
				cur, choices, again = c, h.Choices, true
				break
			}
			if h, v := ex(c, nil, false); v != nil {
				cur, choices, again = c, h.Choices, true
				break
			}
		}
	}
	// choices: ddmin
	keys := make([]simrt.Key, 0, len(choices))
	for k := range choices {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := keys[i], keys[j]
		if a.Kind != b.Kind {
			return a.Kind < b.Kind
		}
		if a.G != b.G {
			return a.G < b.G
		}
		return a.N < b.N
	})
	try := func(ks []simrt.Key) bool {
		m := map[simrt.Key]uint32{}
		for _, k := range ks {
			m[k] = choices[k]
		}
		_, v := ex(cur, m, false)
		return v != nil
	}
	chunk := len(keys)
	if left() && try(nil) {
		keys = nil
	}
	for len(keys) > 0 && chunk >= 1 && left() {
		removed := false
		for i := 0; i < len(keys) && left(); {
			e := i + chunk
			if e > len(keys) {
				e = len(keys)
			}
			ks := append(append([]simrt.Key{}, keys[:i]...), keys[e:]...)
			if try(ks) {
				keys = ks
				removed = true
			} else {
				i = e
			}
		}
		if chunk == 1 && !removed {
			break
		}
		if chunk > 1 {
			chunk = (chunk + 1) / 2
		}
	}
	m := map[simrt.Key]uint32{}
	for _, k := range keys {
		m[k] = choices[k]
	}
	full := choices
	choices = m
	if !write() {
		choices = full
		if !write() {
			return 3
		}
	}
	fmt.Printf("minimised: %d of %d choices left, replay %s\n", len(choices), orig, path)
	return 0
}

// valid: edits keep a scenario meaningful.
func valid(sc *Scenario) bool {
	if len(sc.Stages) == 0 {
		return false
	}
	for _, st := range sc.Stages {
		if len(st.Trx) == 0 {
			return false
		}
		used := map[string]bool{}
		for _, t := range st.Trx {
			ok := false
			have := map[string]bool{}
			for _, d := range t.Data {
				have[d.Key] = true
			}
			for _, s := range t.Stmts {
				if s.IdleMS == 0 {
					ok = true
				}
				for _, k := range s.Save {
					have[k] = true
				}
				if s.SaveID != "" {
					have[s.SaveID] = true
				}
			}
			if !ok {
				return false
			}
			for _, s := range t.Stmts {
				for _, k := range append(append([]string{}, s.Inputs...), s.CSVInputs...) {
					k = trimKey(k)
					used[k] = true
					if k != "PREV" && !have[k] {
						return false
					}
				}
			}
			for k := range have {
				if k != "_" && !used[k] {
					return false
				}
			}
		}
		for _, g := range st.Groups {
			for _, n := range g.Trx {
				ok := false
				for _, t := range st.Trx {
					if t.Name == n {
						ok = true
					}
				}
				if !ok {
					return false
				}
			}
		}
	}
	return true
}

// edits are the simplifications tried on a scenario.
func edits(sc *Scenario) []func(*Scenario) bool {
	var l []func(*Scenario) bool
	add := func(f func(*Scenario) bool) { l = append(l, f) }
	for i := range sc.Events {
		i := i
		add(func(c *Scenario) bool { c.Events = append(c.Events[:i], c.Events[i+1:]...); return true })
	}
	for i := len(sc.Stages) - 1; i >= 0 && len(sc.Stages) > 1; i-- {
		i := i
		add(func(c *Scenario) bool {
			c.Stages = append(c.Stages[:i], c.Stages[i+1:]...)
			for i, st := range c.Stages {
				if st.NoName {
					st.Name = stageFile(i)
				}
			}
			return true
		})
	}
	for i, st := range sc.Stages {
		i := i
		if st.Disabled {
			add(func(c *Scenario) bool { c.Stages[i].Disabled = false; return true })
		}
		if st.Bad != "" {
			add(func(c *Scenario) bool { c.Stages[i].Bad = ""; return true })
		}
	}
	if k := sc.Conf; k != nil {
		flag := func(p func(c *ConfS) *bool) {
			if *p(k) {
				add(func(c *Scenario) bool { *p(c.Conf) = false; return true })
			}
		}
		flag(func(c *ConfS) *bool { return &c.Decoys })
		flag(func(c *ConfS) *bool { return &c.CLI })
		flag(func(c *ConfS) *bool { return &c.Env })
		flag(func(c *ConfS) *bool { return &c.Human })
		flag(func(c *ConfS) *bool { return &c.MyCnf })
		flag(func(c *ConfS) *bool { return &c.TLS })
		flag(func(c *ConfS) *bool { return &c.BaseStats })
		flag(func(c *ConfS) *bool { return &c.Dirs })
		flag(func(c *ConfS) *bool { return &c.Base })
		flag(func(c *ConfS) *bool { return &c.Params })
		if k.MySQL > 0 && k.Db == "" {
			add(func(c *Scenario) bool { c.Conf.MySQL = 0; c.Conf.MyCnf = false; return true })
		}
		if k.Disabled > 0 {
			add(func(c *Scenario) bool { c.Conf.Disabled = 0; return true })
		}
		if k.FSP > 0 {
			add(func(c *Scenario) bool { c.Conf.FSP = 0; return true })
		}
	}
	zero := func(p func(c *Scenario) *float64) {
		if *p(sc) > 0 {
			add(func(c *Scenario) bool { *p(c) = 0; return true })
		}
	}
	zero(func(c *Scenario) *float64 { return &c.MySQL.ErrP })
	zero(func(c *Scenario) *float64 { return &c.MySQL.DropP })
	zero(func(c *Scenario) *float64 { return &c.MySQL.RowErrP })
	zero(func(c *Scenario) *float64 { return &c.MySQL.ConnP })
	zero(func(c *Scenario) *float64 { return &c.MySQL.SpikeP })
	zero(func(c *Scenario) *float64 { return &c.MySQL.RollbackErrP })
	zero(func(c *Scenario) *float64 { return &c.MySQL.AnalyzeErrP })
	if sc.MySQL.AuxMS > 0 {
		add(func(c *Scenario) bool { c.MySQL.AuxMS = 0; return true })
	}
	zero(func(c *Scenario) *float64 { return &c.Net.LossP })
	zero(func(c *Scenario) *float64 { return &c.Net.LatP })
	zero(func(c *Scenario) *float64 { return &c.Net.LateP })
	zero(func(c *Scenario) *float64 { return &c.FS.P })
	zero(func(c *Scenario) *float64 { return &c.Sched.StallP })
	zero(func(c *Scenario) *float64 { return &c.Sched.PMean })
	zero(func(c *Scenario) *float64 { return &c.Sched.HotP })
	zero(func(c *Scenario) *float64 { return &c.Sched.MapP })
	zero(func(c *Scenario) *float64 { return &c.Sched.TimerP })
	if sc.Sched.Policy != 0 {
		add(func(c *Scenario) bool { c.Sched.Policy, c.Sched.SchedP = 0, 0; return true })
	}
	if sc.Sched.SchedP > 0 {
		add(func(c *Scenario) bool { c.Sched.SchedP = 0; return true })
	}
	if n := len(sc.Remotes); n > 0 {
		add(func(c *Scenario) bool {
			c.Remotes = c.Remotes[:n-1]
			for _, e := range c.Events {
				if e.Node >= n {
					return false
				}
			}
			for _, st := range c.Stages {
				if st.Instances > n {
					return false
				}
			}
			return true
		})
	}
	for si, st := range sc.Stages {
		si := si
		for i := range st.Groups {
			i := i
			if len(st.Groups) > 1 {
				add(func(c *Scenario) bool {
					s := c.Stages[si]
					s.Groups = append(s.Groups[:i], s.Groups[i+1:]...)
					return true
				})
			}
			if st.Groups[i].Clients > 1 {
				add(func(c *Scenario) bool { c.Stages[si].Groups[i].Clients--; return true })
			}
			if st.Groups[i].Iter > 1 {
				add(func(c *Scenario) bool { c.Stages[si].Groups[i].Iter--; return true })
			}
		}
		for i := range st.Trx {
			i := i
			if len(st.Trx) > 1 {
				add(func(c *Scenario) bool {
					s := c.Stages[si]
					name := s.Trx[i].Name
					s.Trx = append(s.Trx[:i], s.Trx[i+1:]...)
					for _, g := range s.Groups {
						var l []string
						for _, n := range g.Trx {
							if n != name {
								l = append(l, n)
							}
						}
						if len(g.Trx) > 0 && len(l) == 0 {
							return false
						}
						g.Trx = l
					}
					return true
				})
			}
			t := st.Trx[i]
			begun := false
			for k, s := range t.Stmts {
				k := k
				if s.Kind == "begin" {
					begun = true
				}
				if s.Kind == "begin" || s.Kind == "commit" {
					continue
				}
				add(func(c *Scenario) bool {
					t := c.Stages[si].Trx[i]
					t.Stmts = append(t.Stmts[:k], t.Stmts[k+1:]...)
					dropData(t)
					return true
				})
				if s.Copies > 0 {
					add(func(c *Scenario) bool { c.Stages[si].Trx[i].Stmts[k].Copies = 0; return true })
				}
				if s.Prepare {
					add(func(c *Scenario) bool { c.Stages[si].Trx[i].Stmts[k].Prepare = false; return true })
				}
				if len(s.Inputs) > 1 {
					add(func(c *Scenario) bool {
						t := c.Stages[si].Trx[i]
						t.Stmts[k].Inputs = t.Stmts[k].Inputs[:1]
						dropData(t)
						return true
					})
				}
			}
			if begun {
				add(func(c *Scenario) bool {
					t := c.Stages[si].Trx[i]
					var l []*StmtS
					for _, s := range t.Stmts {
						if s.Kind != "begin" && s.Kind != "commit" {
							l = append(l, s)
						}
					}
					t.Stmts = l
					return true
				})
			}
		}
	}
	return l
}

func dropData(t *TrxS) {
	used := map[string]bool{}
	for _, s := range t.Stmts {
		for _, k := range append(append([]string{}, s.Inputs...), s.CSVInputs...) {
			used[trimKey(k)] = true
		}
	}
	var l []*DataS
	for _, d := range t.Data {
		if used[d.Key] {
			l = append(l, d)
		}
	}
	t.Data = l
}
