package main

import (
	"encoding/json"
	"fmt"
	mysqldrv "github.com/go-sql-driver/mysql"
	"os"
	"sort"
	"strings"
	"time"

	"simrt"
	"simrt/simnet"
)

const maxNodes = 4

// Binding is one copy of the program.
type Binding struct {
	Reset, Main, Setup func()
}

var bindings [maxNodes]Binding

// Violation of a property seen in a run.
type Violation struct {
	Prop, Class, Msg string
	At               int64
}

// Report is one call of a reporter.
type Report struct {
	At    int64
	Node  int
	Gen   int
	Stage string
	Rec   *Recorder
	Insts []Inst
	Stop  bool
}

type StatsJ struct {
	Buckets [][]uint64
	Min     []int64
	Max     []int64
	N       []uint64
	Errors  map[string]uint64
}

type Inst struct {
	Hostname string
	Clients  uint
	Interval uint
	Seconds  float64
	Runtime  float64
	Total    *StatsJ
	Trx      map[string]*StatsJ
}

// Recorder is the harness's statistics reporter.
type Recorder struct {
	Node, Gen int
	Stage     string
	Made      int64
	Stopped   int
}

func newRecorder(opts map[string]string) *Recorder {
	n := simrt.CurNode()
	r := &Recorder{Node: n.Idx, Gen: n.Starts, Stage: opts["stage"], Made: simrt.S.SimNow()}
	hist.Recs = append(hist.Recs, r)
	return r
}

// Report implements the reporter.
func (r *Recorder) Report(from any) {
	b, err := json.Marshal(from)
	if err != nil {
		panic(simrt.HarnessPanic("stats do not marshal: " + err.Error()))
	}
	rep := &Report{At: simrt.S.SimNow(), Node: r.Node, Gen: r.Gen, Stage: r.Stage, Rec: r}
	if err := json.Unmarshal(b, &rep.Insts); err != nil {
		panic(simrt.HarnessPanic("stats do not unmarshal: " + err.Error()))
	}
	hist.Reports = append(hist.Reports, rep)
	var s []string
	for _, in := range rep.Insts {
		s = append(s, fmt.Sprintf("%s#%d", in.Hostname, in.Interval))
		if in.Total != nil {
			s = append(s, fmt.Sprintf("N=%v min=%v max=%v E=%v %.4fs", in.Total.N, in.Total.Min, in.Total.Max, in.Total.Errors, in.Seconds))
		}
	}
	hist.log("report", simrt.Cur(), r.Stage+" "+strings.Join(s, " "))
	if r.Stopped > 0 {
		hist.violate("S04", "use-after-stop", "a reporter was called after it had been stopped")
	}
	simrt.P()
}

// Stop implements the reporter.
func (r *Recorder) Stop() {
	r.Stopped++
	hist.Reports = append(hist.Reports, &Report{At: simrt.S.SimNow(), Node: r.Node, Gen: r.Gen, Stage: r.Stage, Rec: r, Stop: true})
	hist.log("report-stop", simrt.Cur(), r.Stage)
	if r.Stopped > 1 {
		hist.violate("S04", "stopped-twice", "a reporter was stopped twice")
	}
}

// Hist is what happened in one run.
type Hist struct {
	Sc       *Scenario
	Stmts    []*StmtEv
	Conns    []*ConnEv
	Reports  []*Report
	Recs     []*Recorder
	Viol     []Violation
	Faults   map[string]int
	Nodes    []*simrt.Node
	GEnd     map[*simrt.G]int64
	Marks    []Mark
	End      int64
	EndCause string
	Trace    []string
	tracing  bool
	States   uint64 // hash of the order of observable events
	Hash     uint64
	Choices  map[simrt.Key]uint32
	Stat     simrt.Counters
	Steps    uint64
	Gs       []string
	Wall     time.Duration
	Reqs     []*simnet.Req
	Starts   [][]int64 // per node
	Exits    []ExitEv
	Msgs     []Msg
	w        *simnet.World
	firstW   int64
	Sess     []*Sess
	DB       *DB
	streams_ []*Client
	groups_  map[int][][]*grp
	insts_   []*inst
	snaps    map[[2]int]*Snap           // per process
	begin    map[[2]int]map[string]bool // temporary files when it started
	left     map[[2]int]string          // what it left behind
	again    []int
	idleLeft int
}

// Mark is an environment event that happened.
type Mark struct {
	At   int64
	Kind string
	Node int
	For  int64
}

// ExitEv is the end of a process.
type ExitEv struct {
	At   int64
	Node int
	Gen  int
	How  string
	Code int
	Msg  string
}

// Msg is a network event.
type Msg struct {
	At   int64
	What string
	R    *simnet.Req
}

var hist *Hist

func (h *Hist) fault(k string) { h.Faults[k]++ }

func (h *Hist) log(kind string, g *simrt.G, s string) {
	if simrt.S == nil {
		return
	}
	id := 0
	nn := "-"
	if g != nil {
		id = g.Seq
		if g.Node != nil {
			nn = g.Node.Name
		}
	}
	l := fmt.Sprintf("%12.6f %s g%d %s %s", float64(simrt.S.SimNow())/1e9, nn, id, kind, s)
	simrt.S.Mix(l)
	if h.tracing {
		h.Trace = append(h.Trace, l)
	}
	// interleaving measure: order of events without times
	x := h.States
	for _, c := range []byte(kind) {
		x = (x ^ uint64(c)) * 1099511628211
	}
	h.States = (x ^ uint64(id)) * 1099511628211
}

func (h *Hist) violate(prop, class, msg string) {
	at := h.End
	if simrt.S != nil {
		at = simrt.S.SimNow()
	}
	for _, v := range h.Viol {
		if v.Prop == prop && v.Class == class {
			return
		}
	}
	h.Viol = append(h.Viol, Violation{prop, class, msg, at})
}

func ms(n int) int64 { return int64(n) * int64(time.Millisecond) }

// execute runs a scenario.
func execute(sc *Scenario, replay map[simrt.Key]uint32, tracing bool) *Hist {
	sc.prep()
	cfg := simrt.Config{Seed: sc.Seed, Replay: replay, Policy: sc.Sched.Policy, SchedP: sc.Sched.SchedP, PMean: sc.Sched.PMean, HotP: sc.Sched.HotP, StallP: sc.Sched.StallP, StallMax: sc.Sched.StallMax, MapP: sc.Sched.MapP, TimerP: sc.Sched.TimerP, Cost: sc.Sched.Cost, MaxTime: ms(sc.MaxMS), MaxSteps: 60_000_000, MaxWall: 20 * time.Second}
	if cfg.Cost == 0 {
		cfg.Cost = 2000
	}
	s := simrt.NewSim(cfg)
	for _, n := range []string{"benchmark", "rds"} { // what an earlier run registered
		mysqldrv.DeregisterTLSConfig(n)
	}
	h := &Hist{Sc: sc, Faults: map[string]int{}, GEnd: map[*simrt.G]int64{}, snaps: map[[2]int]*Snap{}, begin: map[[2]int]map[string]bool{}, left: map[[2]int]string{}, tracing: tracing, firstW: -1}
	hist = h
	db = &DB{sc: sc, h: h, tables: map[string]map[string]*table{}, last: map[*simrt.G]*connector{}, views: sc.Views}
	h.DB = db
	db.tables[defaultDB] = map[string]*table{"t": {}}
	if sc.Conf != nil && sc.Conf.Db != "" {
		db.tables[sc.Conf.Db] = map[string]*table{"t": {}}
	}
	for _, st := range sc.stmtByTag {
		if st.Table != "" {
			db.tables[defaultDB][st.Table] = &table{}
		}
	}
	for _, st := range sc.Stages {
		for _, g := range st.Groups {
			if g.Db != "" && db.tables[g.Db] == nil {
				db.tables[g.Db] = map[string]*table{}
			}
		}
	}
	if tracing {
		s.Trace = func(x string) { h.Trace = append(h.Trace, x) }
	}
	w := simnet.Reset()
	h.w = w
	cuts := map[int]bool{}
	w.Cut = func(a, b string) bool {
		for i := range cuts {
			if a == hostOf(i) || b == hostOf(i) {
				return true
			}
		}
		return false
	}
	fails := map[string]int{}
	w.Decide = func(r *simnet.Req) simnet.Verdict { return decide(sc, h, r, fails) }
	w.Observe = func(what string, r *simnet.Req) {
		if what == "cut-resp" {
			h.fault("net-reset-in-response-body")
			return
		}
		h.Msgs = append(h.Msgs, Msg{s.SimNow(), what, r})
		if what == "send" && r.Method+r.Path == "POST/boot" && !bodyErr(r.Body) {
			if k := [2]int{r.From.Idx, r.Gen}; h.snaps[k] == nil {
				h.snaps[k] = snapshot(r.From)
			}
		}
		h.log("net-"+what, simrt.Cur(), fmt.Sprintf("#%d %s->%s %s %s %d", r.N, r.FromHost, r.ToHost, r.Method, r.Path, r.Status))
	}

	nNodes := 1 + len(sc.Remotes)
	h.again = make([]int, nNodes)
	var restart func(i int, d int64)
	starting := 0
	mk := func(i int) {
		name, host := "server", hostOf(0)
		args := []string{"finch"}
		if i == 0 {
			if sc.Server {
				args = append(args, "--server", ":33075")
			}
			if sc.Test {
				args = append(args, "--test")
			}
			if sc.Conf != nil {
				args = append(args, sc.conf().args...)
			} else {
				for j := range sc.Stages {
					args = append(args, stageFile(j))
				}
			}
		} else {
			name, host = sc.Remotes[i-1].Name, hostOf(i)
			args = append(args, "--client", hostOf(0)+":33075")
		}
		n := s.NewNode(name, host)
		n.Args = args
		sc.install(n, i > 0)
		n.OnExit = func(n *simrt.Node) {
			h.Exits = append(h.Exits, ExitEv{s.SimNow(), n.Idx, n.Starts, n.ExitHow, n.ExitCode, n.ExitMsg})
			for _, p := range n.FS.List("/tmp/") {
				if k := [2]int{i, n.Starts}; !h.begin[k][p] {
					h.left[k] = p
				}
			}
			h.log("exit", nil, fmt.Sprintf("%s %s %d", n.Name, n.ExitHow, n.ExitCode))
			if i > 0 && h.Nodes[0].State == simrt.NodeRunning && n.ExitHow != "kill" && h.again[i] < sc.Remotes[i-1].Again {
				h.again[i]++
				restart(i, ms(sc.Remotes[i-1].AgainMS)+1)
			}
			// the kernel closes the connections of a dead process
			for _, x := range db.sess {
				if x.Node == n.Idx {
					db.breakSess(x, "process exit")
				}
			}
		}
		if sc.FS.P > 0 && i > 0 {
			n.FS.Fault = func(op, path string) error {
				if sc.FS.Until > 0 && s.SimNow() > ms(sc.FS.Until) {
					return nil
				}
				if op == "write" || op == "create" || op == "mkdir" {
					if v := simrt.ChooseP(KFS, 2, sc.FS.P); v > 0 {
						h.fault("fs-" + op)
						return fmt.Errorf("%s %s: no space left on device", op, path)
					}
				}
				return nil
			}
		}
		if p := sc.readFaults(); p > 0 && i == 0 {
			n.FS.Fault = func(op, path string) error {
				if op == "open" || op == "read" || op == "stat" {
					if v := simrt.ChooseP(KFS, 2, p); v > 0 {
						h.fault("fs-" + op)
						return fmt.Errorf("input/output error")
					}
				}
				return nil
			}
		}
		h.Nodes = append(h.Nodes, n)
		h.Starts = append(h.Starts, nil)
	}
	for i := 0; i < nNodes; i++ {
		mk(i)
	}
	start := func(i int) {
		n := h.Nodes[i]
		if n.State == simrt.NodeRunning {
			return
		}
		h.Starts[i] = append(h.Starts[i], s.SimNow())
		h.log("start", nil, n.Name)
		old := map[string]bool{}
		for _, p := range n.FS.List("/tmp/") {
			old[p] = true
		}
		h.begin[[2]int{i, n.Starts + 1}] = old
		b := bindings[i]
		n.Start(func() {
			simrt.NoPreempt(func() { b.Reset(); b.Setup() })
			b.Main()
		})
	}
	pending := 0
	at := func(d int64, f func()) {
		pending++
		s.At(time.Duration(d), func() { pending--; f() })
	}
	start(0)
	restart = func(i int, d int64) {
		starting++
		at(d, func() {
			starting--
			if h.Nodes[0].State == simrt.NodeRunning {
				start(i)
			}
		})
	}
	for i, r := range sc.Remotes {
		restart(i+1, ms(r.StartMS))
	}
	var fire func(e EventS)
	fire = func(e EventS) {
		mark := func(k string) {
			h.Marks = append(h.Marks, Mark{s.SimNow(), k, e.Node, ms(e.ForMS)})
			h.log("event", nil, k)
		}
		switch e.Kind {
		case "interrupt":
			if e.Node < len(h.Nodes) && h.Nodes[e.Node].State == simrt.NodeRunning {
				mark(e.Kind)
				h.fault("interrupt")
				h.Nodes[e.Node].Signal(os.Interrupt)
			}
		case "kill-remote":
			if e.Node < len(h.Nodes) && h.Nodes[e.Node].State == simrt.NodeRunning {
				mark(e.Kind)
				h.fault("process-kill")
				h.Nodes[e.Node].Kill()
				if e.ForMS > 0 {
					n := e.Node
					h.fault("process-restart")
					restart(n, ms(e.ForMS))
				}
			}
		case "start-remote":
			if e.Node < len(h.Nodes) {
				if h.Nodes[e.Node].State != simrt.NodeRunning {
					mark(e.Kind)
					start(e.Node)
				}
			}
		case "kill-server":
			if h.Nodes[0].State == simrt.NodeRunning {
				mark(e.Kind)
				h.fault("server-kill")
				h.Nodes[0].Kill()
			}
		case "partition":
			mark(e.Kind)
			h.fault("partition")
			cuts[e.Node] = true
			if e.ForMS > 0 {
				n := e.Node
				at(ms(e.ForMS), func() { delete(cuts, n); h.log("event", nil, "heal") })
			}
		case "mysql-down":
			mark(e.Kind)
			h.fault("mysql-down")
			db.down = true
			db.breakAll("mysql down")
			at(ms(e.ForMS), func() { db.down = false; h.log("event", nil, "mysql-up") })
		case "mysql-hang":
			mark(e.Kind)
			h.fault("mysql-connect-hang")
			db.hang = true
			db.breakAll("mysql hang")
			at(ms(e.ForMS), func() { db.hang = false; h.log("event", nil, "mysql-unhang") })
		case "break-conns":
			mark(e.Kind)
			h.fault("mysql-kills-connections")
			db.breakAll("killed")
		case "read-only":
			mark(e.Kind)
			h.fault("mysql-read-only")
			db.readOn = true
			at(ms(e.ForMS), func() { db.readOn = false })
		}
	}
	for _, e := range sc.Events {
		e := e
		if e.On == "" {
			at(ms(e.AtMS), func() { fire(e) })
		}
	}
	triggered := false
	trig := func() {
		triggered = true
		for _, e := range sc.Events {
			e := e
			if e.On == "work" {
				at(ms(e.AtMS), func() { fire(e) })
			}
		}
	}
	s.OnGEnd = func(g *simrt.G) { h.GEnd[g] = s.SimNow() }
	nst := 0
	nextLook := int64(0)
	t0 := time.Now()
	s.Run(func() bool {
		if !triggered {
			for ; nst < len(h.Stmts); nst++ {
				if h.Stmts[nst].Kind == "work" {
					h.firstW = h.Stmts[nst].T0
					trig()
					break
				}
			}
		}
		h.End = s.SimNow()
		if s.EndCause == "" {
			alive := 0
			for _, n := range h.Nodes {
				if n.State == simrt.NodeRunning {
					alive++
				}
			}
			if alive == 0 {
				return starting == 0
			}
			if h.Nodes[0].State != simrt.NodeRunning && len(sc.Remotes) > 0 && starting == 0 && s.SimNow()-h.Nodes[0].ExitAt > ms(3000) && s.SimNow() > nextLook {
				nextLook = s.SimNow() + ms(100)
				// instances that never got a stage wait for a server forever
				for i := 1; i < nNodes; i++ {
					if h.Nodes[i].State == simrt.NodeRunning && h.joined(i) {
						return false
					}
				}
				h.idleLeft = alive
				return true
			}
			h.Gs = nil
		}
		return false
	})
	h.Wall = time.Since(t0)
	h.EndCause = s.EndCause
	h.End = s.SimNow()
	h.Hash = s.Hash()
	h.Choices = s.Recorded()
	h.Stat = s.Stat
	h.Steps = s.Steps()
	h.Reqs = w.Reqs
	h.Sess = db.sess
	return h
}

// joined tells whether the running process of a node got a stage to boot.
func (h *Hist) joined(i int) bool {
	for _, r := range h.w.Reqs {
		if r.From.Idx == i && r.Gen == h.Nodes[i].Starts && r.Path == "/boot" && r.Method == "GET" && r.Status == 200 {
			return true
		}
	}
	return false
}

// readFaults is the probability that reading a configuration file fails.
func (sc *Scenario) readFaults() float64 {
	if sc.Conf != nil {
		return sc.Conf.FSP
	}
	if sc.Prop == "P02" {
		return sc.FS.P
	}
	return 0
}

func stageFile(i int) string { return fmt.Sprintf("stage%d.yaml", i) }

func hostOf(i int) string {
	if i == 0 {
		return "server"
	}
	return fmt.Sprintf("h%d", i)
}

func decide(sc *Scenario, h *Hist, r *simnet.Req, fails map[string]int) simnet.Verdict {
	n := sc.Net
	v := simnet.Verdict{ReqLat: time.Duration(n.LatUS) * time.Microsecond, RespLat: time.Duration(n.LatUS) * time.Microsecond}
	if n.LatSpread > 0 {
		v.ReqLat += time.Duration(simrt.RandU64()%uint64(n.LatSpread)) * time.Microsecond
		v.RespLat += time.Duration(simrt.RandU64()%uint64(n.LatSpread)) * time.Microsecond
	}
	if n.FaultUntil > 0 && simrt.S.SimNow() > ms(n.FaultUntil) {
		return v
	}
	key := r.FromHost + r.Method + r.Path
	if i := strings.Index(key, "?"); i >= 0 {
		key = key[:i]
	}
	if n.Budget > 0 && fails[key] >= n.Budget {
		fails[key] = 0
		return v
	}
	kinds := n.Kinds
	if kinds == 0 {
		kinds = 5
	}
	bad := false
	if n.LossP > 0 {
		switch simrt.ChooseP(KNetLoss, kinds+1, n.LossP) {
		case 1:
			v.LoseReq, bad = true, true
			h.fault("net-request-lost")
		case 2:
			v.LoseResp, bad = true, true
			h.fault("net-response-lost")
		case 3:
			v.LoseResp, v.Reset, bad = true, true, true
			h.fault("net-reset-after-processing")
			if x := simrt.RandU64(); x&1 == 1 {
				v.Cut = x >> 1
			}
		case 4:
			v.LoseReq, v.Reset, bad = true, true, true
			h.fault("net-reset")
		case 5:
			if r.Method == "GET" {
				v.Redo = true
				h.fault("net-transport-repeats-get")
			}
		}
	}
	// delivered after the sender gave up waiting for the response
	if n.LateP > 0 && !bad && simrt.ChooseP(KNetLate, 2, n.LateP) == 1 {
		d := []uint64{300, 1000, 5000}[simrt.RandU64()%3]
		v.ReqLat, bad = time.Duration(510+simrt.RandU64()%d)*time.Millisecond, true
		h.fault("net-request-late")
	}
	if n.LatP > 0 {
		lats := []time.Duration{0, 30 * time.Millisecond, 150 * time.Millisecond, 700 * time.Millisecond, 2500 * time.Millisecond}
		nl := len(lats)
		if n.Budget > 0 {
			nl = 3
		}
		if k := simrt.ChooseP(KNetLat, nl, n.LatP); k > 0 {
			v.ReqLat += lats[k]
			h.fault("net-delay")
		}
		if k := simrt.ChooseP(KNetLat, nl, n.LatP); k > 0 {
			v.RespLat += lats[k]
			h.fault("net-delay")
		}
		if v.ReqLat+v.RespLat > 200*time.Millisecond {
			bad = true
		}
	}
	if bad {
		fails[key]++
	} else {
		fails[key] = 0
	}
	return v
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
