// Package simrt is the deterministic simulation runtime the rewritten program
// runs on: one goroutine runs at a time, and everything that is nondeterministic
// in a real execution (who runs next, where a goroutine is preempted, select
// choice, map order, timer ties, random numbers, faults) is a choice drawn here.
package simrt

import (
	"container/heap"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"time"
)

// Kind is the kind of a choice.
type Kind uint8

const (
	KSched   Kind = iota // which runnable goroutine continues
	KPreempt             // preemption at a statement
	KSelect              // select with several ready cases
	KMap                 // map iteration order
	KTimer               // timer firing order / goroutines first
	KPool
	KFault // harness faults start here
)

var kindNames = map[Kind]string{KSched: "sched", KPreempt: "preempt", KSelect: "select", KMap: "maporder", KTimer: "timer", KPool: "pool"}

// NameKind gives a harness choice kind a name.
func NameKind(k Kind, name string) { kindNames[k] = name }

func (k Kind) String() string {
	if n, ok := kindNames[k]; ok {
		return n
	}
	return fmt.Sprintf("k%d", uint8(k))
}

// Key identifies one choice of a run: its kind, the goroutine that made it (an
// id derived from its ancestry, not from creation order) and a counter.
type Key struct {
	Kind Kind
	G    uint64
	N    uint64
}

const maxKinds = 64

// G is a simulated goroutine.
type G struct {
	ID    uint64 // ancestry hash
	Seq   int    // creation order, for display
	Name  string
	Node  *Node
	Attrs map[string]any

	wake     chan struct{}
	pc       uint64
	nextP    uint64
	quantum  uint64
	ctr      [maxKinds]uint64
	rnd      uint64
	children uint64
	blocked  bool
	running  bool
	killed   bool
	killAck  chan struct{}
	deadOps  int
	reason   string
	waitSel  *selWait
	waitMu   *Mutex // it waits for this one
	prio     uint64
	fn       func()
	spins    int
	atomicN  int
}

type timer struct {
	when int64
	seq  uint64
	f    func()
	idx  int
	node *Node // timers of a process die with it
	gen  int
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].when != h[j].when {
		return h[i].when < h[j].when
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) {
	h[i], h[j] = h[j], h[i]
	h[i].idx = i
	h[j].idx = j
}
func (h *timerHeap) Push(x any) { t := x.(*timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	o[len(o)-1] = nil
	*h = o[:len(o)-1]
	t.idx = -1
	return t
}

// Config is the schedule configuration of one run.
type Config struct {
	Seed     uint64
	Replay   map[Key]uint32 // non-nil: replay exactly these choices, no search
	Policy   int            // 0 fifo with random deviations, 1 random, 2 priorities (PCT)
	SchedP   float64        // probability of deviating from fifo
	PMean    float64        // mean number of statements between preemptions, 0 none
	HotP     float64        // probability of a preemption soon after synchronisation
	StallP   float64        // probability that a preemption is a stall
	StallMax int            // index limit in Stalls
	MapP     float64
	TimerP   float64
	Cost     int64 // ns a context switch costs
	MaxTime  int64 // ns of simulated time
	MaxSteps uint64
	MaxWall  time.Duration
}

// Stalls are the lengths of injected goroutine stalls.
var Stalls = []time.Duration{50 * time.Microsecond, 300 * time.Microsecond, time.Millisecond, 4 * time.Millisecond, 15 * time.Millisecond, 60 * time.Millisecond, 250 * time.Millisecond}

// Sim is one simulated execution.
type Sim struct {
	Cfg     Config
	runq    []*G
	now     int64
	seq     uint64
	timers  timerHeap
	Nodes   []*Node
	rec     map[Key]uint32
	rng     uint64
	sysG    *G // pseudo goroutine for choices in timer context
	sysWake chan struct{}
	done    chan struct{}
	ended   bool
	gseq    int
	steps   uint64
	replayP map[uint64][]uint64 // gid -> sorted statement counts of replayed preemptions

	Stat     Counters
	EndCause string
	stopFn   func() bool
	hash     uint64
	pctDepth int
	Trace    func(string)
	OnSwitch func(*G)
	OnGEnd   func(*G)
	gs       map[*G]struct{}
	start    time.Time
	firing   *timer
}

// Counters of one run.
type Counters struct {
	SpinNS, Switches, Preempts, StallsN, TimersFired, Statements, Goroutines, Selects, TimerTies uint64
	Choices                                                                                      uint64
	StallNS                                                                                      uint64 // sum of the stalls
}

var (
	S   *Sim
	cur *G
)

// Base is the simulated wall clock at simulated time zero.
var Base = time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC)

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (s *Sim) rand() uint64 {
	s.rng += 0x9e3779b97f4a7c15
	return mix(s.rng)
}

func (s *Sim) rfloat() float64 { return float64(s.rand()>>11) / (1 << 53) }

// NewSim prepares a run; it becomes the current one.
func NewSim(cfg Config) *Sim {
	s := &Sim{Cfg: cfg, rec: map[Key]uint32{}, rng: mix(cfg.Seed ^ 0xabcdef), sysWake: make(chan struct{}, 1), done: make(chan struct{}), gs: map[*G]struct{}{}}
	s.sysG = &G{ID: 1, Name: "system", Attrs: map[string]any{}}
	if cfg.Replay != nil {
		s.replayP = map[uint64][]uint64{}
		for k := range cfg.Replay {
			if k.Kind == KPreempt {
				s.replayP[k.G] = append(s.replayP[k.G], k.N)
			}
		}
		for _, v := range s.replayP {
			sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
		}
	}
	S = s
	cur = nil
	chans = map[uintptr]*hq{}
	closedSet = map[uintptr]any{}
	return s
}

// Recorded returns the non-default choices of the run.
func (s *Sim) Recorded() map[Key]uint32 { return s.rec }

// Hash is the running hash of the event log.
func (s *Sim) Hash() uint64 { return s.hash }

// Mix adds an event to the event-log hash.
func (s *Sim) Mix(str string) {
	h := s.hash
	for i := 0; i < len(str); i++ {
		h = (h ^ uint64(str[i])) * 1099511628211
	}
	s.hash = mix(h ^ uint64(s.now))
}

// Steps is the number of statements executed.
func (s *Sim) Steps() uint64 { return s.steps }

// SimNow is the simulated time in ns.
func (s *Sim) SimNow() int64 { return s.now }

func who() *G {
	if cur != nil {
		return cur
	}
	return S.sysG
}

// Cur is the running goroutine (the system pseudo goroutine in timer context).
func Cur() *G { return who() }

// InSim tells whether a simulated goroutine is running.
func InSim() bool { return S != nil && cur != nil }

// Dead tells whether the running goroutine belongs to a terminated process.
func Dead() bool { return cur != nil && cur.killed }

// ChooseP draws a choice in [0,n): 0 is the default, others have total
// probability p when searching.
func ChooseP(k Kind, n int, p float64) int {
	if n <= 1 || S == nil {
		return 0
	}
	g := who()
	if g.killed {
		return 0
	}
	g.ctr[k]++
	key := Key{k, g.ID, g.ctr[k]}
	if S.Cfg.Replay != nil {
		v := int(S.Cfg.Replay[key])
		if v >= n {
			v = v % n
		}
		if v != 0 {
			S.rec[key] = uint32(v)
		}
		return v
	}
	if p <= 0 || (p < 1 && S.rfloat() >= p) {
		return 0
	}
	v := 1 + int(S.rand()%uint64(n-1))
	S.rec[key] = uint32(v)
	S.Stat.Choices++
	return v
}

// RandU64 is the simulated random source: a function of the run seed, the
// goroutine and a counter, so it does not depend on other choices.
func RandU64() uint64 {
	if S == nil {
		return 4
	}
	g := who()
	g.rnd++
	return mix(S.Cfg.Seed ^ mix(g.ID^mix(g.rnd)))
}

// ---------------------------------------------------------------- scheduling

// setNextP computes the statement count at which g is interrupted next.
func (s *Sim) setNextP(g *G) {
	const quantum = 50000
	q := (g.pc/quantum + 1) * quantum // a function of pc only: replays identically
	g.quantum = q
	next := q
	if s.Cfg.Replay != nil {
		for _, n := range s.replayP[g.ID] {
			if n > g.pc {
				if n < next {
					next = n
				}
				break
			}
		}
	} else if s.Cfg.PMean > 0 {
		// geometric-ish: uniform in 1..2*mean
		n := g.pc + 1 + s.rand()%uint64(2*s.Cfg.PMean)
		if n < next {
			next = n
		}
	}
	g.nextP = next
}

// P is called before every statement of the rewritten program.
func P() {
	g := cur
	if g == nil {
		return
	}
	g.pc++
	if g.pc >= g.nextP {
		pslow(g)
	}
}

func pslow(g *G) {
	s := S
	if g.killed {
		g.deadOps++
		if g.deadOps > 200000 {
			runtime.Goexit()
		}
		return
	}
	if g.atomicN > 0 {
		g.nextP = g.pc + 1
		return
	}
	n := g.pc
	isQ := n >= g.quantum
	if isQ {
		// The goroutine has used about one millisecond of CPU time.
		s.steps += 50000
		g.spins++
		d := int64(time.Millisecond)
		if g.spins > 20 {
			d = int64(50 * time.Millisecond)
		}
		s.now += d
		s.Stat.SpinNS += uint64(d)
		s.setNextP(g)
		s.checkLimits()
		g.reason = "spin"
		s.runq = append(s.runq, g)
		s.swtch(g)
		return
	}
	// preemption
	s.setNextP(g)
	v := 0
	key := Key{KPreempt, g.ID, n}
	if s.Cfg.Replay != nil {
		v = int(s.Cfg.Replay[key])
	} else {
		if s.Cfg.StallP > 0 && s.rfloat() < s.Cfg.StallP && s.Cfg.StallMax > 0 {
			v = 1000 + int(s.rand()%uint64(s.Cfg.StallMax))
		} else if len(s.runq) > 0 {
			v = 1 + int(s.rand()%uint64(len(s.runq)))
		}
	}
	if v == 0 {
		return
	}
	if v >= 1000 {
		s.rec[key] = uint32(v)
		s.Stat.StallsN++
		d := Stalls[(v-1000)%len(Stalls)]
		s.Stat.StallNS += uint64(d)
		s.pause(g, "stalled", int64(d))
		return
	}
	if len(s.runq) == 0 {
		return
	}
	s.rec[key] = uint32(v)
	s.Stat.Preempts++
	i := (v - 1) % len(s.runq)
	// chosen one runs next, g goes to the back
	next := s.runq[i]
	copy(s.runq[1:i+1], s.runq[:i])
	s.runq[0] = next
	s.runq = append(s.runq, g)
	g.reason = "preempted"
	s.handoff(g, true)
}

// Hot makes a preemption in the next few statements likely. It is called where
// goroutines synchronise without blocking.
func Hot() {
	g := cur
	if g == nil || g.killed || g.atomicN > 0 {
		return
	}
	P()
	s := S
	if s.Cfg.Replay == nil && s.Cfg.HotP > 0 && s.rfloat() < s.Cfg.HotP {
		if n := g.pc + 1 + s.rand()%6; n < g.nextP {
			g.nextP = n
		}
	}
}

// NoPreempt runs f without preemption (runtime-internal sections).
func NoPreempt(f func()) {
	g := cur
	if g == nil {
		f()
		return
	}
	g.atomicN++
	f()
	g.atomicN--
}

func (s *Sim) checkLimits() {
	if s.ended {
		return
	}
	if s.Cfg.MaxTime > 0 && s.now > s.Cfg.MaxTime {
		s.end("time-limit")
	} else if s.Cfg.MaxSteps > 0 && s.steps > s.Cfg.MaxSteps {
		s.end("step-limit")
	}
}

func (s *Sim) end(why string) {
	if !s.ended {
		s.ended = true
		s.EndCause = why
	}
}

// EndRun makes the run end at the next scheduling point.
func EndRun(why string) { S.end(why) }

func (s *Sim) ready(g *G) {
	if g.killed || !g.blocked {
		return
	}
	g.blocked = false
	s.runq = append(s.runq, g)
}

// block parks g, which somebody makes ready later.
func (s *Sim) block(g *G) {
	g.blocked = true
	s.swtch(g)
}

// pause parks g for d, whoever else tries to wake it.
func (s *Sim) pause(g *G, reason string, d int64) {
	over := false
	s.addTimer(s.now+d, func() { over = true; s.ready(g) })
	for !over {
		g.reason = reason
		s.block(g)
	}
}

// Yield lets other goroutines run.
func Yield() {
	g := cur
	if g == nil {
		return
	}
	if g.killed {
		return
	}
	g.reason = "yield"
	S.runq = append(S.runq, g)
	S.swtch(g)
}

// swtch gives up the processor; returns when g is scheduled again.
func (s *Sim) swtch(g *G) { s.handoff(g, false) }

func (s *Sim) handoff(g *G, chosen bool) {
	if g.pc > 0 {
		s.Stat.Statements++
	}
	s.steps++
	s.now += s.Cfg.Cost
	if s.ended || len(s.runq) == 0 || (len(s.timers) > 0 && s.timers[0].when <= s.now) || s.steps&0xfff == 0 {
		cur = nil
		s.sysWake <- struct{}{}
		<-g.wake
	} else {
		next := s.pick(chosen)
		if next == g {
			s.resume(g)
			return
		}
		s.resume(next)
		next.wake <- struct{}{}
		<-g.wake
	}
	if g.killed {
		runtime.Goexit()
	}
}

// exitG is handoff for a finished goroutine.
func (s *Sim) exitG() {
	cur = nil
	s.sysWake <- struct{}{}
}

func (s *Sim) resume(g *G) {
	cur = g
	g.blocked = false
	g.reason = ""
	s.Stat.Switches++
	if s.Cfg.Replay == nil {
		if s.Cfg.PMean > 0 || g.nextP <= g.pc {
			s.setNextP(g)
		}
	} else {
		s.setNextP(g)
	}
	if s.OnSwitch != nil {
		s.OnSwitch(g)
	}
}

func (s *Sim) pick(chosen bool) *G {
	i := 0
	if n := len(s.runq); n > 1 && !chosen {
		if s.Cfg.Replay != nil {
			i = ChooseSys(KSched, n, 0)
		} else {
			switch s.Cfg.Policy {
			case 0:
				i = ChooseSys(KSched, n, s.Cfg.SchedP)
			case 1:
				i = ChooseSys(KSched, n, 1-1/float64(n))
			default:
				best := 0
				for j, g := range s.runq {
					if g.prio > s.runq[best].prio {
						best = j
					}
				}
				if s.rfloat() < 0.002 { // priority change point
					s.runq[best].prio = s.rand() >> 8
				}
				s.sysG.ctr[KSched]++
				i = best
				if i != 0 {
					s.rec[Key{KSched, s.sysG.ID, s.sysG.ctr[KSched]}] = uint32(i)
				}
			}
		}
	}
	g := s.runq[i]
	copy(s.runq[i:], s.runq[i+1:])
	s.runq[len(s.runq)-1] = nil
	s.runq = s.runq[:len(s.runq)-1]
	return g
}

// ChooseSys is ChooseP on behalf of the system pseudo goroutine.
func ChooseSys(k Kind, n int, p float64) int {
	c := cur
	cur = nil
	v := ChooseP(k, n, p)
	cur = c
	return v
}

func (s *Sim) addTimer(when int64, f func()) *timer {
	n := who().Node
	if cur == nil {
		n = nil
		if s.firing != nil && s.firing.node != nil {
			n = s.firing.node
		}
	}
	return s.addTimerOn(n, when, f)
}

func (s *Sim) addTimerOn(n *Node, when int64, f func()) *timer {
	s.seq++
	t := &timer{when: when, seq: s.seq, f: f, node: n}
	if n != nil {
		t.gen = n.Starts
	}
	heap.Push(&s.timers, t)
	return t
}

func (s *Sim) delTimer(t *timer) bool {
	if t == nil || t.idx < 0 {
		return false
	}
	heap.Remove(&s.timers, t.idx)
	return true
}

// At runs f in system context after d of simulated time.
func (s *Sim) At(d time.Duration, f func()) (cancel func()) {
	t := s.addTimerOn(nil, s.now+int64(d), f)
	return func() { s.delTimer(t) }
}

// loop is the system goroutine: it fires timers, advances the clock and starts
// the next goroutine whenever a goroutine could not hand off directly.
func (s *Sim) loop() {
	for {
		if s.stopFn != nil && !s.ended && s.stopFn() {
			s.end("done")
		}
		s.checkLimits()
		if !s.ended && s.Cfg.MaxWall > 0 && s.steps&0xfff == 0 && time.Since(s.start) > s.Cfg.MaxWall {
			s.end("wall-limit")
		}
		if s.ended {
			return
		}
		if len(s.timers) > 0 && (len(s.runq) == 0 || s.timers[0].when <= s.now) {
			if s.timers[0].when > s.now {
				s.now = s.timers[0].when
				if s.Cfg.MaxTime > 0 && s.now > s.Cfg.MaxTime {
					s.end("time-limit")
					return
				}
			}
			// choose among timers due at the same instant
			t := s.popDue()
			if t.node == nil || (t.node.State == NodeRunning && t.node.Starts == t.gen) {
				s.Stat.TimersFired++
				s.firing = t
				t.f()
				s.firing = nil
			}
			if len(s.timers) > 0 && s.timers[0].when <= s.now && (len(s.runq) == 0 || ChooseSys(KTimer, 2, s.Cfg.TimerP) == 0) {
				continue
			}
			if len(s.runq) == 0 {
				continue
			}
			if s.stopFn != nil && s.stopFn() {
				s.end("done")
				return
			}
		} else if len(s.runq) == 0 {
			if os.Getenv("SIM_STACK") != "" {
				buf := make([]byte, 1<<20)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			}
			s.end("deadlock")
			return
		}
		next := s.pick(false)
		s.resume(next)
		next.wake <- struct{}{}
		<-s.sysWake
		cur = nil
	}
}

func (s *Sim) popDue() *timer {
	// the heap top is first by (when, seq); sometimes take another one due now
	top := heap.Pop(&s.timers).(*timer)
	if len(s.timers) > 0 && s.timers[0].when <= s.now {
		s.Stat.TimerTies++
		if ChooseSys(KTimer, 2, s.Cfg.TimerP) == 1 {
			second := heap.Pop(&s.timers).(*timer)
			heap.Push(&s.timers, top)
			return second
		}
	}
	return top
}

// Run runs the simulation until stop returns true, a limit is reached, or
// nothing can happen any more; then it terminates all goroutines.
func (s *Sim) Run(stop func() bool) {
	s.stopFn = stop
	s.start = time.Now()
	s.loop()
	// tear down
	cur = nil
	for _, n := range s.Nodes {
		if n.State == NodeRunning {
			n.State = NodeEnded
		}
	}
	all := make([]*G, 0, len(s.gs))
	for g := range s.gs {
		all = append(all, g)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Seq < all[j].Seq })
	for _, g := range all {
		s.killG(g)
	}
	S = nil
	cur = nil
}

// killG terminates a parked goroutine: its deferred calls run with every
// simulated operation turned into a no-op.
func (s *Sim) killG(g *G) {
	if g.killed || g == cur {
		return
	}
	g.killed = true
	for i, r := range s.runq {
		if r == g {
			s.runq = append(s.runq[:i:i], s.runq[i+1:]...)
			break
		}
	}
	if g.waitSel != nil {
		g.waitSel.fired = true
	}
	g.killAck = make(chan struct{})
	saved := cur
	cur = g
	g.nextP = g.pc + 1
	g.wake <- struct{}{}
	<-g.killAck
	cur = saved
}

// Go starts a simulated goroutine on the node of the current one.
func Go(f func()) *G {
	if S == nil {
		panic("simrt: go statement outside of a simulation")
	}
	g := who()
	if g.killed {
		return nil
	}
	return S.spawn(g, g.Node, "", f)
}

// GoOn starts a goroutine on a node (harness).
func GoOn(n *Node, name string, f func()) *G { return S.spawn(who(), n, name, f) }

func (s *Sim) spawn(parent *G, node *Node, name string, f func()) *G {
	parent.children++
	s.gseq++
	g := &G{ID: mix(parent.ID ^ mix(parent.children)), Seq: s.gseq, Name: name, Node: node, wake: make(chan struct{}), Attrs: map[string]any{}, fn: f}
	if s.Cfg.Replay == nil {
		g.prio = s.rand()
	}
	s.Stat.Goroutines++
	s.gs[g] = struct{}{}
	go s.gmain(g)
	s.runq = append(s.runq, g)
	return g
}

func (s *Sim) gmain(g *G) {
	<-g.wake
	defer func() {
		// Reached by return, panic or Goexit.
		if r := recover(); r != nil && !g.killed {
			s.nodePanic(g, r)
		}
		delete(s.gs, g)
		if s.OnGEnd != nil && !g.killed {
			s.OnGEnd(g)
		}
		if g.killAck != nil {
			close(g.killAck)
			return
		}
		s.steps += g.pc % 50000
		s.exitG()
	}()
	if g.killed {
		return
	}
	g.fn()
}

func (s *Sim) nodePanic(g *G, r any) {
	msg := fmt.Sprintf("panic: %v\n\n%s", r, debug.Stack())
	if g.Node == nil {
		fmt.Fprintf(os.Stderr, "simrt: panic in harness goroutine %s: %s\n", g.Name, msg)
		os.Exit(3)
	}
	if _, ok := r.(HarnessPanic); ok {
		fmt.Fprintf(os.Stderr, "simrt: harness panic: %s\n", msg)
		os.Exit(3)
	}
	g.Node.exit(2, "panic", msg)
}

// HarnessPanic marks a panic that is the harness's fault.
type HarnessPanic string

// Goroutines returns a description of all live goroutines (for diagnosis).
func (s *Sim) Goroutines() []string {
	var out []string
	for g := range s.gs {
		nn := "-"
		if g.Node != nil {
			nn = g.Node.Name
		}
		out = append(out, fmt.Sprintf("%05d g%d node=%s %s blocked=%v reason=%s pc=%d", g.Seq, g.Seq, nn, g.Name, g.blocked, g.reason, g.pc))
	}
	sort.Strings(out)
	return out
}

// ---------------------------------------------------------------- sleeping

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	g := cur
	if g == nil {
		return
	}
	if g.killed {
		runtime.Goexit()
	}
	P()
	if d <= 0 {
		return
	}
	s := S
	g.spins = 0
	s.pause(g, "sleep", int64(d))
}

// Now is time.Now.
func Now() time.Time {
	if S == nil {
		return Base
	}
	return Base.Add(time.Duration(S.now))
}

// BlockForever is select{}.
func BlockForever() {
	g := cur
	if g == nil || g.killed {
		runtime.Goexit()
	}
	g.reason = "forever"
	S.block(g)
}

// GoFrom starts a goroutine on node n whose identity derives from parent.
func (s *Sim) GoFrom(parent *G, n *Node, name string, f func()) *G {
	return s.spawn(parent, n, name, f)
}
