package simrt

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
)

// NodeState is the state of a simulated process.
type NodeState int

const (
	NodeNew NodeState = iota
	NodeRunning
	NodeExited
	NodeKilled
	NodeEnded // still running when the simulation was ended
)

// Node is one simulated process: its own file system, working directory,
// arguments, environment, standard streams, signals and exit state.
type Node struct {
	Name     string
	Idx      int
	Host     string
	Args     []string
	Env      map[string]string
	FS       *FS
	Cwd      string
	State    NodeState
	ExitCode int
	ExitHow  string // return, exit, fatal, panic, kill
	ExitMsg  string
	ExitAt   int64
	StartAt  int64
	Starts   int
	Stdout   strings.Builder
	Lines    []LogLine
	partial  string
	sigs     []sigHandler
	OnExit   func(*Node)
	Log      LogState
	Main     *G
	SigSent  int
}

// LogLine is one line of output with its time.
type LogLine struct {
	At   int64
	Text string
}

type sigHandler struct {
	f    func(sig any)
	sigs []any
}

// LogState is the state of the standard logger of a process.
type LogState struct {
	Out    any // io.Writer, nil = stderr
	Flags  int
	Prefix string
}

// NewNode adds a process to the simulation.
func (s *Sim) NewNode(name, host string) *Node {
	n := &Node{Name: name, Idx: len(s.Nodes), Host: host, Env: map[string]string{}, FS: NewFS(), Cwd: "/", Args: []string{"finch"}}
	s.Nodes = append(s.Nodes, n)
	return n
}

// Start runs main as the process's main goroutine.
func (n *Node) Start(main func()) {
	n.State = NodeRunning
	n.Starts++
	n.StartAt = S.now
	n.sigs = nil
	n.Log = LogState{}
	n.Main = GoOn(n, n.Name+".main", func() {
		main()
		n.exit(0, "return", "")
	})
}

// CurNode is the node of the running goroutine.
func CurNode() *Node { return who().Node }

// exit terminates the process from one of its own goroutines.
func (n *Node) exit(code int, how, msg string) {
	g := cur
	if n.State == NodeRunning {
		n.State = NodeExited
		n.ExitCode = code
		n.ExitHow = how
		n.ExitMsg = msg
		n.ExitAt = S.now
		n.killAll(g)
		if g != nil {
			g.killed = true
		}
		if n.OnExit != nil {
			saved := cur
			cur = nil
			n.OnExit(n)
			cur = saved
		}
	}
}

func (n *Node) killAll(except *G) {
	var all []*G
	for g := range S.gs {
		if g.Node == n && g != except {
			all = append(all, g)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Seq < all[j].Seq })
	for _, g := range all {
		S.killG(g)
	}
}

// Exit is os.Exit.
func Exit(code int, how, msg string) {
	g := cur
	if g == nil {
		panic(fmt.Sprintf("simrt.Exit(%d) outside of the simulation: %s", code, msg))
	}
	if g.killed {
		runtime.Goexit()
	}
	g.Node.exit(code, how, msg)
	runtime.Goexit()
}

// Kill is kill -9 of the process, from system context.
func (n *Node) Kill() {
	if n.State != NodeRunning {
		return
	}
	n.State = NodeKilled
	n.ExitHow = "kill"
	n.ExitAt = S.now
	n.killAll(nil)
	if n.OnExit != nil {
		n.OnExit(n)
	}
}

// Signal delivers a signal; an unhandled one terminates the process.
func (n *Node) Signal(sig any) {
	if n.State != NodeRunning {
		return
	}
	n.SigSent++
	handled := false
	for _, h := range n.sigs {
		for _, x := range h.sigs {
			if x == sig {
				handled = true
				h.f(sig)
				break
			}
		}
		if len(h.sigs) == 0 {
			handled = true
			h.f(sig)
		}
	}
	if !handled {
		n.Kill()
		n.ExitHow = "signal"
	}
}

// HandleSignal registers a handler for the current process.
func HandleSignal(f func(sig any), sigs []any) {
	if n := CurNode(); n != nil {
		n.sigs = append(n.sigs, sigHandler{f, sigs})
	}
}

// ResetSignals removes all handlers of the current process.
func ResetSignals() {
	if n := CurNode(); n != nil {
		n.sigs = nil
	}
}

// Output appends to the standard output of the current process.
func Output(b []byte) {
	if S == nil || Dead() {
		return
	}
	n := CurNode()
	if n == nil {
		return
	}
	n.partial += string(b)
	for {
		i := strings.IndexByte(n.partial, '\n')
		if i < 0 {
			return
		}
		if len(n.Lines) < 5000 {
			n.Lines = append(n.Lines, LogLine{S.now, n.partial[:i]})
		}
		n.partial = n.partial[i+1:]
	}
}
