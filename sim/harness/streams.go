package main

import "simrt"

// Client is what one client (the goroutine that runs it) did on MySQL.
type Client struct {
	G         *simrt.G
	Node, Gen int
	Label     *Label
	Grp       *grp
	Stage     int // index in the scenario
	Evs       []*StmtEv
	Conns     []*ConnEv
	End       int64 // -1: never ended
}

// clients returns the client streams in order of appearance.
func (h *Hist) clients() []*Client {
	if h.streams_ != nil {
		return h.streams_
	}
	by := map[*simrt.G]*Client{}
	get := func(g *simrt.G, l *Label) *Client {
		c := by[g]
		if c == nil {
			c = &Client{G: g, Node: g.Node.Idx, Gen: l.Gen, Label: l, End: -1, Stage: -1}
			for i, st := range h.Sc.Stages {
				if st.Name == l.StageName {
					c.Stage = i
				}
			}
			if c.Stage >= 0 {
				for _, eg := range h.groups(c.Stage) {
					for _, x := range eg {
						if uint(x.EG) == l.EG && uint(x.CG) == l.CG {
							c.Grp = x
						}
					}
				}
			}
			if t, ok := h.GEnd[g]; ok {
				c.End = t
			}
			by[g] = c
			h.streams_ = append(h.streams_, c)
		}
		return c
	}
	// A client is a goroutine that opens a connection of a client group's
	// pool with the purpose of running it: the connection the program makes to
	// test the pool is made by a goroutine that never runs a client.
	work := map[*simrt.G]bool{}
	for _, e := range h.Stmts {
		if e.Label.Stage > 0 && e.Kind == "work" {
			work[e.G] = true
		}
	}
	for _, e := range h.Stmts {
		if work[e.G] && e.Label.Stage > 0 {
			c := get(e.G, e.Label)
			c.Evs = append(c.Evs, e)
		}
	}
	for _, e := range h.Conns {
		if c := by[e.G]; c != nil && e.Label.Stage > 0 {
			c.Conns = append(c.Conns, e)
		}
	}
	return h.streams_
}

func (h *Hist) groups(stage int) [][]*grp {
	if h.groups_ == nil {
		h.groups_ = map[int][][]*grp{}
	}
	if g, ok := h.groups_[stage]; ok {
		return g
	}
	g := h.Sc.groupsOf(stage)
	h.groups_[stage] = g
	return g
}
