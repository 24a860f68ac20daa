package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"simrt"
)

// Scenario is everything a run is made of besides the choices.
type Scenario struct {
	Prop    string
	Seed    uint64
	Sched   SchedS
	Stages  []*StageS
	Server  bool // server with remote instances
	Test    bool
	Remotes []RemoteS
	MySQL   MySQLS
	Net     NetS
	Events  []EventS
	FS      FSS
	MaxMS   int
	Views   map[string][]string `json:",omitempty"`
	Conf    *ConfS              `json:",omitempty"`

	stmtByTag map[string]*StmtS
	trxByName map[string]*TrxS
	confOut   *confOut
}

type SchedS struct {
	Policy        int
	SchedP, PMean float64
	HotP          float64
	StallP        float64
	StallMax      int
	MapP, TimerP  float64
	Cost          int64
}

type StageS struct {
	Name         string
	RuntimeMS    int
	QPS, TPS     int
	Instances    int
	DisableLocal bool
	FreqMS       int
	StatsOff     bool
	CSV          bool
	Stdout       bool
	Pcts         []string // percentiles of csv and stdout, none: default
	Trx          []*TrxS
	Groups       []*GroupS
	PadParams    int  // bytes of unused params, makes the stage config big
	NoName       bool // names that are the default are left out
	Disabled     bool
	Bad          string // what is wrong with the configuration
}

type TrxS struct {
	Name   string
	Dir    string // directory of the file
	File   string // base name
	Stmts  []*StmtS
	Data   []*DataS
	Pad    int  // bytes of comments in the file
	PadTop bool // the padding is in front
	Local  bool // remotes already have the file
	Broken int  // the file cannot be used: 1 unknown data key, 2 bad modifier, 3 missing
	Layout int  // bits: how the file is laid out, see layout
	no     int
}

type StmtS struct {
	Kind       string // select insert update begin commit set ddl
	Verb       string // another word the kind of statement begins with
	Prepare    bool
	IdleMS     int
	Rows       int // rows limit
	RowsOffset int
	TableSize  int
	DBSize     int
	SizeFirst  bool   // the size limit is written before the row limit
	SizeUnit   string // the size is written in thousands of bytes, with this unit
	Copies     int
	Inputs     []string // data keys, "@k" or "@k()"
	CSV        int
	CSVInputs  []string
	CSVFrags   []string // literals in the csv template
	Save       []string // saved columns ("_" = none)
	SaveID     string
	NRows      int
	Cols       []string
	NumCols    bool
	Affected   int
	VaryRows   bool
	RowBytes   int
	Table      string
	SlowMS     int
	CopyNo     bool
	Frags      []string // literal parts of the statement
	Tail       string   // a comment at its end
	ModFirst   bool     // -- copies comes first
	tag        string
	trx        *TrxS
	no         int
	tmpl       *regexp.Regexp
	slots      []slot
}

// slot is one input value position of a rendered statement.
type slot struct {
	key      string
	explicit bool
	part     int // which value of a multi-value generator
}

type DataS struct {
	Key, Gen, Scope string
	Params          map[string]string
	Var             int // > 0: a data key of the same name is configured in another trx file
}

type GroupS struct {
	Group         string
	Clients       int
	Db            string
	Iter          int
	IterClients   int
	IterExecGroup int
	QPS, QPSC     int
	QPSE          int
	TPS, TPSC     int
	TPSE          int
	RuntimeMS     int
	Trx           []string
	NoStats       bool
}

type RemoteS struct {
	StartMS int
	Name    string
	Again   int // how often it is started again when it ends while the server runs
	AgainMS int
}

type MySQLS struct {
	LatUS, LatSpread int
	SpikeP           float64
	SpikeMax         int
	Errs             []int
	ErrP             float64
	DropP            float64
	RowErrP          float64
	ConnP            float64
	RollbackErrP     float64
	AuxMS            int // response time of the queries of size limits
	AnalyzeErrP      float64
	FaultUntil       int   // ms
	BadNodes         []int // instances that are denied access
	BadUntil         int   // until then (ms, 0 = always)
}

type NetS struct {
	LatUS, LatSpread int
	LossP            float64
	LateP            float64
	LatP             float64
	FaultUntil       int
	Redo             bool
	Kinds            int // how many of the loss kinds are used
	Budget           int // losses in a row at most (0 = unlimited)
}

type FSS struct {
	P     float64
	Until int // ms, 0 = always
}

// EventS is a planned event of the environment.
type EventS struct {
	AtMS  int
	Kind  string // interrupt, kill-remote, start-remote, kill-server, partition, mysql-down, mysql-hang, read-only, break-conns
	Node  int
	ForMS int
	On    string // "", or a trigger: relative to the first workload statement ("work")
}

const defaultDB = "db0"

func (sc *Scenario) prep() {
	sc.stmtByTag = map[string]*StmtS{}
	sc.trxByName = map[string]*TrxS{}
	no := 0
	for si, st := range sc.Stages {
		for _, t := range st.Trx {
			no++
			t.no = no
			sc.trxByName[fmt.Sprintf("%d/%s", si, t.Name)] = t
			keyOf := map[string]*DataS{}
			for _, d := range t.Data {
				keyOf[d.Key] = d
			}
			for i, s := range t.Stmts {
				s.trx = t
				s.no = i
				s.tag = fmt.Sprintf("T%dS%d", no, i)
				sc.stmtByTag[s.tag] = s
			}
		}
	}
}

func trimKey(k string) string {
	return strings.TrimSuffix(strings.TrimPrefix(k, "@"), "()")
}

func quoteKey(t *TrxS, k string) string {
	for _, d := range t.Data {
		if d.Key == strings.TrimSuffix(strings.TrimPrefix(k, "@"), "()") {
			if d.Gen == "column" && d.Params["quote-value"] != "no" {
				return k
			}
		}
	}
	return k
}

// body renders a statement with its data keys.
func (s *StmtS) body() string {
	c := fmt.Sprintf("/*%s*/", s.tag)
	cn := ""
	if s.CopyNo {
		cn = " /*!copy-number*/"
	}
	in := make([]string, len(s.Inputs))
	for i, k := range s.Inputs {
		in[i] = fmt.Sprintf("v%d <%s>", i, quoteKey(s.trx, k))
	}
	args := strings.Join(in, " AND ")
	csv := ""
	if s.CSV > 0 {
		var p []string
		for _, k := range s.CSVInputs {
			p = append(p, "<"+k+">")
		}
		p = append(p, s.CSVFrags...)
		csv = fmt.Sprintf(" /*!csv %d (%s)*/", s.CSV, strings.Join(p, ", "))
	}
	q := s.text(c, cn, args, csv)
	if s.Verb != "" {
		i := strings.Index(q, " ")
		q = s.Verb + q[i:]
	}
	for i, f := range s.Frags {
		j := "AND"
		switch {
		case s.Kind == "insert" && csv != "" && i == 0:
			j = "ON DUPLICATE KEY UPDATE c ="
		case s.Kind == "insert":
			j = ", c ="
		case s.Kind == "set":
			j = "+"
		case s.Kind == "ddl":
			j = "COMMENT"
		case i == 0 && args == "":
			j = "WHERE"
		}
		q += " " + j + " " + f
	}
	if s.Tail != "" {
		q += " " + s.Tail
	}
	return q
}

// layout spreads a statement over lines; it is broken where spaces are not
// in quotes, comments or values.
func (t *TrxS) layout(q string, no int) string {
	if t.Layout&1 == 0 {
		return q
	}
	r := &R{uint64(t.Layout)<<8 + uint64(no)}
	var b strings.Builder
	var in byte
	for i := 0; i < len(q); i++ {
		c := q[i]
		switch {
		case in == '*':
			if c == '/' && q[i-1] == '*' {
				in = 0
			}
		case in != 0:
			if c == in || in == '<' && c == '>' {
				in = 0
			} else if c == '\\' && in != '<' {
				b.WriteByte(c)
				i++
				c = q[i]
			}
		case c == '\'' || c == '"' || c == '`' || c == '<':
			in = c
		case c == '/' && i+1 < len(q) && q[i+1] == '*':
			in = '*'
			b.WriteByte(c)
			i++
			c = q[i]
		case c == ' ' && i > 0 && r.p(0.4):
			b.WriteString(r.str("\n", "\n  ", "\n\t", " \n    ", "\t\n") + r.str("", "", " "))
			continue
		}
		b.WriteByte(c)
	}
	return b.String()
}

func (s *StmtS) text(c, cn, args, csv string) string {
	switch s.Kind {
	case "select":
		q := "SELECT " + c + cn + " " + strings.Join(s.Cols, ", ") + " FROM t"
		if args != "" {
			q += " WHERE " + args
		}
		return q
	case "insert":
		q := "INSERT " + c + cn + " INTO " + s.table()
		if args != "" {
			q += " SET " + args
		}
		if csv != "" {
			q += " VALUES" + csv
		} else if args == "" {
			q += " VALUES (1)"
		}
		return q
	case "update":
		q := "UPDATE " + c + cn + " " + s.table() + " SET c=1"
		if args != "" {
			q += " WHERE " + args
		}
		return q
	case "begin":
		return "BEGIN " + c
	case "commit":
		return "COMMIT " + c
	case "set":
		q := "SET " + c + cn + " @x=1"
		if args != "" {
			q += " + " + args
		}
		return strings.Replace(q, "@x", "x", 1)
	case "ddl":
		return "CREATE " + c + cn + " TABLE " + s.table()
	}
	return "DO " + c
}

func (s *StmtS) table() string {
	if s.Table != "" {
		return s.Table
	}
	return "t"
}

func (t *TrxS) render(v slotF) string {
	num := func(n int) string { return v('n', strconv.Itoa(n), true) }
	size := func(s *StmtS, n int) string {
		if s.SizeUnit != "" {
			return strconv.Itoa(n/1000) + s.SizeUnit
		}
		return num(n)
	}
	var b strings.Builder
	pad := t.Pad
	for i, s := range t.Stmts {
		if t.PadTop && i == 0 { // empty lines
			for ; pad > 0; pad -= 90 {
				b.WriteString(strings.Repeat(" ", 89) + "\n")
			}
		}
		copies := ""
		if s.Copies > 0 {
			copies = fmt.Sprintf("-- copies: %s\n", num(s.Copies))
		}
		if s.ModFirst {
			b.WriteString(copies)
		}
		if s.Prepare {
			b.WriteString("-- prepare\n")
		}
		if s.IdleMS > 0 {
			fmt.Fprintf(&b, "-- idle: %s\n", v('d', idleStr(s.IdleMS), true))
		}
		rows := ""
		if s.Rows > 0 {
			rows = "-- rows: " + num(s.Rows)
			if s.RowsOffset > 0 {
				rows += " " + num(s.RowsOffset)
			}
			rows += "\n"
		}
		if !s.SizeFirst {
			b.WriteString(rows)
		}
		if s.TableSize > 0 {
			fmt.Fprintf(&b, "-- table-size: %s %s\n", v('s', s.table(), true), size(s, s.TableSize))
		}
		if s.DBSize > 0 {
			fmt.Fprintf(&b, "-- database-size: %s %s\n", v('s', defaultDB, true), size(s, s.DBSize))
		}
		if s.SizeFirst {
			b.WriteString(rows)
		}
		if s.SaveID != "" {
			fmt.Fprintf(&b, "-- save-insert-id: @%s\n", s.SaveID)
		}
		if len(s.Save) > 0 {
			b.WriteString("-- save-columns: ")
			for j, c := range s.Save {
				if j > 0 {
					b.WriteString(", ")
				}
				if c == "_" {
					b.WriteString("_")
				} else {
					b.WriteString("@" + c)
				}
			}
			b.WriteString("\n")
		}
		if !s.ModFirst {
			b.WriteString(copies)
		}
		b.WriteString(t.layout(s.body(), i) + "\n")
		if t.Layout&2 != 0 {
			b.WriteString(" \t \n\n")
		}
		if i < len(t.Stmts)-1 || t.Layout&4 == 0 {
			b.WriteString("\n")
		}
	}
	if t.Layout&8 != 0 {
		b.WriteString("-- EOF\nSELECT c FROM not_this WHERE id = @nokey\n")
	}
	switch t.Broken {
	case 1:
		b.WriteString("SELECT * FROM t0 WHERE id = @nokey\n\n")
	case 2:
		b.WriteString("-- rows: some\nINSERT INTO t0 VALUES (1)\n\n")
	}
	if pad > 0 {
		b.WriteString("-- EOF\n")
		for pad > 0 {
			b.WriteString("-- padding ............................................................................\n")
			pad -= 90
		}
	}
	if t.Layout&4 != 0 && t.Layout&8 == 0 { // no end of line at the end of the file
		return t.eol(strings.TrimRight(b.String(), " \t\n"))
	}
	return t.eol(b.String())
}

func (t *TrxS) eol(s string) string {
	if t.Layout&16 != 0 {
		return strings.ReplaceAll(s, "\n", "\r\n")
	}
	return s
}

// idleStr: whole seconds as "2s", else with a unit finch's number parsing
// leaves alone.
func idleStr(ms int) string {
	if ms%1000 == 0 {
		return strconv.Itoa(ms/1000) + "s"
	}
	return strconv.Itoa(ms) + "ms"
}

// Exp is one expected statement of a client's iteration.
type Exp struct {
	S      *StmtS
	Copy   int // 0 none
	TrxIdx int // index in the group's trx list
	First  bool
	Last   bool
	Idle   bool
}

// expand lists the statements of one iteration.
func (sc *Scenario) expand(stage int, trx []string) []Exp {
	var out []Exp
	for ti, name := range trx {
		t := sc.trxByName[fmt.Sprintf("%d/%s", stage, name)]
		if t == nil {
			continue
		}
		var l []Exp
		for _, s := range t.Stmts {
			n := s.Copies
			if n <= 1 {
				l = append(l, Exp{S: s, Copy: n, TrxIdx: ti, Idle: s.IdleMS > 0})
				continue
			}
			for i := 1; i <= n; i++ {
				l = append(l, Exp{S: s, Copy: i, TrxIdx: ti, Idle: s.IdleMS > 0})
			}
		}
		if len(l) > 0 {
			l[0].First = true
			l[len(l)-1].Last = true
		}
		out = append(out, l...)
	}
	return out
}

// groups returns the execution groups: lists of client groups with their trx.
type grp struct {
	*GroupS
	EG, CG int // 1-based
	TrxL   []string
	Name   string
	DDL    bool
	Idx    int
}

func (sc *Scenario) hasDDL(stage int, trx []string) bool {
	for _, n := range trx {
		if t := sc.trxByName[fmt.Sprintf("%d/%s", stage, n)]; t != nil {
			for _, s := range t.Stmts {
				if s.Kind == "ddl" {
					return true
				}
			}
		}
	}
	return false
}

// groupsOf is the reference model of execution group formation.
func (sc *Scenario) groupsOf(si int) [][]*grp {
	st := sc.Stages[si]
	var all []string
	for _, t := range st.Trx {
		all = append(all, t.Name)
	}
	var gs []*grp
	if len(st.Groups) == 0 {
		var cur *grp
		for _, n := range all {
			if sc.hasDDL(si, []string{n}) {
				gs = append(gs, &grp{GroupS: &GroupS{Clients: 1, Iter: 1}, TrxL: []string{n}, DDL: true})
				cur = nil
			} else if cur != nil {
				cur.TrxL = append(cur.TrxL, n)
			} else {
				cur = &grp{GroupS: &GroupS{Clients: 1}, TrxL: []string{n}}
				gs = append(gs, cur)
			}
		}
		var out [][]*grp
		for i, g := range gs {
			g.EG, g.CG = i+1, 1
			g.Idx = i
			out = append(out, []*grp{g})
		}
		return out
	}
	for i, g := range st.Groups {
		x := &grp{GroupS: g, TrxL: g.Trx, Idx: i}
		if len(x.TrxL) == 0 {
			x.TrxL = all
		}
		x.DDL = sc.hasDDL(si, x.TrxL)
		if x.DDL && g.Iter == 0 {
			c := *g
			c.Iter = 1
			x.GroupS = &c
		}
		gs = append(gs, x)
	}
	// names: explicit, or one per DDL client group, or one per run of non-DDL ones
	ddl, dml := 0, 0
	prevDDL := true
	prev := ""
	for _, g := range gs {
		if g.Group != "" {
			g.Name = g.Group
			continue
		}
		if g.DDL {
			ddl++
			g.Name = fmt.Sprintf("ddl%d", ddl)
			prevDDL = true
		} else if prevDDL {
			dml++
			g.Name = fmt.Sprintf("dml%d", dml)
			prevDDL = false
		} else {
			g.Name = prev
		}
		prev = g.Name
	}
	var out [][]*grp
	last := ""
	for _, g := range gs {
		if len(out) == 0 || g.Name != last {
			out = append(out, nil)
			last = g.Name
		}
		out[len(out)-1] = append(out[len(out)-1], g)
		g.EG, g.CG = len(out), len(out[len(out)-1])
	}
	return out
}

func yq(s string) string { b, _ := json.Marshal(s); return string(b) }

// slotF renders a value of a configuration: kind is 's' (string), 'n' (number)
// or 'd' (duration); raw values are not in YAML.
type slotF func(kind byte, lit string, raw bool) string

func literal(kind byte, lit string, raw bool) string {
	if kind == 's' && !raw {
		return yq(lit)
	}
	return lit
}

func (st *StageS) render(v slotF, mysql, stats string) string {
	var b strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	str := func(s string) string { return v('s', s, false) }
	num := func(n int) string { return v('n', strconv.Itoa(n), false) }
	dur := func(ms int) string { return v('d', strconv.Itoa(ms)+"ms", false) }
	p("stage:")
	if st.Name != "" && !st.NoName {
		p("  name: %s", str(st.Name))
	}
	if st.RuntimeMS > 0 {
		p("  runtime: %s", dur(st.RuntimeMS))
	}
	if st.QPS > 0 {
		p("  qps: %s", num(st.QPS))
	}
	if st.TPS > 0 {
		p("  tps: %s", num(st.TPS))
	}
	b.WriteString(mysql)
	if st.Instances > 0 {
		p("  compute:\n    instances: %s", num(st.Instances))
		if st.DisableLocal {
			p("    disable-local: true")
		}
	}
	if st.PadParams > 0 {
		p("  params:")
		for i := 0; i*100 < st.PadParams; i++ {
			p("    p%d: %s", i, strings.Repeat("x", 90))
		}
	}
	b.WriteString(stats)
	p("  trx:")
	for _, t := range st.Trx {
		if t.Name == t.File && st.NoName {
			p("    - file: %s", str(t.path()))
		} else {
			p("    - name: %s\n      file: %s", str(t.Name), str(t.path()))
		}
		if len(t.Data) > 0 {
			p("      data:")
			for _, d := range t.Data {
				p("        %s:\n          generator: %s", d.Key, str(d.Gen))
				if d.Scope != "" {
					p("          scope: %s", str(d.Scope))
				}
				if len(d.Params) > 0 {
					p("          params:")
					ks := make([]string, 0)
					for k := range d.Params {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					for _, k := range ks {
						if _, err := strconv.ParseUint(d.Params[k], 10, 64); err == nil {
							p("            %s: %s", k, v('n', d.Params[k], false))
						} else {
							p("            %s: %s", k, str(d.Params[k]))
						}
					}
				}
			}
		}
	}
	if len(st.Groups) > 0 {
		p("  workload:")
		for _, g := range st.Groups {
			p("    - clients: %s", num(g.Clients))
			opt := func(k string, n int) {
				if n > 0 {
					p("      %s: %s", k, num(n))
				}
			}
			if g.Group != "" {
				p("      group: %s", str(g.Group))
			}
			if g.Db != "" {
				p("      db: %s", str(g.Db))
			}
			opt("iter", g.Iter)
			opt("iter-clients", g.IterClients)
			opt("iter-exec-group", g.IterExecGroup)
			opt("qps", g.QPS)
			opt("qps-clients", g.QPSC)
			opt("qps-exec-group", g.QPSE)
			opt("tps", g.TPS)
			opt("tps-clients", g.TPSC)
			opt("tps-exec-group", g.TPSE)
			if g.RuntimeMS > 0 {
				p("      runtime: %s", dur(g.RuntimeMS))
			}
			if g.NoStats {
				p("      disable-stats: true")
			}
			if len(g.Trx) > 0 {
				l := make([]string, len(g.Trx))
				for i := range l {
					l[i] = str(g.Trx[i])
				}
				p("      trx: [%s]", strings.Join(l, ", "))
			}
		}
	}
	return b.String()
}

// statsYAML is the stats section at some indentation.
func (st *StageS) statsYAML(v slotF, in string) string {
	var b strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&b, in+strings.ReplaceAll(f, "\n", "\n"+in)+"\n", a...) }
	str := func(s string) string { return v('s', s, false) }
	p("stats:")
	if st.StatsOff {
		p("  disable: true")
	}
	if st.FreqMS > 0 {
		p("  freq: %s", v('d', strconv.Itoa(st.FreqMS)+"ms", false))
	}
	p("  report:\n    simrec:\n      stage: %s", str(st.Name))
	if st.Stdout {
		p("    stdout:\n      each-instance: %s\n      combined: %s", str("true"), str("true"))
		if len(st.Pcts) > 0 {
			p("      percentiles: %s", str(strings.Join(st.Pcts, ",")))
		}
	}
	if st.CSV {
		p("    csv:\n      file: %s", str("/out-"+st.Name+".csv"))
		if len(st.Pcts) > 0 {
			p("      percentiles: %s", str(strings.Join(st.Pcts, ",")))
		}
	}
	return b.String()
}

func plainMySQL() string {
	return "  mysql:\n    db: " + defaultDB + "\n    hostname: 127.0.0.1\n    username: u\n    password: p\n"
}

func (t *TrxS) path() string { return t.Dir + "/" + t.File }

// install writes the files into a node's file system.
func (sc *Scenario) install(n *simrt.Node, remote bool) {
	n.FS.MkdirAll("/tmp")
	n.FS.MkdirAll("/work")
	n.Cwd = "/work"
	if sc.Conf != nil {
		sc.conf().install(n)
		return
	}
	for i, st := range sc.Stages {
		if !remote {
			if txt := st.spoil(n, st.render(literal, plainMySQL(), st.statsYAML(literal, "  "))); txt != "" {
				n.FS.Put("/work/"+stageFile(i), txt)
			}
		}
		for _, t := range st.Trx {
			if !remote || t.Local {
				n.FS.MkdirAll("/work/" + t.Dir)
				if t.Broken != 3 {
					n.FS.Put("/work/"+t.Dir+"/"+t.File, t.render(literal))
				}
			}
		}
	}
}

// lossy: requests or responses can get lost or be late.
func (n *NetS) lossy() bool { return n.LossP > 0 || n.LateP > 0 }
