package main

// The simulated MySQL server, under the real database/sql.

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	mysqldrv "github.com/go-sql-driver/mysql"
	"simrt"
	"simsql/driver"
	"simsql/sql"
)

const (
	KErr simrt.Kind = simrt.KFault + iota
	KDrop
	KLat
	KConn
	KNetLoss
	KNetLat
	KNetLate
	KRowErr
	KAux
	KFS
)

func init() {
	simrt.NameKind(KErr, "sql-error")
	simrt.NameKind(KDrop, "conn-drop")
	simrt.NameKind(KLat, "sql-latency")
	simrt.NameKind(KConn, "connect-fault")
	simrt.NameKind(KNetLoss, "net-loss")
	simrt.NameKind(KNetLat, "net-latency")
	simrt.NameKind(KNetLate, "net-late")
	simrt.NameKind(KRowErr, "rows-error")
	simrt.NameKind(KAux, "aux-sql-error")
	simrt.NameKind(KFS, "fs-error")
	sql.Register("mysql", drv{})
}

// StmtEv is one statement MySQL received.
type StmtEv struct {
	N         int
	Node      int
	G         *simrt.G
	Sess      *Sess
	Label     *Label
	T0, TX    int64 // call, effect
	T1        int64 // return of the call (-1 while in flight)
	TRead     int64 // result set read completely
	Text      string
	Args      []string
	Prepared  bool
	NotSent   bool // the context was already done
	Tag       string
	Kind      string // work, use, prepare, rollback, analyze, size, show, seldb, other
	Code      int
	Err       error
	Lost      bool
	Ctx       bool
	RowErr    bool
	Executed  bool
	Affected  int64
	InsertID  int64
	Rows      [][]string
	InTrx     bool // a transaction was open on the session before
	Implicit  bool // it implicitly committed the open transaction
	NetRows   int
	RowsRead  int
	SizeAt    int64
	vals      []string
	valsOK    bool
	valsErr   string
	parsed    bool
	Db        string
	StageName string
}

// Label is what a connection pool belongs to.
type Label struct {
	Stage       uint
	StageName   string
	EG, CG      uint
	Node        int
	Gen         int
	N           int
	DSN         string
	TLS         *tls.Config // of the DSN
	Connections int
}

// Sess is one MySQL session.
type Sess struct {
	ID         int
	Node       int
	Label      *Label
	G          *simrt.G // opener
	Opened     int64
	Closed     int64 // -1 while open
	ClosedBy   string
	Db         string
	InTrx      bool
	TrxFailed  *StmtEv // an error that needs ROLLBACK happened in the open transaction
	TrxStmts   []int
	broken     bool
	brokenCh   chan struct{}
	stmts      map[int]string
	nstmt      int
	busy       *StmtEv
	Resets     int
	Users      []*simrt.G
	LastInsert int64
	Evs        []*StmtEv
	openRows   *rowsT
	gone       bool
}

// ConnEv is one connection attempt.
type ConnEv struct {
	G      *simrt.G
	Node   int
	Label  *Label
	T0, T1 int64
	OK     bool
	Sess   *Sess
}

type table struct {
	rows     int64
	bytes    int64
	reported int64
	analyzed bool
}

// DB is the simulated server.
type DB struct {
	sc      *Scenario
	h       *Hist
	sess    []*Sess
	tables  map[string]map[string]*table
	labels  []*Label
	last    map[*simrt.G]*connector
	down    bool
	hang    bool
	readOn  bool
	insID   int64
	evBusy  int
	started int64
	views   map[string][]string
}

var db *DB

// finite: the workloads generated for these properties all have an end of
// their own, with at most a few thousand statements.
var finite = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "D01": true, "D02": true, "D03": true, "L03": true, "L04": true, "W01": true, "W02": true}

func (sc *Scenario) finite() bool {
	if sc.Conf != nil {
		return finite[sc.Conf.Theme]
	}
	return finite[sc.Prop]
}

var errConnRefused = errors.New("dial tcp 127.0.0.1:3306: connect: connection refused")

type drv struct{}

func (drv) Open(dsn string) (driver.Conn, error) {
	c, err := drv{}.OpenConnector(dsn)
	if err != nil {
		return nil, err
	}
	return c.Connect(context.Background())
}

func (drv) OpenConnector(dsn string) (driver.Connector, error) {
	cfg, err := mysqldrv.ParseDSN(dsn) // as the real driver does
	if err != nil {
		return nil, err
	}
	n := simrt.CurNode()
	c := &connector{dsn: dsn, label: &Label{Node: n.Idx, Gen: n.Starts, N: len(db.labels), DSN: dsn, TLS: cfg.TLS}}
	if i := strings.LastIndex(dsn, "/"); i >= 0 {
		c.db = dsn[i+1:]
		if j := strings.Index(c.db, "?"); j >= 0 {
			c.db = c.db[:j]
		}
	}
	db.labels = append(db.labels, c.label)
	db.last[simrt.Cur()] = c
	return c, nil
}

func noteDB(stage uint, name string, eg, cg uint) {
	if c := db.last[simrt.Cur()]; c != nil {
		c.label.Stage, c.label.StageName, c.label.EG, c.label.CG = stage, name, eg, cg
	}
}

type connector struct {
	dsn   string
	db    string
	label *Label
}

func (c *connector) Driver() driver.Driver { return drv{} }

// wait blocks for d; it ends early with an error when ctx is done or the
// session breaks.
func wait(ctx context.Context, s *Sess, d time.Duration) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	if s != nil && s.broken {
		return errBroken
	}
	t := simrt.NewTimer(d)
	ops := []simrt.Op{simrt.NewRecv(t.C)}
	done := ctx.Done()
	if done != nil {
		ops = append(ops, simrt.NewRecv(done))
	} else {
		ops = append(ops, simrt.NewRecv[struct{}](nil))
	}
	if s != nil {
		ops = append(ops, simrt.NewRecv((<-chan struct{})(s.brokenCh)))
	}
	i := simrt.Select(false, ops...)
	t.Stop()
	switch i {
	case 1:
		return ctx.Err()
	case 2:
		return errBroken
	}
	return nil
}

var errBroken = errors.New("broken")

func (d *DB) faults() bool {
	return d.sc.MySQL.FaultUntil == 0 || simrt.S.SimNow() < int64(d.sc.MySQL.FaultUntil)*int64(time.Millisecond)
}

func (d *DB) chooseP(k simrt.Kind, n int, p float64) int {
	if !d.faults() {
		p = 0
	}
	v := simrt.ChooseP(k, n, p)
	if v != 0 {
		if !d.faults() {
			return 0
		}
	}
	return v
}

// insBase is where AUTO_INCREMENT starts.
var insBase = [...]int64{0, 500000, 1<<32 - 3, 1<<53 + 1}

// lat is the response time of a statement: a base and injected spikes.
func (d *DB) lat() time.Duration {
	m := d.sc.MySQL
	l := time.Duration(m.LatUS) * time.Microsecond
	if m.LatSpread > 0 {
		l += time.Duration(simrt.RandU64()%uint64(m.LatSpread)) * time.Microsecond
	}
	spikes := []time.Duration{0, 5 * time.Millisecond, 40 * time.Millisecond, 300 * time.Millisecond, 1100 * time.Millisecond, 4 * time.Second, 60 * time.Second}
	n := m.SpikeMax + 1
	if n > len(spikes) {
		n = len(spikes)
	}
	if n > 1 {
		if v := d.chooseP(KLat, n, m.SpikeP); v > 0 {
			d.h.fault("latency-spike")
			l += spikes[v]
		}
	}
	return l
}

func (c *connector) Connect(ctx context.Context) (driver.Conn, error) {
	g := simrt.Cur()
	ev := &ConnEv{G: g, Node: g.Node.Idx, Label: c.label, T0: simrt.S.SimNow(), T1: -1}
	db.h.Conns = append(db.h.Conns, ev)
	fail := func(err error) (driver.Conn, error) {
		ev.T1 = simrt.S.SimNow()
		db.h.log("conn-fail", g, err.Error())
		return nil, err
	}
	l := 200 * time.Microsecond
	v := 0
	if db.sc.MySQL.ConnP > 0 && c.label.Stage > 0 {
		v = db.chooseP(KConn, 4, db.sc.MySQL.ConnP)
	}
	switch v {
	case 1:
		db.h.fault("connect-refused")
		if err := wait(ctx, nil, l); err != nil {
			return fail(err)
		}
		return fail(errConnRefused)
	case 2:
		db.h.fault("connect-slow")
		l = 350 * time.Millisecond
	case 3:
		db.h.fault("connect-hang")
		l = 30 * time.Second
	}
	if db.hang {
		l = 30 * time.Second
	}
	if err := wait(ctx, nil, l); err != nil {
		return fail(err)
	}
	if db.down {
		return fail(errConnRefused)
	}
	for _, n := range db.sc.MySQL.BadNodes {
		if n == g.Node.Idx && (db.sc.MySQL.BadUntil == 0 || simrt.S.SimNow() < ms(db.sc.MySQL.BadUntil)) {
			db.h.fault("access-denied")
			return fail(myErr(1045))
		}
	}
	s := &Sess{ID: len(db.sess) + 1, Node: g.Node.Idx, Label: c.label, G: g, Opened: simrt.S.SimNow(), Closed: -1, Db: c.db, brokenCh: make(chan struct{}), stmts: map[int]string{}}
	db.sess = append(db.sess, s)
	c.label.Connections++
	ev.OK = true
	ev.Sess = s
	ev.T1 = simrt.S.SimNow()
	db.h.log("connect", g, fmt.Sprintf("s%d", s.ID))
	return &conn{s: s}, nil
}

// breakAll breaks every session (server restart).
func (d *DB) breakAll(why string) {
	for _, s := range d.sess {
		d.breakSess(s, why)
	}
}

func (d *DB) breakSess(s *Sess, why string) {
	if s.Closed >= 0 || s.broken {
		return
	}
	s.broken = true
	s.end(why)
	simrt.CloseNow(s.brokenCh)
}

func (s *Sess) end(why string) {
	if s.Closed < 0 {
		s.Closed = simrt.S.SimNow()
		s.ClosedBy = why
		s.InTrx = false
		s.TrxFailed = nil
		db.h.log("sess-end", nil, fmt.Sprintf("s%d %s", s.ID, why))
	}
}

type conn struct {
	s      *Sess
	closed bool
}

func (c *conn) Prepare(q string) (driver.Stmt, error) {
	return c.PrepareContext(context.Background(), q)
}
func (c *conn) Begin() (driver.Tx, error) { return nil, errors.New("not supported") }
func (c *conn) Ping(ctx context.Context) error {
	if c.closed || c.s.broken {
		return driver.ErrBadConn
	}
	if err := wait(ctx, c.s, 200*time.Microsecond); err != nil {
		c.cleanup("ping failed")
		if err == errBroken {
			return driver.ErrBadConn
		}
		return err
	}
	return nil
}

func (c *conn) cleanup(why string) {
	if !c.closed {
		c.closed = true
		c.s.end(why)
	}
}

func (c *conn) Close() error {
	c.cleanup("client")
	return nil
}

func (c *conn) ResetSession(ctx context.Context) error {
	if c.closed || c.s.broken {
		return driver.ErrBadConn
	}
	c.s.Resets++
	return nil
}

func (c *conn) IsValid() bool { return !c.closed && c.s.openRows == nil }

func (c *conn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	ev, err := c.exec(ctx, q, nil, "prepare")
	if err != nil {
		return nil, err
	}
	c.s.nstmt++
	id := c.s.nstmt
	c.s.stmts[id] = q
	_ = ev
	return &stmt{c: c, id: id, q: q, n: params(q)}, nil
}

func (c *conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if len(args) > 0 {
		return nil, driver.ErrSkip
	}
	ev, err := c.exec(ctx, q, nil, "")
	if err != nil {
		return nil, err
	}
	return result{ev.Affected, ev.InsertID}, nil
}

func (c *conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	if len(args) > 0 {
		return nil, driver.ErrSkip
	}
	ev, err := c.exec(ctx, q, nil, "")
	if err != nil {
		return nil, err
	}
	return c.rows(ctx, ev, false), nil
}

type result struct{ n, id int64 }

func (r result) LastInsertId() (int64, error) { return r.id, nil }
func (r result) RowsAffected() (int64, error) { return r.n, nil }

type stmt struct {
	c      *conn
	id     int
	q      string
	n      int
	closed bool
}

func (s *stmt) Close() error {
	s.closed = true
	delete(s.c.s.stmts, s.id)
	return nil
}

// params returns how many placeholders q has: the ?s that are not in a string.
func params(q string) int {
	n := 0
	var in rune
	esc := false
	for _, r := range q {
		switch {
		case in != 0:
			if esc {
				esc = false
			} else if r == '\\' && in != '`' {
				esc = true
			} else if r == in {
				in = 0
			}
		case r == '\'' || r == '"' || r == '`':
			in = r
		case r == '?':
			n++
		}
	}
	return n
}

func (s *stmt) NumInput() int { return s.n }
func (s *stmt) Exec(a []driver.Value) (driver.Result, error) {
	return nil, errors.New("not supported")
}
func (s *stmt) Query(a []driver.Value) (driver.Rows, error) { return nil, errors.New("not supported") }

func argStrings(args []driver.NamedValue) []string {
	out := make([]string, len(args))
	for i, a := range args {
		switch v := a.Value.(type) {
		case []byte:
			out[i] = string(v)
		default:
			out[i] = fmt.Sprint(v)
		}
	}
	return out
}

func (s *stmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	ev, err := s.c.execPS(ctx, s, args)
	if err != nil {
		return nil, err
	}
	return result{ev.Affected, ev.InsertID}, nil
}

func (s *stmt) QueryContext(ctx context.Context, args []driver.NamedValue) (driver.Rows, error) {
	ev, err := s.c.execPS(ctx, s, args)
	if err != nil {
		return nil, err
	}
	return s.c.rows(ctx, ev, true), nil
}

func (c *conn) execPS(ctx context.Context, s *stmt, args []driver.NamedValue) (*StmtEv, error) {
	if _, ok := c.s.stmts[s.id]; !ok && !c.closed && !c.s.broken {
		db.h.violate("C04", "unknown-stmt", "prepared statement executed after it was closed: "+s.q)
	}
	a := argStrings(args)
	if a == nil {
		a = []string{}
	}
	return c.exec(ctx, s.q, a, "")
}

var tagRE = regexp.MustCompile(`/\*(G?T\d+S\d+)\*/`)
var wordRE = regexp.MustCompile(`(?i)\s*([a-z]+)`)
var intoRE = regexp.MustCompile("(?i)\\bINTO `?([a-z0-9_]+)`?")

func firstWord(q string) string {
	m := wordRE.FindStringSubmatch(q)
	if m == nil {
		return ""
	}
	return strings.ToUpper(m[1])
}

func kindOf(q string) (kind, tag string) {
	if m := tagRE.FindStringSubmatch(q); m != nil {
		return "work", m[1]
	}
	u := strings.ToUpper(strings.Join(strings.Fields(q), " "))
	switch {
	case strings.HasPrefix(u, "USE "):
		return "use", ""
	case u == "ROLLBACK" || strings.HasPrefix(u, "ROLLBACK"):
		return "rollback", ""
	case strings.HasPrefix(u, "ANALYZE "):
		return "analyze", ""
	case strings.Contains(u, "INFORMATION_SCHEMA.TABLES"):
		return "size", ""
	case strings.HasPrefix(u, "SHOW"):
		return "show", ""
	case strings.HasPrefix(u, "SELECT DATABASE"):
		return "seldb", ""
	}
	return "other", ""
}

// exec is one round trip of a statement.
func (c *conn) exec(ctx context.Context, q string, args []string, kind string) (*StmtEv, error) {
	s := c.s
	g := simrt.Cur()
	if c.closed {
		return nil, driver.ErrBadConn
	}
	if s.openRows != nil {
		return nil, errors.New("commands out of sync: busy buffer")
	}
	k, tag := kindOf(q)
	if kind != "" {
		k = kind
	}
	if s.Label.Stage == 0 && k == "work" {
		db.h.violate("C04", "unlabelled", "workload statement on a connection pool that belongs to no client group: "+q)
	}
	ev := &StmtEv{N: len(db.h.Stmts), Node: g.Node.Idx, G: g, Sess: s, Label: s.Label, T0: simrt.S.SimNow(), T1: -1, TX: -1, TRead: -1, Text: q, Args: args, Prepared: args != nil, Tag: tag, Kind: k, InTrx: s.InTrx, Db: s.Db, StageName: s.Label.StageName}
	db.h.Stmts = append(db.h.Stmts, ev)
	if n := len(db.h.Stmts); n > 400_000 || n > 30_000 && db.sc.finite() {
		simrt.EndRun("statement-limit")
	}
	s.Evs = append(s.Evs, ev)
	if len(s.Users) == 0 || s.Users[len(s.Users)-1] != g {
		s.Users = append(s.Users, g)
	}
	db.h.log("stmt", g, fmt.Sprintf("s%d %s %v", s.ID, q, args))
	if s.busy != nil {
		db.h.violate("C01", "concurrent", fmt.Sprintf("statement sent on a session while another one is running on it: %q during %q", q, s.busy.Text))
	}
	if err := ctx.Err(); err != nil { // as the real driver: nothing is sent
		ev.Ctx, ev.NotSent, ev.Err, ev.T1 = true, true, err, ev.T0
		db.h.log("ret", g, fmt.Sprintf("e%d not sent", ev.N))
		return nil, err
	}
	s.busy = ev
	defer func() {
		s.busy = nil
		if simrt.Dead() {
			return
		}
		ev.T1 = simrt.S.SimNow()
		db.h.log("ret", g, fmt.Sprintf("e%d code=%d lost=%v ctx=%v aff=%d", ev.N, ev.Code, ev.Lost, ev.Ctx, ev.Affected))
	}()
	lost := func(why string) (*StmtEv, error) {
		ev.Lost = true
		c.cleanup(why)
		s.broken = true
		if ev.Executed || simrt.RandU64()%2 == 0 {
			ev.Err = mysqldrv.ErrInvalidConn
			return nil, mysqldrv.ErrInvalidConn
		}
		ev.Err = driver.ErrBadConn
		return nil, driver.ErrBadConn
	}
	if s.broken {
		return lost("broken")
	}
	d := db
	l := d.lat()
	st := d.sc.stmtByTag[tag]
	if st == nil || k != "work" {
		l = 200 * time.Microsecond
		if k == "analyze" || k == "size" {
			l += time.Duration(d.sc.MySQL.AuxMS) * time.Millisecond
		}
	}
	if st != nil && st.SlowMS > 0 && k == "work" {
		l += time.Duration(st.SlowMS) * time.Millisecond
	}
	drop := 0
	if k == "work" && d.sc.MySQL.DropP > 0 {
		drop = d.chooseP(KDrop, 3, d.sc.MySQL.DropP)
	}
	if drop == 1 {
		d.h.fault("conn-dropped-before-execution")
		wait(ctx, s, l/2)
		return lost("drop")
	}
	if err := wait(ctx, s, l/2); err != nil {
		if err == errBroken {
			return lost("broken")
		}
		ev.Ctx = true
		ev.Err = err
		c.cleanup("ctx")
		return nil, err
	}
	// effect
	ev.TX = simrt.S.SimNow()
	if err := d.effect(ev, st); err != nil {
		ev.Err = err
		var me *mysqldrv.MySQLError
		if errors.As(err, &me) {
			ev.Code = int(me.Number)
		}
	} else {
		ev.Executed = true
	}
	if drop == 2 {
		d.h.fault("conn-dropped-after-execution")
		return lost("drop")
	}
	if err := wait(ctx, s, l-l/2); err != nil {
		if err == errBroken {
			return lost("broken")
		}
		ev.Ctx = true
		ev.Err = err
		ev.Code = 0
		c.cleanup("ctx")
		return nil, err
	}
	if ev.Err != nil {
		return nil, ev.Err
	}
	return ev, nil
}

func myErr(n int) error {
	msg := map[int]string{1213: "Deadlock found when trying to get lock; try restarting transaction", 1205: "Lock wait timeout exceeded; try restarting transaction", 1290: "The MySQL server is running with the --read-only option so it cannot execute this statement", 1836: "Running in read-only mode", 1317: "Query execution was interrupted"}[n]
	if msg == "" {
		msg = "error " + strconv.Itoa(n)
	}
	return &mysqldrv.MySQLError{Number: uint16(n), Message: msg}
}

// handled tells the documented policy of an error.
func handledErr(code int) (cont, rollback bool) {
	switch code {
	case 1213, 1317:
		return true, false
	case 1205, 1290, 1836:
		return true, true
	}
	return false, false
}

func (d *DB) effect(ev *StmtEv, st *StmtS) error {
	s := ev.Sess
	q := ev.Text
	m := &d.sc.MySQL
	switch ev.Kind {
	case "prepare":
		return nil
	case "use":
		name := strings.Trim(strings.TrimSpace(q[4:]), "`; ")
		s.Db = name
		return nil
	case "rollback":
		if v := d.chooseP(KAux, 2, m.RollbackErrP); v == 1 {
			d.h.fault("rollback-error")
			return myErr(1105)
		}
		s.InTrx = false
		s.TrxFailed = nil
		return nil
	case "analyze":
		if v := d.chooseP(KAux, 2, m.AnalyzeErrP); v == 1 {
			d.h.fault("analyze-error")
			return myErr(1105)
		}
		list := strings.TrimSpace(q[strings.Index(strings.ToUpper(q), "TABLE")+5:])
		for _, t := range strings.Split(list, ",") {
			t = strings.ReplaceAll(strings.TrimSpace(t), "`", "")
			dbn := s.Db
			if i := strings.Index(t, "."); i >= 0 {
				dbn, t = t[:i], t[i+1:]
			}
			if tb := d.tables[dbn][t]; tb != nil {
				tb.reported = tb.bytes
			} else if t == "" {
				return myErr(1064)
			}
		}
		s.InTrx = false // implicit commit
		return nil
	case "size":
		return d.sizeQuery(ev)
	case "show":
		if v := d.chooseP(KAux, 2, m.AnalyzeErrP); v == 1 {
			d.h.fault("show-error")
			return myErr(1105)
		}
		dbn := s.Db
		if mt := showFromRE.FindStringSubmatch(q); mt != nil {
			dbn = mt[1]
		}
		for _, t := range d.tableNames(dbn) {
			ev.Rows = append(ev.Rows, []string{t, "BASE TABLE"})
		}
		for _, v := range d.views[dbn] {
			ev.Rows = append(ev.Rows, []string{v, "VIEW"})
		}
		sort.Slice(ev.Rows, func(i, j int) bool { return ev.Rows[i][0] < ev.Rows[j][0] })
		ev.NetRows = len(ev.Rows)
		return nil
	case "seldb":
		if v := d.chooseP(KAux, 2, m.AnalyzeErrP); v == 1 {
			d.h.fault("show-error")
			return myErr(1105)
		}
		ev.Rows = [][]string{{s.Db}}
		ev.NetRows = 1
		return nil
	case "other":
		if strings.TrimSpace(q) == "" {
			return myErr(1065)
		}
		return nil
	}
	// workload statement
	if st == nil {
		return nil
	}
	if s.TrxFailed != nil {
		d.h.violate("C03", "no-rollback", fmt.Sprintf("statement %q executed on session %d with the transaction still open in which %q failed with error %d, without ROLLBACK", q, s.ID, s.TrxFailed.Text, s.TrxFailed.Code))
		s.TrxFailed = nil
	}
	if len(m.Errs) > 0 && m.ErrP > 0 {
		if v := d.chooseP(KErr, len(m.Errs)+1, m.ErrP); v > 0 {
			code := m.Errs[v-1]
			d.h.fault("error-" + strconv.Itoa(code))
			d.failStmt(ev, code)
			return myErr(code)
		}
	}
	if d.readOn && (st.Kind == "insert" || st.Kind == "update" || st.Kind == "ddl" || st.Kind == "commit") {
		d.h.fault("read-only-mode")
		d.failStmt(ev, 1290)
		return myErr(1290)
	}
	switch st.Kind {
	case "begin":
		if s.InTrx {
			ev.Implicit = true
		}
		s.InTrx = true
	case "commit":
		s.InTrx = false
	case "ddl":
		if s.InTrx {
			ev.Implicit = true
		}
		s.InTrx = false
	case "select":
		n := st.NRows
		if st.VaryRows {
			n = int(simrt.RandU64() % uint64(st.NRows+1))
		}
		for i := 0; i < n; i++ {
			row := make([]string, len(st.Cols))
			for j := range row {
				// values identify session-independent, unique cells
				if st.NumCols {
					row[j] = strconv.Itoa(1000000 + ev.N*100 + i*10 + j)
				} else {
					row[j] = fmt.Sprintf("r%de%di%dj%d", len(row), ev.N, i, j)
					if simrt.RandU64()%3 == 0 {
						row[j] += strings.Repeat("x", int(simrt.RandU64()%7))
					}
				}
			}
			ev.Rows = append(ev.Rows, row)
		}
		ev.NetRows = len(ev.Rows)
	case "insert":
		n := int64(st.Affected)
		if n == 0 {
			n = 1
		}
		if st.VaryRows {
			n = int64(simrt.RandU64() % uint64(2*n+1))
		}
		ev.Affected = n
		if n > 0 {
			d.insID++
			ev.InsertID = insBase[d.sc.Seed%uint64(len(insBase))] + d.insID*(1+6*int64(d.sc.Seed/4%2))
		}
		if mt := intoRE.FindStringSubmatch(q); mt != nil {
			if d.tables[s.Db] == nil {
				d.tables[s.Db] = map[string]*table{}
			}
			tb := d.tables[s.Db][mt[1]]
			if tb == nil {
				tb = &table{}
				d.tables[s.Db][mt[1]] = tb
			}
			tb.rows += n
			per := int64(st.RowBytes)
			if per == 0 {
				per = 100
			}
			tb.bytes += n * per
		}
	case "update":
		ev.Affected = int64(simrt.RandU64() % 3)
	}
	return nil
}

func (d *DB) failStmt(ev *StmtEv, code int) {
	s := ev.Sess
	if code == 1213 {
		s.InTrx = false // InnoDB rolled the transaction back
	}
	if _, rb := handledErr(code); rb && s.InTrx {
		s.TrxFailed = ev
	}
}

func (d *DB) tableNames(dbn string) []string {
	var out []string
	for t := range d.tables[dbn] {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}

var showFromRE = regexp.MustCompile("(?i)(?:FROM|IN)\\s+[`']?([^`'\\s;]+)")
var schemaRE = regexp.MustCompile(`(?i)table_schema\s*=\s*'([^']*)'`)
var tnameRE = regexp.MustCompile(`(?i)table_name\s*=\s*'([^']*)'`)

func (d *DB) sizeQuery(ev *StmtEv) error {
	sm := schemaRE.FindStringSubmatch(ev.Text)
	dbn := ev.Sess.Db
	if sm != nil {
		dbn = sm[1]
	}
	var sum int64
	if v := d.chooseP(KAux, 2, d.sc.MySQL.AnalyzeErrP); v == 1 {
		d.h.fault("size-query-error")
		return myErr(1105)
	}
	add := func(b int64) {
		sum += b
		ev.Rows = append(ev.Rows, []string{strconv.FormatInt(b, 10)})
	}
	if tm := tnameRE.FindStringSubmatch(ev.Text); tm != nil {
		if t := d.tables[dbn][tm[1]]; t != nil {
			add(t.reported)
		}
	} else {
		for _, t := range d.tableNames(dbn) {
			add(d.tables[dbn][t].reported)
		}
	}
	if strings.Contains(strings.ToUpper(ev.Text), "SUM(") {
		ev.Rows = [][]string{{strconv.FormatInt(sum, 10)}}
	}
	ev.NetRows = len(ev.Rows)
	return nil
}

type rowsT struct {
	c    *conn
	ev   *StmtEv
	ctx  context.Context
	bin  bool
	i    int
	bufs [][]byte
	bad  int
	done bool
}

func (c *conn) rows(ctx context.Context, ev *StmtEv, bin bool) driver.Rows {
	r := &rowsT{c: c, ev: ev, ctx: ctx, bin: bin, bad: -1}
	if ev.Kind == "work" && db.sc.MySQL.RowErrP > 0 {
		// an error while the rows are read: 1 = MySQL error, 2 = lost connection
		if v := db.chooseP(KRowErr, 4, db.sc.MySQL.RowErrP); v > 0 {
			r.bad = v
		}
	}
	if ev.NetRows > 0 || r.bad > 0 {
		c.s.openRows = r
	} else {
		ev.TRead = simrt.S.SimNow()
	}
	return r
}

func (r *rowsT) Columns() []string {
	n := 1
	if st := db.sc.stmtByTag[r.ev.Tag]; st != nil && r.ev.Kind == "work" {
		n = len(st.Cols)
	} else if r.ev.Kind == "show" {
		n = 2
	}
	out := make([]string, n)
	for i := range out {
		out[i] = fmt.Sprintf("c%d", i)
	}
	return out
}

func (r *rowsT) end() {
	if r.c.s.openRows == r {
		r.c.s.openRows = nil
	}
	if !r.done {
		r.done = true
		r.ev.TRead = simrt.S.SimNow()
	}
}

func (r *rowsT) fail() error {
	ev := r.ev
	ev.RowErr = true
	r.end()
	switch r.bad {
	case 1:
		db.h.fault("rows-error-1317")
		ev.Code = 1317
		ev.Err = myErr(1317)
	case 2:
		db.h.fault("rows-error-1105")
		ev.Code = 1105
		ev.Err = myErr(1105)
	default:
		db.h.fault("rows-conn-lost")
		ev.Lost = true
		ev.Err = mysqldrv.ErrInvalidConn
		r.c.cleanup("drop")
		r.c.s.broken = true
	}
	db.h.log("row-err", ev.G, fmt.Sprintf("e%d %v", ev.N, ev.Err))
	return ev.Err
}

func (r *rowsT) Next(dest []driver.Value) error {
	if simrt.Dead() {
		return io.EOF
	}
	if r.done {
		return io.EOF
	}
	// the buffer of the previous row is overwritten
	for _, b := range r.bufs {
		for i := range b {
			b[i] = '#'
		}
	}
	if r.c.closed || r.c.s.broken {
		r.ev.RowErr = true
		r.ev.Lost = true
		r.ev.Err = mysqldrv.ErrInvalidConn
		r.end()
		return mysqldrv.ErrInvalidConn
	}
	if r.i > 0 && r.i%8 == 0 {
		if err := wait(r.ctx, r.c.s, 100*time.Microsecond); err != nil {
			r.ev.RowErr = true
			r.end()
			r.c.cleanup("ctx")
			if err == errBroken {
				r.ev.Lost = true
				r.ev.Err = mysqldrv.ErrInvalidConn
				return mysqldrv.ErrInvalidConn
			}
			r.ev.Ctx = true
			r.ev.Err = err
			return err
		}
	}
	if r.bad > 0 && r.i >= len(r.ev.Rows)/2 {
		return r.fail()
	}
	if r.i >= len(r.ev.Rows) {
		r.end()
		return io.EOF
	}
	row := r.ev.Rows[r.i]
	r.i++
	r.ev.RowsRead = r.i
	st := db.sc.stmtByTag[r.ev.Tag]
	r.bufs = r.bufs[:0]
	for i := range dest {
		if r.bin && st != nil && st.NumCols {
			n, _ := strconv.ParseInt(row[i], 10, 64)
			dest[i] = n
			continue
		}
		b := []byte(row[i])
		r.bufs = append(r.bufs, b)
		dest[i] = b
	}
	return nil
}

func (r *rowsT) Close() error {
	if simrt.Dead() {
		return nil
	}
	for _, b := range r.bufs {
		for i := range b {
			b[i] = '#'
		}
	}
	if !r.done && r.bad > 0 && !r.c.closed {
		// remaining rows are drained: the error surfaces here
		return r.fail()
	}
	r.end()
	return nil
}
