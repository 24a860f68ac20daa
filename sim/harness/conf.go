package main

// Configurations written in many ways: values as literals, human-readable
// numbers, params and environment variables, set in _all.yaml, the stage file
// or on the command line.

import (
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"path"
	"regexp"
	"strconv"
	"strings"

	mysqldrv "github.com/go-sql-driver/mysql"
	"simrt"
)

// ConfS says how the configuration of a scenario is written.
type ConfS struct {
	Seed      uint64
	Theme     string // the property the scenario is made for
	Params    bool
	Env       bool
	Human     bool
	CLI       bool // --param
	Base      bool // _all.yaml
	Decoys    bool // values that are overridden
	Dirs      bool // stage files in directories of their own
	MySQL     int  // 0 plain, 1 fields, 2 dsn in a file, 3 --dsn
	MyCnf     bool
	TLS       bool
	BaseStats bool
	Disabled  int    // stages that are disabled
	Db        string // --database
	FSP       float64
}

// confOut is the written configuration.
type confOut struct {
	files map[string]string
	args  []string
	env   map[string]string
	my    []mysqldrv.Config // expected per stage
	tls   []tlsWant
	uses  map[string]int
}

func (c *confOut) install(n *simrt.Node) {
	for _, p := range sortedKeys(c.files) {
		n.FS.MkdirAll(path.Dir(p))
		n.FS.Put(p, c.files[p])
	}
	for _, k := range sortedKeys(c.env) {
		n.Env[k] = c.env[k]
	}
}

type confR struct {
	c     *ConfS
	r     *R
	o     *confOut
	cli   []string // in order
	base  map[string]map[string]string
	stage map[string]string
	dir   string
	n     int
	names map[string]bool
	level int  // 1: only what all stages of the directory have, 2: only what all stages have
	alone bool // the only stage of its directory
}

var reMangled = regexp.MustCompile(`\b[\d,]*\d+(?i:[MKGBI]+)\b`)
var reNum = regexp.MustCompile(`^\d+$`)

func comma(s string) string {
	for i := len(s) - 3; i > 0; i -= 3 {
		s = s[:i] + "," + s[i:]
	}
	return s
}

// human writes a number in another way, if there is one.
func (c *confR) human(lit string) string {
	if !c.c.Human || !reNum.MatchString(lit) || len(lit) < 4 {
		return lit
	}
	n, _ := strconv.ParseUint(lit, 10, 64)
	var f []string
	f = append(f, comma(lit))
	for _, u := range []struct {
		n uint64
		s []string
	}{{1000, []string{"k", "K", "KB", "kB"}}, {1000000, []string{"M", "m", "MB"}}, {1000000000, []string{"G", "g", "GB"}}, {1024, []string{"KiB", "kib"}}} {
		if n%u.n == 0 {
			for _, s := range u.s {
				f = append(f, strconv.FormatUint(n/u.n, 10)+s)
			}
		}
	}
	c.o.uses["human-number"]++
	return f[c.r.n(len(f))]
}

// v is the slotF of the current stage.
func (c *confR) v(kind byte, lit string, raw bool) string {
	q := func(s string) string {
		if raw {
			return s
		}
		return yq(s)
	}
	x := c.r.n(10)
	switch {
	case x < 4 || !c.c.Params && !c.c.Env || lit == "" || strings.Contains(lit, ",") || // "1,100" is a number
		kind == 's' && reMangled.MatchString(lit): // in a param it is a number
		if kind == 'n' && c.r.p(0.5) {
			if h := c.human(lit); h != lit {
				return q(h)
			}
		}
		return literal(kind, lit, raw)
	}
	return q(c.expr(kind, lit, 0))
}

func (c *confR) expr(kind byte, lit string, depth int) string {
	if len(lit) >= 2 && c.r.p(0.3) {
		i := c.r.in(1, len(lit)-1)
		a, b := lit[:i], lit[i:]
		if !reMangled.MatchString(a) && !reMangled.MatchString(b) && !strings.ContainsAny(lit, "$,") {
			c.o.uses["two-values"]++
			switch c.r.n(3) {
			case 0:
				return c.ref('s', a, true, depth) + b
			case 1:
				return a + c.ref('s', b, c.r.p(0.5), depth)
			}
			return c.ref('s', a, true, depth) + c.ref('s', b, c.r.p(0.5), depth)
		}
	}
	return c.ref(kind, lit, c.r.p(0.5), depth)
}

var paramPool = []string{"p", "p1", "p10", "rows", "rows_2", "n-m", "a", "ab", "abc"}
var envPool = []string{"FX", "FX1", "FX10", "FX_A", "FX_AB"}

func (c *confR) name(pool []string) string {
	for {
		s := pool[c.n%len(pool)]
		if k := c.n / len(pool); k > 0 {
			s += strconv.Itoa(k)
		}
		c.n += c.r.in(1, 3)
		if !c.names[s] {
			c.names[s] = true
			return s
		}
	}
}

// ref makes a param or environment variable with a value and returns the
// reference to it.
func (c *confR) ref(kind byte, lit string, braces bool, depth int) string {
	w := func(s string) string {
		if braces {
			return "${" + s + "}"
		}
		return "$" + s
	}
	if c.c.Env && (!c.c.Params || c.r.p(0.25)) {
		k := c.name(envPool)
		v := lit
		if kind == 'n' && c.r.p(0.4) {
			v = c.human(v)
		}
		c.o.env[k] = v
		c.o.uses["env"]++
		return w(k)
	}
	k := c.name(paramPool)
	layers := []string{"stage"}
	if c.level > 0 {
		layers = nil
	}
	if c.c.Base && c.level < 2 {
		layers = append(layers, "base")
	}
	if c.c.CLI || len(layers) == 0 {
		layers = append(layers, "cli")
	}
	l := layers[c.r.n(len(layers))]
	old := c.level
	switch l {
	case "base":
		c.level = 1
	case "cli":
		c.level = 2
	}
	var v string
	switch {
	case depth < 3 && c.r.p(0.3) && (l != "base" || c.c.Base):
		v = c.expr(kind, lit, depth+1)
		c.o.uses["param-of-param"]++
	case kind == 'n' && c.r.p(0.5):
		v = c.human(lit)
	default:
		v = lit
	}
	c.level = old
	decoy := func() string {
		return c.r.str("$params.undefined", "${FX_UNDEFINED}", "decoy", "77", "1k", "$params.p")
	}
	switch l {
	case "cli":
		c.cli = append(c.cli, k+"="+v)
		if c.c.Decoys && c.r.p(0.5) {
			c.stage[k] = decoy()
			c.o.uses["param-overridden"]++
		}
		if c.c.Decoys && c.c.Base && c.r.p(0.5) {
			c.baseOf(c.dir)[k] = decoy()
			c.o.uses["param-overridden"]++
		}
	case "stage":
		c.stage[k] = v
		if c.c.Decoys && c.c.Base && c.alone && c.r.p(0.5) {
			c.baseOf(c.dir)[k] = decoy()
			c.o.uses["param-overridden"]++
		}
	case "base":
		c.baseOf(c.dir)[k] = v
	}
	c.o.uses["param-"+l]++
	return w("params." + k)
}

func (c *confR) baseOf(d string) map[string]string {
	if c.base[d] == nil {
		c.base[d] = map[string]string{}
	}
	return c.base[d]
}

func paramsYAML(m map[string]string, in string) string {
	if len(m) == 0 {
		return ""
	}
	s := in + "params:\n"
	for _, k := range sortedKeys(m) {
		s += in + "  " + k + ": " + yq(m[k]) + "\n"
	}
	return s
}

// fields of the mysql section, one file's.
type myF map[string]string

func (m myF) yaml(v slotF, in string) string {
	if len(m) == 0 {
		return ""
	}
	s := in + "mysql:\n"
	sub := ""
	for _, k := range sortedKeys(m) {
		if strings.HasPrefix(k, "tls.") || k == "disable-auto-tls" {
			x := v
			if m[k] == "true" || m[k] == "false" { // booleans have no params
				x = func(_ byte, s string, _ bool) string { return s }
			}
			if k = strings.TrimPrefix(k, "tls."); k == "disable-auto-tls" {
				s += in + "  " + k + ": " + m[k] + "\n"
			} else {
				sub += in + "    " + k + ": " + x('s', m["tls."+k], false) + "\n"
			}
			continue
		}
		s += in + "  " + k + ": " + v('s', m[k], false) + "\n"
	}
	if sub != "" {
		s += in + "  tls:\n" + sub
	}
	return s
}

// tlsWant is what a connection has to use: no TLS if there is none of it.
type tlsWant struct {
	on, rds, skip bool
	ca, cert      string // PEM
	server        string
}

func (c *confR) tlsFields(m myF, d, layer string) {
	r := c.r
	crt, key := crtA, keyA
	if layer == "base" {
		crt, key = crtB, keyB
	}
	put := func(k, name, txt string) {
		m["tls."+k] = "tls/" + layer + "-" + name
		c.o.files[path.Join(d, m["tls."+k])] = txt
	}
	if r.p(0.4) {
		put("ca", "ca.pem", crt)
	}
	if r.p(0.35) {
		put("cert", "cert.pem", crt)
		put("key", "key.pem", key)
	}
	if r.p(0.2) {
		m["tls.skip-verify"] = r.str("true", "false")
	}
	if r.p(0.2) {
		m["tls.disable"] = r.str("true", "false")
	}
	if r.p(0.2) {
		m["disable-auto-tls"] = r.str("true", "false")
	}
}

// tlsExpect: the stage file is before _all.yaml is before my.cnf, whose
// ssl-mode is for its own files.
func tlsExpect(eff func(string) string, cnf myF, host string, unix bool) (w tlsWant) {
	text := map[string]string{"": "", "tls/stage-ca.pem": crtA, "tls/base-ca.pem": crtB, "tls/stage-cert.pem": crtA, "tls/base-cert.pem": crtB}
	w.ca, w.cert = text[eff("tls.ca")], text[eff("tls.cert")]
	mode := strings.ToUpper(cnf["ssl-mode"])
	if mode != "DISABLED" {
		if w.ca == "" && cnf["ssl-ca"] != "" {
			w.ca = crtC
		}
		if w.cert == "" && cnf["ssl-cert"] != "" {
			w.cert = crtC
		}
	}
	w.skip = eff("tls.skip-verify") == "true"
	w.on = (w.ca != "" || w.cert != "") && eff("tls.disable") != "true"
	if i := strings.LastIndex(host, ":"); i >= 0 {
		host = host[:i]
	}
	w.server = host
	if unix && eff("hostname") == "" && cnf["host"] == "" {
		w.skip, w.server = true, ""
	}
	if !w.on {
		w = tlsWant{}
		if strings.HasSuffix(host, ".rds.amazonaws.com") && !unix && eff("disable-auto-tls") != "true" {
			w.on, w.rds, w.server = true, true, host
		}
	}
	return
}

// check compares TLS of a connection.
func (w tlsWant) check(g *tls.Config) string {
	if g == nil || !w.on {
		if (g != nil) != w.on {
			return map[bool]string{true: "it has to use TLS", false: "it must not use TLS"}[w.on]
		}
		return ""
	}
	if g.InsecureSkipVerify != w.skip {
		return fmt.Sprintf("skip-verify is %v, expected %v", g.InsecureSkipVerify, w.skip)
	}
	if !w.skip && g.ServerName != w.server {
		return fmt.Sprintf("the certificate is verified for host %q, expected %q", g.ServerName, w.server)
	}
	name := func(txt string) string {
		return map[string]string{crtA: "the stage file", crtB: "_all.yaml", crtC: "my.cnf"}[txt]
	}
	if w.rds {
		if g.RootCAs == nil {
			return "the CA of Amazon RDS is not used"
		}
	} else if w.ca == "" {
		if g.RootCAs != nil {
			return "it has a CA, none is configured"
		}
	} else {
		p := x509.NewCertPool()
		p.AppendCertsFromPEM([]byte(w.ca))
		if !p.Equal(g.RootCAs) {
			return "its CA is not that of " + name(w.ca)
		}
	}
	if w.cert == "" || w.rds {
		if len(g.Certificates) != 0 {
			return "it has a certificate, none is configured"
		}
	} else {
		b, _ := pem.Decode([]byte(w.cert))
		if len(g.Certificates) != 1 || string(g.Certificates[0].Certificate[0]) != string(b.Bytes) {
			return "its certificate is not that of " + name(w.cert)
		}
	}
	return ""
}

// conf writes the configuration.
func (sc *Scenario) conf() *confOut {
	if sc.confOut != nil {
		return sc.confOut
	}
	cf := sc.Conf
	o := &confOut{files: map[string]string{}, env: map[string]string{}, uses: map[string]int{}}
	sc.confOut = o
	c := &confR{c: cf, r: &R{x: cf.Seed}, o: o, base: map[string]map[string]string{}, names: map[string]bool{}}
	r := c.r
	used := []string{}
	dirs := make([]string, len(sc.Stages))
	per := map[string]int{}
	shared := r.p(0.3)
	for i := range sc.Stages {
		dirs[i] = "/work"
		if cf.Dirs {
			dirs[i] = fmt.Sprintf("/work/cfg/s%d", i)
			if shared {
				dirs[i] = "/work/cfg"
			}
		}
		per[dirs[i]]++
	}
	// mysql: what the stages of a directory have in common is in its _all.yaml
	baseMy := map[string]myF{}
	for _, d := range dirs {
		if baseMy[d] == nil {
			baseMy[d] = myF{}
			if cf.Base && cf.MySQL > 0 {
				for _, k := range []string{"hostname", "username", "password", "db"} {
					if r.p(0.5) {
						baseMy[d][k] = map[string]string{"hostname": "10.0.0.1:3307", "username": "base-user", "password": "base-pass", "db": defaultDB}[k]
					}
				}
				if cf.MySQL == 2 && r.p(0.6) {
					baseMy[d]["dsn"] = "dsn-base:dp@tcp(10.0.0.2:3308)/" + defaultDB
				}
				if cf.MyCnf && r.p(0.4) {
					baseMy[d]["mycnf"] = "base.cnf"
				}
				if cf.TLS {
					c.tlsFields(baseMy[d], d, "base")
				}
			}
		}
	}
	files := map[string]string{} // stage file by index
	statsIn := map[string]string{}
	for i, st := range sc.Stages {
		d := dirs[i]
		c.dir = d
		c.stage = map[string]string{}
		c.alone = per[d] == 1
		// trx files
		for _, t := range st.Trx {
			p := path.Join(d, t.Dir, t.File)
			o.files[p] = t.render(c.v)
			if d != "/work" {
				o.files[path.Join("/work", t.Dir, t.File)] = "UPDATE /*DECOY*/ t SET c=1\n"
			}
		}
		// mysql
		my := myF{}
		var want mysqldrv.Config
		if cf.MySQL == 0 {
			my = myF{"db": defaultDB, "hostname": "127.0.0.1", "username": "u", "password": "p"}
		} else {
			for _, k := range []string{"hostname", "username", "password", "db"} {
				if r.p(0.4) {
					my[k] = map[string]string{"hostname": r.str("db-host", "db-host", "db.us-east-1b.local"), "username": r.str("stage_user", "app-2k"), "password": r.str("stage-pass", "pass-10k!"), "db": defaultDB}[k]
					if k == "hostname" && r.p(0.5) {
						my[k] += ":3310"
					}
					if k == "hostname" && cf.TLS && r.p(0.4) {
						my[k] = "b1.c0ffee.eu-west-1.rds.amazonaws.com" + r.str("", ":3306")
					}
				}
			}
			if my["hostname"] == "" && baseMy[d]["hostname"] == "" && !cf.MyCnf && r.p(0.3) {
				my["socket"] = "/tmp/my.sock"
			}
			if my["password"] == "" && baseMy[d]["password"] == "" && r.p(0.3) {
				my["password-file"] = "secret/pw.txt"
				o.files[path.Join(d, "secret/pw.txt")] = "file-pass"
				o.files["/work/secret/pw.txt"] = "wrong"
				if d == "/work" {
					o.files["/work/secret/pw.txt"] = "file-pass"
				}
			}
			if cf.MyCnf && r.p(0.5) {
				my["mycnf"] = "cnf/my.cnf"
			}
			if cf.TLS {
				c.tlsFields(my, d, "stage")
			}
			if cf.MySQL == 2 && (baseMy[d]["dsn"] == "" || r.p(0.5)) {
				my["dsn"] = "dsn-stage:dp@tcp(10.0.0.3:3309)/" + defaultDB
			}
		}
		eff := func(k string) string {
			if my[k] != "" {
				return my[k]
			}
			return baseMy[d][k]
		}
		cnf := myF{}
		if f := eff("mycnf"); f != "" {
			cnf = myF{"user": "cnf-user", "password": "cnf-pass"}
			if eff("socket") == "" {
				cnf["host"] = "cnf-host"
				if r.p(0.5) {
					cnf["port"] = "3311"
				}
			}
			for _, k := range sortedKeys(cnf) {
				if (k == "host" || k == "user" || k == "password") && r.p(0.3) && !(k == "host" && cnf["port"] != "") {
					delete(cnf, k)
				}
			}
			if cf.TLS {
				if r.p(0.6) {
					cnf["ssl-ca"] = "/etc/ca-cnf.pem"
					o.files["/etc/ca-cnf.pem"] = crtC
				}
				if r.p(0.4) {
					cnf["ssl-cert"], cnf["ssl-key"] = "/etc/cnf.crt", "/etc/cnf.key"
					o.files["/etc/cnf.crt"], o.files["/etc/cnf.key"] = crtC, keyC
				}
				if r.p(0.5) {
					cnf["ssl-mode"] = r.str("DISABLED", "disabled", "PREFERRED", "preferred", "REQUIRED", "VERIFY_CA", "VERIFY_IDENTITY")
				}
			}
			txt := "[mysqld]\nuser=nobody\n[client]\n"
			for _, k := range sortedKeys(cnf) {
				txt += k + " = " + cnf[k] + "\n"
			}
			fp := path.Join(d, f)
			if old, ok := o.files[fp]; ok { // base.cnf of several stages
				cnf = myF{}
				for _, l := range strings.Split(old[strings.Index(old, "[client]"):], "\n") {
					if kv := strings.SplitN(l, " = ", 2); len(kv) == 2 {
						cnf[kv[0]] = kv[1]
					}
				}
				if eff("socket") != "" {
					delete(my, "socket")
				}
			} else {
				o.files[fp] = txt
			}
		}
		{
			host := eff("hostname")
			if host == "" && cnf["host"] != "" {
				host = cnf["host"]
				if cnf["port"] != "" {
					host += ":" + cnf["port"]
				}
			}
			if host == "" {
				host = "127.0.0.1"
			}
			want.Net, want.Addr = "tcp", host
			if s := eff("socket"); s != "" {
				want.Net, want.Addr = "unix", s
			} else if !strings.Contains(host, ":") {
				want.Addr += ":3306"
			}
			want.User, want.Passwd = eff("username"), eff("password")
			if want.User == "" {
				want.User = cnf["user"]
			}
			if want.Passwd == "" {
				want.Passwd = cnf["password"]
			}
			if eff("password-file") != "" {
				want.Passwd = "file-pass"
			}
			if want.User == "" {
				want.User = "finch"
				if want.Passwd == "" {
					want.Passwd = "amazing"
				}
			}
			want.DBName = eff("db")
			if cf.Db != "" {
				want.DBName = cf.Db
			}
			dsn := eff("dsn")
			if cf.MySQL == 3 {
				dsn = "cli:cp@tcp(10.0.0.4:3312)/" + defaultDB
			}
			o.tls = append(o.tls, tlsExpect(eff, cnf, host, want.Net == "unix"))
			if dsn != "" {
				o.tls[i] = tlsWant{}
				w, err := mysqldrv.ParseDSN(dsn)
				if err != nil {
					panic(err)
				}
				want = *w
			}
			if want.DBName == "" { // needed by the simulated tables
				my["db"] = defaultDB
				want.DBName = defaultDB
			}
		}
		o.my = append(o.my, want)
		// stats
		stats := ""
		inBase := cf.BaseStats && per[d] == 1
		if inBase {
			c.o.uses["stats-in-base"]++
			// values of _all.yaml can use the params of the stage, too
			statsIn[d] = st.statsYAML(c.v, "")
			if cf.Decoys && r.p(0.5) && st.FreqMS > 0 {
				stats = "  stats:\n    freq: " + c.v('d', fmt.Sprintf("%dms", st.FreqMS), false) + "\n"
				statsIn[d] = regexp.MustCompile(`(?m)^  freq: .*$`).ReplaceAllString(statsIn[d], "  freq: 7h")
			}
		} else {
			stats = st.statsYAML(c.v, "  ")
		}
		if cf.Db != "" { // --database overrides them
			cp := *st
			cp.Groups = nil
			for _, g := range st.Groups {
				x := *g
				x.Db = r.str("", "", "db1", "nodb")
				cp.Groups = append(cp.Groups, &x)
			}
			files[fmt.Sprint(i)] = cp.render(c.v, my.yaml(c.v, "  "), stats)
		} else {
			files[fmt.Sprint(i)] = st.render(c.v, my.yaml(c.v, "  "), stats)
		}
		if r.p(0.3) {
			c.stage["unused"] = r.str("x", "1k", "100ms", "$params.unused2")
			if c.stage["unused"][0] == '$' {
				c.stage["unused2"] = "y"
			}
		}
		files[fmt.Sprint(i)] += paramsYAML(c.stage, "  ")
	}
	seen := map[string]bool{}
	for _, d := range dirs {
		if seen[d] {
			continue
		}
		seen[d] = true
		txt := baseMy[d].yaml(literal, "") + statsIn[d] + paramsYAML(c.base[d], "")
		if txt != "" {
			o.files[d+"/_all.yaml"] = txt
			o.uses["base-file"]++
		}
	}
	if cf.Dirs && cf.Decoys && r.p(0.5) { // of another directory
		o.files["/work/_all.yaml"] = "mysql:\n  dsn: wrong:wrong@tcp(10.9.9.9:1)/" + defaultDB + "\nparams:\n  p: wrong\n"
	}
	// command line
	if cf.MySQL == 3 {
		used = append(used, "--dsn", "cli:cp@tcp(10.0.0.4:3312)/"+defaultDB)
		o.uses["--dsn"]++
	}
	if cf.Db != "" {
		used = append(used, r.str("-D", "--database"), cf.Db)
		o.uses["--database"]++
	}
	for _, kv := range c.cli {
		used = append(used, r.str("--param", "-p"), kv)
	}
	nd := cf.Disabled
	var stageArgs []string
	disabled := func() {
		k := len(stageArgs)
		d := "/work"
		if cf.Dirs {
			d = "/work/cfg/off"
		}
		p := fmt.Sprintf("%s/off%d.yaml", d, k)
		trx := "trx/off.sql"
		body := "  workload:\n    - clients: 1\n      iter: 3\n"
		switch r.n(4) {
		case 0:
			trx = "trx/none.sql"
		case 1:
			body = "  workload:\n    - clients: $params.undefined\n"
		}
		o.files[path.Join(d, "trx/off.sql")] = "UPDATE /*DISABLED*/ t SET c=1\n"
		o.files[p] = "stage:\n  disable: true\n  name: off\n" + body + "  trx:\n    - file: " + trx + "\n"
		stageArgs = append(stageArgs, p)
		o.uses["disabled-stage"]++
	}
	for i := range sc.Stages {
		if nd > 0 && r.p(0.5) {
			disabled()
			nd--
		}
		p := fmt.Sprintf("%s/stage%d.yaml", dirs[i], i)
		o.files[p] = files[fmt.Sprint(i)]
		if r.p(0.5) {
			p = strings.TrimPrefix(p, "/work/")
			if r.p(0.2) {
				p = "./" + p
			}
		}
		stageArgs = append(stageArgs, p)
	}
	for ; nd > 0; nd-- {
		disabled()
	}
	// options and files in any order
	k := r.n(len(stageArgs) + 1)
	o.args = append(append(append(o.args, stageArgs[:k]...), used...), stageArgs[k:]...)
	if r.p(0.7) {
		o.args = append(append([]string{}, used...), stageArgs...)
	}
	return o
}
