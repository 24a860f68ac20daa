// Package simnet is the simulated network under the program's HTTP client and
// server: requests and responses are messages that the simulator delivers,
// delays, duplicates or loses.
package simnet

import (
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"runtime"
	"strings"
	"time"

	"simrt"
)

// Verdict is what happens to one request.
type Verdict struct {
	ReqLat, RespLat time.Duration
	LoseReq         bool   // request never arrives
	LoseResp        bool   // handler runs, response never arrives
	Reset           bool   // a loss is seen as a connection error instead of silence
	Cut             uint64 // >0: the connection is reset after a part (Cut modulo its length) of the response body
	Redo            bool   // GET only: connection dies after the server processed the request, the transport repeats it
}

// Req describes a request to the harness.
type Req struct {
	N          int
	From, To   *simrt.Node
	FromHost   string
	ToHost     string
	Method     string
	Path       string
	Query      url.Values
	Body       []byte
	Start      int64
	Handled    int // times the handler was started
	HandlerAt  int64
	HandlerEnd int64
	Status     int
	HStatus    int // status of the first time the handler answered
	HStatuses  []int
	HGone      bool // the client was gone when the handler ended
	Gen        int  // which process of the sending node
	RespBody   []byte
	End        int64
	Err        error
	Gave       bool // the client gave up before a response arrived
	V          Verdict
}

// World is the network of one run.
type World struct {
	Decide    func(r *Req) Verdict
	Cut       func(a, b string) bool // messages between these hosts are lost now
	Observe   func(what string, r *Req)
	listeners map[string]*listener
	n         int
	Reqs      []*Req
	KeepMax   int
}

type listener struct {
	node  *simrt.Node
	gen   int
	srv   *Server
	raw   bool
	close func()
}

// W is the current network.
var W *World

// Reset makes a new network.
func Reset() *World {
	W = &World{listeners: map[string]*listener{}, KeepMax: 100000}
	return W
}

func (w *World) cut(a, b string) bool { return w.Cut != nil && a != b && w.Cut(a, b) }

func (w *World) obs(what string, r *Req) {
	if w.Observe != nil {
		w.Observe(what, r)
	}
}

func key(host, addr string) string {
	_, port, err := net.SplitHostPort(addr)
	if err != nil {
		port = "80"
	}
	return host + ":" + port
}

func (w *World) lookup(hostport string) *listener {
	h, p, err := net.SplitHostPort(hostport)
	if err != nil {
		h, p = hostport, "80"
	}
	l := w.listeners[h+":"+p]
	if l == nil || l.node.State != simrt.NodeRunning || l.node.Starts != l.gen {
		return nil
	}
	return l
}

func hostUp(host string) bool {
	for _, n := range simrt.S.Nodes {
		if n.Host == host {
			return true // machines stay up, only processes die
		}
	}
	return false
}

// ---------------------------------------------------------------- server

// Server is http.Server.
type Server struct {
	Addr                                                      string
	Handler                                                   http.Handler
	TLSConfig                                                 *tls.Config
	ReadTimeout, ReadHeaderTimeout, WriteTimeout, IdleTimeout time.Duration
	MaxHeaderBytes                                            int
	ErrorLog                                                  *log.Logger
	BaseContext                                               func(net.Listener) context.Context
	ConnContext                                               func(ctx context.Context, c net.Conn) context.Context
	stop                                                      chan struct{}
	stopped                                                   bool
	k                                                         string
	active                                                    int
	onShut                                                    []func()
}

func (s *Server) register(addr string) error {
	n := simrt.CurNode()
	k := key(n.Host, addr)
	if W.lookup(k) != nil {
		return &net.OpError{Op: "listen", Net: "tcp", Err: errors.New("bind: address already in use")}
	}
	s.k = k
	W.listeners[k] = &listener{node: n, gen: n.Starts, srv: s}
	return nil
}

func (s *Server) ListenAndServe() error {
	simrt.P()
	if s.stopped {
		return http.ErrServerClosed
	}
	addr := s.Addr
	if addr == "" {
		addr = ":80"
	}
	if err := s.register(addr); err != nil {
		return err
	}
	return s.serve()
}

func (s *Server) serve() error {
	if s.stop == nil {
		s.stop = make(chan struct{})
	}
	simrt.Recv(s.stop)
	return http.ErrServerClosed
}

func (s *Server) Serve(l net.Listener) error {
	if ln, ok := l.(*lnT); ok {
		ln.Close()
		if err := s.register(ln.addr); err != nil {
			return err
		}
		return s.serve()
	}
	return errors.New("simnet: foreign listener")
}

func (s *Server) Close() error {
	if simrt.Dead() || s.stopped {
		return nil
	}
	s.stopped = true
	delete(W.listeners, s.k)
	if s.stop == nil {
		s.stop = make(chan struct{})
	}
	simrt.CloseNow(s.stop)
	return nil
}

func (s *Server) Shutdown(ctx context.Context) error {
	s.Close()
	for _, f := range s.onShut {
		simrt.Go(f)
	}
	for s.active > 0 {
		if ctx.Err() != nil {
			return ctx.Err()
		}
		simrt.Sleep(time.Millisecond)
	}
	return nil
}

func (s *Server) RegisterOnShutdown(f func()) { s.onShut = append(s.onShut, f) }
func (s *Server) SetKeepAlivesEnabled(bool)   {}

type lnT struct{ addr, k string }

func (l *lnT) Accept() (net.Conn, error) {
	simrt.BlockForever()
	return nil, nil
}
func (l *lnT) Close() error {
	if !simrt.Dead() {
		if x := W.listeners[l.k]; x != nil && x.raw {
			delete(W.listeners, l.k)
		}
	}
	return nil
}
func (l *lnT) Addr() net.Addr { return addrT(l.addr) }

type addrT string

func (addrT) Network() string  { return "tcp" }
func (a addrT) String() string { return string(a) }

// Listen is net.Listen.
func Listen(addr string) (net.Listener, error) {
	simrt.P()
	n := simrt.CurNode()
	k := key(n.Host, addr)
	if W.lookup(k) != nil {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: errors.New("bind: address already in use")}
	}
	W.listeners[k] = &listener{node: n, gen: n.Starts, raw: true}
	return &lnT{addr, k}, nil
}

// ---------------------------------------------------------------- client

// Transport is http.Transport.
type Transport struct {
	Proxy                                                                              func(*http.Request) (*url.URL, error)
	DialContext                                                                        func(ctx context.Context, network, addr string) (net.Conn, error)
	Dial                                                                               func(network, addr string) (net.Conn, error)
	TLSClientConfig                                                                    *tls.Config
	TLSHandshakeTimeout, IdleConnTimeout, ResponseHeaderTimeout, ExpectContinueTimeout time.Duration
	DisableKeepAlives, DisableCompression, ForceAttemptHTTP2                           bool
	MaxIdleConns, MaxIdleConnsPerHost, MaxConnsPerHost                                 int
	MaxResponseHeaderBytes                                                             int64
	WriteBufferSize, ReadBufferSize                                                    int
}

func (t *Transport) CloseIdleConnections() {}
func (t *Transport) Clone() *Transport     { c := *t; return &c }

type result struct {
	status int
	header http.Header
	body   []byte
	cut    bool // only the beginning of the body arrived
	err    error
}

type rw struct {
	h      http.Header
	status int
	buf    bytes.Buffer
	gone   *bool
}

func (w *rw) Header() http.Header { return w.h }
func (w *rw) WriteHeader(c int) {
	if w.status == 0 {
		w.status = c
	}
}
func (w *rw) Write(b []byte) (int, error) {
	if simrt.Dead() {
		return 0, errors.New("dead")
	}
	if w.status == 0 {
		w.status = 200
	}
	if w.status == 204 || w.status == 304 {
		return 0, http.ErrBodyNotAllowed
	}
	w.buf.Write(b)
	if *w.gone && w.buf.Len() > 4096 {
		return 0, errors.New("write tcp: broken pipe")
	}
	simrt.P()
	return len(b), nil
}
func (w *rw) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w *rw) Flush()                            {}

// RoundTrip sends one request over the simulated network.
func (t *Transport) RoundTrip(req *http.Request) (*http.Response, error) {
	if simrt.Dead() {
		runtime.Goexit()
	}
	simrt.P()
	ctx := req.Context()
	var body []byte
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return nil, err
		}
		body = b
	}
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	host := req.URL.Host
	if !strings.Contains(host, ":") {
		host += ":80"
	}
	h, _, _ := net.SplitHostPort(host)
	w := W
	me := simrt.CurNode()
	g := simrt.Cur()
	myGen := me.Starts
	w.n++
	r := &Req{N: w.n, From: me, FromHost: me.Host, ToHost: h, Method: req.Method, Path: req.URL.Path, Gen: myGen, Query: req.URL.Query(), Body: body, Start: simrt.S.SimNow()}
	if len(w.Reqs) < w.KeepMax {
		w.Reqs = append(w.Reqs, r)
	}
	v := Verdict{ReqLat: 200 * time.Microsecond, RespLat: 200 * time.Microsecond}
	if w.Decide != nil {
		v = w.Decide(r)
	}
	r.V = v
	w.obs("send", r)
	res := make(chan result, 1)
	gone := false
	var sctx context.Context
	sendResult := func(x result) { simrt.TrySend(res, x) }
	reset := func() {
		simrt.S.At(v.RespLat, func() { sendResult(result{err: errors.New("read tcp: connection reset by peer")}) })
	}
	redo := v.Redo && req.Method == "GET"
	var deliver func()
	deliver = func() {
		if w.cut(me.Host, h) {
			w.obs("lost-req", r)
			if v.Reset {
				reset()
			}
			return
		}
		l := w.lookup(host)
		if l == nil || l.raw {
			w.obs("refused", r)
			if !hostUp(h) {
				sendResult(result{err: fmt.Errorf("dial tcp: lookup %s: no such host", h)})
				return
			}
			simrt.S.At(v.RespLat, func() {
				if !w.cut(me.Host, h) {
					sendResult(result{err: fmt.Errorf("dial tcp %s: connect: connection refused", host)})
				}
			})
			return
		}
		if gone && v.ReqLat < time.Millisecond {
			return
		}
		r.To = l.node
		r.Handled++
		r.HandlerAt = simrt.S.SimNow()
		w.obs("deliver", r)
		srv := l.srv
		srv.active++
		var cancel context.CancelFunc
		handler := srv.Handler
		if handler == nil {
			handler = http.DefaultServeMux
		}
		again := redo
		redo = false
		done := false
		gen := l.node.Starts
		// the connection breaks if the server process dies
		var watch func()
		watch = func() {
			if done || gone {
				return
			}
			if me.State != simrt.NodeRunning || me.Starts != myGen {
				if w.cut(me.Host, h) { // not noticed before the partition heals
					simrt.S.At(20*time.Millisecond, watch)
					return
				}
				gone = true
				if sctx != nil {
					simrt.CancelNow(sctx, context.Canceled)
				}
				return
			}
			if l.node.State != simrt.NodeRunning || l.node.Starts != gen {
				if !w.cut(me.Host, h) {
					sendResult(result{err: errors.New("EOF")})
				}
				return
			}
			simrt.S.At(20*time.Millisecond, watch)
		}
		simrt.S.At(20*time.Millisecond, watch)
		simrt.S.GoFrom(g, l.node, "http "+r.Method+" "+r.Path, func() {
			sctx, cancel = simrt.WithCancel(context.Background())
			if gone {
				simrt.CancelNow(sctx, context.Canceled)
			}
			wr := &rw{h: http.Header{}, gone: &gone}
			sreq, err := http.ReadRequest(newReq(req, body))
			if err != nil {
				panic(simrt.HarnessPanic("cannot make server request: " + err.Error()))
			}
			sreq.RemoteAddr = me.Host + ":40000"
			sreq = sreq.WithContext(sctx)
			panicked := true
			start := simrt.S.SimNow()
			func() {
				defer func() {
					if panicked && !simrt.Dead() {
						if x := recover(); x != nil {
							w.obs("handler-panic", r)
							simrt.Output([]byte(fmt.Sprintf("http: panic serving %s: %v\n", me.Host, x)))
						}
					}
				}()
				handler.ServeHTTP(wr, sreq)
				panicked = false
			}()
			done = true
			srv.active--
			cancel()
			r.HandlerEnd = simrt.S.SimNow()
			r.HGone = gone
			if wr.status == 0 {
				wr.status = 200
			}
			if r.HStatus == 0 {
				r.HStatus = wr.status
			}
			r.HStatuses = append(r.HStatuses, wr.status)
			x := result{status: wr.status, header: wr.h, body: append([]byte{}, wr.buf.Bytes()...)}
			if panicked {
				x = result{err: errors.New("EOF")}
			}
			if srv.WriteTimeout > 0 && time.Duration(simrt.S.SimNow()-start) > srv.WriteTimeout {
				x = result{err: errors.New("EOF")}
			}
			if again {
				w.obs("redo", r)
				simrt.S.At(v.RespLat+v.ReqLat, deliver)
				return
			}
			if v.LoseResp {
				w.obs("lost-resp", r)
				if n := uint64(len(x.body)); v.Cut > 0 && n > 0 && x.err == nil {
					x.cut = true
					w.obs("cut-resp", r)
					x.body = x.body[:v.Cut%n]
					simrt.S.At(v.RespLat, func() {
						if !w.cut(me.Host, h) {
							sendResult(x)
						}
					})
					return
				}
				if v.Reset {
					reset()
				}
				return
			}
			simrt.S.At(v.RespLat, func() {
				if w.cut(me.Host, h) {
					w.obs("lost-resp", r)
					return
				}
				sendResult(x)
			})
		})
	}
	if v.LoseReq {
		w.obs("lost-req", r)
		if v.Reset {
			reset()
		}
	} else {
		simrt.S.At(v.ReqLat, deliver)
	}
	rop := simrt.NewRecv[result](res)
	dop := simrt.NewRecv(ctx.Done())
	ops := []simrt.Op{rop, dop}
	var hop *simrt.RecvOp[time.Time]
	if t.ResponseHeaderTimeout > 0 {
		hop = simrt.NewRecv(simrt.After(t.ResponseHeaderTimeout))
		ops = append(ops, hop)
	}
	giveUp := func(err error) (*http.Response, error) {
		gone = true
		r.Gave = true
		r.Err = err
		r.End = simrt.S.SimNow()
		w.obs("gave-up", r)
		simrt.S.At(v.ReqLat, func() {
			if sctx != nil && !w.cut(me.Host, h) {
				simrt.CancelNow(sctx, context.Canceled)
			}
		})
		return nil, err
	}
	switch simrt.Select(false, ops...) {
	case 1:
		return giveUp(ctx.Err())
	case 2:
		return giveUp(errors.New("net/http: timeout awaiting response headers"))
	}
	x := rop.V
	r.End = simrt.S.SimNow()
	gone = true
	if x.err != nil {
		r.Err = x.err
		w.obs("error", r)
		return nil, x.err
	}
	length := len(x.body)
	if x.cut {
		length = -1
		r.Err = io.ErrUnexpectedEOF
		w.obs("error", r)
	} else {
		r.Status = x.status
		r.RespBody = x.body
		w.obs("response", r)
	}
	return &http.Response{StatusCode: x.status, Status: fmt.Sprintf("%d %s", x.status, http.StatusText(x.status)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: x.header, Body: &respBody{ctx: ctx, b: x.body, cut: x.cut}, ContentLength: int64(length), Request: req}, nil
}

// respBody: what is beyond the transport's read buffer is lost when the request
// context ends before it is read.
type respBody struct {
	ctx    context.Context
	b      []byte
	off    int
	cut    bool
	closed bool
}

const bufSize = 4096 - 160

func (b *respBody) Read(p []byte) (int, error) {
	simrt.P()
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if b.off >= len(b.b) {
		if b.cut {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	if err := b.ctx.Err(); err != nil && (b.off >= bufSize || len(b.b) > bufSize) {
		if b.off >= bufSize {
			return 0, err
		}
		n := copy(p, b.b[b.off:bufSize])
		b.off += n
		return n, nil
	}
	n := copy(p, b.b[b.off:])
	b.off += n
	return n, nil
}
func (b *respBody) Close() error { b.closed = true; return nil }

func (c *Client) send(req *http.Request) (*http.Response, error) {
	rt := c.Transport
	if rt == nil {
		rt = &Transport{}
	}
	if c.Timeout <= 0 {
		return rt.RoundTrip(req)
	}
	ctx, cancel := simrt.WithTimeout(req.Context(), c.Timeout)
	resp, err := rt.RoundTrip(req.WithContext(ctx))
	if err != nil {
		cancel()
		return nil, err
	}
	resp.Body = &cancelBody{resp.Body, cancel}
	return resp, nil
}

type cancelBody struct {
	io.ReadCloser
	c context.CancelFunc
}

func (b *cancelBody) Close() error { err := b.ReadCloser.Close(); b.c(); return err }

// Client is http.Client.
type Client struct {
	Transport     http.RoundTripper
	CheckRedirect func(req *http.Request, via []*http.Request) error
	Jar           http.CookieJar
	Timeout       time.Duration
}

func (c *Client) Do(req *http.Request) (*http.Response, error) {
	resp, err := c.send(req)
	if err != nil {
		op := req.Method[:1] + strings.ToLower(req.Method[1:])
		return nil, &url.Error{Op: op, URL: req.URL.String(), Err: err}
	}
	return resp, nil
}

func (c *Client) CloseIdleConnections() {}

func (c *Client) Get(u string) (*http.Response, error) {
	req, err := http.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}
func (c *Client) Head(u string) (*http.Response, error) {
	req, err := http.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}
func (c *Client) Post(u, ct string, b io.Reader) (*http.Response, error) {
	req, err := http.NewRequest("POST", u, b)
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", ct)
	return c.Do(req)
}
func (c *Client) PostForm(u string, d url.Values) (*http.Response, error) {
	return c.Post(u, "application/x-www-form-urlencoded", strings.NewReader(d.Encode()))
}
