//go:build !sched && !race

package mwcheck

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"runtime"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/zenazn/goji/graceful"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// C31: the same clients talk to a server run by the graceful package and to one
// run by net/http, over connections in memory and in the bubble's own time, and
// everything clients, handlers and callbacks see is compared.

// ---- connections ---------------------------------------------------------------

type netConn struct {
	mu     sync.Mutex
	cond   *sync.Cond
	in     [][]byte
	eof    bool
	reset  bool
	closed bool
	rd, wd time.Time
	timer  *time.Timer
	name   string
	log    func(string, ...any)
}

func newNetConn(name string, log func(string, ...any)) *netConn {
	c := &netConn{name: name, log: log}
	c.cond = sync.NewCond(&c.mu)
	return c
}

var errReset = errors.New("connection reset by peer")

func past(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (c *netConn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		switch {
		case c.closed:
			return 0, net.ErrClosed
		case past(c.rd):
			return 0, os.ErrDeadlineExceeded
		case c.reset:
			return 0, errReset
		case len(c.in) > 0:
			n := copy(p, c.in[0])
			c.in[0] = c.in[0][n:]
			if len(c.in[0]) == 0 {
				c.in = c.in[1:]
			}
			return n, nil
		case c.eof:
			return 0, io.EOF
		}
		c.cond.Wait()
	}
}

func (c *netConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	switch {
	case c.closed:
		return 0, net.ErrClosed
	case past(c.wd):
		return 0, os.ErrDeadlineExceeded
	case c.reset:
		return 0, errReset
	}
	c.log("client gets %q", p)
	return len(p), nil
}

// ReadFrom: as TCP connections do.
func (c *netConn) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{c}, r)
}

func (c *netConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.log("server closes")
	if c.timer != nil {
		c.timer.Stop()
	}
	c.cond.Broadcast()
	return nil
}

func (c *netConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *netConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	c.rd = t
	if c.timer != nil {
		c.timer.Stop()
		c.timer = nil
	}
	if d := time.Until(t); !t.IsZero() && d > 0 {
		c.timer = time.AfterFunc(d, c.cond.Broadcast)
	}
	c.cond.Broadcast()
	return nil
}

func (c *netConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wd = t
	return nil
}

type nAddr string

func (a nAddr) Network() string         { return "mem" }
func (a nAddr) String() string          { return string(a) }
func (c *netConn) LocalAddr() net.Addr  { return nAddr("server:80") }
func (c *netConn) RemoteAddr() net.Addr { return nAddr(c.name) }
func (c *netConn) client(f func(*netConn)) {
	c.mu.Lock()
	defer c.mu.Unlock()
	f(c)
	c.cond.Broadcast()
}

type chanListener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

var errListener = errors.New("the listener has failed")

func (l *chanListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, errListener
	}
}
func (l *chanListener) Close() error   { return nil }
func (l *chanListener) Addr() net.Addr { return nAddr("server:80") }

// ---- the case --------------------------------------------------------------------

type srvConf struct {
	Read, Header, Write, Idle int // milliseconds
	Max                       int
	KeepAliveOff              bool
	NoOptions                 bool
	Ctx                       bool
	State                     string // what the callback does: "", log, deadline, closeidle, closeactive
	Log                       bool
}

type hscript struct {
	Body  string // "", all, some, close
	Sleep int    // milliseconds
	Ops   []op
	End   string // "", panic, abort, talk
}

type cstep struct {
	C    int
	Do   string // open send sleep eof reset
	Data string
	Ms   int
}

type srvCase struct {
	How      string // server serve wrap
	Conf     srvConf
	Handlers []hscript
	Steps    []cstep
}

func genRequest(t *rapid.T, handlers int) string {
	var b strings.Builder
	method := model.Pick(t, "method", "GET", "GET", "GET", "HEAD", "POST", "POST", "PUT", "OPTIONS", "CONNECT", "get")
	target := fmt.Sprintf("/h%d", model.Int(t, "h", 0, handlers-1)) + model.Pick(t, "more", "", "", "?a=b&c", "?%zz", "#f")
	proto := model.Pick(t, "proto", "HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0", "HTTP/1.0")
	odd := model.Chance(t, "odd", 12)
	what := ""
	if odd {
		what = model.Pick(t, "what", "proto", "star", "abs", "nohost", "twohosts", "badname", "badvalue", "long", "expect", "te", "twocl", "badcl", "line", "short", "lf")
	}
	switch what {
	case "proto":
		proto = model.Pick(t, "oddproto", "HTTP/2.0", "HTTP/1.2", "HTTP/0.9", "http/1.1", "HTTP/1")
	case "star":
		target = "*"
		method = model.Pick(t, "starm", "OPTIONS", "OPTIONS", "GET", "PRI")
	case "abs":
		target = "http://other.example" + target
	case "line":
		return model.Pick(t, "junk", "\r\n\r\n", "GET\r\n\r\n", "GET /\r\n\r\n", "\x16\x03\x01\x02\x00", "hello\r\n")
	}
	fmt.Fprintf(&b, "%s %s %s\r\n", method, target, proto)
	if what != "nohost" {
		b.WriteString("Host: example.com\r\n")
	}
	switch what {
	case "twohosts":
		b.WriteString("Host: b\r\n")
	case "badname":
		b.WriteString("Bad Name: x\r\n")
	case "badvalue":
		b.WriteString("X-V: a\x00b\r\n")
	case "long":
		b.WriteString("X-Long: " + strings.Repeat("l", model.Int(t, "len", 500, 6000)) + "\r\n")
	case "expect":
		b.WriteString("Expect: something\r\n")
	case "te":
		b.WriteString("Transfer-Encoding: gzip\r\n")
	case "badcl":
		b.WriteString("Content-Length: x\r\n")
	}
	switch model.Int(t, "conn", 0, 9) {
	case 0:
		b.WriteString("Connection: close\r\n")
	case 1, 2:
		b.WriteString("Connection: keep-alive\r\n")
	}
	if model.Chance(t, "hdr", 30) {
		b.WriteString("X-A: 1\r\nX-A: 2\r\nCookie: q=1\r\n")
	}
	body := ""
	if method == "POST" || method == "PUT" || model.Chance(t, "body", 8) {
		if model.Chance(t, "100", 15) {
			b.WriteString("Expect: 100-continue\r\n")
		}
		n := model.Pick(t, "blen", 0, 1, 5, 40, 3000)
		data := strings.Repeat("d", n)
		switch model.Int(t, "framing", 0, 3) {
		case 0, 1:
			fmt.Fprintf(&b, "Content-Length: %d\r\n", n)
			if what == "twocl" {
				fmt.Fprintf(&b, "Content-Length: %d\r\n", n+1)
			}
			body = data
		default:
			b.WriteString("Transfer-Encoding: chunked\r\n")
			tr := model.Chance(t, "trailer", 25)
			if tr {
				b.WriteString("Trailer: X-T\r\n")
			}
			for i := 0; i < n; {
				k := model.Int(t, "chunk", 1, n-i)
				body += fmt.Sprintf("%x\r\n%s\r\n", k, data[i:i+k])
				i += k
				if i > 0 && model.Chance(t, "rest", 50) {
					body += fmt.Sprintf("%x\r\n%s\r\n", 1, "e")
				}
			}
			body += "0\r\n"
			if tr {
				body += "X-T: t\r\n"
			}
			body += "\r\n"
		}
	}
	b.WriteString("\r\n")
	b.WriteString(body)
	s := b.String()
	switch what {
	case "short":
		s = s[:len(s)-model.Int(t, "cut", 1, len(s)/2)]
	case "lf":
		s = strings.ReplaceAll(s, "\r\n", "\n")
	}
	return s
}

func genMs(t *rapid.T, l string) int {
	if model.Chance(t, l+"?", 70) {
		return 0
	}
	return model.Pick(t, l, 10, 50, 100, 1000)
}

func genSrv(t *rapid.T) srvCase {
	c := srvCase{How: model.Pick(t, "how", "server", "server", "server", "serve", "wrap")}
	if c.How != "serve" {
		c.Conf = srvConf{Read: genMs(t, "read"), Header: genMs(t, "header"), Write: genMs(t, "write"), Idle: genMs(t, "idle")}
		c.Conf.Max = model.Pick(t, "max", 0, 0, 0, 1, 500)
		c.Conf.KeepAliveOff = model.Chance(t, "kaoff", 8)
		c.Conf.NoOptions = model.Chance(t, "noopt", 20)
		c.Conf.Ctx = model.Chance(t, "ctx", 40)
		c.Conf.Log = model.Chance(t, "log", 50)
		c.Conf.State = model.Pick(t, "state", "", "log", "log", "log", "log", "deadline", "closeidle", "closeactive")
	}
	nh := model.Int(t, "handlers", 1, 3)
	for i := 0; i < nh; i++ {
		h := hscript{Body: model.Pick(t, "hbody", "", "all", "all", "some", "close")}
		h.Sleep = genMs(t, "sleep")
		h.Ops = genOps(t, genOpts{flush: true, hijack: true, maxOps: 5})
		switch model.Int(t, "end", 0, 19) {
		case 0:
			h.End = "panic"
		case 1:
			h.End = "abort"
		case 2, 3, 4:
			h.End = "talk"
		}
		c.Handlers = append(c.Handlers, h)
	}
	nc := model.Pick(t, "conns", 1, 1, 1, 2, 3)
	var per [][]cstep
	for i := 0; i < nc; i++ {
		steps := []cstep{{C: i, Do: "open"}}
		n := model.Int(t, "requests", 0, 4)
		pending := ""
		flush := func() {
			for pending != "" {
				k := len(pending)
				if model.Chance(t, "split", 25) {
					k = model.Int(t, "at", 1, k)
				}
				steps = append(steps, cstep{C: i, Do: "send", Data: pending[:k]})
				pending = pending[k:]
				if model.Chance(t, "pause", 15) {
					steps = append(steps, cstep{C: i, Do: "sleep", Ms: model.Pick(t, "ms", 5, 30, 60, 200, 2000)})
				}
			}
		}
		for j := 0; j < n; j++ {
			pending += genRequest(t, nh)
			if model.Chance(t, "talk", 15) {
				pending += "line one\nline two\nquit\n"
			}
			if !model.Chance(t, "pipeline", 30) {
				flush()
			}
		}
		flush()
		switch model.Int(t, "leave", 0, 9) {
		case 0, 1:
			steps = append(steps, cstep{C: i, Do: "eof"})
		case 2:
			steps = append(steps, cstep{C: i, Do: "reset"})
		case 3:
			k := model.Int(t, "resetat", 1, len(steps))
			steps = append(steps[:k:k], append([]cstep{{C: i, Do: "reset"}}, steps[k:]...)...)
		}
		per = append(per, steps)
	}
	for {
		var live []int
		for i, s := range per {
			if len(s) > 0 {
				live = append(live, i)
			}
		}
		if len(live) == 0 {
			break
		}
		i := live[0]
		if len(live) > 1 {
			i = model.Pick(t, "next", live...)
		}
		c.Steps = append(c.Steps, per[i][0])
		per[i] = per[i][1:]
	}
	return c
}

// ---- running it -------------------------------------------------------------------

type srvRun struct {
	mu    sync.Mutex
	logs  map[string][]string
	c     srvCase
	start time.Time
	conns map[string]net.Conn // as the callback has seen them
	stats map[string]int
}

func (x *srvRun) log(conn string) func(string, ...any) {
	return func(format string, args ...any) {
		x.mu.Lock()
		defer x.mu.Unlock()
		x.logs[conn] = append(x.logs[conn], fmt.Sprintf("%5d ms  ", time.Since(x.start).Milliseconds())+fmt.Sprintf(format, args...))
	}
}

func (x *srvRun) count(s string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.stats[s]++
}

type ctxKey string

func (x *srvRun) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	log := x.log(r.RemoteAddr)
	x.count("request")
	hs := ""
	for _, k := range pbt.SortedKeys(r.Header) {
		hs += fmt.Sprintf("%s:%q ", k, r.Header[k])
	}
	log("request %s %s %s host %q uri %q length %d te %q close %v tls %v headers %s", r.Method, r.URL, r.Proto, r.Host, r.RequestURI, r.ContentLength, r.TransferEncoding, r.Close, r.TLS != nil, hs)
	_, f := w.(http.Flusher)
	_, h := w.(http.Hijacker)
	_, rf := w.(io.ReaderFrom)
	_, cn := w.(http.CloseNotifier)
	_, p := w.(http.Pusher)
	srv, _ := r.Context().Value(http.ServerContextKey).(*http.Server)
	la, _ := r.Context().Value(http.LocalAddrContextKey).(net.Addr)
	addr := ""
	if srv != nil {
		addr = srv.Addr
	}
	log("writer %v %v %v %v %v, server %q at %v, context %v %v", f, h, rf, cn, p, addr, la, r.Context().Value(ctxKey("base")), r.Context().Value(ctxKey("conn")))
	var i int
	if n, _ := fmt.Sscanf(r.URL.Path, "/h%d", &i); n != 1 || i < 0 || i >= len(x.c.Handlers) {
		io.WriteString(w, "no such handler")
		return
	}
	s := x.c.Handlers[i]
	switch s.Body {
	case "all":
		b, err := io.ReadAll(r.Body)
		log("body %q %v trailer %q", b, err, r.Trailer)
	case "some":
		b := make([]byte, 3)
		n, err := io.ReadFull(r.Body, b)
		log("body %q %v", b[:n], err)
	case "close":
		log("close body: %v", r.Body.Close())
	}
	if s.Sleep > 0 {
		time.Sleep(time.Duration(s.Sleep) * time.Millisecond)
		log("context after %d ms: %v", s.Sleep, r.Context().Err())
	}
	res := exec(w, s.Ops, nil, nil, nil)
	for j, o := range s.Ops {
		if o.Op == "hijack" {
			// How much is buffered already depends on the schedule.
			log("hijack: %d", res[j].n)
			continue
		}
		log("%s: %v", o.Op, res[j])
	}
	switch s.End {
	case "panic":
		x.count("panic")
		panic("handler panics")
	case "abort":
		panic(http.ErrAbortHandler)
	case "talk":
		c, brw, err := w.(http.Hijacker).Hijack()
		if err != nil {
			log("hijack: %v", err)
			return
		}
		x.count("hijacked conversation")
		talk(c, brw, log)
	}
}

// talk echoes lines on a hijacked connection.
func talk(c net.Conn, brw *bufio.ReadWriter, log func(string, ...any)) {
	defer c.Close()
	c.SetDeadline(time.Now().Add(700 * time.Millisecond))
	log("hijacked from %v", c.RemoteAddr())
	for i := 0; ; i++ {
		line, err := brw.ReadString('\n')
		if err != nil || line == "quit\n" {
			log("talk ends: %q %v", line, err)
			return
		}
		if i%2 == 0 {
			fmt.Fprintf(brw, "> %s", line)
			err = brw.Flush()
		} else {
			_, err = fmt.Fprintf(c, "> %s", line)
		}
		log("answered: %v", err)
	}
}

type lineLog struct{ x *srvRun }

func (l lineLog) Write(b []byte) (int, error) {
	s, _, _ := strings.Cut(string(b), "\n")
	l.x.mu.Lock()
	defer l.x.mu.Unlock()
	l.x.logs["errors"] = append(l.x.logs["errors"], s)
	return len(b), nil
}

// server builds the server of a case.
func (x *srvRun) server() *http.Server {
	f := x.c.Conf
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	s := &http.Server{
		Addr: "the address", Handler: x,
		ReadTimeout: ms(f.Read), ReadHeaderTimeout: ms(f.Header), WriteTimeout: ms(f.Write), IdleTimeout: ms(f.Idle),
		MaxHeaderBytes: f.Max, DisableGeneralOptionsHandler: f.NoOptions,
	}
	s.ErrorLog = discardLog
	if f.Log {
		s.ErrorLog = log.New(lineLog{x}, "", 0)
	}
	if f.KeepAliveOff {
		s.SetKeepAlivesEnabled(false)
	}
	if f.Ctx {
		s.BaseContext = func(l net.Listener) context.Context {
			return context.WithValue(context.Background(), ctxKey("base"), l.Addr().String())
		}
		s.ConnContext = func(ctx context.Context, c net.Conn) context.Context {
			return context.WithValue(ctx, ctxKey("conn"), c.RemoteAddr().String())
		}
	}
	if f.State != "" {
		s.ConnState = func(c net.Conn, st http.ConnState) {
			name := c.RemoteAddr().String()
			log := x.log(name)
			x.mu.Lock()
			first, ok := x.conns[name]
			if !ok {
				x.conns[name] = c
				first = c
			}
			x.mu.Unlock()
			log("state %v, same connection %v, at %v", st, first == c, c.LocalAddr())
			x.count("state " + st.String())
			switch {
			case f.State == "deadline" && st == http.StateNew:
				log("SetDeadline: %v", c.SetDeadline(time.Now().Add(40*time.Millisecond)))
			case f.State == "closeidle" && st == http.StateIdle, f.State == "closeactive" && st == http.StateActive:
				log("Close: %v", c.Close())
			}
		}
	}
	return s
}

func (x *srvRun) run(how string) {
	x.logs = map[string][]string{}
	x.conns = map[string]net.Conn{}
	x.stats = map[string]int{}
	x.start = time.Now()
	l := &chanListener{ch: make(chan net.Conn), done: make(chan struct{})}
	ended := make(chan error, 1)
	srv := x.server()
	go func() {
		switch how {
		case "http":
			if x.c.How == "serve" {
				ended <- http.Serve(l, x)
			} else {
				ended <- srv.Serve(l)
			}
		case "server":
			ended <- (*graceful.Server)(srv).Serve(l)
		case "serve":
			ended <- graceful.Serve(l, x)
		case "wrap":
			ended <- srv.Serve(graceful.WrapListener(l))
		}
	}()
	conns := map[int]*netConn{}
	for _, s := range x.c.Steps {
		c := conns[s.C]
		switch s.Do {
		case "open":
			name := fmt.Sprintf("client:%d", s.C)
			c = newNetConn(name, x.log(name))
			conns[s.C] = c
			l.ch <- c
		case "send":
			c.log("client sends %d bytes", len(s.Data))
			c.client(func(c *netConn) { c.in = append(c.in, []byte(s.Data)) })
		case "sleep":
			time.Sleep(time.Duration(s.Ms) * time.Millisecond)
		case "eof":
			c.log("client closes its side")
			c.client(func(c *netConn) { c.eof = true })
		case "reset":
			c.log("client resets")
			c.client(func(c *netConn) { c.reset = true })
		}
		synctest.Wait()
	}
	time.Sleep(5 * time.Second)
	for i := 0; i < len(conns); i++ {
		conns[i].log("end of the case")
		conns[i].client(func(c *netConn) { c.eof = true })
		synctest.Wait()
	}
	time.Sleep(5 * time.Second)
	close(l.done)
	x.logs["result"] = []string{fmt.Sprint(<-ended)}
	srv.Close()
	for _, c := range conns {
		c.mu.Lock()
		if !c.closed {
			x.logs["result"] = append(x.logs["result"], c.name+" is still open")
			c.closed = true
			c.cond.Broadcast()
		}
		c.mu.Unlock()
	}
	synctest.Wait()
	// Connections are concurrent.
	sort.Strings(x.logs["errors"])
}

func inBubble(t *testing.T, f func()) (err error) {
	synctest.Test(t, func(*testing.T) {
		defer func() {
			if e := recover(); e != nil {
				buf := make([]byte, 8<<10)
				buf = buf[:runtime.Stack(buf, false)]
				err = fmt.Errorf("panic: %v\n%s", e, buf)
			}
		}()
		f()
	})
	return
}

// memory reports whether this process holds too much of it: graceful keeps all
// the listeners it ever had.
func memory() bool {
	m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(m)
	return m[0].Value.Kind() == metrics.KindUint64 && m[0].Value.Uint64() > 2<<30
}

func checkServe(r *pbt.R, c srvCase) error {
	if memory() {
		r.Label("not run: out of memory")
		return nil
	}
	once := func(how string) (*srvRun, error) {
		x := &srvRun{c: c}
		return x, inBubble(r.T, func() { x.run(how) })
	}
	ref := func() *srvRun {
		x, err := once("http")
		if err != nil {
			pbt.Broken("%v\n", err)
		}
		return x
	}
	want := ref()
	got, err := once(c.How)
	if err != nil {
		return err
	}
	for k := range want.stats {
		r.Label(k)
	}
	r.Label("how:" + c.How)
	r.NonTrivialIf(want.stats["request"] > 0)
	r.LabelIf(want.stats["request"] > 1, "several requests")
	err = got.same(want)
	for i := 0; i < 6 && err != nil; i++ {
		// A schedule may matter: what net/http does on some schedule is fine.
		if got.same(ref()) == nil {
			r.Label("depends on the schedule")
			return nil
		}
		if again, e := once(c.How); e == nil && again.same(want) == nil {
			r.Label("depends on the schedule")
			return nil
		}
	}
	return err
}

// same compares what was seen.
func (x *srvRun) same(want *srvRun) error {
	keys := map[string]bool{}
	for k := range want.logs {
		keys[k] = true
	}
	for k := range x.logs {
		keys[k] = true
	}
	for _, k := range pbt.SortedKeys(keys) {
		a, b := x.logs[k], want.logs[k]
		for i := 0; i < len(a) || i < len(b); i++ {
			x, y := "nothing", "nothing"
			if i < len(a) {
				x = a[i]
			}
			if i < len(b) {
				y = b[i]
			}
			if x != y {
				return fmt.Errorf("%s, event %d:\ngraceful: %s\nnet/http: %s\nbefore: %s", k, i, x, y, strings.Join(a[:min(i, len(a))], "\n        "))
			}
		}
	}
	return nil
}

const serveRule = "C31: generated clients (requests well-formed and not, split, pipelined, with pauses, half-closed and reset connections) talk to generated handlers and server configurations, once under graceful and once under net/http, in virtual time, and everything that clients, handlers and callbacks see is compared; non-trivial when at least one request reaches a handler."

func TestC31(t *testing.T) {
	pbt.Main(t, "C31", serveRule,
		pbt.P("memory", 8000, 250000, genSrv, checkServe),
	)
}
