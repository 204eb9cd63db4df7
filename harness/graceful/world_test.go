package gracefulcheck

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/signal"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/zenazn/goji/graceful"
	"github.com/zenazn/goji/graceful/listener"
)

// ---- the case ----------------------------------------------------------------

type srvSpec struct {
	How  string // serve server wrap auto tcp lis
	Late int    // connections that arrive while the listener is being closed
	Err  string // "": serving ends by the shutdown; otherwise Accept fails with this before ("pre-...") or during the shutdown
}

type connSpec struct {
	L     int
	State string // new idle partial running second pipelined streaming upload hijacked
	Size  int
	Leave bool // the client goes away instead of waiting for its response
}

type trigger struct {
	Kind string // shutdown now sig
	Sig  int
}

type worldCase struct {
	Srvs     []srvSpec
	Conns    []connSpec
	Pre      []bool // hooks: with signal?
	Post     []bool
	First    []trigger // at the same time
	Second   []trigger // while the first are waiting
	DK       bool      // double kicks count, in any interval
	Timeout  int       // in milliseconds, 0 none
	Waiters  int
	Order    []int // in which clients are let go on
	Pause    int   // milliseconds before they are
	Racing   int   // further servers that start while the shutdown does
	After    int   // further servers that start after it
	Register bool  // hooks are registered before the servers start, or after
}

func (c worldCase) forced() (first, second bool) {
	sigs := 0
	count := func(ts []trigger) bool {
		f := false
		for _, t := range ts {
			switch t.Kind {
			case "now":
				f = true
			case "sig":
				sigs++
				if sigs > 1 && c.DK {
					f = true
				}
			}
		}
		return f
	}
	first = count(c.First) || c.Timeout > 0 && sigs > 0
	second = first || count(c.Second)
	return
}

// ---- the child -----------------------------------------------------------------

const patience = 40 * time.Second

type world struct {
	mu      sync.Mutex
	c       worldCase
	rep     report
	seq     int
	closedL []bool // listeners
	conns   []*rconn
	byAddr  map[string]*cl
	running int // handlers, hijackers excepted
	pre     []string
	post    []string
	waitRet bool
	trig    bool // the shutdown is triggered
	over    bool // some shutdown has returned
	start   time.Time
	cls     []*cl
}

func (w *world) logf(format string, args ...any) {
	w.seq++
	w.rep.Log = append(w.rep.Log, fmt.Sprintf("%3d %7.3fms ", w.seq, float64(time.Since(w.start).Microseconds())/1000)+fmt.Sprintf(format, args...))
}

func (w *world) event(format string, args ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.logf(format, args...)
}

func (w *world) failLocked(tag, format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	w.logf("FAIL %s: %s", tag, s)
	w.rep.Failures = append(w.rep.Failures, failure{tag, s})
}

func (w *world) fail(tag, format string, args ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.failLocked(tag, format, args...)
}

func (w *world) label(l string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.rep.Labels = append(w.rep.Labels, l)
}

func (w *world) finish() {
	w.mu.Lock()
	json.NewEncoder(os.Stdout).Encode(&w.rep)
	os.Exit(0)
}

// await waits for a channel; if nothing comes, the child ends with the failures
// there are.
func (w *world) await(tag string, ch <-chan struct{}, what string) {
	select {
	case <-ch:
	case <-time.After(patience):
		w.fail(tag, "%s: nothing happened for %v", what, patience)
		w.finish()
	}
}

// rlis is a listener that records.
type rlis struct {
	net.Listener
	w      *world
	i      int
	mu     sync.Mutex
	late   int
	calls  int
	failed chan error // makes Accept fail
	errEnd error      // what Accept returns once closed, if not nil
	more   bool       // a connection was accepted after the shutdown was triggered
}

type acc struct {
	c   net.Conn
	err error
}

func (l *rlis) Accept() (net.Conn, error) {
	l.mu.Lock()
	l.calls++
	nth := l.calls
	l.mu.Unlock()
	ch := make(chan acc, 1)
	go func() {
		c, err := l.Listener.Accept()
		ch <- acc{c, err}
	}()
	var a acc
	select {
	case a = <-ch:
	case err := <-l.failed:
		return nil, err
	}
	if a.err != nil {
		l.mu.Lock()
		late := l.late
		l.late--
		l.mu.Unlock()
		if late > 0 {
			return l.w.lateConn(l.i), nil
		}
		if l.errEnd != nil {
			return nil, l.errEnd
		}
		return nil, a.err
	}
	rc := &rconn{Conn: a.c, w: l.w, l: l.i, nth: nth}
	l.w.mu.Lock()
	l.w.conns = append(l.w.conns, rc)
	l.more = l.w.trig
	l.w.mu.Unlock()
	return rc, nil
}

func (l *rlis) Close() error {
	l.w.mu.Lock()
	l.w.closedL[l.i] = true
	l.w.logf("listener %d closed", l.i)
	l.w.mu.Unlock()
	return l.Listener.Close()
}

// rconn is the server's side of a connection.
type rconn struct {
	net.Conn
	w        *world
	l        int
	nth      int // call of Accept
	closed   bool
	hijacked bool
}

func (c *rconn) Close() error {
	c.w.mu.Lock()
	if !c.closed {
		c.closed = true
		c.w.logf("server side of %s closed", c.name())
		if c.hijacked {
			c.w.failLocked("conn", "a hijacked connection was closed")
		}
	}
	c.w.mu.Unlock()
	return c.Conn.Close()
}

// addrs identifies a connection from the server's side.
func addrs(c net.Conn) string { return c.RemoteAddr().String() + " " + c.LocalAddr().String() }

func (c *rconn) name() string {
	if k := c.w.byAddr[addrs(c)]; k != nil {
		return fmt.Sprintf("connection %d", k.i)
	}
	return c.RemoteAddr().String()
}

// lateConn is a connection that arrives while its listener is being closed. Its
// client sends a request at once.
func (w *world) lateConn(i int) net.Conn {
	s, c := net.Pipe()
	w.event("late connection on listener %d", i)
	w.label("late connection")
	go func() {
		c.SetDeadline(time.Now().Add(patience))
		fmt.Fprintf(c, "GET /late/%d HTTP/1.1\r\nHost: x\r\n\r\n", i)
		io.Copy(io.Discard, c)
		c.Close()
	}()
	return s
}

// cl is a client.
type cl struct {
	i       int
	spec    connSpec
	c       net.Conn
	br      *bufio.Reader
	entered chan struct{} // the handler runs
	gate    chan struct{} // lets it go on
	done    chan struct{} // the client has seen its connection end
	result  string        // "complete", "cut", ...

	toldClose bool
	detail    string
}

func body(i, n int) string {
	var b strings.Builder
	for b.Len() < n {
		fmt.Fprintf(&b, "%d.%d,", i, b.Len())
	}
	return b.String()[:n]
}

func (w *world) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	if !strings.HasPrefix(r.URL.Path, "/c/") {
		w.mu.Lock()
		i, _ := strconv.Atoi(r.URL.Path[strings.LastIndex(r.URL.Path, "/")+1:])
		f1, f2 := w.c.forced()
		if w.over && !f1 && !f2 && w.c.Srvs[i].How != "wrap" { // see known_findings.jsonl
			w.failLocked("conn", "%s was served after the shutdown", r.URL.Path)
		}
		w.mu.Unlock()
		io.WriteString(rw, "ok")
		return
	}
	i, _ := strconv.Atoi(r.URL.Path[3:])
	k := w.cls[i]
	w.mu.Lock()
	// net/http closes the connection of a client that is gone as soon as
	// something is written, even while the handler runs.
	count := !k.spec.Leave
	if count {
		w.running++
	}
	w.logf("handler of connection %d starts", i)
	w.mu.Unlock()
	defer func() {
		w.mu.Lock()
		if count {
			w.running--
		}
		w.logf("handler of connection %d returns", i)
		w.mu.Unlock()
	}()
	data := body(i, k.spec.Size)
	switch k.spec.State {
	case "running", "second", "partial", "pipelined":
		close(k.entered)
		<-k.gate
		io.WriteString(rw, data)
	case "streaming":
		io.WriteString(rw, data[:len(data)/2])
		rw.(http.Flusher).Flush()
		close(k.entered)
		<-k.gate
		io.WriteString(rw, data[len(data)/2:])
	case "upload":
		h := make([]byte, len(data)/2)
		if _, err := io.ReadFull(r.Body, h); err != nil {
			return
		}
		close(k.entered)
		rest, err := io.ReadAll(r.Body)
		if err != nil {
			return
		}
		<-k.gate
		fmt.Fprintf(rw, "%s%s", h, rest)
	case "hijacked":
		c, brw, err := rw.(http.Hijacker).Hijack()
		if err != nil {
			w.fail("conn", "hijacking failed: %v", err)
			return
		}
		w.mu.Lock()
		for _, rc := range w.conns {
			if addrs(rc) == addrs(c) {
				rc.hijacked = true
			}
		}
		if count {
			w.running--
		}
		count = false
		w.mu.Unlock()
		go func() {
			for {
				line, err := brw.ReadString('\n')
				if err != nil {
					return
				}
				brw.WriteString("echo " + line)
				brw.Flush()
			}
		}()
		close(k.entered)
		_ = c
	}
}

func isHTTP(s string) bool {
	return s == "running" || s == "second" || s == "pipelined" || s == "streaming" || s == "upload"
}

// freeAddr finds an address to listen on that nobody else will take: the
// loopback network has one address per process.
// ownIP is an address of this process alone, so that the ports which others use,
// or used a moment ago, do not get in the way.
func ownIP() string {
	pid := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 1+(pid>>16)%200, (pid>>8)&255, pid&255)
}

func freeAddr() string {
	l := listen()
	defer l.Close()
	return l.Addr().String()
}

func checkError(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "CHECK-ERROR "+format+"\n", args...)
	os.Exit(3)
}

func listen() net.Listener {
	l, err := net.Listen("tcp", ownIP()+":0")
	if err != nil {
		checkError("listen: %v", err)
	}
	return l
}

func preErr(kind string) error {
	switch strings.TrimPrefix(kind, "pre-") {
	case "plain":
		return errors.New("accept failed")
	case "op":
		return &net.OpError{Op: "accept", Net: "tcp", Err: errors.New("too many open files")}
	case "closed":
		return &net.OpError{Op: "accept", Net: "tcp", Err: errors.New("use of closed network connection")}
	case "text":
		// what package listener says of a connection that came too late
		return errors.New("use of closed network connection")
	case "eof":
		return io.EOF
	case "other":
		return &net.OpError{Op: "read", Net: "tcp", Err: errors.New("use of closed network connection")}
	}
	return nil
}

func childWorld() {
	w := &world{byAddr: map[string]*cl{}, start: time.Now()}
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_ARG")), &w.c); err != nil {
		checkError("case: %v", err)
	}
	c := w.c
	w.closedL = make([]bool, len(c.Srvs))
	for i, s := range c.Conns {
		w.cls = append(w.cls, &cl{i: i, spec: s, entered: make(chan struct{}), gate: make(chan struct{}), done: make(chan struct{})})
	}
	signal.Notify(make(chan os.Signal, 100), syscall.SIGINT, syscall.SIGTERM, syscall.SIGUSR1)
	graceful.HandleSignals()
	graceful.AddSignal(syscall.SIGUSR1)
	if c.DK {
		graceful.DoubleKickWindow(time.Hour)
	}
	if c.Timeout > 0 {
		graceful.Timeout(time.Duration(c.Timeout) * time.Millisecond)
	}
	if c.Register {
		w.hooks()
	}
	// Servers.
	at := make([]string, len(c.Srvs))
	rls := make([]*rlis, len(c.Srvs))
	serveRet := make([]chan error, len(c.Srvs))
	for i, s := range c.Srvs {
		i, s := i, s
		serveRet[i] = make(chan error, 1)
		var l net.Listener
		if s.How == "lis" {
			at[i] = freeAddr()
		} else {
			l = listen()
			at[i] = l.Addr().String()
			if s.How != "tcp" {
				rls[i] = &rlis{Listener: l, w: w, i: i, late: s.Late, failed: make(chan error, 1)}
				if s.Err != "" && !strings.HasPrefix(s.Err, "pre-") {
					rls[i].errEnd = preErr(s.Err)
				}
				l = rls[i]
			}
		}
		go func() {
			var err error
			switch s.How {
			case "serve", "tcp":
				err = graceful.Serve(l, w)
			case "server":
				err = (&graceful.Server{Handler: w}).Serve(l)
			case "lis":
				err = (&graceful.Server{Handler: w, Addr: at[i]}).ListenAndServe()
			case "wrap":
				err = (&http.Server{Handler: w}).Serve(graceful.WrapListener(l))
			case "auto":
				// a listener the user wrapped and looks after
				err = (&http.Server{Handler: w, ConnState: func(c net.Conn, s http.ConnState) {
					switch s {
					case http.StateActive:
						listener.MarkInUse(c)
					case http.StateIdle:
						listener.MarkIdle(c)
					case http.StateHijacked:
						listener.Disown(c)
					}
				}}).Serve(graceful.WrapListener(listener.Wrap(l, listener.Automatic)))
			}
			w.event("serving on %d ended: %v", i, err)
			serveRet[i] <- err
		}()
	}
	if !c.Register {
		w.hooks()
	}
	// Wait until all listeners are served: by connecting.
	for i := range c.Srvs {
		w.ping(at[i], i)
	}
	// An accept failure before any shutdown.
	for i, s := range c.Srvs {
		if strings.HasPrefix(s.Err, "pre-") && rls[i] != nil {
			want := preErr(s.Err)
			rls[i].failed <- want
			select {
			case got := <-serveRet[i]:
				if got != want {
					w.fail("serve", "Accept failed with %v before any shutdown; serving returned %v", want, got)
				}
				w.label("accept failure")
			case <-time.After(patience):
				w.fail("serve", "Accept failed with %v; serving did not return", want)
				w.finish()
			}
			serveRet[i] = nil
		}
	}
	for i := 0; i < c.Waiters; i++ {
		go func() {
			graceful.Wait()
			w.mu.Lock()
			w.waitRet = true
			w.logf("Wait returned")
			w.checkFinished("Wait")
			if len(w.post) != len(c.Post) {
				w.failLocked("hook", "Wait returned after %d of %d post-hooks", len(w.post), len(c.Post))
			}
			w.mu.Unlock()
		}()
	}
	// Clients.
	for _, k := range w.cls {
		w.connect(k, at[k.spec.L], rls[k.spec.L])
	}
	w.mu.Lock()
	w.trig = true
	w.logf("--- trigger")
	w.mu.Unlock()
	forced, forced2 := c.forced()
	var more []chan error
	serveMore := func(what string) {
		l := listen()
		ch := make(chan error, 1)
		more = append(more, ch)
		w.label("server started " + what + " the shutdown")
		go func() { ch <- graceful.Serve(l, w) }()
	}
	for i := 0; i < c.Racing; i++ {
		serveMore("during")
	}
	rets := make(chan struct{}, 10)
	ntrig := 0
	fire := func(ts []trigger) {
		for _, t := range ts {
			t := t
			switch t.Kind {
			case "sig":
				w.event("signal %v", syscall.Signal(t.Sig))
				syscall.Kill(os.Getpid(), syscall.Signal(t.Sig))
				if c.DK || len(ts) > 1 {
					// not merged with the next
					time.Sleep(2 * time.Millisecond)
				}
			default:
				ntrig++
				go func() {
					w.event("%s called", t.Kind)
					if t.Kind == "now" {
						graceful.ShutdownNow()
					} else {
						graceful.Shutdown()
					}
					w.mu.Lock()
					w.logf("%s returned", t.Kind)
					w.checkFinished(t.Kind)
					w.mu.Unlock()
					rets <- struct{}{}
				}()
			}
		}
	}
	fire(c.First)
	// The listeners must get closed.
	deadline := time.Now().Add(patience)
	for i := range c.Srvs {
		if strings.HasPrefix(c.Srvs[i].Err, "pre-") && rls[i] != nil {
			continue
		}
		for {
			nc, err := net.Dial("tcp", at[i])
			if err != nil {
				break
			}
			if !w.refused(nc, i) {
				// served: then the shutdown had not got here yet
			}
			if time.Now().After(deadline) {
				w.fail("conn", "listener %d still accepts connections", i)
				w.finish()
			}
			time.Sleep(time.Millisecond)
		}
	}
	w.event("--- listeners closed")
	// Idle connections must end.
	for _, k := range w.cls {
		if k.spec.State == "new" || k.spec.State == "idle" {
			w.await("conn", k.done, fmt.Sprintf("%s connection %d is not closed by the shutdown", k.spec.State, k.i))
			if k.result != "cut" {
				w.fail("conn", "%s connection %d: %s %s", k.spec.State, k.i, k.result, k.detail)
			}
		}
	}
	cutAll := func() {
		for _, k := range w.cls {
			if k.spec.State == "hijacked" {
				continue
			}
			w.kicked(k)
			if k.result == "complete" && isHTTP(k.spec.State) {
				w.fail("conn", "connection %d got a complete response although its handler did not finish", k.i)
			}
			w.label("cut")
		}
	}
	if forced {
		cutAll()
	} else {
		time.Sleep(time.Duration(c.Pause) * time.Millisecond)
		// Nobody in use may have been cut.
		if len(c.Second) > 0 {
			w.event("--- second trigger")
			fire(c.Second)
			if forced2 {
				cutAll()
				forced = true
			} else {
				time.Sleep(time.Duration(c.Pause) * time.Millisecond)
			}
		}
	}
	// Clients go on.
	w.event("--- go on")
	for _, j := range c.Order {
		if j >= len(w.cls) {
			continue
		}
		k := w.cls[j]
		if k.spec.State == "hijacked" || k.spec.State == "new" || k.spec.State == "idle" {
			continue
		}
		if forced {
			close(k.gate)
			continue
		}
		select {
		case <-k.done:
			if isHTTP(k.spec.State) {
				w.fail("conn", "connection %d (%s) ended before its handler finished: %s %s", k.i, k.spec.State, k.result, k.detail)
			}
		default:
		}
		w.event("connection %d goes on", j)
		switch {
		case k.spec.Leave:
			k.c.Close()
			w.label("client left")
		case k.spec.State == "partial":
			fmt.Fprintf(k.c, "x\r\n\r\n")
		case k.spec.State == "upload":
			d := body(k.i, k.spec.Size)
			io.WriteString(k.c, d[len(d)/2:])
		}
		close(k.gate)
		w.await("conn", k.done, fmt.Sprintf("connection %d does not end although its response is complete", k.i))
		if isHTTP(k.spec.State) && !k.spec.Leave {
			w.label("response after shutdown")
			if how := c.Srvs[k.spec.L].How; k.result == "complete" && !k.toldClose && k.spec.State != "streaming" && how != "auto" && how != "wrap" {
				w.fail("conn", "the response of connection %d (%s) does not say that the connection closes", k.i, k.spec.State)
			}
			if k.result != "complete" {
				w.fail("conn", "the response of connection %d (%s) is not complete: %s %s", k.i, k.spec.State, k.result, k.detail)
			}
		}
	}
	// Everything returns.
	for i := 0; i < ntrig; i++ {
		select {
		case <-rets:
		case <-time.After(patience):
			w.fail("conn", "a shutdown does not return although all connections are finished")
			w.finish()
		}
	}
	waited := make(chan struct{})
	go func() { graceful.Wait(); close(waited) }()
	w.await("conn", waited, "Wait does not return although all connections are finished")
	for i, s := range c.Srvs {
		if serveRet[i] == nil {
			continue
		}
		select {
		case err := <-serveRet[i]:
			if s.How == "wrap" || s.How == "auto" {
				break // net/http's own Serve
			}
			var want error
			if rls[i] != nil && rls[i].errEnd != nil {
				want = rls[i].errEnd
				w.mu.Lock()
				more := rls[i].more
				w.mu.Unlock()
				if s.Err == "closed" || s.Err == "text" || err == nil && more {
					// that connection ended it, not the error
					want = nil
				}
			}
			if err != want {
				w.fail("serve", "serving on %d (%s) ended with %v (%T); want %v", i, s.How, err, err, want)
			}
		case <-time.After(patience):
			w.fail("serve", "serving on %d (%s) does not end after the shutdown", i, s.How)
			w.finish()
		}
	}
	for i := 0; i < c.After; i++ {
		serveMore("after")
	}
	for _, ch := range more {
		select {
		case err := <-ch:
			if err != nil {
				w.fail("serve", "serving that started during or after the shutdown ended with %v", err)
			}
		case <-time.After(patience):
			w.fail("serve", "serving that started during or after the shutdown does not end")
			w.finish()
		}
	}
	// Hijacked connections are still there.
	for _, k := range w.cls {
		if k.spec.State != "hijacked" {
			continue
		}
		k.c.SetDeadline(time.Now().Add(patience))
		fmt.Fprintf(k.c, "hello %d\n", k.i)
		line, err := k.br.ReadString('\n')
		if err != nil || line != fmt.Sprintf("echo hello %d\n", k.i) {
			w.fail("conn", "hijacked connection %d after the shutdown: %q, %v", k.i, line, err)
		}
		w.label("hijacked")
	}
	// Waiters, and any further run of the hooks.
	deadline = time.Now().Add(patience)
	for {
		w.mu.Lock()
		ok := w.waitRet || c.Waiters == 0
		w.mu.Unlock()
		if ok {
			break
		}
		if time.Now().After(deadline) {
			w.fail("conn", "a waiter does not return")
			break
		}
		time.Sleep(time.Millisecond)
	}
	time.Sleep(2 * time.Millisecond)
	w.mu.Lock()
	w.checkHooks()
	w.mu.Unlock()
	w.finish()
}

// kicked waits for a connection to be cut by an immediate shutdown. Signals that
// follow each other closely may be delivered as one, so if it is signals that
// make it immediate there are more of them while it takes long.
func (w *world) kicked(k *cl) {
	sig, now := 0, false
	ts := w.c.First
	if f, _ := w.c.forced(); !f {
		ts = append(append([]trigger{}, ts...), w.c.Second...)
	}
	now = w.c.Timeout > 0
	for _, t := range ts {
		now = now || t.Kind == "now"
		if t.Kind == "sig" {
			sig = t.Sig
		}
	}
	for i := 0; i < 400; i++ {
		select {
		case <-k.done:
			return
		case <-time.After(patience / 400):
		}
		if !now && sig != 0 {
			syscall.Kill(os.Getpid(), syscall.Signal(sig))
		}
	}
	w.fail("conn", "%s connection %d is not closed by the immediate shutdown", k.spec.State, k.i)
	w.finish()
}

// ping makes sure that a listener is being served.
func (w *world) ping(addr string, i int) {
	deadline := time.Now().Add(patience)
	for {
		c, err := net.Dial("tcp", addr)
		if err == nil {
			c.SetDeadline(time.Now().Add(patience))
			fmt.Fprintf(c, "GET /ping HTTP/1.0\r\n\r\n")
			b, _ := io.ReadAll(c)
			c.Close()
			if strings.HasSuffix(string(b), "ok") {
				return
			}
			w.fail("serve", "listener %d is not served: %q", i, b)
			w.finish()
		}
		if time.Now().After(deadline) {
			w.fail("serve", "cannot connect to listener %d: %v", i, err)
			w.finish()
		}
		time.Sleep(time.Millisecond)
	}
}

// refused reports whether a new connection is refused by the server.
func (w *world) refused(c net.Conn, i int) bool {
	defer c.Close()
	c.SetDeadline(time.Now().Add(patience))
	fmt.Fprintf(c, "GET /probe/%d HTTP/1.0\r\n\r\n", i)
	b, _ := io.ReadAll(c)
	return len(b) == 0
}

// connect brings a client into its state.
func (w *world) connect(k *cl, addr string, l *rlis) {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		w.fail("conn", "connection %d: %v", k.i, err)
		w.finish()
	}
	k.c = c
	k.br = bufio.NewReader(c)
	w.mu.Lock()
	w.byAddr[c.LocalAddr().String()+" "+c.RemoteAddr().String()] = k
	w.logf("connection %d to listener %d: %s", k.i, k.spec.L, k.spec.State)
	w.mu.Unlock()
	ok := func(more string) {
		io.WriteString(c, "GET /ok HTTP/1.1\r\nHost: x\r\n\r\n"+more)
		c.SetReadDeadline(time.Now().Add(patience))
		resp, err := http.ReadResponse(k.br, nil)
		if err != nil {
			w.fail("conn", "connection %d: %v", k.i, err)
			w.finish()
		}
		io.Copy(io.Discard, resp.Body)
		c.SetReadDeadline(time.Time{})
	}
	path := fmt.Sprintf("/c/%d", k.i)
	switch k.spec.State {
	case "idle":
		ok("")
	case "partial":
		fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost:", path)
	case "second":
		ok("")
		fallthrough
	case "running", "streaming", "hijacked":
		fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: x\r\n\r\n", path)
		w.await("conn", k.entered, fmt.Sprintf("the handler of connection %d does not run", k.i))
	case "pipelined":
		ok(fmt.Sprintf("GET %s HTTP/1.1\r\nHost: x\r\n\r\n", path))
		w.await("conn", k.entered, fmt.Sprintf("the handler of connection %d does not run", k.i))
	case "upload":
		d := body(k.i, k.spec.Size)
		fmt.Fprintf(c, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", path, len(d), d[:len(d)/2])
		w.await("conn", k.entered, fmt.Sprintf("the handler of connection %d does not run", k.i))
	}
	if l != nil {
		// The package has the connection once Accept is called again.
		for t := time.Now(); ; time.Sleep(100 * time.Microsecond) {
			w.mu.Lock()
			nth := 0
			for _, rc := range w.conns {
				if w.byAddr[addrs(rc)] == k {
					nth = rc.nth
				}
			}
			w.mu.Unlock()
			l.mu.Lock()
			calls := l.calls
			l.mu.Unlock()
			if nth > 0 && calls > nth {
				break
			}
			if time.Since(t) > patience {
				w.fail("conn", "connection %d is not accepted", k.i)
				w.finish()
			}
		}
	}
	if k.spec.State == "hijacked" {
		return
	}
	go func() {
		defer close(k.done)
		resp, err := http.ReadResponse(k.br, nil)
		if err != nil {
			k.result, k.detail = "cut", err.Error()
			c.Close()
			return
		}
		b, err := io.ReadAll(resp.Body)
		switch {
		case err != nil:
			k.result, k.detail = "cut", err.Error()
		case resp.StatusCode != 200 || string(b) != body(k.i, k.spec.Size):
			k.result, k.detail = "wrong", fmt.Sprintf("%d, %d bytes", resp.StatusCode, len(b))
		default:
			k.result = "complete"
			k.toldClose = resp.Close
			// The connection ends as well.
			if n, err := k.br.ReadByte(); err == nil {
				k.result, k.detail = "wrong", fmt.Sprintf("trailing byte %q", n)
			}
		}
		c.Close()
	}()
}

func (w *world) checkFinished(who string) {
	w.over = true
	forced, forced2 := w.c.forced()
	for _, rc := range w.conns {
		if !rc.closed && !rc.hijacked && w.known(rc) {
			w.failLocked("conn", "%s returned although %s is open", who, rc.name())
		}
	}
	if !forced && !forced2 && w.running > 0 {
		w.failLocked("conn", "%s returned while %d handlers were running", who, w.running)
	}
}

// known: connections that arrive during the shutdown may be on their way out.
func (w *world) known(rc *rconn) bool { return w.byAddr[addrs(rc)] != nil }

func (w *world) hooks() {
	for i, withSig := range w.c.Pre {
		w.hook("pre", i, withSig)
	}
	for i, withSig := range w.c.Post {
		w.hook("post", i, withSig)
	}
}

func (w *world) hook(kind string, i int, withSig bool) {
	f := func(sig string) {
		w.mu.Lock()
		defer w.mu.Unlock()
		w.logf("%s-hook %d, %s", kind, i, sig)
		if kind == "pre" {
			w.pre = append(w.pre, fmt.Sprintf("%d %s", i, sig))
			for j, cl := range w.closedL {
				if cl {
					w.failLocked("hook", "listener %d was closed before pre-hook %d", j, i)
				}
			}
			return
		}
		w.post = append(w.post, fmt.Sprintf("%d %s", i, sig))
		for j, s := range w.c.Srvs {
			if !w.closedL[j] && (s.How == "serve" || s.How == "server" || s.How == "wrap" || s.How == "auto") {
				w.failLocked("hook", "post-hook %d ran before listener %d was closed", i, j)
			}
		}
		for _, rc := range w.conns {
			if !rc.closed && !rc.hijacked && w.known(rc) {
				w.failLocked("hook", "post-hook %d ran while %s was open", i, rc.name())
			}
		}
		if w.waitRet {
			w.failLocked("hook", "post-hook %d ran after Wait returned", i)
		}
	}
	name := func(s os.Signal) string {
		if s == nil {
			return "nil"
		}
		return s.String()
	}
	switch {
	case kind == "pre" && withSig:
		graceful.PreHookWithSignal(func(s os.Signal) { f(name(s)) })
	case kind == "pre":
		graceful.PreHook(func() { f("-") })
	case withSig:
		graceful.PostHookWithSignal(func(s os.Signal) { f(name(s)) })
	default:
		graceful.PostHook(func() { f("-") })
	}
}

func (w *world) checkHooks() {
	causes := map[string]bool{}
	first := map[string]bool{}
	for _, t := range append(append([]trigger{}, w.c.First...), w.c.Second...) {
		s := "nil"
		if t.Kind == "sig" {
			s = syscall.Signal(t.Sig).String()
		}
		causes[s] = true
	}
	for _, t := range w.c.First {
		s := "nil"
		if t.Kind == "sig" {
			s = syscall.Signal(t.Sig).String()
		}
		first[s] = true
	}
	check := func(kind string, got []string, spec []bool, causes map[string]bool) {
		if len(got) != len(spec) {
			w.failLocked("hook", "%d %s-hooks ran, %d are registered: %v", len(got), kind, len(spec), got)
			return
		}
		sig := ""
		for i, s := range spec {
			n, x, _ := strings.Cut(got[i], " ")
			if n != strconv.Itoa(i) {
				w.failLocked("hook", "%s-hooks ran in the order %v", kind, got)
				return
			}
			if !s {
				continue
			}
			if !causes[x] {
				w.failLocked("hook", "%s-hook %d got signal %s; the shutdown was caused by %v", kind, i, x, causes)
			}
			if sig == "" {
				sig = x
			}
			if sig != x {
				w.failLocked("hook", "%s-hooks got different signals: %v", kind, got)
			}
		}
	}
	check("pre", w.pre, w.c.Pre, first)
	check("post", w.post, w.c.Post, causes)
}
