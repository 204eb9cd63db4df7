package rootcheck

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/zenazn/goji"
	"github.com/zenazn/goji/graceful"
	"github.com/zenazn/goji/web"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// C37: a whole program around goji.Serve, ServeTLS or ServeListener, in a process
// of its own, with this process as its clients and as whoever sends it signals.

type appCase struct {
	Start string // serve tls listener
	Bind  string // flag flag= env unix envunix fd einhorn systemd
	Hooks int    // the program's own hooks
	Conns []appConn
	Sigs  []appSig
	Fail  string // "", accept (ServeListener with a failing listener), busy (the address is taken)
	After int    // connections before the listener fails
}

type appConn struct {
	Kind string // slow idle half silent hijack
	Warm int    // requests on it before
	Size int    // bytes that a slow handler reads and writes before and after the signals
}

type appSig struct {
	Gap  int // ms since the previous one
	Usr2 bool
}

func genApp(t *rapid.T) appCase {
	c := appCase{
		Start: rapid.SampledFrom([]string{"serve", "serve", "tls", "listener"}).Draw(t, "start"),
		Hooks: rapid.IntRange(0, 3).Draw(t, "hooks"),
	}
	if c.Start != "listener" {
		c.Bind = rapid.SampledFrom([]string{"flag", "flag=", "env", "unix", "envunix", "fd", "einhorn", "systemd", "einhorn"}).Draw(t, "bind")
	}
	if model.Chance(t, "fail", 10) {
		c.Fail = "accept"
		c.Bind = ""
		c.Start = "listener"
		c.After = rapid.IntRange(0, 3).Draw(t, "after")
	} else if c.Bind == "flag" && model.Chance(t, "busy", 20) {
		c.Fail = "busy"
		return c
	}
	slow := 0
	for i, n := 0, rapid.IntRange(0, 5).Draw(t, "conns"); i < n; i++ {
		k := appConn{
			Kind: rapid.SampledFrom([]string{"slow", "slow", "idle", "half", "silent", "hijack"}).Draw(t, "kind"),
			Warm: rapid.IntRange(0, 2).Draw(t, "warm"),
			Size: rapid.SampledFrom([]int{1, 10, 3000, 40000}).Draw(t, "size"),
		}
		if k.Kind == "slow" {
			slow++
		}
		c.Conns = append(c.Conns, k)
	}
	if c.Fail != "" {
		return c
	}
	n := 1
	if slow > 0 {
		n = 1 + rapid.IntRange(0, 2).Draw(t, "sigs")
	}
	for i := 0; i < n; i++ {
		s := appSig{Usr2: c.Bind == "einhorn" && rapid.Bool().Draw(t, "usr2")}
		if i > 0 {
			s.Gap = rapid.SampledFrom([]int{30, 200, 600, 1100, 2900, 3000}).Draw(t, "gap")
		}
		c.Sigs = append(c.Sigs, s)
	}
	return c
}

// ---- the program ---------------------------------------------------------------

const pattern256 = "0123456789abcdef"

func payload(n int) []byte { return bytes.Repeat([]byte(pattern256), n/16+1)[:n] }

// failing fails to accept after some connections.
type failing struct {
	net.Listener
	n int
}

var errFailing = errors.New("the listener of the case fails")

func (l *failing) Accept() (net.Conn, error) {
	if l.n == 0 {
		return nil, errFailing
	}
	l.n--
	return l.Listener.Accept()
}

// late is how late this process got the processor, at worst.
type late struct {
	mu    sync.Mutex
	worst time.Duration
}

func (l *late) run() {
	for {
		t := time.Now()
		time.Sleep(10 * time.Millisecond)
		d := time.Since(t) - 10*time.Millisecond
		l.mu.Lock()
		l.worst = max(l.worst, d)
		l.mu.Unlock()
	}
}

func appChild() {
	var c appCase
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_ARG")), &c); err != nil {
		fmt.Fprintln(os.Stderr, "CHECK-ERROR", err)
		os.Exit(3)
	}
	var lt late
	go lt.run()
	say := func(format string, args ...any) { fmt.Fprintf(os.Stderr, format+"\n", args...) }
	goji.Get("/hello/:name", func(c web.C, w http.ResponseWriter, r *http.Request) {
		fmt.Fprintf(w, "Hello, %s!", c.URLParams["name"])
	})
	goji.Post("/slow", func(w http.ResponseWriter, r *http.Request) {
		if err := http.NewResponseController(w).EnableFullDuplex(); err != nil {
			say("DUPLEX %v", err)
		}
		n := int(r.ContentLength) / 2
		buf := make([]byte, n)
		io.ReadFull(r.Body, buf)
		w.Write(buf)
		w.(http.Flusher).Flush()
		rest, err := io.ReadAll(r.Body)
		if err != nil {
			panic(http.ErrAbortHandler)
		}
		w.Write(rest)
	})
	goji.Get("/hijack", func(w http.ResponseWriter, r *http.Request) {
		c, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			say("HIJACK %v", err)
			return
		}
		// It must work beyond the shutdown, as long as the process lives.
		go func() {
			io.WriteString(c, "HTTP/1.1 101 S\r\n\r\n")
			io.Copy(c, c)
		}()
	})
	goji.Get("/panic", func(w http.ResponseWriter, r *http.Request) { panic("on purpose") })
	for i := 0; i < c.Hooks; i++ {
		i := i
		graceful.PreHookWithSignal(func(s os.Signal) { say("HOOK pre %d %v", i, s) })
		graceful.PostHookWithSignal(func(s os.Signal) { say("HOOK post %d", i) })
	}
	if addr := os.Getenv("VERIF_BIND"); c.Bind == "flag=" {
		os.Args = []string{os.Args[0], "-bind=" + addr}
	} else if addr != "" {
		os.Args = []string{os.Args[0], "--bind", addr}
	} else {
		os.Args = os.Args[:1]
	}
	switch c.Start {
	case "serve":
		goji.Serve()
	case "tls":
		goji.ServeTLS(certificate())
	case "listener":
		l := listen()
		if c.Fail == "accept" {
			l = &failing{l, c.After}
		}
		goji.ServeListener(l)
	}
	say("RETURNED")
	lt.mu.Lock()
	say("LATE %d", lt.worst.Milliseconds())
	lt.mu.Unlock()
	os.Exit(0)
}

// ---- the world around it ------------------------------------------------------------

// output collects what the program prints, by line.
type output struct {
	mu    sync.Mutex
	lines []string
	part  string
	wake  chan bool
}

func (o *output) Write(b []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.part += string(b)
	for {
		l, rest, ok := strings.Cut(o.part, "\n")
		if !ok {
			break
		}
		o.lines, o.part = append(o.lines, l), rest
	}
	return len(b), nil
}

func (o *output) find(s string) int {
	o.mu.Lock()
	defer o.mu.Unlock()
	for i, l := range o.lines {
		if strings.Contains(l, s) {
			return i
		}
	}
	return -1
}

func (o *output) count(s string) int {
	o.mu.Lock()
	defer o.mu.Unlock()
	n := 0
	for _, l := range o.lines {
		if strings.Contains(l, s) {
			n++
		}
	}
	return n
}

func (o *output) text() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	return strings.Join(o.lines, "\n")
}

type app struct {
	c       appCase
	cmd     *exec.Cmd
	out     output
	network string
	addr    string
	ended   chan struct{}
	err     error // of the process, once it has ended
	acks    chan string
	close   []io.Closer
}

func (a *app) running() bool {
	select {
	case <-a.ended:
		return false
	default:
		return true
	}
}

// until waits for something that takes no time.
func (a *app) until(what string, f func() bool) error {
	for end := time.Now().Add(patience); !f(); time.Sleep(2 * time.Millisecond) {
		if time.Now().After(end) {
			return fmt.Errorf("%s does not happen; the process wrote:\n%s", what, a.out.text())
		}
	}
	return nil
}

func (a *app) dial() (net.Conn, error) {
	c, err := net.DialTimeout(a.network, a.addr, patience)
	if err != nil {
		return nil, err
	}
	c.SetDeadline(time.Now().Add(patience))
	if a.c.Start == "tls" {
		t := tls.Client(c, &tls.Config{InsecureSkipVerify: true})
		if err := t.Handshake(); err != nil {
			c.Close()
			return nil, err
		}
		return t, nil
	}
	return c, nil
}

func mustDo[T any](v T, err error) T {
	if err != nil {
		pbt.Broken("%v\n", err)
	}
	return v
}

// launchApp starts the program. The directory is for its sockets.
func launchApp(ctx context.Context, c appCase, dir string) (*app, error) {
	a := &app{c: c, network: "tcp", ended: make(chan struct{}), acks: make(chan string, 10)}
	script := "exec \"$0\" -test.run '^$'"
	env := []string{"PATH=/usr/bin:/bin", "VERIF_CHILD=app", "VERIF_ARG=" + string(mustDo(json.Marshal(c)))}
	var inherit *os.File
	sockets := func() {
		l := listen().(*net.TCPListener)
		a.addr = l.Addr().String()
		inherit = mustDo(l.File())
		l.Close()
	}
	switch c.Bind {
	case "flag", "flag=", "env":
		l := listen()
		a.addr = l.Addr().String()
		if c.Fail == "busy" {
			a.close = append(a.close, l)
		} else {
			l.Close()
		}
		if c.Bind == "env" {
			env = append(env, "GOJI_BIND="+a.addr)
		} else {
			env = append(env, "VERIF_BIND="+a.addr)
			// The command line wins.
			env = append(env, "GOJI_BIND=/nonexistent/socket")
		}
	case "unix":
		a.network, a.addr = "unix", filepath.Join(dir, "s")
		env = append(env, "VERIF_BIND="+a.addr)
	case "envunix":
		a.network, a.addr = "unix", filepath.Join(dir, "s")
		env = append(env, "GOJI_BIND="+a.addr)
	case "fd":
		sockets()
		env = append(env, "VERIF_BIND=fd@3")
	case "systemd":
		sockets()
		script = "LISTEN_PID=$$ " + script
		env = append(env, "LISTEN_FDS=1")
	case "einhorn":
		sockets()
		path := filepath.Join(dir, "control")
		l := mustDo(net.Listen("unix", path))
		a.close = append(a.close, l)
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				b, _ := io.ReadAll(c)
				c.Close()
				a.acks <- string(b)
			}
		}()
		env = append(env, "EINHORN_FD_COUNT=1", "EINHORN_FD_0=3", "EINHORN_SOCK_PATH="+path, fmt.Sprintf("EINHORN_MASTER_PID=%d", os.Getpid()))
	}
	a.cmd = exec.CommandContext(ctx, "/bin/sh", "-c", script, os.Args[0])
	a.cmd.Dir = dir
	a.cmd.Env = env
	a.cmd.Stdout, a.cmd.Stderr = &a.out, &a.out
	if inherit != nil {
		a.cmd.ExtraFiles = []*os.File{inherit}
	}
	if err := a.cmd.Start(); err != nil {
		pbt.Broken("%v\n", err)
	}
	if inherit != nil {
		inherit.Close() // nobody else listens
	}
	go func() {
		a.err = a.cmd.Wait()
		close(a.ended)
	}()
	if c.Fail == "busy" {
		return a, nil
	}
	// It says when it starts; the address is known from then on.
	const starting = "Starting Goji on "
	if err := a.until("the start", func() bool { return a.out.find(starting) >= 0 || !a.running() }); err != nil {
		return a, err
	}
	i := a.out.find(starting)
	if i < 0 {
		return a, fmt.Errorf("the program ends: %v\n%s", a.err, a.out.text())
	}
	a.out.mu.Lock()
	said := a.out.lines[i][strings.Index(a.out.lines[i], starting)+len(starting):]
	a.out.mu.Unlock()
	if a.addr == "" {
		a.addr = said
	}
	if said != a.addr {
		return a, fmt.Errorf("it says that it starts on %q instead of %q", said, a.addr)
	}
	return a, nil
}

// client is one of the connections of the case.
type client struct {
	k    appConn
	c    net.Conn
	br   *bufio.Reader
	resp *http.Response
}

func (cl *client) get(target string) (*http.Response, string, error) {
	if _, err := fmt.Fprintf(cl.c, "GET %s HTTP/1.1\r\nHost: h\r\n\r\n", target); err != nil {
		return nil, "", err
	}
	resp, err := http.ReadResponse(cl.br, nil)
	if err != nil {
		return nil, "", err
	}
	b, err := io.ReadAll(resp.Body)
	return resp, string(b), err
}

// open brings a connection into its state.
func (a *app) open(i int, k appConn) (*client, error) {
	c, err := a.dial()
	if err != nil {
		return nil, err
	}
	cl := &client{k: k, c: c, br: bufio.NewReader(c)}
	for j := 0; j < k.Warm; j++ {
		target, status, want := fmt.Sprintf("/hello/n%d", j), 200, fmt.Sprintf("Hello, n%d!", j)
		if (i+j)%3 == 2 {
			target, status, want = "/panic", 500, "Internal Server Error\n"
		}
		resp, body, err := cl.get(target)
		if err != nil {
			return cl, err
		}
		if resp.StatusCode != status || body != want {
			return cl, fmt.Errorf("GET %s is answered %d %q", target, resp.StatusCode, body)
		}
	}
	switch k.Kind {
	case "idle":
		if resp, body, err := cl.get("/hello/idle"); err != nil || resp.StatusCode != 200 || body != "Hello, idle!" {
			return cl, fmt.Errorf("GET: %q %v", body, err)
		}
	case "half":
		io.WriteString(c, "GET /hello/x HTTP/1.1\r\nHos")
	case "slow":
		fmt.Fprintf(c, "POST /slow HTTP/1.1\r\nHost: h\r\nContent-Length: %d\r\n\r\n", 2*k.Size)
		c.Write(payload(k.Size))
		resp, err := http.ReadResponse(cl.br, nil)
		if err != nil {
			return cl, err
		}
		cl.resp = resp
		buf := make([]byte, k.Size)
		if _, err := io.ReadFull(resp.Body, buf); err != nil || !bytes.Equal(buf, payload(k.Size)) {
			return cl, fmt.Errorf("the first half of the response: %d bytes, %v", len(buf), err)
		}
	case "hijack":
		io.WriteString(c, "GET /hijack HTTP/1.1\r\nHost: h\r\n\r\n")
		s, err := cl.br.ReadString('\n')
		if err != nil {
			return cl, err
		}
		if s2, err := cl.br.ReadString('\n'); s != "HTTP/1.1 101 S\r\n" || s2 != "\r\n" || err != nil {
			return cl, fmt.Errorf("hijacked connection: %q %q %v", s, s2, err)
		}
		if err := cl.echo("before"); err != nil {
			return cl, err
		}
	}
	return cl, nil
}

// echo uses a hijacked connection.
func (cl *client) echo(s string) error {
	cl.c.SetDeadline(time.Now().Add(patience))
	if _, err := io.WriteString(cl.c, s+"\n"); err != nil {
		return fmt.Errorf("hijacked connection: %v", err)
	}
	if got, err := cl.br.ReadString('\n'); got != s+"\n" || err != nil {
		return fmt.Errorf("hijacked connection: %q %v", got, err)
	}
	return nil
}

// closed waits until the server closes the connection without an answer.
func (cl *client) closed() error {
	cl.c.SetDeadline(time.Now().Add(patience))
	b, err := io.ReadAll(cl.br)
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		return fmt.Errorf("a connection that is %s is not closed", cl.k.Kind)
	}
	if len(b) > 0 && cl.resp == nil {
		return fmt.Errorf("a connection that is %s gets %q", cl.k.Kind, b)
	}
	return nil
}

// complete lets a slow request finish.
func (cl *client) complete() error {
	cl.c.SetDeadline(time.Now().Add(patience))
	if _, err := cl.c.Write(payload(cl.k.Size)); err != nil {
		return fmt.Errorf("a running request is cut: %v", err)
	}
	b, err := io.ReadAll(cl.resp.Body)
	if err != nil || !bytes.Equal(b, payload(cl.k.Size)) {
		return fmt.Errorf("a running request gets the second half %d of %d bytes, %v", len(b), cl.k.Size, err)
	}
	return nil
}

func checkApp(r *pbt.R, c appCase) error {
	err := runApp(r, c)
	if err != nil {
		// Once more, as the processor may have been busy.
		err = runApp(&pbt.R{}, c)
	}
	return err
}

func runApp(r *pbt.R, c appCase) error {
	dir := mustDo(os.MkdirTemp("", "app"))
	defer os.RemoveAll(dir)
	ctx, cancel := context.WithTimeout(context.Background(), 10*patience)
	defer cancel()
	r.Label("start:" + c.Start)
	r.LabelIf(c.Bind != "", "bind:"+c.Bind)
	r.LabelIf(c.Fail != "", "fail:"+c.Fail)
	a, err := launchApp(ctx, c, dir)
	defer func() {
		a.cmd.Process.Kill()
		<-a.ended
		for _, x := range a.close {
			x.Close()
		}
	}()
	if err != nil {
		return err
	}
	if c.Fail == "busy" {
		r.NonTrivial()
		if err := a.until("the end of the program", func() bool { return !a.running() }); err != nil {
			return err
		}
		if a.cmd.ProcessState.ExitCode() != 1 || a.out.find("address already in use") < 0 || a.out.find("RETURNED") >= 0 {
			return fmt.Errorf("the address is taken, but the program ends with %v and\n%s", a.err, a.out.text())
		}
		return nil
	}
	if c.Fail == "accept" {
		r.NonTrivial()
		for i := 0; i < c.After; i++ {
			// The process may end at any time after the last of them.
			if x, err := net.Dial(a.network, a.addr); err == nil {
				defer x.Close()
			}
		}
		if err := a.until("the end of the program", func() bool { return !a.running() }); err != nil {
			return err
		}
		if a.cmd.ProcessState.ExitCode() != 1 || a.out.find(errFailing.Error()) < 0 || a.out.find("RETURNED") >= 0 || a.out.find("Goji stopped") >= 0 {
			return fmt.Errorf("the listener fails, but the program ends with %v and\n%s", a.err, a.out.text())
		}
		return nil
	}

	var clients []*client
	var slow []*client
	defer func() {
		for _, cl := range clients {
			if cl != nil {
				cl.c.Close()
			}
		}
	}()
	for i, k := range c.Conns {
		cl, err := a.open(i, k)
		if cl != nil {
			clients = append(clients, cl)
		}
		if err != nil {
			return fmt.Errorf("connection %d (%s): %v\n%s", i, k.Kind, err, a.out.text())
		}
		r.Label("conn:" + k.Kind)
		if k.Kind == "slow" {
			slow = append(slow, cl)
		}
	}
	if len(clients) == 0 {
		// Someone must have been served before the signals are certainly handled.
		cl, err := a.open(0, appConn{Kind: "idle"})
		if err != nil {
			return fmt.Errorf("%v\n%s", err, a.out.text())
		}
		clients = append(clients, cl)
	}
	r.NonTrivialIf(len(c.Conns) > 0)
	if c.Bind == "einhorn" {
		select {
		case s := <-a.acks:
			var m struct {
				Command string
				Pid     int
			}
			if err := json.Unmarshal([]byte(s), &m); err != nil || m.Command != "worker:ack" || m.Pid != a.cmd.Process.Pid {
				return fmt.Errorf("process %d tells einhorn %q", a.cmd.Process.Pid, s)
			}
		case <-time.After(patience):
			return fmt.Errorf("einhorn is not told that the program is ready")
		}
	}
	if a.out.find("gracefully") >= 0 || !a.running() {
		return fmt.Errorf("the program stops by itself:\n%s", a.out.text())
	}

	forced := false
	var last time.Time
	for i, s := range c.Sigs {
		if i > 0 {
			if forced {
				break
			}
			time.Sleep(time.Until(last.Add(time.Duration(s.Gap) * time.Millisecond)))
		}
		sig := syscall.SIGINT
		if s.Usr2 {
			sig = syscall.SIGUSR2
		}
		if i > 0 && s.Gap < 2000 && time.Since(last) > 1700*time.Millisecond {
			r.Label("unsure")
			return nil
		}
		last = time.Now()
		if err := a.cmd.Process.Signal(sig); err != nil {
			return fmt.Errorf("signal %d: %v\n%s", i, err, a.out.text())
		}
		forced = i > 0 && s.Gap < 2000
		if err := a.until("the reaction to the signal", func() bool { return a.out.find("Goji received signal, gracefully stopping") >= 0 }); err != nil {
			return err
		}
		if forced {
			break
		}
		// Everything that is not in use goes, and nobody else gets in.
		for _, cl := range clients {
			if cl.k.Kind == "idle" || cl.k.Kind == "silent" && cl.k.Warm > 0 {
				if err := cl.closed(); err != nil {
					return fmt.Errorf("%v\n%s", err, a.out.text())
				}
			}
		}
		if err := a.until("the refusal of new connections", func() bool {
			x, err := net.DialTimeout(a.network, a.addr, time.Second)
			if err == nil {
				x.Close()
				time.Sleep(20 * time.Millisecond)
			}
			return err != nil && !errors.Is(err, os.ErrDeadlineExceeded)
		}); err != nil {
			return err
		}
		if len(slow) > 0 {
			time.Sleep(20 * time.Millisecond)
			if !a.running() || a.out.find("Goji stopped") >= 0 || a.out.find("RETURNED") >= 0 {
				return fmt.Errorf("the program ends while a request runs\n%s", a.out.text())
			}
			for _, cl := range clients {
				if cl.k.Kind == "hijack" {
					if err := cl.echo("during"); err != nil {
						return fmt.Errorf("%v\n%s", err, a.out.text())
					}
				}
			}
		}
	}
	r.LabelIf(forced, "forced")
	r.LabelIf(!forced && len(c.Sigs) > 1, "signals apart")
	if forced {
		for _, cl := range slow {
			if err := cl.closed(); err != nil {
				return fmt.Errorf("after the second signal: %v\n%s", err, a.out.text())
			}
		}
	} else {
		for i, cl := range slow {
			if err := cl.complete(); err != nil {
				return fmt.Errorf("%v\n%s", err, a.out.text())
			}
			if i < len(slow)-1 && a.out.find("Goji stopped") >= 0 {
				return fmt.Errorf("stopped while a request runs\n%s", a.out.text())
			}
		}
	}
	// Half a request, once it has been read, keeps the program from ending.
	for _, cl := range clients {
		if cl.k.Kind == "half" {
			cl.c.Close()
		}
	}
	if err := a.until("the end of the program", func() bool { return !a.running() }); err != nil {
		return err
	}
	if a.err != nil {
		return fmt.Errorf("the program ends with %v\n%s", a.err, a.out.text())
	}
	return a.lines(forced, len(slow))
}

// lines judges what the program wrote.
func (a *app) lines(forced bool, slow int) error {
	bad := func(format string, args ...any) error {
		return fmt.Errorf(format+"\n%s", append(args, a.out.text())...)
	}
	order := []string{"Starting Goji on ", "Goji received signal, gracefully stopping", "Goji stopped", "RETURNED"}
	prev := -1
	for _, s := range order {
		if n := a.out.count(s); n != 1 {
			return bad("%q is written %d times", s, n)
		}
		if i := a.out.find(s); i < prev {
			return bad("%q comes too early", s)
		} else {
			prev = i
		}
	}
	want := 0
	if a.c.Bind == "einhorn" {
		want = 1
	}
	if n := a.out.count("ACKing to einhorn"); n != want || len(a.acks) != 0 {
		return bad("%d acknowledgements, and %d more, to einhorn", n, len(a.acks))
	}
	for i := 0; i < a.c.Hooks; i++ {
		first := "HOOK pre " + fmt.Sprint(i, " interrupt")
		if len(a.c.Sigs) > 0 && a.c.Sigs[0].Usr2 {
			first = "HOOK pre " + fmt.Sprint(i, " user defined signal 2")
		}
		pre, post := a.out.find(first), a.out.find(fmt.Sprintf("HOOK post %d", i))
		if a.out.count(fmt.Sprintf("HOOK pre %d", i)) != 1 || a.out.count(fmt.Sprintf("HOOK post %d", i)) != 1 || pre < 0 || post < 0 {
			return bad("hooks %d do not run once with the signal", i)
		}
		if pre > post || post > prev {
			return bad("hooks %d run at the wrong moment", i)
		}
	}
	if !forced {
		// What has been served has been logged by the time it has stopped.
		n := 0
		for i, l := range a.out.lines {
			if strings.Contains(l, "Started ") && strings.Contains(l, "POST") {
				n++
			}
			if i > a.out.find("Goji stopped") && strings.Contains(l, "Returning ") {
				return bad("a request ends after the end")
			}
		}
		if n != slow {
			return bad("%d of %d requests are in the log", n, slow)
		}
	}
	return nil
}

const appRule = "C37: whole programs around goji.Serve, ServeTLS and ServeListener in processes of their own, bound in every way, with clients in generated states and generated sequences of signals; non-trivial when there are clients besides the probe, or the listener fails."

func TestC37(t *testing.T) {
	pbt.Main(t, "C37", appRule, pbt.P("program", 160, 4000, genApp, checkApp))
}
