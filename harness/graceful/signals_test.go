package gracefulcheck

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/signal"
	"sync"
	"syscall"
	"time"

	"github.com/zenazn/goji/graceful"
)

// sigOp is a step of a signal case.
type sigOp struct {
	Op   string // handle add reset dk timeout sig pause shutdown now
	Sigs []int
	D    int // milliseconds
}

type sigCase struct {
	Einhorn string // "", valid, other, junk
	Conns   int    // in use
	Hook    int    // milliseconds that the pre-hook takes
	Ops     []sigOp
}

// A world of connections in memory.

type memListener struct {
	ch     chan net.Conn
	closed chan struct{}
	once   sync.Once
}

func (l *memListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.closed:
		return nil, errors.New("closed")
	}
}
func (l *memListener) Close() error   { l.once.Do(func() { close(l.closed) }); return nil }
func (l *memListener) Addr() net.Addr { return &net.TCPAddr{} }

// beat measures how late this process gets the processor.
type beat struct {
	mu    sync.Mutex
	worst time.Duration
}

func (b *beat) run() {
	for {
		t := time.Now()
		time.Sleep(5 * time.Millisecond)
		d := time.Since(t) - 5*time.Millisecond
		b.mu.Lock()
		if d > b.worst {
			b.worst = d
		}
		b.mu.Unlock()
	}
}

func (b *beat) reset() {
	b.mu.Lock()
	b.worst = 0
	b.mu.Unlock()
}

func (b *beat) calm() bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.worst < 50*time.Millisecond
}

var allSignals = []os.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGHUP}

// long enough for anything that happens at once
const calmPause = 15 * time.Millisecond

func childSignals() {
	var c sigCase
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_ARG")), &c); err != nil {
		checkError("case: %v", err)
	}
	w := &world{start: time.Now()}
	fail := func(format string, args ...any) {
		w.fail("signal", format, args...)
		w.finish()
	}
	bt := &beat{}
	go bt.run()

	own := make(chan os.Signal, 100)
	signal.Notify(own, allSignals...)

	pre := make(chan string, 10)
	hooked := make(chan struct{})
	graceful.PreHookWithSignal(func(s os.Signal) {
		n := "nil"
		if s != nil {
			n = s.String()
		}
		pre <- n
		time.Sleep(time.Duration(c.Hook) * time.Millisecond)
		close(hooked)
	})

	ml := &memListener{ch: make(chan net.Conn, 10), closed: make(chan struct{})}
	gl := graceful.WrapListener(ml)
	cut := make(chan time.Time, 10)
	var server []net.Conn
	for i := 0; i < c.Conns; i++ {
		a, b := net.Pipe()
		ml.ch <- a
		s, err := gl.Accept()
		if err != nil {
			fail("Accept: %v", err)
		}
		go b.Write([]byte("x"))
		if _, err := s.Read(make([]byte, 1)); err != nil {
			fail("Read: %v", err)
		}
		server = append(server, s)
		go func() {
			io.Copy(io.Discard, b)
			cut <- time.Now()
		}()
	}
	waited := make(chan struct{})
	go func() { graceful.Wait(); close(waited) }()

	// the model
	std := map[os.Signal]bool{syscall.SIGINT: true}
	if c.Einhorn == "valid" {
		std[syscall.SIGUSR2] = true
	}
	set := map[os.Signal]bool{}
	var dk, timeout time.Duration
	var short time.Duration // the longest of the short timeouts ever set
	started, cutNow := false, false
	unsure := false              // whether the connections are to be cut at once
	var expire time.Time         // not before, if a timeout runs
	var lastLo, lastHi time.Time // when the last signal was handled
	seen := map[string]bool{}

	expectPre := func(want string) {
		select {
		case got := <-pre:
			if got != want {
				fail("the shutdown was caused by %s; the pre-hook got %s", want, got)
			}
		case <-time.After(patience):
			fail("%s does not start a shutdown (set: %v)", want, set)
		}
		started = true
	}
	notCut := func(when string) {
		select {
		case t := <-cut:
			if expire.IsZero() || t.Before(expire) {
				fail("a connection in use was cut: %s", when)
			}
			cut <- t
		default:
		}
	}

	bt.reset()
	for _, o := range c.Ops {
		if cutNow || unsure {
			break
		}
		d := time.Duration(o.D) * time.Millisecond
		w.event("%s %v %v", o.Op, o.Sigs, d)
		switch o.Op {
		case "handle":
			graceful.HandleSignals()
			for s := range std {
				set[s] = true
			}
		case "add":
			var ss []os.Signal
			for _, s := range o.Sigs {
				ss = append(ss, syscall.Signal(s))
				set[syscall.Signal(s)] = true
			}
			graceful.AddSignal(ss...)
		case "reset":
			graceful.ResetSignals()
			set = map[os.Signal]bool{}
		case "dk":
			graceful.DoubleKickWindow(d)
			if d >= 0 {
				dk = d
			}
		case "timeout":
			graceful.Timeout(d)
			if d >= 0 {
				timeout = d
			}
			if d > 0 && d < time.Minute && d > short {
				short = d
			}
		case "pause":
			time.Sleep(d)
			notCut("nothing happened")
		case "shutdown":
			go graceful.Shutdown()
			if !started {
				expectPre("nil")
			} else {
				time.Sleep(calmPause)
			}
			seen["manual"] = true
			notCut("manual shutdown")
		case "now":
			go graceful.ShutdownNow()
			if !started {
				expectPre("nil")
			}
			cutNow = true
			seen["now"] = true
		case "sig":
			s := syscall.Signal(o.Sigs[0])
			before := time.Now()
			syscall.Kill(os.Getpid(), s)
			for got := range own {
				if got == s {
					break
				}
			}
			if !set[s] {
				seen["ignored signal"] = true
				time.Sleep(calmPause)
				select {
				case <-pre:
					if !started {
						fail("signal %v started a shutdown; configured are %v", s, set)
					}
				default:
				}
				notCut(fmt.Sprintf("signal %v, configured are %v", s, set))
				continue
			}
			var hi time.Time
			if !started {
				expectPre(s.String())
				hi = time.Now()
			} else {
				time.Sleep(calmPause)
				hi = time.Now().Add(calmPause)
				if !bt.calm() {
					hi = time.Time{}
				}
			}
			kick := false
			if dk > 0 && !lastLo.IsZero() {
				switch {
				case !lastHi.IsZero() && before.Sub(lastHi) > dk:
					seen["signal outside the window"] = true
				case !hi.IsZero() && hi.Sub(lastLo) < dk:
					kick = true
					seen["double kick"] = true
				default:
					unsure = true
				}
			} else if !lastLo.IsZero() {
				seen["second signal without a window"] = true
			}
			lastLo, lastHi = before, hi
			switch {
			case unsure:
				w.label("unsure")
			case kick:
				cutNow = true
			case timeout > 0:
				if e := before.Add(timeout); expire.IsZero() || e.Before(expire) {
					expire = e
				}
			default:
				time.Sleep(calmPause)
				notCut(fmt.Sprintf("signal %v, double kick window %v, timeout %v", s, dk, timeout))
			}
		}
	}
	for l := range seen {
		w.label(l)
	}
	switch {
	case unsure:
		w.finish()
	case cutNow || !expire.IsZero() && time.Until(expire) < time.Minute:
		for range server {
			select {
			case t := <-cut:
				if !cutNow && t.Before(expire) {
					fail("a connection in use was cut %v before the timeout", expire.Sub(t))
				}
			case <-time.After(patience):
				fail("connections in use are not cut (double kick or immediate shutdown: %v, timeout: %v)", cutNow, !expire.IsZero())
			}
		}
		if !cutNow {
			w.label("timeout expired")
		}
		started = true
	default:
		if started && c.Hook > 0 {
			<-hooked
			time.Sleep(calmPause)
		}
		if !expire.IsZero() {
			time.Sleep(calmPause)
			w.label("timeout not expired")
		}
		if short > 0 && started {
			// one that was set and replaced must not have its way
			time.Sleep(short + calmPause)
			w.label("replaced timeout")
		}
		notCut("end")
	}
	if started {
		for _, s := range server {
			s.Close()
		}
		select {
		case <-waited:
		case <-time.After(patience):
			fail("Wait does not return")
		}
		w.label("shutdown")
	} else {
		select {
		case <-waited:
			fail("Wait returned without a shutdown")
		default:
		}
		w.label("no shutdown")
	}
	w.finish()
}
