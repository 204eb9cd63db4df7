package listenercheck

import (
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/zenazn/goji/graceful/listener"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/vsched"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

var errInner = errors.New("inner error")
var errFakeClosed = errors.New("fake: closed")

// lop is one call on a listener, a connection or the package.
type lop struct {
	Op   string
	C    int   // which connection, modulo how many there are
	L    int   // which listener
	Err  bool  // the wrapped connection's call fails
	N    int   // bytes read or written
	Hook []lop // performed while the wrapped connection's Read is running
}

type addr string

func (a addr) Network() string { return "fake" }
func (a addr) String() string  { return string(a) }

// fconn is the wrapped connection.
type fconn struct {
	id       int
	mu       sync.Mutex
	closes   int
	closeErr error
	readN    int
	readErr  error
	onRead   func()
	onClose  func(*fconn)
	writeErr error
	written  []byte
	dls      []string
	dlt      time.Time
	_        [64]byte
}

func (f *fconn) Read(b []byte) (int, error) {
	vsched.Yield()
	f.mu.Lock()
	closed := f.closes > 0
	n, err, hook := f.readN, f.readErr, f.onRead
	f.mu.Unlock()
	if closed {
		return 0, errFakeClosed
	}
	if hook != nil {
		hook()
	}
	vsched.Yield()
	if err != nil {
		return 0, err
	}
	if n > len(b) {
		n = len(b)
	}
	for i := range b[:n] {
		b[i] = 'r'
	}
	return n, nil
}

func (f *fconn) Write(b []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.closes > 0 {
		return 0, errFakeClosed
	}
	if f.writeErr != nil {
		return 0, f.writeErr
	}
	f.written = append(f.written, b...)
	return len(b), nil
}

func (f *fconn) Close() error {
	vsched.Yield()
	f.mu.Lock()
	f.closes++
	h := f.onClose
	err := f.closeErr
	f.mu.Unlock()
	if h != nil {
		h(f)
	}
	return err
}

func (f *fconn) nclosed() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.closes
}

func (f *fconn) LocalAddr() net.Addr  { return addr("local") }
func (f *fconn) RemoteAddr() net.Addr { return addr("remote") }
func (f *fconn) dl(k string, t time.Time) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.dls = append(f.dls, k)
	f.dlt = t
	if f.closes > 0 {
		return errFakeClosed
	}
	return nil
}
func (f *fconn) SetDeadline(t time.Time) error      { return f.dl("d", t) }
func (f *fconn) SetReadDeadline(t time.Time) error  { return f.dl("r", t) }
func (f *fconn) SetWriteDeadline(t time.Time) error { return f.dl("w", t) }

// flist is the wrapped listener; Accept takes what offer put there.
type flist struct {
	mu     sync.Mutex
	queue  []net.Conn
	closed int
	err    error
}

func (l *flist) offer(c net.Conn) {
	l.mu.Lock()
	l.queue = append(l.queue, c)
	l.mu.Unlock()
}

func (l *flist) Accept() (net.Conn, error) {
	vsched.Yield()
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.queue) == 0 {
		return nil, errInner
	}
	c := l.queue[0]
	l.queue[0] = nil
	l.queue = l.queue[1:]
	return c, nil
}

func (l *flist) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.closed++
	return l.err
}

func (l *flist) Addr() net.Addr { return addr("listener") }

var modes = []struct {
	name string
	wrap func(net.Listener) *listener.T
}{
	{"manual", func(l net.Listener) *listener.T { return listener.Wrap(l, listener.Manual) }},
	{"automatic", func(l net.Listener) *listener.T { return listener.Wrap(l, listener.Automatic) }},
	{"deadline", func(l net.Listener) *listener.T { return listener.Wrap(l, listener.Deadline) }},
}

func genBytes(t *rapid.T) int { return model.Int(t, "n", 0, 3) }

func describe(o lop) string {
	s := fmt.Sprintf("%s(conn %d, listener %d)", o.Op, o.C, o.L)
	if len(o.Hook) > 0 {
		var hs []string
		for _, h := range o.Hook {
			hs = append(hs, describe(h))
		}
		s += " with " + strings.Join(hs, ", ") + " during the read"
	}
	return s
}

// deadlines are what SetReadDeadline and its like are given: none, one long
// gone, one to come.
var deadlines = []time.Time{{}, time.Unix(1, 0), time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC)}

func deadline(n int) time.Time { return deadlines[n%len(deadlines)] }
