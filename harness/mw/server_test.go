package mwcheck

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/harness/pbt"
)

// ---- a real net/http server over an in-memory connection --------------------

type memConn struct {
	mu       sync.Mutex
	cond     *sync.Cond
	in       []byte
	out      bytes.Buffer
	deadline bool // reads are past their deadline
	closed   bool
	done     chan struct{}
	total    int // bytes of response after which writes fail, if > 0
}

func newMemConn(in []byte) *memConn {
	c := &memConn{in: in, done: make(chan struct{})}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *memConn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		switch {
		case c.closed:
			return 0, net.ErrClosed
		case c.deadline:
			return 0, os.ErrDeadlineExceeded
		case len(c.in) > 0:
			n := copy(p, c.in)
			c.in = c.in[n:]
			return n, nil
		}
		c.cond.Wait()
	}
}

func (c *memConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.total > 0 && c.out.Len()+len(p) > c.total {
		n := c.total - c.out.Len()
		c.out.Write(p[:n])
		return n, io.ErrClosedPipe
	}
	return c.out.Write(p)
}

func (c *memConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	close(c.done)
	c.cond.Broadcast()
	return nil
}

func (c *memConn) snapshot() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]byte{}, c.out.Bytes()...)
}

type memAddr struct{}

func (memAddr) Network() string { return "mem" }
func (memAddr) String() string  { return "mem:1" }

func (c *memConn) LocalAddr() net.Addr  { return memAddr{} }
func (c *memConn) RemoteAddr() net.Addr { return memAddr{} }
func (c *memConn) SetDeadline(t time.Time) error {
	return c.SetReadDeadline(t)
}
func (c *memConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.deadline = !t.IsZero() && t.Before(time.Now())
	c.cond.Broadcast()
	return nil
}
func (c *memConn) SetWriteDeadline(t time.Time) error { return nil }

// rfConn also copies from readers, like a TCP connection.
type rfConn struct{ *memConn }

func (c rfConn) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{c.memConn}, r)
}

type oneListener struct {
	c    net.Conn
	gone chan struct{}
	mu   sync.Mutex
}

func (l *oneListener) Accept() (net.Conn, error) {
	l.mu.Lock()
	c := l.c
	l.c = nil
	l.mu.Unlock()
	if c != nil {
		return c, nil
	}
	<-l.gone
	return nil, net.ErrClosed
}
func (l *oneListener) Close() error   { return nil }
func (l *oneListener) Addr() net.Addr { return memAddr{} }

// wire describes the client's side of one exchange.
type wire struct {
	Method string
	Proto  string // HTTP/1.0 or HTTP/1.1
	RF     bool   // the connection copies from readers
	Fail   int    // bytes of response the connection takes, if > 0
}

var discardLog = log.New(io.Discard, "", 0)

// serve runs one request through a real server and returns what the client got.
func (x wire) serve(path string, hdr http.Header, h http.HandlerFunc) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s %s\r\nHost: example.com\r\nConnection: close\r\n", x.Method, path, x.Proto)
	ks := make([]string, 0, len(hdr))
	for k := range hdr {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for _, v := range hdr[k] {
			fmt.Fprintf(&b, "%s: %s\r\n", k, v)
		}
	}
	b.WriteString("\r\n")
	return x.serveRaw(b.Bytes(), h)
}

func (x wire) serveRaw(in []byte, h http.HandlerFunc) []byte {
	mc := newMemConn(in)
	mc.total = x.Fail
	var c net.Conn = mc
	if x.RF {
		c = rfConn{mc}
	}
	l := &oneListener{c: c, gone: make(chan struct{})}
	handled := make(chan struct{})
	srv := &http.Server{ErrorLog: discardLog, Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		defer close(handled)
		currentConn = mc
		h(w, r)
	})}
	go srv.Serve(l)
	select {
	case <-mc.done:
	case <-time.After(60 * time.Second):
		pbt.Broken("the server did not close the connection\n")
	}
	select {
	case <-handled:
	case <-time.After(60 * time.Second):
		pbt.Broken("the handler did not return\n")
	}
	close(l.gone)
	return mc.snapshot()
}

// currentConn is the connection of the request being handled (one at a time).
var currentConn *memConn

// ---- what the client saw -----------------------------------------------------

type info struct {
	code int
	hdr  http.Header
}

type seen struct {
	infos   []info
	code    int // 0 if no final response
	hdr     http.Header
	body    string
	bodyErr string
	trailer http.Header
	rest    string
	framing string
}

// parseResponse decodes the bytes the client received, which may be a prefix of
// a response.
func parseResponse(raw []byte, method string) seen {
	var s seen
	br := bufio.NewReader(bytes.NewReader(raw))
	for {
		if _, err := br.Peek(1); err != nil {
			return s
		}
		peek, _ := br.Peek(br.Buffered())
		resp, err := http.ReadResponse(br, &http.Request{Method: method})
		if err != nil {
			s.rest = string(peek)
			return s
		}
		resp.Header.Del("Date")
		if resp.StatusCode < 200 && resp.StatusCode != 101 {
			s.infos = append(s.infos, info{resp.StatusCode, resp.Header})
			continue
		}
		s.code = resp.StatusCode
		s.hdr = resp.Header
		s.framing = fmt.Sprint(resp.ContentLength, resp.TransferEncoding, resp.Close)
		b, err := io.ReadAll(resp.Body)
		s.body = string(b)
		s.bodyErr = errStr(err)
		s.trailer = resp.Trailer
		rest, _ := io.ReadAll(br)
		s.rest = string(rest)
		return s
	}
}

func hdrString(h http.Header) string {
	ks := make([]string, 0, len(h))
	for k := range h {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s:%q;", k, h[k])
	}
	return b.String()
}

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q... (%d bytes)", s[:60], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func (s seen) String() string {
	var b strings.Builder
	for _, i := range s.infos {
		fmt.Fprintf(&b, "%d {%s}, ", i.code, hdrString(i.hdr))
	}
	fmt.Fprintf(&b, "%d {%s} body %s", s.code, hdrString(s.hdr), short(s.body))
	if s.bodyErr != "" {
		fmt.Fprintf(&b, " (%s)", s.bodyErr)
	}
	if len(s.trailer) > 0 {
		fmt.Fprintf(&b, " trailer {%s}", hdrString(s.trailer))
	}
	if s.rest != "" {
		fmt.Fprintf(&b, " then %s", short(s.rest))
	}
	return b.String()
}

// sameSeen compares two responses. Automatic framing (chunked or by length) is
// the server's own business unless the handler asked for one.
func sameSeen(a, b seen, explicitLength bool) error {
	strip := func(s seen) seen {
		s.framing = ""
		if !explicitLength {
			h := http.Header{}
			for k, v := range s.hdr {
				if k != "Content-Length" && k != "Transfer-Encoding" {
					h[k] = v
				}
			}
			s.hdr = h
		}
		return s
	}
	x, y := strip(a), strip(b)
	if x.full() != y.full() {
		return fmt.Errorf("got  %v\nwant %v", x, y)
	}
	return nil
}

func (s seen) full() string {
	var b strings.Builder
	for _, i := range s.infos {
		fmt.Fprintf(&b, "%d %s|", i.code, hdrString(i.hdr))
	}
	fmt.Fprintf(&b, "%d %s|%q|%s|%s|%q", s.code, hdrString(s.hdr), s.body, s.bodyErr, hdrString(s.trailer), s.rest)
	return b.String()
}

// explicitLength tells whether the handler declares a length in time.
func explicitLength(ops []op) bool {
	for _, o := range ops {
		switch o.Op {
		case "status", "write", "wstr", "copy", "flush", "hijack":
			return false
		}
		if o.K == "Content-Length" && o.Op != "del" {
			return true
		}
	}
	return false
}
