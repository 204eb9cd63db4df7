package mwcheck

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
)

// ---- fake writers with chosen capabilities -----------------------------------

var errFake = errors.New("the client is gone")

// fake is a response writer that follows net/http's rules and records the
// response. After limit bytes of body its writes fail.
type fake struct {
	hdr      http.Header
	sent     http.Header
	infos    []info
	code     int
	body     []byte
	limit    int // -1: none
	events   []string
	hijack   bool
	lastErr  error
	accepted int // number of body bytes accepted
}

func newFake(limit int) *fake { return &fake{hdr: http.Header{}, limit: limit} }

func (f *fake) Header() http.Header { return f.hdr }

func (f *fake) WriteHeader(code int) {
	if f.hijack {
		return
	}
	if f.code != 0 {
		f.events = append(f.events, fmt.Sprintf("late"))
		return
	}
	if code < 100 || code > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", code))
	}
	if code >= 100 && code <= 199 && code != 101 {
		f.infos = append(f.infos, info{code, f.hdr.Clone()})
		return
	}
	f.code = code
	f.sent = f.hdr.Clone()
}

func (f *fake) Write(p []byte) (int, error) {
	if f.hijack {
		f.lastErr = http.ErrHijacked
		return 0, http.ErrHijacked
	}
	if f.code == 0 {
		f.WriteHeader(200)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.code == 204 || f.code == 304 || f.code < 200 {
		f.lastErr = http.ErrBodyNotAllowed
		return 0, http.ErrBodyNotAllowed
	}
	if f.limit >= 0 && len(f.body)+len(p) > f.limit {
		n := f.limit - len(f.body)
		f.body = append(f.body, p[:n]...)
		f.lastErr = errFake
		return n, errFake
	}
	f.body = append(f.body, p...)
	return len(p), nil
}

func (f *fake) flush() {
	if f.hijack {
		return
	}
	if f.code == 0 {
		f.WriteHeader(200)
	}
	f.events = append(f.events, fmt.Sprintf("flush@%d", len(f.body)))
}

func (f *fake) readFrom(r io.Reader) (int64, error) {
	n, err := io.Copy(struct{ io.Writer }{f}, r)
	return n, err
}

type fakeHijackConn struct{ net.Conn }

func (f *fake) doHijack() (net.Conn, *bufio.ReadWriter, error) {
	if f.hijack {
		return nil, nil, http.ErrHijacked
	}
	f.hijack = true
	f.events = append(f.events, fmt.Sprintf("hijack@%d", len(f.body)))
	c := newMemConn(nil)
	return c, bufio.NewReadWriter(bufio.NewReader(c), bufio.NewWriter(c)), nil
}

func (f *fake) push(target string, opts *http.PushOptions) error {
	f.events = append(f.events, fmt.Sprintf("push %q %+v", target, opts))
	if !strings.HasPrefix(target, "/") {
		return errors.New("bad push target")
	}
	return nil
}

func (f *fake) state() string {
	var b strings.Builder
	for _, i := range f.infos {
		fmt.Fprintf(&b, "%d {%s}, ", i.code, hdrString(i.hdr))
	}
	ev := []string{}
	for _, e := range f.events {
		if e != "late" { // superfluous WriteHeader calls have no effect
			ev = append(ev, e)
		}
	}
	fmt.Fprintf(&b, "%d {%s} trailer {%s} %q %v hijacked=%v", f.code, hdrString(f.sent), hdrString(f.hdr), f.body, ev, f.hijack)
	return b.String()
}

// The capability combinations.
type (
	fkB struct{ *fake }
	fkF struct {
		*fake
		xF
	}
	fkH struct {
		*fake
		xH
	}
	fkR struct {
		*fake
		xR
	}
	fkFH struct {
		*fake
		xF
		xH
	}
	fkFR struct {
		*fake
		xF
		xR
	}
	fkHR struct {
		*fake
		xH
		xR
	}
	fkFHR struct {
		*fake
		xF
		xH
		xR
	}
	fkFHRP struct {
		*fake
		xF
		xH
		xR
		xP
	}
	fkFP struct {
		*fake
		xF
		xP
	}
	xF struct{ f *fake }
	xH struct{ f *fake }
	xR struct{ f *fake }
	xP struct{ f *fake }
)

func (x xF) Flush()                                           { x.f.flush() }
func (x xH) Hijack() (net.Conn, *bufio.ReadWriter, error)     { return x.f.doHijack() }
func (x xR) ReadFrom(r io.Reader) (int64, error)              { return x.f.readFrom(r) }
func (x xP) Push(target string, opts *http.PushOptions) error { return x.f.push(target, opts) }

var capSets = []string{"", "F", "H", "R", "FH", "FR", "HR", "FHR", "FHRP", "FP", "FHR", "FHRP", "FHR", "FHRP", "FHR", "FHRP", "FHR"}

func (f *fake) as(caps string) http.ResponseWriter {
	switch caps {
	case "":
		return fkB{f}
	case "F":
		return fkF{f, xF{f}}
	case "H":
		return fkH{f, xH{f}}
	case "R":
		return fkR{f, xR{f}}
	case "FH":
		return fkFH{f, xF{f}, xH{f}}
	case "FR":
		return fkFR{f, xF{f}, xR{f}}
	case "HR":
		return fkHR{f, xH{f}, xR{f}}
	case "FHR":
		return fkFHR{f, xF{f}, xH{f}, xR{f}}
	case "FHRP":
		return fkFHRP{f, xF{f}, xH{f}, xR{f}, xP{f}}
	case "FP":
		return fkFP{f, xF{f}, xP{f}}
	}
	panic("caps " + caps)
}
