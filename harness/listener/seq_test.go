//go:build !sched && !race

package listenercheck

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"testing"
	"testing/synctest"
	"weak"

	"github.com/zenazn/goji/graceful/listener"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// A history of calls is run against the listener and against a model of the
// documented life cycle, in lock step.

type lcase struct {
	Mode  int
	Mode2 int
	Ops   []lop
}

// weights of the operations, by the property a part is after
var opSets = map[string][]string{
	"life":   {"accept", "accept", "read", "read", "rdl", "close", "idle", "idle", "inuse", "disown", "shed", "shed", "drain", "drainall", "write", "readfrom", "foreign", "tclose", "addr", "dl"},
	"drain":  {"accept", "accept", "accept", "read", "read", "inuse", "idle", "close", "rdl", "drain", "drain", "drainall", "shed", "disown", "tclose"},
	"read":   {"accept", "accept", "read", "read", "read", "idle", "shed", "shed", "drain", "close", "rdl", "inuse"},
	"disown": {"accept", "accept", "disown", "disown", "shed", "drain", "drainall", "close", "read", "idle", "inuse", "rdl", "write", "readfrom", "foreign"},
}

func genOp(t *rapid.T, set string, depth int) lop {
	o := lop{Op: model.Pick(t, "op", opSets[set]...)}
	switch o.Op {
	case "accept", "shed", "drain", "drainall", "tclose", "addr":
		if model.Chance(t, "l2", 15) {
			o.L = 1
		}
	default:
		o.C = model.Int(t, "c", 0, 7)
	}
	switch o.Op {
	case "rdl", "dl":
		o.N = model.Int(t, "when", 0, len(deadlines)-1)
	case "read", "write", "readfrom":
		o.N = genBytes(t)
		o.Err = model.Chance(t, "err", 15)
	case "close", "accept", "tclose":
		o.Err = model.Chance(t, "err", 10)
	}
	if o.Op == "read" && depth == 0 && model.Chance(t, "hook", 35) {
		n := model.Int(t, "hooks", 1, 3)
		for i := 0; i < n; i++ {
			h := genOp(t, set, 1)
			if model.Chance(t, "same", 60) {
				h.C = o.C
			}
			o.Hook = append(o.Hook, h)
		}
	}
	return o
}

func genLcase(set string) func(t *rapid.T) lcase {
	return func(t *rapid.T) lcase {
		c := lcase{Mode: model.Pick(t, "mode", 1, 1, 2, 2, 0), Mode2: model.Int(t, "mode2", 0, 2)}
		if set == "read" && c.Mode == 0 {
			c.Mode = 1
		}
		pre := model.Int(t, "pre", 1, 3)
		for i := 0; i < pre; i++ {
			c.Ops = append(c.Ops, lop{Op: "accept"})
		}
		n := model.Int(t, "n", 1, 20)
		for i := 0; i < n; i++ {
			c.Ops = append(c.Ops, genOp(t, set, 0))
		}
		return c
	}
}

type mconn struct {
	f        *fconn
	c        net.Conn
	l        int
	busy     bool
	closed   bool
	disowned bool
	closes   int // expected calls of the wrapped connection's Close
	readBusy bool
}

type mlist struct {
	f       *flist
	t       *listener.T
	mode    int
	drained bool
	drains  []*bool // pending drains: done?
	closed  int
}

type world struct {
	r    *pbt.R
	ls   [2]*mlist
	cs   []*mconn
	fail error
	tag  string
	op   string // the call that runs

	stats map[string]int
}

func (w *world) bad(tag, format string, args ...any) {
	if w.fail == nil {
		w.fail = fmt.Errorf(format, args...)
		w.tag = tag
	}
}

func (w *world) closeModel(m *mconn) {
	m.closed = true
	m.closes++
}

func (w *world) managed(l int) int {
	n := 0
	for _, m := range w.cs {
		if m.l == l && !m.closed && !m.disowned {
			n++
		}
	}
	return n
}

// settle compares reality with the model.
func (w *world) settle(o lop) {
	synctest.Wait()
	for i, m := range w.cs {
		if got := m.f.nclosed(); got != m.closes {
			tag := "life"
			switch {
			case m.disowned:
				tag = "disown"
			case o.Op == "drain" || o.Op == "drainall" || w.ls[m.l].drained:
				tag = "drain"
			}
			if m.readBusy && got > m.closes && o.Op != "drainall" && o.Op != "close" {
				tag = "read"
			}
			w.bad(tag, "after %s: connection %d (mode %s, busy=%v closed=%v disowned=%v): wrapped Close was called %d times, expected %d",
				describe(o), i, modes[w.ls[m.l].mode].name, m.busy, m.closed, m.disowned, got, m.closes)
		}
	}
	for li, l := range w.ls {
		want := w.managed(li) == 0
		for _, d := range l.drains {
			if *d != want {
				tag := "drain"
				w.bad(tag, "after %s: a drain of listener %d has returned: %v, but %d managed connections are open", describe(o), li, *d, w.managed(li))
			}
		}
	}
}

func (w *world) markIdle(m *mconn) {
	if m.closed || m.disowned {
		return
	}
	m.busy = false
	m.readBusy = false
	if w.ls[m.l].drained {
		w.closeModel(m)
	}
}

func (w *world) step(o lop) {
	if w.fail != nil {
		return
	}
	l := w.ls[o.L]
	var m *mconn
	switch o.Op {
	case "accept", "shed", "drain", "drainall", "tclose", "addr", "foreign":
	default:
		if len(w.cs) == 0 {
			return
		}
		m = w.cs[o.C%len(w.cs)]
		if m.closed || m.disowned {
			w.stats["gone"]++
		}
	}
	w.stats[o.Op]++
	w.op = o.Op
	switch o.Op {
	case "accept":
		if o.Err {
			c, err := l.t.Accept()
			if c != nil || err != errInner {
				w.bad("life", "Accept with a failing listener: %v, %v", c, err)
			}
			return
		}
		f := &fconn{id: len(w.cs)}
		l.f.offer(f)
		c, err := l.t.Accept()
		if l.drained {
			w.stats["accept-drained"]++
			if err == nil || c != nil {
				w.bad("drain", "Accept handed out a connection after a drain: %v, %v", c, err)
			} else if f.nclosed() != 1 {
				w.bad("drain", "a connection arriving after a drain was closed %d times", f.nclosed())
			}
			return
		}
		if err != nil || c == nil {
			w.bad("life", "Accept: %v, %v", c, err)
			return
		}
		w.cs = append(w.cs, &mconn{f: f, c: c, l: o.L})
	case "read":
		f := m.f
		var rerr error
		if o.Err {
			rerr = errInner
		}
		wasClosed := m.closes > 0
		f.mu.Lock()
		f.readN, f.readErr, f.onRead = o.N, rerr, nil
		if len(o.Hook) > 0 {
			f.onRead = func() {
				f.mu.Lock()
				f.onRead = nil
				f.mu.Unlock()
				for _, h := range o.Hook {
					h.Hook = nil
					w.step(h)
				}
			}
		}
		f.mu.Unlock()
		buf := make([]byte, 8)
		n, err := m.c.Read(buf)
		if w.fail != nil {
			return
		}
		if wasClosed {
			rerr = errFakeClosed
		} else if len(o.Hook) > 0 {
			w.stats["hooked-read"]++
		}
		switch {
		case m.disowned || rerr != nil:
			wn := o.N
			if rerr != nil {
				wn = 0
			}
			if n != wn || !errors.Is(err, rerr) {
				w.bad(map[bool]string{true: "disown", false: "life"}[m.disowned], "Read returned %d, %v; the wrapped connection returned %d, %v", n, err, wn, rerr)
			}
		case m.closed:
			w.stats["read-lost"]++
			if err == nil || n != 0 {
				w.bad("read", "the connection was closed during Read, which still returned %d, %v", n, err)
			}
		default:
			if n != o.N || err != nil || string(buf[:n]) != strings.Repeat("r", n) {
				w.bad("read", "Read returned %d, %v; the wrapped connection returned %d, nil and is open", n, err, o.N)
			}
		}
		if !m.disowned && !m.closed && l.mode >= 0 && w.ls[m.l].mode != 0 && !m.busy {
			m.busy = true
			m.readBusy = err == nil
		}
	case "write":
		m.f.writeErr = nil
		if o.Err {
			m.f.writeErr = errInner
		}
		before := len(m.f.written)
		data := bytes.Repeat([]byte("w"), o.N)
		n, err := m.c.Write(data)
		w.checkWrite(m, o, "Write", int64(n), err, before)
	case "readfrom":
		m.f.writeErr = nil
		if o.Err {
			m.f.writeErr = errInner
		}
		rf, ok := m.c.(io.ReaderFrom)
		if !ok {
			return
		}
		before := len(m.f.written)
		n, err := rf.ReadFrom(io.LimitReader(onesReader{}, int64(o.N)))
		if o.N == 0 {
			if n != 0 || err != nil {
				w.bad("life", "ReadFrom of an empty reader returned %d, %v", n, err)
			}
			return
		}
		w.checkWrite(m, o, "ReadFrom", n, err, before)
	case "rdl":
		before := len(m.f.dls)
		when := deadline(o.N)
		err := m.c.SetReadDeadline(when)
		if len(m.f.dls) != before+1 || m.f.dls[before] != "r" || !m.f.dlt.Equal(when) {
			w.bad("life", "SetReadDeadline(%v) was not passed on: %v, %v", when, m.f.dls[before:], m.f.dlt)
		}
		if m.closes == 0 && err != nil {
			w.bad("life", "SetReadDeadline: %v", err)
		}
		if w.ls[m.l].mode == 2 {
			w.markIdle(m)
		}
	case "dl":
		before := len(m.f.dls)
		when := deadline(o.N)
		m.c.SetWriteDeadline(when)
		if len(m.f.dls) != before+1 || m.f.dls[before] != "w" || !m.f.dlt.Equal(when) {
			w.bad("life", "SetWriteDeadline(%v) was not passed on: %v, %v", when, m.f.dls[before:], m.f.dlt)
		}
	case "addr":
		if a := l.t.Addr(); a != addr("listener") {
			w.bad("life", "Addr is %v", a)
		}
		for _, m := range w.cs {
			if m.c.RemoteAddr() != addr("remote") || m.c.LocalAddr() != addr("local") {
				w.bad("life", "addresses: %v, %v", m.c.LocalAddr(), m.c.RemoteAddr())
			}
		}
	case "close":
		m.f.closeErr = nil
		if o.Err {
			m.f.closeErr = errInner
		}
		err := m.c.Close()
		switch {
		case m.disowned:
			m.closes++
			if err != m.f.closeErr {
				w.bad("disown", "Close of a disowned connection returned %v, the wrapped connection %v", err, m.f.closeErr)
			}
		case m.closed:
			if err == nil {
				w.bad("life", "closing twice did not report an error")
			}
		default:
			w.closeModel(m)
			if err != m.f.closeErr {
				w.bad("life", "Close returned %v, the wrapped connection %v", err, m.f.closeErr)
			}
		}
	case "idle":
		if err := listener.MarkIdle(m.c); err != nil && !m.closed && !m.disowned {
			w.bad("life", "MarkIdle: %v", err)
		}
		w.markIdle(m)
	case "inuse":
		if err := listener.MarkInUse(m.c); err != nil && !m.closed && !m.disowned {
			w.bad("life", "MarkInUse: %v", err)
		}
		if !m.closed && !m.disowned {
			m.busy = true
		}
	case "disown":
		err := listener.Disown(m.c)
		if m.disowned || m.closed {
			if err == nil {
				w.bad("disown", "Disown of a closed=%v or disowned=%v connection reported no error", m.closed, m.disowned)
			}
		} else {
			if err != nil {
				w.bad("disown", "Disown: %v", err)
			}
			m.disowned = true
		}
	case "shed":
		l.t.CloseIdle()
		for _, m := range w.cs {
			if m.l == o.L && !m.busy && !m.closed && !m.disowned {
				w.closeModel(m)
				w.stats["shed-closed"]++
			} else if m.l == o.L && m.busy {
				w.stats["shed-spared"]++
			}
		}
	case "drain", "drainall":
		l.drained = true
		all := o.Op == "drainall"
		done := new(bool)
		l.drains = append(l.drains, done)
		go func() {
			if all {
				l.t.DrainAll()
			} else {
				l.t.Drain()
			}
			*done = true
		}()
		for _, m := range w.cs {
			if m.l == o.L && (all || !m.busy) && !m.closed && !m.disowned {
				w.closeModel(m)
			}
		}
		if w.managed(o.L) > 0 {
			w.stats["drain-waits"]++
		}
	case "tclose":
		l.f.err = nil
		if o.Err {
			l.f.err = errInner
		}
		err := l.t.Close()
		l.closed++
		if l.f.closed != l.closed || err != l.f.err {
			w.bad("life", "Close of the listener: wrapped Close called %d times, expected %d; returned %v", l.f.closed, l.closed, err)
		}
	case "foreign":
		a, b := net.Pipe()
		var x net.Conn = a
		if o.C%2 == 1 && len(w.cs) > 0 {
			x = struct{ net.Conn }{w.cs[o.C%len(w.cs)].c}
		}
		if listener.MarkIdle(x) == nil || listener.MarkInUse(x) == nil {
			w.bad("life", "marking a foreign connection reported no error")
		}
		if listener.Disown(x) == nil {
			w.bad("disown", "disowning a foreign connection reported no error")
		}
		a.Close()
		b.Close()
	}
	w.settle(o)
}

type onesReader struct{}

func (onesReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 'w'
	}
	return len(b), nil
}

func (w *world) checkWrite(m *mconn, o lop, what string, n int64, err error, before int) {
	tag := "life"
	if m.disowned {
		tag = "disown"
	}
	switch {
	case m.closes > 0:
		if err == nil {
			w.bad(tag, "%s on a closed connection reported no error", what)
		}
	case o.Err:
		if !errors.Is(err, errInner) {
			w.bad(tag, "%s returned %v, the wrapped connection an error", what, err)
		}
	default:
		if err != nil || n != int64(o.N) || len(m.f.written) != before+o.N {
			w.bad(tag, "%s returned %d, %v; %d bytes were written of %d", what, n, err, len(m.f.written)-before, o.N)
		}
	}
}

func newWorld(r *pbt.R, c lcase) *world {
	w := &world{r: r, stats: map[string]int{}}
	second := false
	for _, o := range c.Ops {
		second = second || o.L == 1
		for _, h := range o.Hook {
			second = second || h.L == 1
		}
	}
	for i, m := range []int{c.Mode, c.Mode2} {
		f := &flist{}
		if i == 1 && !second {
			w.ls[i] = &mlist{f: f, mode: m}
			continue
		}
		w.ls[i] = &mlist{f: f, t: modes[m].wrap(f), mode: m}
	}
	return w
}

func (w *world) finish() {
	// let the drains end
	for _, m := range w.cs {
		if !m.closed && !m.disowned {
			m.c.Close()
		}
	}
}

func bubble(r *pbt.R, f func()) error {
	var p error
	synctest.Test(r.T, func(*testing.T) {
		defer func() {
			if e := recover(); e != nil {
				if he, ok := e.(pbt.HarnessError); ok {
					panic(he)
				}
				buf := make([]byte, 8<<10)
				buf = buf[:runtime.Stack(buf, false)]
				p = fmt.Errorf("panic: %v\n%s", e, buf)
			}
		}()
		f()
	})
	return p
}

// checkLife runs a case and reports the mismatches with one of the tags.
func checkLife(tags ...string) func(*pbt.R, lcase) error {
	return func(r *pbt.R, c lcase) error {
		var w *world
		err := bubble(r, func() {
			w = newWorld(r, c)
			defer w.finish()
			for _, o := range c.Ops {
				w.step(o)
			}
		})
		for k := range w.stats {
			r.Label("op " + k)
		}
		r.Label("mode " + modes[c.Mode].name)
		s := w.stats
		switch tags[0] {
		case "life":
			r.NonTrivialIf(s["shed-closed"] > 0 || s["drain"]+s["drainall"] > 0 || s["gone"] > 0)
		case "drain":
			r.NonTrivialIf(s["drain-waits"] > 0 || s["accept-drained"] > 0 || s["drainall"] > 0)
		case "read":
			r.NonTrivialIf(s["hooked-read"] > 0 && (s["read-lost"] > 0 || s["shed-spared"] > 0 || s["drain-waits"] > 0))
		case "disown":
			r.NonTrivialIf(s["disown"] > 0 && s["shed"]+s["drain"]+s["drainall"] > 0)
		}
		if err != nil {
			// A panic belongs to whichever property speaks of the call.
			for _, t := range tags {
				if t == "life" || t == "disown" && w.op == "disown" ||
					t == "drain" && (w.op == "drain" || w.op == "drainall" || w.op == "accept" || len(w.ls[0].drains) > 0) {
					return err
				}
			}
			return nil
		}
		if w.fail != nil {
			for _, t := range tags {
				if t == w.tag {
					return w.fail
				}
			}
		}
		return nil
	}
}

const lifeRule = "non-trivial: the history makes the listener close something by itself (shedding or draining) or calls something on a connection that is already gone"

func TestC22(t *testing.T) {
	pbt.Main(t, "C22", lifeRule,
		pbt.P("history", 24000, 600000, genLcase("life"), checkLife("life", "drain", "read", "disown")),
	)
}

func TestC23(t *testing.T) {
	pbt.Main(t, "C23", "non-trivial (histories): a drain has to wait, is forced, or a connection arrives after one",
		pbt.P("history", 16000, 400000, genLcase("drain"), checkLife("drain")),
	)
}

func TestC24(t *testing.T) {
	pbt.Main(t, "C24", "non-trivial (histories): a read has other calls in its midst, and lost to a close or was spared by shedding or draining",
		pbt.P("history", 16000, 400000, genLcase("read"), checkLife("read")),
	)
}

func TestC25(t *testing.T) {
	pbt.Main(t, "C25", "non-trivial (histories): connections are disowned and the listener sheds or drains",
		pbt.P("history", 16000, 400000, genLcase("disown"), checkLife("disown")),
	)
}

// ---- C26 -------------------------------------------------------------------

func checkRetain(r *pbt.R, c lcase) error {
	var fail error
	err := bubble(r, func() {
		w := newWorld(r, c)
		for _, o := range c.Ops {
			w.step(o)
		}
		if w.fail != nil {
			// Some other property is violated; the bookkeeping is lost.
			w.finish()
			return
		}
		// Nothing may be held on behalf of drains that still wait.
		for li, l := range w.ls {
			if len(l.drains) > 0 {
				for _, m := range w.cs {
					if m.l == li && !m.closed && !m.disowned {
						listener.Disown(m.c)
						m.disowned = true
					}
				}
			}
		}
		synctest.Wait()
		type gone struct {
			i   int
			p   weak.Pointer[fconn]
			how string
		}
		var gs []gone
		var keep []*mconn
		for i, m := range w.cs {
			if m.closed || m.disowned {
				gs = append(gs, gone{i, weak.Make(m.f), fmt.Sprintf("closed=%v disowned=%v", m.closed, m.disowned)})
				m.f, m.c = nil, nil
			} else {
				keep = append(keep, m)
			}
		}
		ts := []*listener.T{w.ls[0].t, w.ls[1].t}
		r.NonTrivialIf(len(gs) > 0)
		r.LabelIf(len(keep) > 0, "some still open")
		w.cs = nil
		if len(gs) > 0 {
			runtime.GC()
			for _, g := range gs {
				if g.p.Value() != nil {
					// pools keep things for two cycles
					runtime.GC()
					runtime.GC()
					break
				}
			}
			for _, g := range gs {
				if g.p.Value() != nil {
					fail = fmt.Errorf("connection %d (%s) is still reachable from the listener", g.i, g.how)
				}
			}
		}
		runtime.KeepAlive(ts)
		runtime.KeepAlive(keep)
		for _, m := range keep {
			m.c.Close()
		}
	})
	if err != nil {
		return nil // a panic is another property's business
	}
	return fail
}

func TestC26(t *testing.T) {
	pbt.Main(t, "C26", "non-trivial: at least one connection is closed or disowned at the end, and a garbage collection decides whether it is still reachable",
		pbt.P("history", 6000, 100000, genLcase("life"), checkRetain),
	)
}
