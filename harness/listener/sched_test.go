//go:build sched

package listenercheck

import (
	"fmt"
	"net"
	"runtime"
	"sort"
	"strings"
	"testing"
	"time"
	"weak"

	"github.com/zenazn/goji/graceful/listener"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/vsched"
)

// A few threads call the listener, which is instrumented so that the schedule
// of the case decides where they are interleaved. The oracle looks only at the
// recorded history: when calls began and ended, what they returned, and when the
// wrapped connections were closed and by whom.

type scase struct {
	Mode    int
	Setup   []lop
	Threads [][]lop
	At, To  []int
}

var schedSets = map[string][]string{
	"life":   {"accept", "read", "read", "rdl", "close", "idle", "idle", "inuse", "disown", "shed", "shed", "drain", "drainall"},
	"drain":  {"accept", "accept", "read", "idle", "close", "inuse", "drain", "drain", "drainall", "disown", "rdl"},
	"read":   {"read", "read", "read", "shed", "shed", "drain", "idle", "rdl", "close"},
	"disown": {"disown", "disown", "shed", "drain", "drainall", "drainall", "close", "read", "idle"},
}

func genScase(set string) func(t *rapid.T) scase {
	return func(t *rapid.T) scase {
		c := scase{Mode: model.Pick(t, "mode", 1, 1, 2, 0)}
		if set == "read" && c.Mode == 0 {
			c.Mode = 1
		}
		conns := model.Int(t, "conns", 1, 3)
		for i := 0; i < conns; i++ {
			c.Setup = append(c.Setup, lop{Op: "accept"})
			if model.Chance(t, "busy", 40) {
				c.Setup = append(c.Setup, lop{Op: "inuse", C: i})
			}
		}
		nt := model.Int(t, "threads", 2, 3)
		for i := 0; i < nt; i++ {
			var ops []lop
			n := model.Int(t, "n", 1, 3)
			for j := 0; j < n; j++ {
				o := lop{Op: model.Pick(t, "op", schedSets[set]...)}
				switch o.Op {
				case "accept", "shed", "drain", "drainall":
				default:
					o.C = model.Int(t, "c", 0, conns-1)
				}
				if o.Op == "rdl" {
					o.N = model.Int(t, "when", 0, len(deadlines)-1)
				}
				if o.Op == "read" {
					o.N = model.Int(t, "n", 1, 2)
					o.Err = model.Chance(t, "err", 10)
				}
				ops = append(ops, o)
			}
			// what follows a drain would wait with it
			for j := range ops[:len(ops)-1] {
				if ops[j].Op == "drain" {
					ops[j].Op = "shed"
				}
			}
			c.Threads = append(c.Threads, ops)
		}
		c.At, c.To = model.GenSchedule(t, 40)
		return c
	}
}

type event struct {
	lop
	thr        int
	conn       *sconn
	start, end int
	n          int
	err        error
}

func (e *event) String() string {
	return fmt.Sprintf("[%d,%d] thread %d: %s -> %d, %v", e.start, e.end, e.thr, describe(e.lop), e.n, e.err)
}

type closing struct {
	at int
	by *event // nil: not in a call this harness made
}

type sconn struct {
	f       *fconn
	c       net.Conn
	id      int
	closed  []closing
	accept  *event
	handed  bool
	arrived int
}

type sworld struct {
	clock  int
	l      *listener.T
	fl     *flist
	mode   int
	conns  []*sconn
	events []*event
	cur    map[int64]*event
	quiet  int // when all but the drains had ended
	bad    map[string]error
}

func (w *sworld) tick() int { w.clock++; return w.clock }

func (w *sworld) violation(tag, format string, args ...any) {
	if w.bad[tag] == nil {
		w.bad[tag] = fmt.Errorf(format, args...)
	}
}

func (w *sworld) arrive() *sconn {
	sc := &sconn{id: len(w.conns)}
	sc.f = &fconn{id: sc.id}
	sc.f.onClose = func(f *fconn) { sc.closed = append(sc.closed, closing{w.tick(), w.cur[vsched.Goid()]}) }
	w.conns = append(w.conns, sc)
	w.fl.offer(sc.f)
	return sc
}

// do performs a call. Between scheduling points only one thread runs, so the
// recorder needs no locks.
func (w *sworld) do(thr int, o lop) {
	e := &event{lop: o, thr: thr}
	switch o.Op {
	case "accept", "shed", "drain", "drainall":
	default:
		if o.C >= len(w.conns) || w.conns[o.C].c == nil {
			return
		}
		e.conn = w.conns[o.C]
	}
	id := vsched.Goid()
	w.events = append(w.events, e)
	e.end = 1 << 30
	e.start = w.tick()
	w.cur[id] = e
	switch o.Op {
	case "accept":
		sc := w.arrive()
		c, err := w.l.Accept()
		// The queue is first in, first out, but two accepting threads may
		// take each other's connection.
		e.err = err
		if err == nil {
			for _, x := range w.conns {
				if x.c == nil && c != nil && sameInner(c, x.f) {
					sc = x
				}
			}
			sc.c = c
			sc.handed = true
			sc.accept = e
			e.conn = sc
		}
	case "read":
		e.conn.f.mu.Lock()
		e.conn.f.readN, e.conn.f.readErr = o.N, nil
		if o.Err {
			e.conn.f.readErr = errInner
		}
		e.conn.f.mu.Unlock()
		e.n, e.err = e.conn.c.Read(make([]byte, 8))
	case "rdl":
		e.err = e.conn.c.SetReadDeadline(deadline(e.N))
	case "close":
		e.err = e.conn.c.Close()
	case "idle":
		e.err = listener.MarkIdle(e.conn.c)
	case "inuse":
		e.err = listener.MarkInUse(e.conn.c)
	case "disown":
		e.err = listener.Disown(e.conn.c)
	case "shed":
		w.l.CloseIdle()
	case "drain":
		w.l.Drain()
	case "drainall":
		w.l.DrainAll()
	}
	e.end = w.tick()
	delete(w.cur, id)
}

// sameInner finds out which wrapped connection a handed-out one stands for.
func sameInner(c net.Conn, f *fconn) bool {
	n := len(f.dls)
	c.SetWriteDeadline(time.Time{})
	hit := len(f.dls) > n
	return hit
}

func (w *sworld) run(r *pbt.R, c scase) vsched.Result {
	done := make([]bool, len(c.Threads))
	return vsched.Run(r.T, vsched.Schedule{At: c.At, To: c.To}, func(t *vsched.T) {
		w.fl = &flist{}
		w.l = modes[c.Mode].wrap(w.fl)
		w.mode = c.Mode
		for _, o := range c.Setup {
			w.do(-1, o)
		}
		for i, ops := range c.Threads {
			i, ops := i, ops
			t.Go(fmt.Sprintf("thread %d", i), func() {
				for j, o := range ops {
					if o.Op == "drain" && j == len(ops)-1 {
						done[i] = true
					}
					w.do(i, o)
				}
				done[i] = true
			})
		}
		t.Go("janitor", func() {
			// Wait for everyone but those in an unforced drain; then close
			// what is left, so that the drains can end. A connection that
			// was disowned is left open.
			for {
				// time passes when nobody can go on
				time.Sleep(time.Hour)
				all := true
				for _, d := range done {
					all = all && d
				}
				if all {
					break
				}
			}
			w.quiet = w.tick()
			for _, sc := range w.conns {
				if sc.c != nil && !w.disowned(sc) {
					w.do(99, lop{Op: "close", C: sc.id})
				}
			}
		})
	}, func() error { return nil })
}

func (w *sworld) disowned(sc *sconn) bool { return w.disownEvent(sc) != nil }

func (w *sworld) disownEvent(sc *sconn) *event {
	for _, e := range w.events {
		if e.Op == "disown" && e.conn == sc && e.err == nil && e.end < 1<<30 {
			return e
		}
	}
	return nil
}

// marksIdle: the call may make a connection idle.
func (w *sworld) marksIdle(e *event, sc *sconn) bool {
	return e.conn == sc && (e.Op == "idle" || e.Op == "rdl" && w.mode == 2)
}

// marks tells what a call does to the state of a connection: -1 nothing, 0 it
// may make it idle, 1 it may make it busy.
func (w *sworld) marks(e *event, sc *sconn) int {
	if e.conn != sc {
		return -1
	}
	if w.marksIdle(e, sc) {
		return 0
	}
	if e.Op == "inuse" || e.Op == "read" && w.mode != 0 {
		return 1
	}
	return -1
}

// certainly tells which state an open connection was in all through [from, to]:
// 0 idle, 1 busy, -1 if that depends on how concurrent calls took effect.
func (w *sworld) certainly(sc *sconn, from, to int) int {
	seen := [2]bool{}
	any := false
	for _, e := range w.events {
		m := w.marks(e, sc)
		if m < 0 || e.start > to {
			continue
		}
		superseded := false
		for _, f := range w.events {
			if w.marks(f, sc) >= 0 && f.start > e.end && f.end < from {
				superseded = true
			}
		}
		if !superseded {
			seen[m] = true
			any = any || e.end < from
		}
	}
	if !any { // what it was handed out as is a candidate as well
		seen[0] = true
	}
	switch {
	case seen[0] && seen[1]:
		return -1
	case seen[1]:
		return 1
	}
	return 0
}

// judgeMarks holds the closings of connections against their marks.
func (w *sworld) judgeMarks(sc *sconn) {
	begun := func(at int, ops ...string) bool {
		for _, e := range w.events {
			for _, op := range ops {
				if e.Op == op && e.start < at && (e.conn == sc || e.conn == nil) {
					return true
				}
			}
		}
		return false
	}
	tag := func(op string) string {
		if op == "drain" {
			return "drain"
		}
		return "life"
	}
	for _, c := range sc.closed {
		if c.by == nil || c.by.Op == "close" || begun(c.at, "drainall", "disown") {
			continue
		}
		if w.certainly(sc, c.at, c.at) == 1 {
			w.violation(tag(c.by.Op), "connection %d was in use when %v closed it at %d", sc.id, c.by, c.at)
		}
	}
	for _, s := range w.events {
		if s.Op != "shed" && s.Op != "drain" || s.end == 1<<30 || sc.accept.end > s.start {
			continue
		}
		if begun(s.end, "close", "disown") || w.certainly(sc, s.start, s.end) != 0 {
			continue
		}
		// another call which is about to close it will do
		if len(sc.closed) == 0 || sc.closed[0].at > s.end && (sc.closed[0].by == nil || sc.closed[0].by.start > s.end) {
			w.violation(tag(s.Op), "connection %d was idle all through %v, which did not close it", sc.id, s)
		}
	}
}

// judgeQuiet looks at an open connection once everybody has ended or waits in
// a drain: by then a drain has shut whatever is idle.
func (w *sworld) judgeQuiet(sc *sconn) {
	if w.quiet == 0 || len(sc.closed) > 0 && sc.closed[0].at < w.quiet || w.certainly(sc, w.quiet, w.quiet) != 0 {
		return
	}
	for _, d := range w.events {
		if d.Op == "drain" || d.Op == "drainall" {
			w.violation("drain", "connection %d was idle and still open with %v under way", sc.id, d)
		}
	}
}

func byListener(c closing) bool { return c.by == nil || c.by.Op != "close" }

func (w *sworld) judge() {
	for _, sc := range w.conns {
		if sc.c == nil {
			continue
		}
		dis := w.disownEvent(sc)
		nDis, nClose := 0, 0
		for _, e := range w.events {
			if e.conn != sc {
				continue
			}
			if e.Op == "disown" && e.err == nil {
				nDis++
			}
			if e.Op == "close" && e.err == nil {
				nClose++
			}
		}
		if nDis > 1 {
			w.violation("disown", "connection %d was disowned %d times", sc.id, nDis)
		}
		// C25
		if dis != nil {
			for _, c := range sc.closed {
				if byListener(c) {
					w.violation("disown", "connection %d, disowned by %v, was closed at %d by %v", sc.id, dis, c.at, c.by)
				}
			}
			for _, e := range w.events {
				if e.conn == sc && e.Op == "close" && e.end < dis.start {
					w.violation("disown", "connection %d was disowned by %v after %v", sc.id, dis, e)
				}
			}
		} else {
			// C22
			if len(sc.closed) > 1 {
				w.violation("life", "connection %d: the wrapped connection was closed %d times", sc.id, len(sc.closed))
			}
			if nClose > 1 {
				w.violation("life", "connection %d: %d calls of Close succeeded", sc.id, nClose)
			}
			if len(sc.closed) == 0 {
				w.violation("life", "connection %d was never closed", sc.id)
			}
			for _, c := range sc.closed {
				if c.by != nil && c.by.Op != "close" {
					for _, e := range w.events {
						if e.conn == sc && e.Op == "close" && e.err == nil {
							w.violation("life", "connection %d was closed by %v, and %v reported no error", sc.id, c.by, e)
						}
					}
					switch c.by.Op {
					case "shed", "drain", "drainall", "idle", "rdl", "accept":
					default:
						w.violation("life", "connection %d was closed by %v", sc.id, c.by)
					}
				}
			}
		}
		w.judgeMarks(sc)
		if dis == nil {
			w.judgeQuiet(sc)
		}
		// C24
		if w.mode != 0 {
			for _, e := range w.events {
				if e.Op != "read" || e.conn != sc || e.end == 1<<30 {
					continue
				}
				if dis != nil && dis.start < e.end {
					continue
				}
				for _, c := range sc.closed {
					if c.by != nil && (c.by.Op == "close" || c.by.Op == "drainall") {
						continue
					}
					excused := false
					for _, x := range w.events {
						if w.marksIdle(x, sc) && x.end > e.start && x.start < c.at {
							excused = true
						}
						if x.Op == "drainall" && x.start < c.at {
							// a forced drain turns what is idle later away too
							excused = excused || c.by == x
						}
					}
					if excused {
						continue
					}
					if e.err == nil {
						w.violation("read", "connection %d: %v returned data, but %v closed the connection at %d and nothing marked it idle", sc.id, e, c.by, c.at)
					} else if c.at < e.end && c.at > e.start && e.n != 0 {
						w.violation("read", "connection %d: %v failed and yet delivered data", sc.id, e)
					}
				}
			}
		}
	}
	// C23
	for _, d := range w.events {
		if d.Op != "drain" && d.Op != "drainall" {
			continue
		}
		if d.end == 1<<30 {
			w.violation("drain", "%v never returned", d)
			continue
		}
		for _, sc := range w.conns {
			if sc.c != nil {
				gone := len(sc.closed) > 0 && sc.closed[0].at < d.end
				for _, e := range w.events {
					if e.conn == sc && e.Op == "disown" && e.err == nil && e.start < d.end {
						gone = true
					}
				}
				if !gone {
					w.violation("drain", "%v returned while connection %d was neither closed nor disowned", d, sc.id)
				}
				if sc.accept.start > d.end {
					w.violation("drain", "connection %d was handed out by %v, after %v", sc.id, sc.accept, d)
				}
			} else if len(sc.closed) != 1 {
				w.violation("drain", "arriving connection %d was not handed out and was closed %d times", sc.id, len(sc.closed))
			}
		}
	}
	drained := false
	for _, d := range w.events {
		drained = drained || d.Op == "drain" || d.Op == "drainall"
	}
	for _, e := range w.events {
		if e.Op == "accept" && e.err != nil && !drained {
			w.violation("drain", "%v failed without a drain", e)
		}
	}
}

func checkSched(tags ...string) func(*pbt.R, scase) error {
	return func(r *pbt.R, c scase) error {
		w := &sworld{cur: map[int64]*event{}, bad: map[string]error{}}
		res := w.run(r, c)
		r.NonTrivialIf(res.Preempted > 0)
		r.Label("mode " + modes[c.Mode].name)
		for _, e := range w.events {
			if e.thr >= 0 && e.thr < 99 {
				r.Label("op " + e.Op)
			}
		}
		if res.Err != nil {
			// A panic or a deadlock belongs to whichever property speaks of
			// the calls involved.
			s := res.Err.Error()
			hasDisown := false
			for _, e := range w.events {
				hasDisown = hasDisown || e.Op == "disown"
			}
			for _, t := range tags {
				switch {
				case t == "life" && strings.Contains(s, "panic:"),
					t == "drain",
					t == "disown" && hasDisown:
					return fmt.Errorf("%v\nhistory:\n%s", res.Err, w.history())
				}
			}
			return nil
		}
		w.judge()
		for _, t := range tags {
			if w.bad[t] != nil {
				return fmt.Errorf("%v\nhistory:\n%s", w.bad[t], w.history())
			}
		}
		return nil
	}
}

func (w *sworld) history() string {
	es := append([]*event{}, w.events...)
	sort.SliceStable(es, func(i, j int) bool { return es[i].start < es[j].start })
	var b strings.Builder
	for _, e := range es {
		fmt.Fprintln(&b, e)
	}
	return b.String()
}

const schedRule = "non-trivial (schedules): the schedule preempts a thread inside a call at least once"

func TestC22(t *testing.T) {
	pbt.Main(t, "C22", schedRule,
		pbt.P("schedule", 80000, 2000000, genScase("life"), checkSched("life")))
}

func TestC23(t *testing.T) {
	pbt.Main(t, "C23", schedRule,
		pbt.P("schedule", 80000, 2000000, genScase("drain"), checkSched("drain")))
}

func TestC24(t *testing.T) {
	pbt.Main(t, "C24", schedRule,
		pbt.P("schedule", 80000, 2000000, genScase("read"), checkSched("read")))
}

func TestC25(t *testing.T) {
	pbt.Main(t, "C25", schedRule,
		pbt.P("schedule", 80000, 2000000, genScase("disown"), checkSched("disown")))
}

func TestC26(t *testing.T) {
	pbt.Main(t, "C26", schedRule+", and a garbage collection decides what is still reachable",
		pbt.P("schedule", 12000, 200000, genScase("life"), func(r *pbt.R, c scase) error {
			w := &sworld{cur: map[int64]*event{}, bad: map[string]error{}}
			res := w.run(r, c)
			r.NonTrivialIf(res.Preempted > 0)
			if res.Err != nil {
				return nil // another property's business
			}
			var ps []weak.Pointer[fconn]
			var how []string
			for _, sc := range w.conns {
				ps = append(ps, weak.Make(sc.f))
				how = append(how, fmt.Sprintf("connection %d, disowned=%v", sc.id, w.disowned(sc)))
			}
			h := w.history()
			l, fl := w.l, w.fl
			*w = sworld{}
			for i := 0; i < 3; i++ {
				runtime.GC()
				left := ""
				for i, p := range ps {
					if p.Value() != nil {
						left = how[i]
					}
				}
				if left == "" {
					break
				}
				if i == 2 {
					return fmt.Errorf("%s is still reachable from the listener\nhistory:\n%s", left, h)
				}
			}
			runtime.KeepAlive(l)
			runtime.KeepAlive(fl)
			return nil
		}))
}
