// Package vsched runs goroutines under a deterministic cooperative scheduler.
//
// Instrumented code calls Yield before every statement and uses the vsync and
// vatomic packages in place of sync and sync/atomic. Under a scheduler exactly
// one goroutine runs between two scheduling points, and which one is decided by
// a Schedule, a value a property-based generator can draw, shrink and replay.
//
// The scheduler runs inside a testing/synctest bubble, so that goroutines that
// block on something it does not know about (channels, conditions, timers) are
// recognised as blocked too. Without an active scheduler everything behaves
// normally.
package vsched

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

// Schedule decides which goroutine runs. By default the running goroutine goes
// on until it blocks or ends; At lists the distances, in scheduling points,
// between preemptions, and To which runnable goroutine each preemption (and each
// forced switch) goes to.
type Schedule struct {
	At []int
	To []int
}

// G is a scheduled goroutine.
type G struct {
	id      int64
	seq     int
	name    string
	grant   chan struct{}
	waiting bool
	blocked any
}

// S is a scheduler.
type S struct {
	mu     sync.Mutex
	gs     map[int64]*G
	all    []*G
	root   int64
	sch    Schedule
	cur    *G
	killed atomic.Bool
	live   int // harness threads not finished
	panics []string
	steps  int
	nAt    int
	nTo    int
	next   int

	Preempted int // number of preemptions that took effect
}

var active atomic.Pointer[S]

// Active returns the running scheduler if the caller is subject to it.
func Active() *S {
	s := active.Load()
	if s == nil || goid() == s.root {
		return nil
	}
	return s
}

// Yield is a scheduling point.
func Yield() {
	if active.Load() == nil {
		return
	}
	if s := Active(); s != nil {
		s.wait(nil)
	}
}

// Killed reports that the case is over and its stuck goroutines are being
// unwound.
func (s *S) Killed() bool { return s.killed.Load() }

func (s *S) wait(on any) {
	if s.killed.Load() {
		return
	}
	id := goid()
	s.mu.Lock()
	g := s.gs[id]
	if g == nil {
		g = &G{id: id, seq: len(s.all), name: fmt.Sprintf("goroutine#%d", len(s.all)), grant: make(chan struct{}, 1)}
		s.gs[id] = g
		s.all = append(s.all, g)
	}
	g.waiting = true
	g.blocked = on
	s.mu.Unlock()
	<-g.grant
	if s.killed.Load() {
		runtime.Goexit()
	}
}

// Block parks the caller until Wake is called with the same object.
func (s *S) Block(on any) { s.wait(on) }

// Wake makes the goroutines parked on the object runnable.
func (s *S) Wake(on any) {
	s.mu.Lock()
	for _, g := range s.all {
		if g.waiting && g.blocked == on {
			g.blocked = nil
		}
	}
	s.mu.Unlock()
}

// T collects the threads of one execution.
type T struct {
	s     *S
	names []string
	fs    []func()
}

// Go adds a thread.
func (t *T) Go(name string, f func()) {
	t.names = append(t.names, name)
	t.fs = append(t.fs, f)
}

// Result is what an execution did.
type Result struct {
	Err       error
	Steps     int
	Preempted int
}

// Run executes one schedule. setup runs first, unscheduled, and adds threads;
// after runs when all threads have ended.
func Run(t *testing.T, sch Schedule, setup func(*T), after func() error) (res Result) {
	var inner error
	err := func() (err error) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("%v", p)
			}
		}()
		synctest.Test(t, func(t *testing.T) {
			s := &S{gs: map[int64]*G{}, sch: sch, root: goid()}
			if len(sch.At) > 0 {
				s.next = sch.At[0]
			} else {
				s.next = -1
			}
			tt := &T{s: s}
			setup(tt)
			active.Store(s)
			inner = s.loop(tt)
			active.Store(nil)
			res.Steps, res.Preempted = s.steps, s.Preempted
			if inner == nil {
				inner = after()
			}
		})
		return nil
	}()
	active.Store(nil)
	if inner != nil {
		res.Err = inner
	} else if err != nil {
		res.Err = err
	}
	return res
}

const maxSteps = 200000

func (s *S) loop(tt *T) error {
	for i, f := range tt.fs {
		name, f := tt.names[i], f
		s.mu.Lock()
		s.live++
		s.mu.Unlock()
		started := make(chan struct{})
		go func() {
			id := goid()
			s.mu.Lock()
			g := &G{id: id, seq: len(s.all), name: name, grant: make(chan struct{}, 1)}
			s.gs[id] = g
			s.all = append(s.all, g)
			s.mu.Unlock()
			close(started)
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 16<<10)
					buf = buf[:runtime.Stack(buf, false)]
					s.mu.Lock()
					s.panics = append(s.panics, fmt.Sprintf("%s: panic: %v\n%s", name, p, buf))
					s.mu.Unlock()
				}
				s.mu.Lock()
				s.live--
				s.mu.Unlock()
			}()
			s.wait(nil)
			f()
		}()
		<-started
	}
	idle := 0
	for {
		synctest.Wait()
		s.mu.Lock()
		if len(s.panics) > 0 {
			e := fmt.Errorf("%s", strings.Join(s.panics, "\n"))
			s.mu.Unlock()
			s.kill()
			return e
		}
		var run []*G
		for _, g := range s.all {
			if g.waiting && g.blocked == nil {
				run = append(run, g)
			}
		}
		live := s.live
		s.mu.Unlock()
		if len(run) == 0 {
			if live == 0 {
				return nil
			}
			if idle < 6 {
				// Perhaps only time has to pass.
				idle++
				time.Sleep([]time.Duration{time.Millisecond, 100 * time.Millisecond, 10 * time.Second, 10 * time.Minute, 24 * time.Hour, 1000 * time.Hour}[idle-1])
				continue
			}
			e := fmt.Errorf("deadlock: %d threads cannot go on\n%s", live, s.describe())
			s.kill()
			return e
		}
		idle = 0
		sort.Slice(run, func(i, j int) bool { return run[i].seq < run[j].seq })
		g := s.pick(run)
		s.steps++
		if s.steps > maxSteps {
			e := fmt.Errorf("livelock: no end after %d steps\n%s", s.steps, s.describe())
			s.kill()
			return e
		}
		s.cur = g
		s.mu.Lock()
		g.waiting = false
		s.mu.Unlock()
		g.grant <- struct{}{}
	}
}

func (s *S) to(n int) int {
	if len(s.sch.To) == 0 {
		return 0
	}
	v := s.sch.To[s.nTo%len(s.sch.To)]
	s.nTo++
	if v < 0 {
		v = -v
	}
	return v % n
}

func (s *S) pick(run []*G) *G {
	ci := -1
	for i, g := range run {
		if g == s.cur {
			ci = i
		}
	}
	if s.next == 0 {
		s.nAt++
		if s.nAt < len(s.sch.At) {
			s.next = s.sch.At[s.nAt]
		} else {
			s.next = -1
		}
		if ci >= 0 && len(run) > 1 {
			// a preemption goes to another goroutine
			s.Preempted++
			others := append(append([]*G{}, run[:ci]...), run[ci+1:]...)
			return others[s.to(len(others))]
		}
		return run[s.to(len(run))]
	}
	if s.next > 0 {
		s.next--
	}
	if ci >= 0 {
		return run[ci]
	}
	return run[s.to(len(run))]
}

func (s *S) describe() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var b strings.Builder
	for _, g := range s.all {
		fmt.Fprintf(&b, "%s: waiting=%v blocked on %T\n", g.name, g.waiting, g.blocked)
	}
	buf := make([]byte, 64<<10)
	buf = buf[:runtime.Stack(buf, true)]
	return b.String() + string(buf)
}

// kill unwinds the goroutines that are stuck at scheduling points.
func (s *S) kill() {
	s.killed.Store(true)
	for i := 0; i < 100; i++ {
		s.mu.Lock()
		var w []*G
		for _, g := range s.all {
			if g.waiting {
				w = append(w, g)
				g.waiting = false
			}
		}
		s.mu.Unlock()
		if len(w) == 0 {
			return
		}
		for _, g := range w {
			g.grant <- struct{}{}
		}
		synctest.Wait()
	}
}
