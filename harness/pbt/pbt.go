// Package pbt is the common machinery of the property checks: it drives a
// generator (pgregory.net/rapid) against an oracle, counts and classifies what
// was generated, shrinks failures, and leaves a replay file that bypasses the
// generator.
//
// A check is a list of Parts. A Part pairs a generator of JSON-serialisable
// cases with an oracle over one case. The oracle is a pure function of the case
// and of the code under test wherever the code under test is.
package pbt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// R records what one case was like.
type R struct {
	nontrivial bool
	labels     map[string]int
	T          *testing.T
}

// NonTrivial marks the case as non-trivial by the part's rule.
func (r *R) NonTrivial() { r.nontrivial = true }

// NonTrivialIf marks the case if cond holds.
func (r *R) NonTrivialIf(cond bool) {
	if cond {
		r.nontrivial = true
	}
}

// Label classifies the case.
func (r *R) Label(l string) {
	if r.labels == nil {
		r.labels = map[string]int{}
	}
	r.labels[l]++
}

// LabelIf classifies the case if cond holds.
func (r *R) LabelIf(cond bool, l string) {
	if cond {
		r.Label(l)
	}
}

// Part is one generated search with its oracle.
type Part struct {
	Name     string
	Quick    int
	Thorough int
	Serial   bool // run only in shard 0, with all the cases

	run    func(t *testing.T, st *state, n int, seed uint64)
	replay func(t *testing.T, raw json.RawMessage) error
}

// P builds a Part.
func P[C any](name string, quick, thorough int, gen func(*rapid.T) C, check func(*R, C) error) Part {
	p := Part{Name: name, Quick: quick, Thorough: thorough}
	p.run = func(t *testing.T, st *state, n int, seed uint64) {
		ps := st.part(name)
		setFlag("rapid.checks", strconv.Itoa(n))
		setFlag("rapid.seed", strconv.FormatUint(seed, 10))
		var lastFail *violation
		failed := false
		tb := &fakeTB{name: name}
		done := make(chan struct{})
		go func() {
			defer close(done)
			rapid.Check(tb, func(rt *rapid.T) {
				c := gen(rt)
				r := &R{labels: map[string]int{}, T: t}
				current.begin(name, c)
				err := guarded(func() error { return check(r, c) })
				current.end()
				if !failed {
					ps.record(r, c)
				}
				if err != nil {
					failed = true
					lastFail = newViolation(name, c, err)
					st.prelim(lastFail)
					rt.Fatalf("property violated")
				}
			})
		}()
		<-done
		if lastFail != nil {
			st.addViolation(lastFail)
			return
		}
		if tb.failed {
			// The generator itself gave up: that is a defect of the check.
			fmt.Fprintf(os.Stderr, "CHECK-ERROR part=%s: %s\n", name, strings.Join(tb.logs, "\n"))
			os.Exit(3)
		}
	}
	p.replay = func(t *testing.T, raw json.RawMessage) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			fmt.Fprintln(os.Stderr, "CHECK-ERROR bad replay file:", err)
			os.Exit(3)
		}
		r := &R{labels: map[string]int{}, T: t}
		current.begin(name, c)
		defer current.end()
		return guarded(func() error { return check(r, c) })
	}
	return p
}

// SerialPart marks a part that must not be split over processes.
func SerialPart(p Part) Part { p.Serial = true; return p }

func guarded(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if he, ok := p.(HarnessError); ok {
				fmt.Fprintln(os.Stderr, "CHECK-ERROR", he)
				os.Exit(3)
			}
			st := string(debug.Stack())
			if !strings.Contains(st, "github.com/zenazn/goji") && !strings.Contains(st, "synctest") {
				fmt.Fprintf(os.Stderr, "CHECK-ERROR the harness panicked: %v\n%s", p, st)
				os.Exit(3)
			}
			err = fmt.Errorf("panic: %v\n%s", p, st)
		}
	}()
	return f()
}

// HarnessError as a panic value reports that the check itself is broken or
// could not run (no verdict).
type HarnessError string

// Broken aborts the run without a verdict.
func Broken(format string, args ...any) {
	panic(HarnessError(fmt.Sprintf(format, args...)))
}

type violation struct {
	Part  string          `json:"part"`
	Case  json.RawMessage `json:"case"`
	Error string          `json:"error"`
}

func newViolation(part string, c any, err error) *violation {
	b, _ := json.Marshal(c)
	return &violation{Part: part, Case: b, Error: err.Error()}
}

type partState struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Hashes      []string       `json:"hashes"`
	Labels      map[string]int `json:"labels"`
	Samples     []any          `json:"samples"`

	seen map[uint64]bool
}

func (p *partState) record(r *R, c any) {
	p.Evaluations++
	for l, n := range r.labels {
		p.Labels[l] += n
	}
	if !r.nontrivial {
		return
	}
	p.NonTrivial++
	b, _ := json.Marshal(c)
	h := fnv.New64a()
	h.Write(b)
	s := h.Sum64()
	if p.seen[s] {
		return
	}
	p.seen[s] = true
	p.Hashes = append(p.Hashes, strconv.FormatUint(s, 16))
	if len(p.Samples) < 2 && len(b) < 2000 {
		p.Samples = append(p.Samples, json.RawMessage(b))
	}
}

type state struct {
	mu         sync.Mutex
	Parts      map[string]*partState `json:"parts"`
	Rule       string                `json:"rule"`
	Violations []*violation          `json:"violations"`
	Known      []string              `json:"known"`
	WallS      float64               `json:"wall_s"`

	id    string
	out   string
	wrote time.Time
}

// prelim leaves a violation that is still being shrunk for the driver, which may
// run out of patience.
func (s *state) prelim(v *violation) {
	if s.out == "" || time.Since(s.wrote) < 3*time.Second {
		return
	}
	s.wrote = time.Now()
	b, err := json.Marshal(&state{Parts: s.Parts, Rule: s.Rule, Known: s.Known, Violations: []*violation{v}})
	if err == nil && os.WriteFile(s.out+".tmp", b, 0o644) == nil {
		os.Rename(s.out+".tmp", s.out+".found")
	}
}

func (s *state) part(name string) *partState {
	ps := s.Parts[name]
	if ps == nil {
		ps = &partState{Labels: map[string]int{}, seen: map[uint64]bool{}}
		s.Parts[name] = ps
	}
	return ps
}

func (s *state) addViolation(v *violation) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Violations = append(s.Violations, v)
}

func (s *state) flush() {
	b, err := json.Marshal(s)
	if err != nil {
		fmt.Fprintln(os.Stderr, "CHECK-ERROR marshal:", err)
		os.Exit(3)
	}
	if s.out != "" {
		if err := os.WriteFile(s.out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "CHECK-ERROR write:", err)
			os.Exit(3)
		}
	}
}

func setFlag(name, v string) {
	if err := flag.Set(name, v); err != nil {
		fmt.Fprintln(os.Stderr, "CHECK-ERROR flag", name, err)
		os.Exit(3)
	}
}

// Known lets a check report findings that are listed as known: it runs each
// listed reproduction and prints a line for those that still fail.
type Known struct {
	What string
	Run  func(*testing.T) error
}

// Main runs a check: all parts under the environment the driver sets up, or the
// single case of a replay file.
func Main(t *testing.T, id, rule string, parts ...Part) {
	MainKnown(t, id, rule, nil, parts...)
}

// MainKnown is Main for a check with known findings.
func MainKnown(t *testing.T, id, rule string, known []Known, parts ...Part) {
	if only := os.Getenv("VERIF_ID"); only != "" && only != id {
		return
	}
	setFlag("rapid.nofailfile", "true")
	setFlag("rapid.shrinktime", envOr("VERIF_SHRINK", "20s"))
	setFlag("rapid.steps", "25")

	if rf := os.Getenv("VERIF_REPLAY"); rf != "" {
		replay(t, id, rf, parts)
		return
	}

	tier := envOr("VERIF_TIER", "quick")
	seed := parseUint(envOr("VERIF_SEED", "1"))
	shard, shards := parseShard(envOr("VERIF_SHARD", "0/1"))
	st := &state{Parts: map[string]*partState{}, Rule: rule, id: id, out: os.Getenv("VERIF_OUT")}
	current.st = st
	go watchdog()
	openCur()
	start := time.Now()
	if shard == 0 {
		for _, k := range known {
			if err := guarded(func() error { return k.Run(t) }); err != nil {
				st.Known = append(st.Known, k.What)
			}
		}
	}
	onlyPart := os.Getenv("VERIF_PART")
	scale := 1.0
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		scale, _ = strconv.ParseFloat(s, 64)
	}
	for _, p := range parts {
		if onlyPart != "" && onlyPart != p.Name {
			continue
		}
		n := p.Quick
		if tier == "thorough" {
			n = p.Thorough
		}
		n = int(float64(n) * scale)
		if p.Serial {
			if shard != 0 {
				continue
			}
		} else {
			n = (n + shards - 1) / shards
		}
		if n <= 0 {
			n = 1
		}
		h := fnv.New64a()
		fmt.Fprintf(h, "%d|%s|%s|%d", seed, id, p.Name, shard)
		s := h.Sum64() >> 1
		if s == 0 {
			s = 1
		}
		p.run(t, st, n, s)
		if len(st.Violations) > 0 {
			break
		}
	}
	st.WallS = time.Since(start).Seconds()
	st.flush()
	if len(st.Violations) > 0 {
		v := st.Violations[0]
		fmt.Printf("FAILED part=%s case=%s\n%s\n", v.Part, v.Case, v.Error)
		os.Exit(1)
	}
}

func replay(t *testing.T, id, file string, parts []Part) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "CHECK-ERROR", err)
		os.Exit(3)
	}
	var rep struct {
		Property string `json:"property"`
		violation
	}
	if err := json.Unmarshal(b, &rep); err != nil || rep.Property != id {
		fmt.Fprintln(os.Stderr, "CHECK-ERROR not a replay file of", id, err)
		os.Exit(3)
	}
	current.st = &state{Parts: map[string]*partState{}, id: id, out: os.Getenv("VERIF_OUT")}
	go watchdog()
	for _, p := range parts {
		if p.Name == rep.Part {
			// Schedule-dependent cases get a few attempts.
			for i := 0; i < 25; i++ {
				if err := p.replay(t, rep.Case); err != nil {
					fmt.Printf("REPRODUCED property=%s part=%s\ncase: %s\n%v\n", id, p.Name, rep.Case, err)
					os.Exit(1)
				}
			}
			fmt.Printf("NOT-REPRODUCED property=%s part=%s\n", id, p.Name)
			return
		}
	}
	fmt.Fprintln(os.Stderr, "CHECK-ERROR no part", rep.Part)
	os.Exit(3)
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func parseUint(s string) uint64 {
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		h := fnv.New64a()
		h.Write([]byte(s))
		return h.Sum64()
	}
	return n
}

func parseShard(s string) (int, int) {
	a, b, _ := strings.Cut(s, "/")
	i, _ := strconv.Atoi(a)
	n, _ := strconv.Atoi(b)
	if n < 1 {
		n = 1
	}
	return i, n
}

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// ---- watchdog -----------------------------------------------------------

// A case that never ends is a violation of whatever it checks (every property
// here implies termination), but a slow machine is not. Two load-independent
// signs are used: the process burned a large amount of CPU time within a single
// case (a loop), or every goroutine but this one stayed blocked on
// synchronisation over many samples (a deadlock).

type currentCase struct {
	mu    sync.Mutex
	part  string
	c     any
	start time.Time
	cpu   time.Duration
	st    *state
	busy  atomic.Bool
	// CPULimit may be raised by checks with intrinsically long cases.
	limit time.Duration
}

var current = &currentCase{limit: 20 * time.Second}

// SetCPULimit changes the CPU time one case may take before it is taken for an
// endless loop.
func SetCPULimit(d time.Duration) { current.limit = d }

func (c *currentCase) begin(part string, v any) {
	writeCur(part, v)
	c.mu.Lock()
	c.part, c.c, c.start, c.cpu = part, v, time.Now(), -1
	c.mu.Unlock()
	c.busy.Store(true)
}
func (c *currentCase) end() { c.busy.Store(false) }

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func watchdog() {
	blocked := 0
	var lastStart time.Time
	for {
		time.Sleep(500 * time.Millisecond)
		c := current
		if !c.busy.Load() {
			blocked = 0
			continue
		}
		c.mu.Lock()
		if c.cpu < 0 {
			c.cpu = cpuTime()
		}
		start, cpu, part, cs := c.start, c.cpu, c.part, c.c
		c.mu.Unlock()
		if start != lastStart {
			blocked = 0
			lastStart = start
		}
		if used := cpuTime() - cpu; used > c.limit {
			report(part, cs, fmt.Sprintf("case does not terminate: %v of CPU time used\n%s", used, stacks()))
		}
		if time.Since(start) < 3*time.Second {
			continue
		}
		if allBlocked() {
			blocked++
		} else {
			blocked = 0
		}
		if blocked >= 20 {
			report(part, cs, "case is deadlocked: every goroutine is blocked\n"+stacks())
		}
	}
}

func report(part string, c any, msg string) {
	st := current.st
	st.addViolation(newViolation(part, c, fmt.Errorf("%s", msg)))
	st.mu.Lock()
	// Other goroutines may still be writing to the counters; only the
	// violations matter now.
	out := &state{Parts: map[string]*partState{}, Rule: st.Rule, Violations: st.Violations, out: st.out}
	out.flush()
	if os.Getenv("VERIF_REPLAY") != "" {
		fmt.Printf("REPRODUCED property=%s part=%s\n%s\n", st.id, part, msg)
	} else {
		fmt.Printf("FAILED part=%s\n%s\n", part, msg)
	}
	os.Exit(1)
}

func stacks() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	return string(buf)
}

// allBlocked reports whether every goroutine other than the caller is blocked
// on synchronisation, that is, can only be woken by another goroutine. Sleeping
// goroutines, and those in I/O or system calls, can be woken from outside.
func allBlocked() bool {
	s := stacks()
	gs := strings.Split(s, "\n\n")
	for i, g := range gs {
		if i == 0 {
			continue // the watchdog itself
		}
		line, _, _ := strings.Cut(g, "\n")
		a := strings.IndexByte(line, '[')
		b := strings.LastIndexByte(line, ']')
		if a < 0 || b < 0 {
			continue
		}
		stt := line[a+1 : b]
		if j := strings.IndexByte(stt, ','); j >= 0 {
			stt = stt[:j]
		}
		stt = strings.TrimSuffix(stt, " (durable)")
		switch {
		case strings.HasPrefix(stt, "chan "), strings.HasPrefix(stt, "select"),
			strings.HasPrefix(stt, "sync."), strings.HasPrefix(stt, "semacquire"),
			strings.HasPrefix(stt, "synctest"), stt == "finalizer wait", stt == "cleanup wait",
			stt == "GC worker (idle)", stt == "force gc (idle)", stt == "GC sweep wait", stt == "GC scavenge wait":
		case strings.Contains(g, "os/signal.signal_recv"), strings.Contains(g, "os/signal.loop"):
		default:
			return false
		}
	}
	return true
}

// ---- current case file ----------------------------------------------------

// The case being run is kept in a shared mapping, so that the driver can tell
// which one it was when the process dies (fatal errors, panics in goroutines,
// data races).

var curMap []byte

const curSize = 1 << 20

func openCur() {
	fn := os.Getenv("VERIF_CUR")
	if fn == "" {
		return
	}
	f, err := os.OpenFile(fn, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, "CHECK-ERROR", err)
		os.Exit(3)
	}
	defer f.Close()
	if err := f.Truncate(curSize); err != nil {
		fmt.Fprintln(os.Stderr, "CHECK-ERROR", err)
		os.Exit(3)
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, curSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, "CHECK-ERROR", err)
		os.Exit(3)
	}
	curMap = m
}

func writeCur(part string, v any) {
	if curMap == nil {
		return
	}
	b, err := json.Marshal(map[string]any{"part": part, "case": v})
	if err != nil || len(b) > curSize-1 {
		b = []byte("{}")
	}
	n := copy(curMap, b)
	curMap[n] = 0
}

// ---- rapid.TB -----------------------------------------------------------

type fakeTB struct {
	name   string
	failed bool
	logs   []string
}

func (f *fakeTB) Helper()      {}
func (f *fakeTB) Name() string { return f.name }
func (f *fakeTB) Logf(format string, args ...any) {
	if len(f.logs) < 50 {
		f.logs = append(f.logs, fmt.Sprintf(format, args...))
	}
}
func (f *fakeTB) Log(args ...any)                   { f.Logf("%s", fmt.Sprintln(args...)) }
func (f *fakeTB) Skipf(format string, args ...any)  { f.SkipNow() }
func (f *fakeTB) Skip(args ...any)                  { f.SkipNow() }
func (f *fakeTB) SkipNow()                          { runtime.Goexit() }
func (f *fakeTB) Errorf(format string, args ...any) { f.Logf(format, args...); f.failed = true }
func (f *fakeTB) Error(args ...any)                 { f.Log(args...); f.failed = true }
func (f *fakeTB) Fatalf(format string, args ...any) { f.Logf(format, args...); f.FailNow() }
func (f *fakeTB) Fatal(args ...any)                 { f.Log(args...); f.FailNow() }
func (f *fakeTB) FailNow()                          { f.failed = true; runtime.Goexit() }
func (f *fakeTB) Fail()                             { f.failed = true }
func (f *fakeTB) Failed() bool                      { return f.failed }

// SortedKeys is a helper for deterministic iteration.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
