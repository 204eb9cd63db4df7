package webcheck

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/zenazn/goji/web"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ---- C09 -----------------------------------------------------------------

// stackOp edits the stack or sends a request. A request may carry edits that are
// performed from inside it, at a layer or in the handler.
type stackOp struct {
	Op     string // "use", "insert", "abandon", "req", "panicreq"
	L      int    // layer
	Before int
	Inner  []stackOp // edits performed from inside the request
	At     int       // depth at which they happen: index into the layers that run
	Nest   bool      // additionally re-enter the mux after the inner edits
}

type stackCase struct {
	Ops []stackOp
}

const nLayers = 6

func genEdit(t *rapid.T) stackOp {
	o := stackOp{Op: model.Pick(t, "op", "use", "insert", "abandon"), L: model.Int(t, "l", 0, nLayers-1)}
	if o.Op == "insert" {
		o.Before = model.Int(t, "before", 0, nLayers-1)
	}
	return o
}

func genStack(t *rapid.T) stackCase {
	var c stackCase
	n := model.Int(t, "ops", 1, 24)
	for i := 0; i < n; i++ {
		var o stackOp
		if model.Chance(t, "req", 40) {
			o = stackOp{Op: "req"}
			if model.Chance(t, "panic", 15) {
				o.Op = "panicreq"
			}
			o.At = model.Int(t, "at", 0, 6)
			if model.Chance(t, "edits", 30) {
				k := model.Int(t, "k", 1, 3)
				for j := 0; j < k; j++ {
					o.Inner = append(o.Inner, genEdit(t))
				}
			}
			o.Nest = model.Chance(t, "nest", 30)
		} else {
			o = genEdit(t)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func checkStack(r *pbt.R, c stackCase) error {
	m := web.New()
	type frame struct {
		trace []int
		depth int
		op    *stackOp
		done  bool
	}
	var cur *frame
	var fail error
	setFail := func(err error) {
		if fail == nil {
			fail = err
		}
	}
	var modelStack []int
	var layers [nLayers]web.MiddlewareType
	edit := func(o stackOp) {
		idx := func(l int) int {
			for i, x := range modelStack {
				if x == l {
					return i
				}
			}
			return -1
		}
		switch o.Op {
		case "use":
			m.Use(layers[o.L])
			modelStack = append(append([]int{}, modelStack...), o.L)
		case "insert":
			i := idx(o.Before)
			err := m.Insert(layers[o.L], layers[o.Before])
			if (err == nil) != (i >= 0) {
				setFail(fmt.Errorf("inserting %d before %d into %v: error %v", o.L, o.Before, modelStack, err))
			}
			r.LabelIf(i < 0, "insert-missing")
			if i >= 0 {
				ns := append([]int{}, modelStack[:i]...)
				ns = append(ns, o.L)
				modelStack = append(ns, modelStack[i:]...)
				r.NonTrivial()
			}
		case "abandon":
			i := idx(o.L)
			err := m.Abandon(layers[o.L])
			if (err == nil) != (i >= 0) {
				setFail(fmt.Errorf("removing %d from %v: error %v", o.L, modelStack, err))
			}
			r.LabelIf(i < 0, "abandon-missing")
			if i >= 0 {
				modelStack = append(append([]int{}, modelStack[:i]...), modelStack[i+1:]...)
				r.NonTrivial()
			}
		}
	}
	var request func(op *stackOp)
	visit := func(id int) {
		f := cur
		f.trace = append(f.trace, id)
		if f.op != nil && !f.done && (len(f.trace)-1 == f.op.At || id == -1) {
			f.done = true
			for _, e := range f.op.Inner {
				edit(e)
				r.Label("edit-in-flight")
			}
			if f.op.Nest {
				request(nil)
				r.Label("nested-request")
			}
			if f.op.Op == "panicreq" {
				panic("boom")
			}
		}
	}
	for i := 0; i < nLayers; i++ {
		i := i
		if i%2 == 0 {
			layers[i] = func(h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					visit(i)
					h.ServeHTTP(w, r)
				})
			}
		} else {
			layers[i] = func(c *web.C, h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					visit(i)
					h.ServeHTTP(w, r)
				})
			}
		}
	}
	m.Get("/", func(w http.ResponseWriter, r *http.Request) { visit(-1) })
	request = func(op *stackOp) {
		want := append(append([]int{}, modelStack...), -1)
		f := &frame{op: op}
		old := cur
		cur = f
		panicked := func() (p bool) {
			defer func() {
				if e := recover(); e != nil {
					if e != "boom" {
						panic(e)
					}
					p = true
				}
			}()
			m.ServeHTTP(httptest.NewRecorder(), model.Req{M: "GET", Path: "/"}.HTTP())
			return
		}()
		cur = old
		if panicked {
			if len(f.trace) > len(want) || !reflect.DeepEqual(f.trace, want[:len(f.trace)]) {
				setFail(fmt.Errorf("a request went through %v before panicking; want a beginning of %v", f.trace, want))
			}
			return
		}
		if !reflect.DeepEqual(f.trace, want) {
			setFail(fmt.Errorf("a request went through %v; want %v", f.trace, want))
		}
	}
	for i := range c.Ops {
		o := c.Ops[i]
		switch o.Op {
		case "req", "panicreq":
			request(&o)
		default:
			edit(o)
		}
		if fail != nil {
			return fmt.Errorf("operation %d %+v: %w", i, o, fail)
		}
	}
	// every later request, several times over (cached stacks)
	for i := 0; i < 3; i++ {
		request(nil)
	}
	return fail
}

// Concurrent editors: threads edit the stack, each of them remembering the
// results, and afterwards requests pass through it. Some order of the edits,
// compatible with the order in which they happened, must explain both.

type editCase struct {
	Setup   []int
	Threads [][]stackOp
	At, To  []int
}

func genEditors(t *rapid.T) editCase {
	var c editCase
	for n := model.Int(t, "setup", 0, 4); n > 0; n-- {
		c.Setup = append(c.Setup, model.Int(t, "layer", 0, nLayers-1))
	}
	for n := model.Int(t, "threads", 2, 3); n > 0; n-- {
		var ops []stackOp
		for k := model.Int(t, "edits", 1, 3); k > 0; k-- {
			ops = append(ops, genEdit(t))
		}
		c.Threads = append(c.Threads, ops)
	}
	return c
}

type editEv struct {
	op         stackOp
	start, end int64
	failed     bool
}

type editWorld struct {
	m      *web.Mux
	layers [nLayers]web.MiddlewareType
	clock  atomic.Int64
	evs    [][]editEv
	trace  []int
}

func newEditWorld(c editCase) *editWorld {
	w := &editWorld{m: web.New(), evs: make([][]editEv, len(c.Threads))}
	for i := range w.layers {
		i := i
		wrap := func(h http.Handler) http.Handler {
			return http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
				w.trace = append(w.trace, i)
				h.ServeHTTP(rw, r)
			})
		}
		if i%2 == 0 {
			w.layers[i] = wrap
		} else {
			w.layers[i] = func(_ *web.C, h http.Handler) http.Handler { return wrap(h) }
		}
	}
	w.m.Get("/", func(rw http.ResponseWriter, r *http.Request) { w.trace = append(w.trace, -1) })
	for _, l := range c.Setup {
		w.m.Use(w.layers[l])
	}
	return w
}

func (w *editWorld) thread(i int, ops []stackOp) {
	for _, o := range ops {
		e := editEv{op: o, start: w.clock.Add(1)}
		switch o.Op {
		case "use":
			w.m.Use(w.layers[o.L])
		case "insert":
			e.failed = w.m.Insert(w.layers[o.L], w.layers[o.Before]) != nil
		case "abandon":
			e.failed = w.m.Abandon(w.layers[o.L]) != nil
		}
		e.end = w.clock.Add(1)
		w.evs[i] = append(w.evs[i], e)
	}
}

func (w *editWorld) judge(r *pbt.R, c editCase) error {
	var traces [][]int
	for i := 0; i < 2; i++ {
		w.trace = nil
		w.m.ServeHTTP(httptest.NewRecorder(), model.Req{M: "GET", Path: "/"}.HTTP())
		traces = append(traces, w.trace)
	}
	for i := range w.evs {
		for j := range w.evs[:i] {
			for _, a := range w.evs[i] {
				for _, b := range w.evs[j] {
					if a.start < b.end && b.start < a.end {
						r.Label("edits overlap")
						r.NonTrivial()
					}
				}
			}
		}
	}
	find := func(s []int, l int) int {
		for i, x := range s {
			if x == l {
				return i
			}
		}
		return -1
	}
	next := make([]int, len(w.evs))
	var rec func(s []int) bool
	rec = func(s []int) bool {
		left := false
		for i, n := range next {
			if n == len(w.evs[i]) {
				continue
			}
			left = true
			e := w.evs[i][n]
			first := true
			for j, k := range next {
				if k < len(w.evs[j]) && w.evs[j][k].end < e.start {
					first = false
				}
			}
			if !first {
				continue
			}
			o, ns := e.op, append([]int{}, s...)
			switch o.Op {
			case "use":
				ns = append(ns, o.L)
			case "insert":
				at := find(s, o.Before)
				if e.failed != (at < 0) {
					continue
				}
				if at >= 0 {
					ns = append(append(append([]int{}, s[:at]...), o.L), s[at:]...)
				}
			case "abandon":
				at := find(s, o.L)
				if e.failed != (at < 0) {
					continue
				}
				if at >= 0 {
					ns = append(append([]int{}, s[:at]...), s[at+1:]...)
				}
			}
			next[i]++
			ok := rec(ns)
			next[i]--
			if ok {
				return true
			}
		}
		if left {
			return false
		}
		want := append(append([]int{}, s...), -1)
		for _, tr := range traces {
			if !reflect.DeepEqual(tr, want) {
				return false
			}
		}
		return true
	}
	if !rec(append([]int{}, c.Setup...)) {
		return fmt.Errorf("starting from %v, no order of the edits %+v explains that later requests went through %v", c.Setup, w.evs, traces)
	}
	return nil
}

func TestC09(t *testing.T) {
	pbt.Main(t, "C09", "C09: histories of use, insert and abandon over six layers of both kinds with repeats, with requests in between that may edit the stack, re-enter the mux or panic from inside, non-trivial when an insertion or removal succeeds; and 2-3 threads of concurrent edits followed by requests, non-trivial when two edits overlap in time.",
		parts("C09", pbt.P("history", 40000, 1500000, genStack, checkStack))...)
}

// ---- C10 -----------------------------------------------------------------

// ctxReq is one request of a context-isolation history.
type ctxReq struct {
	Ctx     bool // enters with a context of its own
	Env, UP bool
	Panic   int      // layer at which it panics after having written (-1: nowhere)
	Nested  []ctxReq // requests made to the same mux from inside, at the layer NestAt
	NestAt  int
	Mux     int  // which of two muxes
	Replace bool // a layer replaces the whole environment instead of adding to it
}

type ctxCase struct {
	Layers int
	Reqs   []ctxReq
	Conc   int // number of requests of a concurrent batch afterwards
	Rounds int
}

func genCtxReq(t *rapid.T, depth int) ctxReq {
	q := ctxReq{Ctx: model.Chance(t, "ctx", 40), Panic: -1, Mux: model.Int(t, "mux", 0, 1)}
	q.Env = model.Chance(t, "env", 60)
	q.UP = model.Chance(t, "up", 60)
	q.Replace = model.Chance(t, "replace", 15)
	if model.Chance(t, "panic", 20) {
		q.Panic = model.Int(t, "panicat", 0, 3)
	}
	if depth > 0 && model.Chance(t, "nest", 40) {
		q.NestAt = model.Int(t, "nestat", 0, 3)
		n := model.Int(t, "nested", 1, 2)
		for i := 0; i < n; i++ {
			q.Nested = append(q.Nested, genCtxReq(t, depth-1))
		}
	}
	return q
}

func genCtx(t *rapid.T) ctxCase {
	c := ctxCase{Layers: model.Int(t, "layers", 1, 3)}
	n := model.Int(t, "reqs", 1, 6)
	for i := 0; i < n; i++ {
		c.Reqs = append(c.Reqs, genCtxReq(t, 2))
	}
	if model.Chance(t, "conc", 30) {
		c.Conc = model.Int(t, "concn", 2, 12)
		c.Rounds = model.Int(t, "rounds", 1, 3)
	}
	return c
}

type ctxTrack struct {
	id     int
	q      *ctxReq
	parent *ctxTrack
	env    map[interface{}]interface{}
	up     map[string]string
	c0     web.C
	err    error
	nested bool
	gate   func()
	reqs   int
	kept   []keptCtx
}

// keptCtx is a context that the code of a request held on to, in a goroutine
// that outlives the request for instance.
type keptCtx struct {
	where string
	c     web.C
	env   map[interface{}]interface{} // what it had when it was kept
	up    map[string]string
}

func (t *ctxTrack) keep(where string, c web.C) {
	k := keptCtx{where: where, c: c, env: map[interface{}]interface{}{}, up: model.CopyMap(c.URLParams)}
	for key, v := range c.Env {
		k.env[key] = v
	}
	t.kept = append(t.kept, k)
}

// checkKept: nothing of a kept context may be gone, and nothing of another
// request may have got into it.
func (t *ctxTrack) checkKept() error {
	mine := func(s string) bool { return s == fmt.Sprint(t.id) || s == fmt.Sprint("s", t.id) }
	for _, k := range t.kept {
		for key, v := range k.env {
			if got, ok := k.c.Env[key]; !ok || !reflect.DeepEqual(got, v) {
				return fmt.Errorf("request %d: the context kept in %s had %v: %v in its environment, which has become %v", t.id, k.where, key, v, k.c.Env)
			}
		}
		for key, v := range k.up {
			if got, ok := k.c.URLParams[key]; !ok || got != v {
				return fmt.Errorf("request %d: the context kept in %s had %v: %v in its URL parameters, which have become %v", t.id, k.where, key, v, k.c.URLParams)
			}
		}
		for key, v := range k.c.Env {
			if id, ok := v.(int); ok && id != t.id {
				return fmt.Errorf("request %d: the environment kept in %s has got %v: %v of another request", t.id, k.where, key, v)
			}
		}
		for key, v := range k.c.URLParams {
			if !mine(v) {
				return fmt.Errorf("request %d: the URL parameters kept in %s have got %v: %v of another request", t.id, k.where, key, v)
			}
		}
	}
	return nil
}

type trackKey struct{}

// ctxWorld is two muxes whose layers and handler check every request's context.
type ctxWorld struct {
	muxes [2]*web.Mux
	ids   atomic.Int64

	mu   sync.Mutex
	done []*ctxTrack
}

// finished is called when a request is over.
func (w *ctxWorld) finished(t *ctxTrack) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.done = append(w.done, t)
}

// checkKept checks the contexts kept by requests that are over.
func (w *ctxWorld) checkKept() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, t := range w.done {
		if err := t.checkKept(); err != nil {
			return err
		}
	}
	return nil
}

func (w *ctxWorld) track(q *ctxReq) *ctxTrack {
	return &ctxTrack{id: int(w.ids.Add(1)), q: q, env: map[interface{}]interface{}{}, up: map[string]string{}}
}

func (w *ctxWorld) issue(q *ctxReq) error {
	t := w.track(q)
	defer w.finished(t)
	return runTracked(w.muxes[q.Mux], t)
}

func newCtxWorld(c ctxCase) *ctxWorld {
	cw := &ctxWorld{}
	same := func(t *ctxTrack, cc web.C, where string) {
		env := map[interface{}]interface{}{}
		for k, v := range cc.Env {
			if k != web.ValidMethodsKey {
				env[k] = v
			}
		}
		if t.err == nil && !reflect.DeepEqual(env, t.env) {
			t.err = fmt.Errorf("request %d at %s: environment %v; want %v", t.id, where, cc.Env, t.env)
		}
		if t.err == nil && !reflect.DeepEqual(model.CopyMap(cc.URLParams), t.up) {
			t.err = fmt.Errorf("request %d at %s: URL parameters %v; want %v", t.id, where, cc.URLParams, t.up)
		}
	}
	write := func(t *ctxTrack, cc *web.C, where string) {
		if t.q.Replace || cc.Env == nil {
			cc.Env = map[interface{}]interface{}{}
			t.env = map[interface{}]interface{}{}
		}
		cc.Env[where] = t.id
		t.env[where] = t.id
		if cc.URLParams == nil {
			cc.URLParams = map[string]string{}
		}
		cc.URLParams[where] = fmt.Sprint(t.id)
		t.up[where] = fmt.Sprint(t.id)
	}
	for mi := range cw.muxes {
		m := web.New()
		cw.muxes[mi] = m
		for i := 0; i < c.Layers; i++ {
			i := i
			m.Use(func(cc *web.C, h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					t := r.Context().Value(trackKey{}).(*ctxTrack)
					same(t, *cc, fmt.Sprintf("layer %d before", i))
					write(t, cc, fmt.Sprintf("in%d", i))
					if t.q.NestAt == i && !t.nested {
						t.nested = true
						for j := range t.q.Nested {
							if err := cw.issue(&t.q.Nested[j]); err != nil && t.err == nil {
								t.err = err
							}
							same(t, *cc, fmt.Sprintf("layer %d after nested request %d", i, j))
						}
					}
					if t.q.Panic == i {
						panic("ctx-boom")
					}
					h.ServeHTTP(w, r)
					same(t, *cc, fmt.Sprintf("layer %d after", i))
					write(t, cc, fmt.Sprintf("out%d", i))
					t.keep(fmt.Sprintf("layer %d", i), *cc)
				})
			})
		}
		m.Handle("/p/:seg", func(cc web.C, w http.ResponseWriter, r *http.Request) {
			t := r.Context().Value(trackKey{}).(*ctxTrack)
			t.up["seg"] = fmt.Sprint("s", t.id)
			same(t, cc, "handler")
			if t.gate != nil {
				t.gate()
			}
			same(t, cc, "handler, later")
			if t.q.Panic >= c.Layers {
				panic("ctx-boom")
			}
			// written through the map, so outer layers see it
			cc.Env["handler"] = t.id
			t.env["handler"] = t.id
			t.reqs++
			t.keep("the handler", cc)
		})
	}
	return cw
}

func checkCtx(r *pbt.R, c ctxCase) error {
	cw := newCtxWorld(c)
	for i := range c.Reqs {
		q := &c.Reqs[i]
		r.LabelIf(q.Panic >= 0, "panics")
		r.LabelIf(len(q.Nested) > 0, "re-entrant")
		r.LabelIf(q.Ctx, "own-context")
		if err := cw.issue(q); err != nil {
			return fmt.Errorf("top-level request %d: %w", i, err)
		}
	}
	if err := cw.checkKept(); err != nil {
		return err
	}
	r.NonTrivialIf(len(c.Reqs) > 1)
	if c.Conc > 0 {
		r.Label("concurrent")
	}
	for round := 0; round < c.Rounds; round++ {
		// All in the handler at once, so the stacks are all in use.
		n := c.Conc
		arrived := make(chan int, n)
		release := make(chan struct{})
		errs := make(chan error, n)
		for k := 0; k < n; k++ {
			q := &ctxReq{Panic: -1, Ctx: k%3 == 0, Env: k%2 == 0, UP: true, NestAt: -1, Mux: k % 2}
			t := cw.track(q)
			t.gate = func() {
				arrived <- 1
				<-release
			}
			go func() {
				err := runTracked(cw.muxes[q.Mux], t)
				cw.finished(t)
				if t.reqs == 0 {
					arrived <- 1
				}
				errs <- err
			}()
		}
		for k := 0; k < n; k++ {
			<-arrived
		}
		close(release)
		for k := 0; k < n; k++ {
			if err := <-errs; err != nil {
				return fmt.Errorf("concurrent batch: %w", err)
			}
		}
		if err := cw.checkKept(); err != nil {
			return fmt.Errorf("after a concurrent batch: %w", err)
		}
	}
	return nil
}

func runTracked(m *web.Mux, t *ctxTrack) error {
	req := model.Req{M: "GET", Path: model.Str(fmt.Sprint("/p/s", t.id))}.HTTP()
	req = req.WithContext(withTrack(req.Context(), t))
	var c web.C
	if t.q.Ctx {
		if t.q.Env {
			c.Env = map[interface{}]interface{}{"caller": t.id}
			t.env["caller"] = t.id
		}
		if t.q.UP {
			c.URLParams = map[string]string{"caller": fmt.Sprint(t.id)}
			t.up["caller"] = fmt.Sprint(t.id)
		}
	}
	func() {
		defer func() {
			if e := recover(); e != nil && e != "ctx-boom" {
				if t.err == nil {
					t.err = fmt.Errorf("request %d: panic %v", t.id, e)
				}
			}
		}()
		if t.q.Ctx {
			m.ServeHTTPC(c, httptest.NewRecorder(), req)
		} else {
			m.ServeHTTP(httptest.NewRecorder(), req)
		}
		if t.reqs != 1 && t.err == nil {
			t.err = fmt.Errorf("request %d: handler ran %d times", t.id, t.reqs)
		}
	}()
	return t.err
}

func TestC10(t *testing.T) {
	pbt.Main(t, "C10", "C10: histories of requests over two muxes whose layers and handler check the exact context at every point and write to it; requests enter with and without a context, re-enter the muxes, panic part-way and run concurrently; non-trivial when the history has at least two top-level requests.",
		parts("C10", pbt.P("history", 20000, 800000, genCtx, checkCtx))...)
}
