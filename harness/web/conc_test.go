package webcheck

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/zenazn/goji/web"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ---- C02 -------------------------------------------------------------------

// Threads add routes, compile and send requests. The recorded history must have
// an order of the additions, compatible with the order in which they happened,
// such that every request was dispatched against a table that contains at least
// what was added before it began and nothing that began after its handler ran,
// and such that later requests do not see less than earlier ones.

type cop struct {
	Op    string // "add", "compile", "req"
	Route model.Route
	Req   model.Req
	Adds  []model.Route // added from inside the handler of the request
}

type concCase struct {
	Router  bool // explicit routing middleware
	Setup   []model.Route
	Threads [][]cop
	Probes  []model.Req
	At, To  []int
}

func genConc(maxAdds int) func(*rapid.T) concCase {
	return func(t *rapid.T) concCase {
		var c concCase
		c.Router = model.Chance(t, "router", 20)
		methods := func(t *rapid.T) string { return model.Pick(t, "m", "*", "*", "GET", "GET", "POST", "HEAD") }
		rs, paths := model.GenRoutes(t, 8, methods)
		// a set-up of some of the routes, the rest is added later
		k := model.Int(t, "setup", 0, len(rs))
		if len(rs)-k > maxAdds {
			k = len(rs) - maxAdds
		}
		c.Setup = append([]model.Route{}, rs[:k]...)
		rest := rs[k:]
		req := func() model.Req {
			var p string
			if len(paths) > 0 && model.Chance(t, "aimed", 90) {
				p = rapid.SampledFrom(paths).Draw(t, "path")
			} else {
				p = model.LitPath(t)
			}
			return model.Req{M: model.Pick(t, "rm", "GET", "GET", "GET", "POST", "HEAD", "PUT"), Path: model.Str(p), Hdr: model.Pick(t, "v", "", "1", "2")}
		}
		nt := model.Int(t, "threads", 2, 3)
		c.Threads = make([][]cop, nt)
		for _, rt := range rest {
			i := model.Int(t, "who", 0, nt-1)
			if model.Chance(t, "inner", 15) {
				c.Threads[i] = append(c.Threads[i], cop{Op: "req", Req: req(), Adds: []model.Route{rt}})
			} else {
				c.Threads[i] = append(c.Threads[i], cop{Op: "add", Route: rt})
			}
		}
		for i := range c.Threads {
			n := model.Int(t, "more", 0, 3)
			for j := 0; j < n; j++ {
				o := cop{Op: "req"}
				if model.Chance(t, "compile", 20) {
					o.Op = "compile"
				} else {
					o.Req = req()
				}
				at := model.Int(t, "pos", 0, len(c.Threads[i]))
				c.Threads[i] = append(c.Threads[i][:at], append([]cop{o}, c.Threads[i][at:]...)...)
			}
		}
		n := model.Int(t, "probes", 1, 3)
		for i := 0; i < n; i++ {
			c.Probes = append(c.Probes, req())
		}
		return c
	}
}

type cev struct {
	add        int // route number, or -1
	req        model.Req
	start, end int
	ran        []int
	up         map[string]string
	valid      []string
	infly      bool
}

type concWorld struct {
	mu     sync.Mutex
	clock  int
	mux    *web.Mux
	routes []model.Route
	evs    []*cev
}

type cevKey struct{}
type addsKey struct{}

func (w *concWorld) tick() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.clock++
	return w.clock
}

func (w *concWorld) add(rt model.Route) {
	w.mu.Lock()
	i := len(w.routes)
	w.routes = append(w.routes, rt)
	e := &cev{add: i, end: 1 << 30}
	w.evs = append(w.evs, e)
	w.mu.Unlock()
	p := rt.P.Build(i, func(int) {})
	h := w.handler(i)
	e.start = w.tick()
	model.Register(w.mux, rt, p, h)
	e.end = w.tick()
}

func (w *concWorld) handler(i int) web.HandlerType {
	return func(c web.C, rw http.ResponseWriter, r *http.Request) {
		e := r.Context().Value(cevKey{}).(*cev)
		if len(e.ran) == 0 {
			e.end = w.tick()
		}
		e.ran = append(e.ran, i)
		e.up = model.CopyMap(c.URLParams)
		if v, ok := c.Env[web.ValidMethodsKey].([]string); ok {
			e.valid = append([]string{}, v...)
		}
		adds, _ := r.Context().Value(addsKey{}).([]model.Route)
		for _, a := range adds {
			w.add(a)
		}
	}
}

func (w *concWorld) request(q model.Req, adds []model.Route) {
	e := &cev{add: -1, req: q, end: 1 << 30}
	w.mu.Lock()
	w.evs = append(w.evs, e)
	w.mu.Unlock()
	r := q.HTTP()
	r = r.WithContext(withValue(withValue(r.Context(), cevKey{}, e), addsKey{}, adds))
	rec := httptest.NewRecorder()
	e.start = w.tick()
	w.mux.ServeHTTP(rec, r)
	if len(e.ran) == 0 {
		e.end = w.tick()
	}
}

func (w *concWorld) do(o cop) {
	switch o.Op {
	case "add":
		w.add(o.Route)
	case "compile":
		w.mux.Compile()
	case "req":
		w.request(o.Req, o.Adds)
	}
}

func newConcWorld(c concCase) *concWorld {
	w := &concWorld{mux: web.New()}
	if c.Router {
		w.mux.Use(w.mux.Router)
	}
	w.mux.NotFound(w.handler(-1))
	for _, rt := range c.Setup {
		w.add(rt)
	}
	return w
}

// judge looks for an order of the additions that explains every request.
func (w *concWorld) judge(r *pbt.R, c concCase) error {
	var adds, reqs []*cev
	for _, e := range w.evs {
		if e.add >= 0 {
			adds = append(adds, e)
		} else {
			reqs = append(reqs, e)
			if len(e.ran) != 1 {
				return fmt.Errorf("request %+v: %d handlers ran", e.req, len(e.ran))
			}
		}
	}
	sort.Slice(reqs, func(i, j int) bool { return reqs[i].end < reqs[j].end })
	for _, q := range reqs {
		for _, a := range adds {
			if a.start < q.end && q.start < a.end {
				r.Label("request overlaps addition")
				r.NonTrivial()
			}
		}
	}
	comp := make([]*model.Compiled, len(w.routes))
	for i, rt := range w.routes {
		comp[i] = rt.P.Compile()
	}
	// matches tells whether the outcome of q is that of the table of the first k
	// routes of an order.
	matches := func(q *cev, order []int, k int) bool {
		hr := q.req.HTTP()
		want := -1
		var wb model.Bindings
		for _, i := range order[:k] {
			if !w.routes[i].MethodOK(hr.Method) {
				continue
			}
			if b, ok := comp[i].Accept(hr); ok {
				want, wb = i, b
				break
			}
		}
		if q.ran[0] != want {
			return false
		}
		if want >= 0 {
			return wb.Check(nil, q.up) == nil
		}
		var valid []string
		for _, m := range model.StdMethods {
			hr.Method = m
			for _, i := range order[:k] {
				if w.routes[i].MethodOK(m) {
					if _, ok := comp[i].Accept(hr); ok {
						valid = append(valid, m)
						break
					}
				}
			}
		}
		sort.Strings(valid)
		return strings.Join(valid, ",") == strings.Join(q.valid, ",")
	}
	byAdd := make([]*cev, len(w.routes))
	for _, a := range adds {
		byAdd[a.add] = a
	}
	explains := func(order []int) bool {
		pos := make([]int, len(order)) // route -> position in the order
		for p, i := range order {
			pos[i] = p
		}
		chosen := make([]int, len(reqs))
		for qi, q := range reqs {
			lo, hi := 0, len(order)
			for _, a := range adds {
				if a.end < q.start && pos[a.add]+1 > lo {
					lo = pos[a.add] + 1
				}
				if a.start > q.end && pos[a.add] < hi {
					hi = pos[a.add]
				}
			}
			for pi := 0; pi < qi; pi++ {
				if reqs[pi].end < q.start && chosen[pi] > lo {
					lo = chosen[pi]
				}
			}
			ok := false
			for k := lo; k <= hi; k++ {
				if matches(q, order, k) {
					chosen[qi] = k
					ok = true
					break
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	// Enumerate the orders compatible with real time.
	used := make([]bool, len(w.routes))
	var order []int
	budget := 20000
	var rec func() bool
	rec = func() bool {
		if budget--; budget < 0 {
			return true // too many; not decided
		}
		if len(order) == len(w.routes) {
			return explains(order)
		}
		for i := range used {
			if used[i] {
				continue
			}
			free := true
			for j := range used {
				if !used[j] && j != i && byAdd[j].end < byAdd[i].start {
					free = false
				}
			}
			if !free {
				continue
			}
			used[i] = true
			order = append(order, i)
			ok := rec()
			order = order[:len(order)-1]
			used[i] = false
			if ok {
				return true
			}
		}
		return false
	}
	if !rec() {
		var b strings.Builder
		es := append([]*cev{}, w.evs...)
		sort.Slice(es, func(i, j int) bool { return es[i].start < es[j].start })
		for _, e := range es {
			if e.add >= 0 {
				fmt.Fprintf(&b, "[%d,%d] add route %d %+v\n", e.start, e.end, e.add, w.routes[e.add])
			} else {
				fmt.Fprintf(&b, "[%d,%d] request %s %q -> route %d, bindings %v, valid methods %v\n", e.start, e.end, e.req.M, string(e.req.Path), e.ran[0], e.up, e.valid)
			}
		}
		return fmt.Errorf("no order of the additions explains what the requests were dispatched to:\n%s", b.String())
	}
	return nil
}

const concRule = "C02: generated additions, compilations and requests in 2-3 threads; non-trivial when the dispatch of a request overlaps an addition in time."

func TestC02(t *testing.T) {
	pbt.Main(t, "C02", concRule, parts("C02", pbt.P("sequential", 12000, 300000, genConc(8), func(r *pbt.R, c concCase) error {
		// one thread: every addition takes effect at once
		w := newConcWorld(c)
		n := 0
		for more := true; more; {
			more = false
			for _, ops := range c.Threads {
				if n < len(ops) {
					w.do(ops[n])
					more = true
				}
			}
			n++
		}
		for _, q := range c.Probes {
			w.request(q, nil)
		}
		r.NonTrivialIf(len(w.routes) > len(c.Setup))
		return w.judge(r, c)
	}))...)
}

func withValue(ctx context.Context, k, v any) context.Context { return context.WithValue(ctx, k, v) }
