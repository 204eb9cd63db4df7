package webcheck

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"strings"
	"testing"

	"github.com/zenazn/goji/web"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ---- C07 -----------------------------------------------------------------

type call struct {
	kind string // how it was invoked: "plain" or "ctx"
	id   int
	c    web.C
	w    http.ResponseWriter
	r    *http.Request
}

type recorder struct{ calls []call }

type plainH struct {
	rec *recorder
	id  int
}

func (h *plainH) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	h.rec.calls = append(h.rec.calls, call{"plain", h.id, web.C{}, w, r})
}

type plainVal struct {
	rec *recorder
	id  int
}

func (h plainVal) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	h.rec.calls = append(h.rec.calls, call{"plain", h.id, web.C{}, w, r})
}

type bothH struct {
	rec *recorder
	id  int
}

func (h *bothH) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	h.rec.calls = append(h.rec.calls, call{"plain", h.id, web.C{}, w, r})
}
func (h *bothH) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) {
	h.rec.calls = append(h.rec.calls, call{"ctx", h.id, c, w, r})
}

// embH embeds the library's own interface type.
type embH struct {
	web.Handler
	id int
}

var handlerKinds = []string{"func", "cfunc", "http.Handler", "http.Handler-value", "http.HandlerFunc", "web.Handler", "web.HandlerFunc", "embedded"}

type handlerReg struct {
	val web.HandlerType
	ctx bool
	id  int
}

func makeHandler(kind string, id int, rec *recorder) handlerReg {
	switch kind {
	case "func":
		return handlerReg{func(w http.ResponseWriter, r *http.Request) {
			rec.calls = append(rec.calls, call{"plain", id, web.C{}, w, r})
		}, false, id}
	case "cfunc":
		return handlerReg{func(c web.C, w http.ResponseWriter, r *http.Request) {
			rec.calls = append(rec.calls, call{"ctx", id, c, w, r})
		}, true, id}
	case "http.Handler":
		return handlerReg{&plainH{rec, id}, false, id}
	case "http.Handler-value":
		return handlerReg{plainVal{rec, id}, false, id}
	case "http.HandlerFunc":
		return handlerReg{http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			rec.calls = append(rec.calls, call{"plain", id, web.C{}, w, r})
		}), false, id}
	case "web.Handler":
		return handlerReg{&bothH{rec, id}, true, id}
	case "web.HandlerFunc":
		return handlerReg{web.HandlerFunc(func(c web.C, w http.ResponseWriter, r *http.Request) {
			rec.calls = append(rec.calls, call{"ctx", id, c, w, r})
		}), true, id}
	case "embedded":
		return handlerReg{embH{&bothH{rec, id}, id}, true, id}
	}
	panic(kind)
}

// sameValue decides whether got is the very value registered.
func sameValue(want, got interface{}) error {
	if reflect.TypeOf(want) != reflect.TypeOf(got) {
		return fmt.Errorf("reported as a %T, registered as a %T", got, want)
	}
	if reflect.TypeOf(want).Kind() == reflect.Func {
		// Function values: same closure object.
		if reflect.ValueOf(want).UnsafePointer() != reflect.ValueOf(got).UnsafePointer() {
			return fmt.Errorf("reported function is not the one registered")
		}
		return nil
	}
	if want != got {
		return fmt.Errorf("reported value %#v is not the one registered, %#v", got, want)
	}
	return nil
}

type kindRoute struct {
	H  string
	P  model.Pat
	M  string
	NF bool
}

type kindCase struct {
	Routes []kindRoute
	NF     string
	Reqs   []model.Req
	Router bool
	Direct bool // also exercise ParsePattern values passed as patterns
}

func checkKinds(r *pbt.R, c kindCase) error {
	rec := &recorder{}
	m := web.New()
	var regs []handlerReg
	var pats []interface{}
	tbl := model.NewTable(nil)
	var seen web.Match
	seenMatch := false
	if c.Router {
		m.Use(m.Router)
		m.Use(func(c *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				seen = web.GetMatch(*c)
				seenMatch = true
				h.ServeHTTP(w, r)
			})
		})
	}
	for i, rt := range c.Routes {
		h := makeHandler(rt.H, i, rec)
		var p interface{} = rt.P.Build(i, nil)
		pats = append(pats, p)
		regs = append(regs, h)
		model.Register(m, model.Route{M: rt.M, P: rt.P}, p, h.val)
		tbl.Add(model.Route{M: rt.M, P: rt.P})
		r.Label("handler " + rt.H)
		r.Label("pattern " + rt.P.Kind)
	}
	nf := makeHandler(c.NF, -1, rec)
	m.NotFound(nf.val)
	for _, q := range c.Reqs {
		rec.calls = nil
		seenMatch = false
		req := q.HTTP()
		want, b := tbl.Find(req)
		var w http.ResponseWriter = httptest.NewRecorder()
		if q.Ctx {
			m.ServeHTTPC(q.C(), w, req)
		} else {
			m.ServeHTTP(w, req)
		}
		h := nf
		if want >= 0 {
			h = regs[want]
			r.NonTrivial()
		}
		if len(rec.calls) != 1 {
			return fmt.Errorf("request %+v: %d handler calls; want one of %d", q, len(rec.calls), want)
		}
		cl := rec.calls[0]
		if cl.id != h.id {
			return fmt.Errorf("request %+v: handler %d ran; want %d", q, cl.id, h.id)
		}
		if (cl.kind == "ctx") != h.ctx {
			return fmt.Errorf("request %+v: %T was invoked as a %s handler", q, h.val, cl.kind)
		}
		if cl.w != w || cl.r != req {
			return fmt.Errorf("request %+v: the handler got another writer or request", q)
		}
		if h.ctx && want >= 0 {
			var before map[string]string
			if q.Ctx {
				before = q.UP
			}
			if err := b.Check(before, cl.c.URLParams); err != nil {
				return fmt.Errorf("request %+v: the handler's context: %w", q, err)
			}
			if q.Ctx {
				for k, v := range q.Env {
					if cl.c.Env[k] != v {
						return fmt.Errorf("request %+v: the handler's context lacks %q", q, k)
					}
				}
			}
		}
		if !c.Router {
			continue
		}
		if !seenMatch || seen.Handler == nil {
			return fmt.Errorf("request %+v: no match stored by the router middleware", q)
		}
		if err := sameValue(h.val, seen.RawHandler()); err != nil {
			return fmt.Errorf("request %+v: RawHandler: %w", q, err)
		}
		if want < 0 {
			if seen.Pattern != nil || seen.RawPattern() != nil {
				return fmt.Errorf("request %+v: not found, but the match has pattern %v", q, seen.Pattern)
			}
			continue
		}
		if err := sameValue(pats[want], seen.RawPattern()); err != nil {
			return fmt.Errorf("request %+v: RawPattern of %+v: %w", q, c.Routes[want].P, err)
		}
		r.Label("raw-round-trip")
		// The stored match really is that pattern and handler.
		rec.calls = nil
		seen.Handler.ServeHTTPC(web.C{}, w, req)
		if len(rec.calls) != 1 || rec.calls[0].id != h.id {
			return fmt.Errorf("request %+v: the stored match's handler is not handler %d", q, h.id)
		}
	}
	return nil
}

func genKinds(t *rapid.T) kindCase {
	rs, paths := model.GenRoutes(t, 6, model.GenMethod)
	c := kindCase{Router: model.Chance(t, "router", 70), Reqs: model.GenReqs(t, 1, 5, paths)}
	hk := func(l string) string { return rapid.SampledFrom(handlerKinds).Draw(t, l) }
	c.NF = hk("nf")
	for _, rt := range rs {
		c.Routes = append(c.Routes, kindRoute{H: hk("h"), P: rt.P, M: rt.M})
	}
	return c
}

// badKinds: things that are not documented as handlers, patterns or middleware.
func badValue(what string) interface{} {
	switch what {
	case "nil":
		return nil
	case "int":
		return 42
	case "string":
		return "/"
	case "func()":
		return func() {}
	case "func(r)":
		return func(r *http.Request) {}
	case "func(r,w)":
		return func(r *http.Request, w http.ResponseWriter) {}
	case "func(*C,w,r)":
		return func(c *web.C, w http.ResponseWriter, r *http.Request) {}
	case "func(w,r)error":
		return func(w http.ResponseWriter, r *http.Request) error { return nil }
	case "struct":
		return struct{}{}
	case "[]byte":
		return []byte("/")
	case "regexp-value":
		return *regexp.MustCompile("a")
	case "*string":
		s := "/"
		return &s
	case "func(w,r)":
		return func(w http.ResponseWriter, r *http.Request) {}
	case "func(c,w,r)":
		return func(c web.C, w http.ResponseWriter, r *http.Request) {}
	case "func(C,h)h":
		return func(c web.C, h http.Handler) http.Handler { return h }
	case "func(h)func":
		return func(h http.Handler) http.HandlerFunc { return nil }
	case "func(webh)webh":
		return func(h web.Handler) web.Handler { return h }
	case "map":
		return map[string]string{}
	case "typednil":
		var p *int
		return p
	case "http.Handler":
		return http.NotFoundHandler()
	case "regexp":
		return regexp.MustCompile("^/")
	case "pattern":
		return web.ParsePattern("/")
	case "mw":
		return func(h http.Handler) http.Handler { return h }
	case "cmw":
		return func(c *web.C, h http.Handler) http.Handler { return h }
	}
	panic(what)
}

var badKinds = []string{"nil", "int", "func()", "func(r)", "func(r,w)", "func(*C,w,r)", "func(w,r)error", "struct", "[]byte", "regexp-value", "*string", "func(C,h)h", "func(h)func", "func(webh)webh", "map", "typednil"}

// places where a value of an undocumented kind can be passed, with the documented kinds.
var places = map[string][]string{
	"handler":      {"func(w,r)", "func(c,w,r)", "http.Handler"},
	"notfound":     {"func(w,r)", "func(c,w,r)", "http.Handler"},
	"pattern":      {"string", "regexp", "pattern"},
	"parsepattern": {"string", "regexp", "pattern"},
	"middleware":   {"mw", "cmw"},
	"insert":       {"mw", "cmw"},
}

type refuseCase struct {
	Place string
	Kind  string
	M     string
}

func genRefuse(t *rapid.T) refuseCase {
	c := refuseCase{Place: rapid.SampledFrom(pbt.SortedKeys(places)).Draw(t, "place"), M: model.GenMethod(t)}
	all := append(append([]string{}, badKinds...), "string", "func(w,r)", "func(c,w,r)", "http.Handler", "regexp", "pattern", "mw", "cmw")
	c.Kind = rapid.SampledFrom(all).Draw(t, "kind")
	return c
}

func runRefuse(c refuseCase) {
	m := web.New()
	v := badValue(c.Kind)
	good := func(w http.ResponseWriter, r *http.Request) {}
	switch c.Place {
	case "handler":
		model.Register(m, model.Route{M: c.M}, "/", v)
	case "notfound":
		m.NotFound(v)
	case "pattern":
		model.Register(m, model.Route{M: c.M}, v, good)
	case "parsepattern":
		web.ParsePattern(v)
	case "middleware":
		m.Use(v)
	case "insert":
		mw := func(h http.Handler) http.Handler { return h }
		m.Use(mw)
		m.Insert(v, mw)
	}
	fmt.Println("SURVIVED")
}

func checkRefuse(r *pbt.R, c refuseCase) error {
	ok := false
	for _, k := range places[c.Place] {
		ok = ok || k == c.Kind
	}
	r.NonTrivialIf(!ok)
	r.LabelIf(ok, "documented")
	r.LabelIf(!ok, "undocumented")
	b, _ := json.Marshal(c)
	exe, err := os.Executable()
	if err != nil {
		pbt.Broken("%v", err)
	}
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=refuse", "VERIF_ARG="+string(b), "VERIF_CUR=", "VERIF_OUT=")
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	if _, isExit := err.(*exec.ExitError); err != nil && !isExit {
		pbt.Broken("%v", err)
	}
	survived := strings.Contains(so.String(), "SURVIVED")
	if ok && (!survived || err != nil) {
		return fmt.Errorf("a documented kind was refused: %v %s", err, se.String())
	}
	if !ok && (survived || err == nil) {
		return fmt.Errorf("the process carried on after %s was given as %s", c.Kind, c.Place)
	}
	return nil
}

// hfCase: a context-handler function used as a plain handler.
type hfCase struct {
	Path model.Str
	Via  string
}

func checkHandlerFunc(r *pbt.R, c hfCase) error {
	var got *web.C
	var gw http.ResponseWriter
	var gr *http.Request
	hf := web.HandlerFunc(func(c web.C, w http.ResponseWriter, r *http.Request) { got, gw, gr = &c, w, r })
	w := httptest.NewRecorder()
	req := model.Req{M: "GET", Path: c.Path}.HTTP()
	r.NonTrivial()
	r.Label(c.Via)
	switch c.Via {
	case "ServeHTTP":
		hf.ServeHTTP(w, req)
		if got == nil || gw != w || gr != req {
			return fmt.Errorf("handler function not invoked with its writer and request")
		}
	case "ServeMux":
		m := http.NewServeMux()
		m.Handle("/", hf)
		req.URL.Path = "/"
		m.ServeHTTP(w, req)
		if got == nil {
			return fmt.Errorf("handler function not invoked")
		}
	case "ServeHTTPC":
		in := web.C{Env: map[interface{}]interface{}{"a": 1}, URLParams: map[string]string{"x": "y"}}
		hf.ServeHTTPC(in, w, req)
		if got == nil || gw != w || gr != req || !reflect.DeepEqual(*got, in) {
			return fmt.Errorf("handler function not invoked with its context")
		}
		return nil
	}
	if len(got.Env) != 0 || len(got.URLParams) != 0 {
		return fmt.Errorf("context of a plain call is not empty: %+v", *got)
	}
	return nil
}

func TestC07(t *testing.T) {
	rule := "C07: kinds: tables mixing all handler and pattern kinds, with and without the router middleware reporting the match; non-trivial when a route is selected. refuse: a value of some kind given as handler, pattern or middleware in a process of its own; non-trivial when the kind is undocumented. handlerfunc: always non-trivial."
	pbt.Main(t, "C07", rule,
		pbt.P("kinds", 20000, 900000, genKinds, checkKinds),
		pbt.P("refuse", 400, 4000, genRefuse, checkRefuse),
		pbt.P("handlerfunc", 200, 2000, func(t *rapid.T) hfCase {
			return hfCase{Path: model.Str(model.LitPath(t)), Via: model.Pick(t, "via", "ServeHTTP", "ServeHTTPC", "ServeMux")}
		}, checkHandlerFunc),
	)
}

// ---- C08 -----------------------------------------------------------------

// A layer of a stack around explicit routing.
type layerOp struct {
	Op   string // "router", "path", "method", "match", "unmatch", "garbage", "observe", "env"
	Arg  model.Str
	Late bool // applied after the inner layers returned (must not matter)
}

type explicitCase struct {
	Routes []model.Route
	Layers []layerOp
	Reqs   []model.Req
}

func genExplicit(t *rapid.T) explicitCase {
	rs, paths := model.GenRoutes(t, 6, model.GenMethod)
	c := explicitCase{Routes: rs, Reqs: model.GenReqs(t, 1, 4, paths)}
	n := model.Int(t, "layers", 1, 6)
	for i := 0; i < n; i++ {
		l := layerOp{Op: model.Pick(t, "op", "router", "router", "path", "method", "match", "unmatch", "garbage", "observe")}
		switch l.Op {
		case "path":
			if len(paths) > 0 && model.Chance(t, "known", 75) {
				l.Arg = model.Str(rapid.SampledFrom(paths).Draw(t, "p"))
			} else {
				l.Arg = model.Str(model.LitPath(t))
			}
		case "method":
			l.Arg = model.Str(model.GenReqMethod(t))
		}
		c.Layers = append(c.Layers, l)
	}
	return c
}

func checkExplicit(r *pbt.R, c explicitCase) error {
	m := web.New()
	tbl := model.NewTable(c.Routes)
	var ran []int
	var ranC web.C
	var obs []web.Match
	var obsUP []map[string]string
	handlers := map[int]web.HandlerType{}
	pats := map[int]interface{}{}
	mk := func(i int) web.HandlerType {
		// alternate kinds so that wrapping matters
		if i%2 == 0 {
			return func(c web.C, w http.ResponseWriter, r *http.Request) { ran = append(ran, i); ranC = c }
		}
		return web.HandlerFunc(func(c web.C, w http.ResponseWriter, r *http.Request) { ran = append(ran, i); ranC = c })
	}
	for li, l := range c.Layers {
		li, l := li, l
		switch l.Op {
		case "router":
			m.Use(m.Router)
		default:
			m.Use(func(cc *web.C, h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					switch l.Op {
					case "path":
						r.URL.Path = string(l.Arg)
					case "method":
						r.Method = string(l.Arg)
					case "match":
						if cc.Env == nil {
							cc.Env = map[interface{}]interface{}{}
						}
						cc.Env[web.MatchKey] = web.Match{Handler: web.HandlerFunc(func(c web.C, w http.ResponseWriter, r *http.Request) {
							ran = append(ran, 1000+li)
							ranC = c
						})}
					case "unmatch":
						delete(cc.Env, web.MatchKey)
					case "garbage":
						if cc.Env == nil {
							cc.Env = map[interface{}]interface{}{}
						}
						cc.Env[web.MatchKey] = "not a match"
					}
					obs = append(obs, web.GetMatch(*cc))
					obsUP = append(obsUP, model.CopyMap(cc.URLParams))
					h.ServeHTTP(w, r)
				})
			})
		}
	}
	for i, rt := range c.Routes {
		handlers[i] = mk(i)
		p := rt.P.Build(i, nil)
		pats[i] = p
		model.Register(m, rt, p, handlers[i])
	}
	handlers[-1] = mk(-1)
	m.NotFound(handlers[-1])

	for _, q := range c.Reqs {
		ran, obs, obsUP = nil, nil, nil
		req := q.HTTP()
		// The model: walk the layers. cur is the stored match: -3 none, -1 not
		// found, i route, 1000+k user match.
		sim := q.HTTP()
		cur := -3
		up := map[string][]string{}
		if q.Ctx {
			for k, v := range q.UP {
				up[k] = []string{v}
			}
		}
		var valid []string
		validSet := false
		route := func() int {
			i, b := tbl.Find(sim)
			for k, v := range b {
				up[k] = v
			}
			if i < 0 {
				if v := tbl.Valid(sim); len(v) > 0 {
					valid, validSet = v, true
				}
			}
			return i
		}
		type want struct {
			cur int
			up  map[string][]string
		}
		var wants []want
		routed, changed := false, false
		for li, l := range c.Layers {
			switch l.Op {
			case "router":
				cur = route()
				routed = true
				continue
			case "path":
				sim.URL.Path = string(l.Arg)
				changed = changed || routed
			case "method":
				sim.Method = string(l.Arg)
				changed = changed || routed
			case "match":
				cur = 1000 + li
			case "unmatch", "garbage":
				cur = -3
			}
			cp := map[string][]string{}
			for k, v := range up {
				cp[k] = v
			}
			wants = append(wants, want{cur, cp})
		}
		final := cur
		if cur == -3 {
			final = route()
		}
		r.NonTrivialIf(routed && changed && cur != -3)
		r.LabelIf(routed && changed && cur != -3, "changed-after-routing")
		r.LabelIf(cur >= 1000, "user-match")
		r.LabelIf(cur == -1, "explicit-not-found")

		w := httptest.NewRecorder()
		if q.Ctx {
			m.ServeHTTPC(q.C(), w, req)
		} else {
			m.ServeHTTP(w, req)
		}
		if len(ran) != 1 || ran[0] != final {
			return fmt.Errorf("request %+v: handlers %v ran; want [%d]", q, ran, final)
		}
		if len(obs) != len(wants) {
			return fmt.Errorf("request %+v: %d layers ran; want %d", q, len(obs), len(wants))
		}
		for i, wt := range wants {
			got := obs[i]
			switch {
			case wt.cur == -3:
				if got.Handler != nil || got.Pattern != nil {
					return fmt.Errorf("request %+v: observer %d sees a match where there should be none", q, i)
				}
			case wt.cur >= 1000:
			case wt.cur == -1:
				if got.Handler == nil || got.Pattern != nil {
					return fmt.Errorf("request %+v: observer %d: nothing matched, but the stored match is %+v", q, i, got)
				}
				if err := sameValue(handlers[-1], got.RawHandler()); err != nil {
					return fmt.Errorf("request %+v: observer %d: the not-found handler: %w", q, i, err)
				}
			default:
				if got.Handler == nil || got.Pattern == nil {
					return fmt.Errorf("request %+v: observer %d: no match stored; want route %d", q, i, wt.cur)
				}
				if err := sameValue(handlers[wt.cur], got.RawHandler()); err != nil {
					return fmt.Errorf("request %+v: observer %d: handler of route %d: %w", q, i, wt.cur, err)
				}
				if err := sameValue(pats[wt.cur], got.RawPattern()); err != nil {
					return fmt.Errorf("request %+v: observer %d: pattern of route %d: %w", q, i, wt.cur, err)
				}
			}
			if err := model.Bindings(wt.up).Check(nil, obsUP[i]); err != nil {
				return fmt.Errorf("request %+v: observer %d: %w", q, i, err)
			}
		}
		if err := model.Bindings(up).Check(nil, ranC.URLParams); err != nil {
			return fmt.Errorf("request %+v: final handler %d: %w", q, final, err)
		}
		if final == -1 && validSet {
			got, _ := ranC.Env[web.ValidMethodsKey].([]string)
			if !reflect.DeepEqual(got, valid) {
				return fmt.Errorf("request %+v: valid methods are %v; want %v", q, got, valid)
			}
		}
	}
	return nil
}

func TestC08(t *testing.T) {
	pbt.Main(t, "C08", "C08: stacks of the router middleware, layers that change path or method, and layers that store, remove or spoil the match, around a route table; non-trivial when path or method change after routing and the stored match survives.",
		pbt.P("stack", 30000, 1200000, genExplicit, checkExplicit))
}
