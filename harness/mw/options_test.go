package mwcheck

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"testing"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ---- C15 -------------------------------------------------------------------

type optCase struct {
	Wire    wire
	Env     string // nil none methods foreign
	Methods []string
	Ops     []op
}

func genOptCase(t *rapid.T) optCase {
	c := optCase{Wire: genWire(t)}
	c.Wire.Method = model.Pick(t, "method", "OPTIONS", "OPTIONS", "OPTIONS", "OPTIONS", "GET", "HEAD", "POST", "options")
	c.Env = model.Pick(t, "env", "methods", "methods", "methods", "methods", "nil", "none", "foreign")
	n := model.Int(t, "n", 1, 4)
	all := []string{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"}
	perm := rapid.Permutation(all).Draw(t, "methods")
	c.Methods = append([]string{}, perm[:n]...)
	if model.Chance(t, "sorted", 70) {
		sort.Strings(c.Methods)
	}
	ops := genOps(t, genOpts{flush: true, hijack: true, only404: 30, maxOps: 7})
	if model.Chance(t, "404", 70) {
		// at the beginning or after what does not send anything
		i := 0
		for i < len(ops) && (ops[i].Op == "set" || ops[i].Op == "add" || ops[i].Op == "del" || ops[i].Op == "status" && ops[i].Code < 200) && model.Chance(t, "later", 80) {
			i++
		}
		ops = append(ops[:i:i], append([]op{{Op: "status", Code: 404}}, ops[i:]...)...)
	}
	c.Ops = fixLengths(fixHijack(ops))
	return c
}

func allow(methods []string) string {
	for _, m := range methods {
		if m == "OPTIONS" {
			return strings.Join(methods, ", ")
		}
	}
	return strings.Join(append(append([]string{}, methods...), "OPTIONS"), ", ")
}

func checkOptions(r *pbt.R, c optCase) error {
	type obs struct {
		res []result
		s   seen
	}
	runs := 0
	run := func(mw bool, skip map[int]bool) obs {
		var o obs
		raw := c.Wire.serve("/", nil, func(w http.ResponseWriter, req *http.Request) {
			var ctx web.C
			if c.Env != "nil" {
				ctx.Env = map[interface{}]interface{}{"other": 1}
			}
			var h http.Handler = http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
				runs++
				switch c.Env {
				case "methods":
					ctx.Env[web.ValidMethodsKey] = append([]string{}, c.Methods...)
				case "foreign":
					ctx.Env[web.ValidMethodsKey] = "GET, POST"
				}
				o.res = exec(w, c.Ops, skip, nil, nil)
			})
			if mw {
				h = middleware.AutomaticOptions(&ctx, h)
			}
			h.ServeHTTP(w, req)
		})
		o.s = parseResponse(raw, c.Wire.Method)
		return o
	}
	p := run(true, nil)
	if runs != 1 {
		return fmt.Errorf("the handler ran %d times", runs)
	}
	skip := map[int]bool{}
	for i, x := range p.res {
		if x.skip {
			if c.Wire.Method != "OPTIONS" {
				return fmt.Errorf("operation %d (%s) is not supported through the middleware on a %s request", i, c.Ops[i].Op, c.Wire.Method)
			}
			skip[i] = true
		}
	}
	d := run(false, skip)
	if c.Wire.Method == "OPTIONS" && c.Env == "methods" && d.s.code == 404 {
		r.NonTrivial()
		r.Label("answered")
		if p.s.code != 200 {
			return fmt.Errorf("the client got %d instead of 200\n%s", p.s.code, opsString(c.Ops))
		}
		if got, want := p.s.hdr["Allow"], allow(c.Methods); len(got) != 1 || got[0] != want {
			return fmt.Errorf("Allow: %q; want %q\n%s", got, want, opsString(c.Ops))
		}
		if p.s.body != "" || p.s.bodyErr != "" || p.s.rest != "" {
			return fmt.Errorf("a body was sent, or the response is malformed: %v\n%s", p.s, opsString(c.Ops))
		}
		a, b := seen{infos: p.s.infos}, seen{infos: d.s.infos}
		if a.full() != b.full() {
			return fmt.Errorf("informational responses %v; want %v\n%s", a, b, opsString(c.Ops))
		}
		return nil
	}
	r.LabelIf(d.s.code == 404, "404 passed through")
	r.NonTrivialIf(c.Wire.Method == "OPTIONS" && interesting(c.Ops, p.res))
	for i := range c.Ops {
		if p.res[i] != d.res[i] {
			return fmt.Errorf("operation %d returned %v with the middleware, %v without\n%s", i, p.res[i], d.res[i], opsString(c.Ops))
		}
	}
	if err := sameSeen(p.s, d.s, explicitLength(c.Ops)); err != nil {
		return fmt.Errorf("the response differs with the middleware (got) and without (want):\n%v\n%s", err, opsString(c.Ops))
	}
	return nil
}

type optMux struct {
	Routes []model.Route
	Reqs   []model.Req
	Router int // 0 implicit, 1 explicit after the middleware, 2 before
	NF     int // status of the not-found handler; 0 is the default one
	NFBody int
}

func genOptMux(t *rapid.T) optMux {
	var c optMux
	var paths []string
	c.Routes, paths = model.GenRoutes(t, 8, func(t *rapid.T) string {
		return model.Pick(t, "m", "GET", "GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "TRACE", "CONNECT", "OPTIONS", "*")
	})
	c.Reqs = model.GenReqs(t, 1, 4, paths)
	for i := range c.Reqs {
		if model.Chance(t, "options", 75) {
			c.Reqs[i].M = "OPTIONS"
		}
	}
	c.Router = model.Pick(t, "router", 0, 0, 1, 2)
	c.NF = model.Pick(t, "nf", 0, 0, 0, 404, 404, 200, 410)
	c.NFBody = model.Int(t, "nfbody", 0, 20)
	return c
}

func checkOptMux(r *pbt.R, c optMux) error {
	m := web.New()
	switch c.Router {
	case 0:
		m.Use(middleware.AutomaticOptions)
	case 1:
		m.Use(middleware.AutomaticOptions)
		m.Use(m.Router)
	case 2:
		m.Use(m.Router)
		m.Use(middleware.AutomaticOptions)
	}
	tab := model.NewTable(nil)
	for i, rt := range c.Routes {
		i := i
		code := 200
		if i%3 == 2 {
			code = 404 // a route's own answer
		}
		model.Register(m, rt, rt.P.Build(i, func(int) {}), func(w http.ResponseWriter, r *http.Request) {
			w.Header().Set("X-Route", fmt.Sprint(i))
			w.WriteHeader(code)
			fmt.Fprintf(w, "route %d", i)
		})
		tab.Add(rt)
	}
	if c.NF != 0 {
		m.NotFound(func(w http.ResponseWriter, r *http.Request) {
			w.WriteHeader(c.NF)
			w.Write(payload(0, c.NFBody, ""))
		})
	}
	for _, q := range c.Reqs {
		rec := httptest.NewRecorder()
		m.ServeHTTP(rec, q.HTTP())
		i, _ := tab.Find(q.HTTP())
		var want string
		var valid []string
		if i < 0 {
			valid = tab.Valid(q.HTTP())
		}
		wantCode, wantBody := 0, ""
		switch {
		case i >= 0:
			wantCode, wantBody = 200, fmt.Sprintf("route %d", i)
			if i%3 == 2 {
				wantCode = 404
			}
		case q.M == "OPTIONS" && len(valid) > 0 && (c.NF == 0 || c.NF == 404):
			wantCode = 200
			want = allow(valid)
			r.NonTrivial()
			r.Label("answered")
		case c.NF == 0:
			wantCode, wantBody = 404, "404 page not found\n"
		default:
			wantCode, wantBody = c.NF, string(payload(0, c.NFBody, ""))
		}
		if rec.Code != wantCode || rec.Body.String() != wantBody || rec.Header().Get("Allow") != want {
			return fmt.Errorf("%s %q: got %d %q Allow: %q; want %d %q Allow: %q", q.M, string(q.Path), rec.Code, rec.Body.String(), rec.Header().Get("Allow"), wantCode, wantBody, want)
		}
	}
	return nil
}

const optionsRule = "C15: generated handler scripts behind the middleware over real net/http connections, and generated route tables; non-trivial when an OPTIONS request is answered by the middleware, or is an OPTIONS request whose handler sends something by at least two operations."

func TestC15(t *testing.T) {
	pbt.Main(t, "C15", optionsRule,
		pbt.P("scripts", 24000, 800000, genOptCase, checkOptions),
		pbt.P("mux", 40000, 1200000, genOptMux, checkOptMux),
	)
}
