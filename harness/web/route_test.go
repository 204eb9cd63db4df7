package webcheck

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"regexp"
	"testing"

	"github.com/zenazn/goji/web"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// tableCase is a route table and the requests made against it.
type tableCase struct {
	Routes   []model.Route
	Reqs     []model.Req
	Compile  bool // call Compile explicitly after the last addition
	CustomNF bool // replace the not-found handler
	Early    int  // send the first request after this many routes were added, too
	NFAt     int  // replace it after this many routes (and the early request)
}

func genTable(max int) func(t *rapid.T) tableCase {
	return func(t *rapid.T) tableCase {
		rs, paths := model.GenRoutes(t, max, model.GenMethod)
		return tableCase{
			Routes: rs, Reqs: model.GenReqs(t, 1, 8, paths),
			Compile:  model.Chance(t, "compile", 30),
			CustomNF: !model.Chance(t, "stdnf", 25),
			Early:    model.Int(t, "early", -2, len(rs)),
			NFAt:     model.Int(t, "nfat", 0, len(rs)),
		}
	}
}

// outcome is what one request observed.
type outcome struct {
	ran     []int // handler indices, -1 for not-found
	c       web.C
	up      map[string]string
	env     map[interface{}]interface{}
	req     string
	consult []int
	code    int
	w, r    bool // same writer and request objects
	nf      bool // the not-found handler had been replaced
}

// tableMux registers the routes and records what runs.
type tableMux struct {
	mux *web.Mux
	cur *outcome
	wq  http.ResponseWriter
	rq  *http.Request
	nf  bool
}

func (tm *tableMux) handler(i int) web.HandlerType {
	return func(c web.C, w http.ResponseWriter, r *http.Request) {
		o := tm.cur
		o.ran = append(o.ran, i)
		o.c = c
		o.up = model.CopyMap(c.URLParams)
		o.env = map[interface{}]interface{}{}
		for k, v := range c.Env {
			o.env[k] = v
		}
		o.req = model.DescribeReq(r)
		o.w = w == tm.wq
		o.r = r == tm.rq
	}
}

func (tm *tableMux) add(i int, rt model.Route) {
	p := rt.P.Build(i, func(id int) {
		if tm.cur != nil {
			tm.cur.consult = append(tm.cur.consult, id)
		}
	})
	model.Register(tm.mux, rt, p, tm.handler(i))
}

func newTableMux() *tableMux { return &tableMux{mux: web.New()} }

func (tm *tableMux) do(q model.Req) (*outcome, *http.Request) {
	tm.cur = &outcome{nf: tm.nf}
	rec := httptest.NewRecorder()
	r := q.HTTP()
	tm.wq, tm.rq = rec, r
	if q.Ctx {
		tm.mux.ServeHTTPC(q.C(), rec, r)
	} else {
		tm.mux.ServeHTTP(rec, r)
	}
	o := tm.cur
	o.code = rec.Code
	return o, r
}

// runTable drives the case, giving each request to judge.
func runTable(c tableCase, judge func(t *model.Table, q model.Req, o *outcome) error) error {
	tm := newTableMux()
	notFound := func() {
		tm.mux.NotFound(tm.handler(-1))
		tm.nf = true
	}
	if c.CustomNF && c.NFAt <= 0 {
		notFound()
	}
	tbl := model.NewTable(nil)
	for i, rt := range c.Routes {
		if i == c.Early && len(c.Reqs) > 0 {
			o, _ := tm.do(c.Reqs[0])
			if err := judge(tbl, c.Reqs[0], o); err != nil {
				return fmt.Errorf("after %d routes, request %+v: %w", i, c.Reqs[0], err)
			}
		}
		tm.add(i, rt)
		tbl.Add(rt)
		if c.CustomNF && c.NFAt == i+1 {
			notFound()
		}
	}
	if c.Compile {
		tm.mux.Compile()
	}
	for _, q := range c.Reqs {
		o, _ := tm.do(q)
		if err := judge(tbl, q, o); err != nil {
			return fmt.Errorf("request %+v: %w", q, err)
		}
	}
	return nil
}

func describe(t *model.Table, i int) string {
	if i < 0 {
		return "the not-found handler"
	}
	return fmt.Sprintf("route %d %+v", i, t.Routes[i])
}

func judgeRan(tbl *model.Table, q model.Req, o *outcome, nf bool) error {
	want, _ := tbl.Find(q.HTTP())
	if want < 0 && !nf {
		if len(o.ran) != 0 || o.code != http.StatusNotFound {
			return fmt.Errorf("no route accepts it, but handlers %v ran and the status is %d", o.ran, o.code)
		}
		return nil
	}
	if len(o.ran) != 1 {
		return fmt.Errorf("handlers %v ran; want exactly %s", o.ran, describe(tbl, want))
	}
	if o.ran[0] != want {
		return fmt.Errorf("%s ran; want %s", describe(tbl, o.ran[0]), describe(tbl, want))
	}
	return nil
}

func TestC01(t *testing.T) {
	rule := "C01: tables of string, regexp and custom routes over few shared prefixes, requests aimed at them and mutated; non-trivial when at least two routes' patterns accept a request of the case, or the winner is not the first route."
	check := func(r *pbt.R, c tableCase) error {
		return runTable(c, func(tbl *model.Table, q model.Req, o *outcome) error {
			req := q.HTTP()
			want, _ := tbl.Find(req)
			acc := 0
			for i := range tbl.Routes {
				if tbl.Accepts(i, req) {
					acc++
				}
			}
			r.NonTrivialIf(acc >= 2 || want > 0)
			r.LabelIf(want >= 0, "routed")
			r.LabelIf(want < 0, "not-found")
			r.LabelIf(want > 0, "winner-not-first")
			r.LabelIf(acc >= 2, "several-accept")
			r.LabelIf(len(tbl.Routes) > 20, "large-table")
			if err := judgeRan(tbl, q, o, o.nf); err != nil {
				return err
			}
			// Custom patterns that can win and were not excluded by their prefix
			// are consulted in the order they were added.
			seen := map[int]bool{}
			var order []int
			for _, id := range o.consult {
				if !seen[id] {
					seen[id] = true
					order = append(order, id)
				}
			}
			last := -1
			for _, id := range order {
				if len(string(q.Path)) < len(tbl.Routes[id].P.S) || string(q.Path)[:len(tbl.Routes[id].P.S)] != string(tbl.Routes[id].P.S) {
					continue
				}
				if id < last {
					return fmt.Errorf("custom patterns consulted in the order %v, which is not the order they were added", order)
				}
				last = id
			}
			for i, rt := range tbl.Routes {
				if want >= 0 && i > want {
					break
				}
				if rt.P.Kind == "fn" && len(q.Path) >= len(rt.P.S) && q.Path[:len(rt.P.S)] == rt.P.S && rt.MethodOK(q.M) && !seen[i] {
					return fmt.Errorf("custom pattern of %s was not consulted", describe(tbl, i))
				}
			}
			return nil
		})
	}
	pbt.Main(t, "C01", rule,
		pbt.P("table", 24000, 1200000, genTable(9), check),
		pbt.P("big-table", 1500, 60000, genTable(60), check),
		pbt.P("prefix-stress", 16000, 800000, genPrefixStress, check),
		pbt.P("large", 160, 6000, genLarge, checkLarge),
	)
}

// genPrefixStress makes tables whose prefixes nest deeply, with byte values that
// sort around each other: the shape the compiled prefix trie depends on.
func genPrefixStress(t *rapid.T) tableCase {
	alpha := []string{"a", "b", "/", "\x00", "\xff", "c"}
	pre := func() string {
		n := model.Int(t, "n", 0, 9)
		s := ""
		for i := 0; i < n; i++ {
			k := model.Int(t, "c", 0, 9)
			if k >= len(alpha) {
				k = 0
			}
			s += alpha[k]
		}
		return s
	}
	var c tableCase
	c.CustomNF = true
	c.Early = model.Int(t, "early", -2, 6)
	n := model.Int(t, "routes", 1, 12)
	var paths []string
	for i := 0; i < n; i++ {
		var p string
		if len(paths) > 0 && model.Chance(t, "derive", 60) {
			p = rapid.SampledFrom(paths).Draw(t, "from")
			if model.Chance(t, "cut", 50) {
				p = p[:model.Int(t, "at", 0, len(p))]
			} else {
				p += pre()
			}
		} else {
			p = pre()
		}
		paths = append(paths, p)
		rt := model.Route{M: model.Pick(t, "m", "*", "*", "GET", "POST")}
		if model.Chance(t, "lit", 25) {
			rt.P = model.Pat{Kind: "str", S: model.Str(p)}
		} else {
			rt.P = model.Pat{Kind: "fn", S: model.Str(p)}
			if model.Chance(t, "sub", 50) {
				rt.P.Sub = model.Str(model.Pick(t, "s", "a", "b", "/", "ab"))
			}
		}
		c.Routes = append(c.Routes, rt)
	}
	nq := model.Int(t, "reqs", 1, 6)
	for i := 0; i < nq; i++ {
		p := rapid.SampledFrom(paths).Draw(t, "path")
		switch model.Int(t, "how", 0, 4) {
		case 0:
			p = p[:model.Int(t, "at", 0, len(p))]
		case 1, 2:
			p += pre()
		}
		c.Reqs = append(c.Reqs, model.Req{M: model.Pick(t, "m", "GET", "POST", "PUT"), Path: model.Str(p)})
	}
	return c
}

// largeCase stands for a table and requests too large to be drawn choice by
// choice: they are derived from the seed.
type largeCase struct {
	Seed   uint64
	Routes int
	Reqs   int
	Long   int // length of a literal shared by some routes
	Fan    int // number of words per level of the prefix tree
}

func genLarge(t *rapid.T) largeCase {
	c := largeCase{Seed: rapid.Uint64().Draw(t, "seed"), Reqs: 60, Fan: model.Int(t, "fan", 1, 40)}
	switch model.Int(t, "size", 0, 9) {
	default:
		c.Routes = model.Int(t, "routes", 1, 400)
	case 7, 8:
		c.Routes = 250 + model.Int(t, "more", 0, 1500)
	case 9:
		c.Routes = model.Int(t, "few", 1, 30)
		c.Long = 190000 + model.Int(t, "long", 0, 20000)
	}
	if model.Chance(t, "longish", 20) {
		c.Long = model.Int(t, "len", 1, 70000)
	}
	return c
}

func (c largeCase) build() tableCase {
	s := c.Seed
	rnd := func(n int) int {
		s += 0x9e3779b97f4a7c15
		z := s
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		return int((z ^ z>>31) % uint64(n))
	}
	long := ""
	if c.Long > 0 {
		b := make([]byte, c.Long)
		for i := range b {
			b[i] = "ab/"[rnd(3)]
		}
		long = "/" + string(b)
	}
	tc := tableCase{CustomNF: true, Compile: rnd(2) == 0, Early: rnd(c.Routes+1) - 1, NFAt: rnd(3)}
	var paths []string
	for i := 0; i < c.Routes; i++ {
		p, q := "", ""
		if long != "" && rnd(c.Routes) < 4 {
			p = long[:len(long)-rnd(3)]
			q = p
		}
		for n := rnd(4); n >= 0; n-- {
			w := fmt.Sprintf("/w%d", rnd(c.Fan))
			p += w
			q += w
		}
		rt := model.Route{M: []string{"*", "GET", "POST", "PUT"}[rnd(4)]}
		switch rnd(6) {
		case 0:
			p += "/*"
			q += "/tail/more"
		case 1:
			for n := 1 + rnd(20); n > 0; n-- {
				v := fmt.Sprint(rnd(1000))
				p += fmt.Sprintf("/:p%d", n)
				q += "/" + v
			}
		case 2:
			rt.P = model.Pat{Kind: "fn", S: model.Str(p)}
			if rnd(2) == 0 {
				rt.P.Hdr = "1"
			}
		case 3:
			re := "^" + regexp.QuoteMeta(p)
			if len(p) > 500 {
				re = "^" + regexp.QuoteMeta(p[:500])
				q = p[:500]
			}
			for n := rnd(14); n > 0; n-- {
				re += "/([0-9]+)"
				q += fmt.Sprintf("/%d", rnd(1000))
			}
			rt.P = model.Pat{Kind: "re", S: model.Str(re + "$")}
		}
		if rt.P.Kind == "" {
			rt.P = model.Pat{Kind: "str", S: model.Str(p)}
		}
		tc.Routes = append(tc.Routes, rt)
		paths = append(paths, q)
	}
	for i := 0; i < c.Reqs; i++ {
		q := paths[rnd(len(paths))]
		switch rnd(6) {
		case 0:
			q = q[:rnd(len(q)+1)]
		case 1:
			q += "/x"
		}
		tc.Reqs = append(tc.Reqs, model.Req{M: []string{"GET", "GET", "POST", "PUT", "HEAD", "BREW"}[rnd(6)], Path: model.Str(q), Hdr: []string{"", "1"}[rnd(2)]})
	}
	return tc
}

func checkLarge(r *pbt.R, c largeCase) error {
	tc := c.build()
	r.LabelIf(len(tc.Routes) > 256, "more-than-256-routes")
	r.LabelIf(c.Long > 100000, "more-than-32768-states")
	err := runTable(tc, func(tbl *model.Table, q model.Req, o *outcome) error {
		want, b := tbl.Find(q.HTTP())
		r.NonTrivialIf(want > 0)
		if err := judgeRan(tbl, q, o, o.nf); err != nil {
			return err
		}
		if want >= 0 {
			return b.Check(nil, o.up)
		}
		return nil
	})
	if err != nil {
		if m := err.Error(); len(m) > 2000 {
			err = fmt.Errorf("%s [...] %s", m[:1000], m[len(m)-1000:])
		}
	}
	return err
}

func TestC03(t *testing.T) {
	rule := "C03: tables over few patterns with all registration methods and standard, odd-case and unknown request methods, some entering with an environment; non-trivial when some pattern accepts the path but the method decides (405-like), HEAD goes through GET, or an unknown method is routed."
	check := func(r *pbt.R, c tableCase) error {
		return runTable(c, func(tbl *model.Table, q model.Req, o *outcome) error {
			req := q.HTTP()
			want, _ := tbl.Find(req)
			valid := tbl.Valid(req)
			r.NonTrivialIf(want < 0 && len(valid) > 0)
			r.LabelIf(want < 0 && len(valid) > 0, "not-found-with-methods")
			r.LabelIf(want < 0 && len(valid) == 0, "not-found-without-methods")
			if want >= 0 {
				head := q.M == "HEAD" && tbl.Routes[want].M == "GET"
				odd := true
				for _, m := range model.StdMethods {
					odd = odd && m != q.M
				}
				r.NonTrivialIf(head || odd)
				r.LabelIf(head, "head-via-get")
				r.LabelIf(odd, "unknown-method-routed")
			}
			if err := judgeRan(tbl, q, o, o.nf); err != nil {
				return err
			}
			if want >= 0 || !o.nf {
				return nil
			}
			got, ok := o.env[web.ValidMethodsKey]
			if q.Ctx && q.Stale != nil {
				r.Label("entered-with-methods-of-an-outer-mux")
				if len(valid) == 0 {
					return nil // what becomes of the outer mux's list is not documented
				}
			}
			if len(valid) == 0 {
				if ok {
					return fmt.Errorf("valid methods reported as %v though no method would be routed", got)
				}
				return nil
			}
			if !ok || !reflect.DeepEqual(got, valid) {
				return fmt.Errorf("valid methods reported as %v (present: %v); want %v", got, ok, valid)
			}
			for k, v := range q.Env {
				if o.env[k] != v {
					return fmt.Errorf("environment entry %q lost", k)
				}
			}
			return nil
		})
	}
	gen := func(t *rapid.T) tableCase {
		c := genTable(8)(t)
		c.CustomNF = true
		// Concentrate on few patterns so that methods decide.
		if len(c.Routes) > 1 && model.Chance(t, "concentrate", 70) {
			for i := 1; i < len(c.Routes); i++ {
				if model.Chance(t, "same", 70) {
					c.Routes[i].P = c.Routes[0].P
				}
			}
		}
		for i := range c.Routes {
			if model.Chance(t, "specific", 70) {
				c.Routes[i].M = rapid.SampledFrom(model.StdMethods).Draw(t, "m")
			}
		}
		for i := range c.Reqs {
			if c.Reqs[i].Ctx && model.Chance(t, "stale", 30) {
				c.Reqs[i].Stale = rapid.SliceOfN(rapid.SampledFrom(model.StdMethods), 0, 3).Draw(t, "stalemethods")
			}
		}
		return c
	}
	pbt.Main(t, "C03", rule, pbt.P("methods", 30000, 1200000, gen, check))
}

func TestC06(t *testing.T) {
	rule := "C06: tables and requests entering with and without URL parameters and environment; non-trivial when a route other than the selected one accepts or the request enters with URL parameters. match: a single built-in pattern consulted with a context; non-trivial when it accepts and binds something."
	check := func(r *pbt.R, c tableCase) error {
		return runTable(c, func(tbl *model.Table, q model.Req, o *outcome) error {
			req := q.HTTP()
			want, b := tbl.Find(req)
			if err := judgeRan(tbl, q, o, o.nf); err != nil || len(o.ran) == 0 {
				return err
			}
			for i := range tbl.Routes {
				if i != want && tbl.Accepts(i, req) && (want < 0 || i < want) {
					r.NonTrivial()
					r.Label("unselected-route-accepts-path")
				}
			}
			r.NonTrivialIf(len(b) > 0 && q.UP != nil)
			r.LabelIf(q.UP != nil, "params-before")
			if d := model.DescribeReq(req); d != o.req {
				return fmt.Errorf("the request changed:\nbefore: %s\nafter:  %s", d, o.req)
			}
			var before map[string]string
			if q.Ctx {
				before = q.UP
			}
			if err := b.Check(before, o.up); err != nil {
				return fmt.Errorf("%s ran: %w", describe(tbl, want), err)
			}
			wantEnv := map[interface{}]interface{}{}
			if q.Ctx {
				for k, v := range q.Env {
					wantEnv[k] = v
				}
			}
			env := o.env
			if want < 0 {
				delete(env, web.ValidMethodsKey) // C03's business
			}
			if !reflect.DeepEqual(env, wantEnv) {
				return fmt.Errorf("environment is %v; want %v", env, wantEnv)
			}
			return nil
		})
	}
	type matchCase struct {
		P    model.Pat
		Path model.Str
		UP   map[string]string
		Nil  bool // nil *C
		Run  bool
	}
	gen := func(t *rapid.T) matchCase {
		var p model.Pat
		var s string
		if model.Chance(t, "re", 50) {
			p, s = model.RePat(t, model.LitPath(t))
		} else {
			p, s = model.StrPat(t, model.LitPath(t))
		}
		if model.Chance(t, "mutate", 30) {
			s = model.Mutate(t, s)
		}
		c := matchCase{P: p, Path: model.Str(s), Nil: model.Chance(t, "nil", 10), Run: model.Chance(t, "run", 30)}
		if model.Chance(t, "up", 60) {
			c.UP = map[string]string{"n": "outer", "keep": "kept", "*": "/o", "$1": "o1", "n1": "on1"}
		}
		return c
	}
	match := func(r *pbt.R, c matchCase) error {
		pat := web.ParsePattern(c.P.Build(0, nil))
		req := model.Req{M: "GET", Path: c.Path}.HTTP()
		b, ok := c.P.Compile().Accept(req)
		r.NonTrivialIf(ok && len(b) > 0 && !c.Nil)
		r.LabelIf(ok, "accepted")
		r.LabelIf(!ok, "rejected")
		before := model.DescribeReq(req)
		var cp *web.C
		if !c.Nil {
			cp = &web.C{}
			if c.UP != nil {
				cp.URLParams = model.CopyMap(c.UP)
			}
		}
		got := pat.Match(req, cp)
		if got != ok {
			return fmt.Errorf("Match is %v; want %v", got, ok)
		}
		if d := model.DescribeReq(req); d != before {
			return fmt.Errorf("Match changed the request: %s to %s", before, d)
		}
		if cp != nil {
			if (c.UP == nil) != (cp.URLParams == nil) || cp.Env != nil || len(c.UP) != len(cp.URLParams) {
				return fmt.Errorf("Match changed the context to %+v", *cp)
			}
			if err := (model.Bindings{}).Check(c.UP, cp.URLParams); err != nil {
				return fmt.Errorf("Match changed the context: %w", err)
			}
		}
		if c.Run && ok && cp != nil {
			pat.Run(req, cp)
			if d := model.DescribeReq(req); d != before {
				return fmt.Errorf("Run changed the request: %s to %s", before, d)
			}
			if err := b.Check(c.UP, cp.URLParams); err != nil {
				return fmt.Errorf("Run: %w", err)
			}
		}
		return nil
	}
	genCtx := func(t *rapid.T) tableCase {
		c := genTable(8)(t)
		c.CustomNF = true
		for i := range c.Reqs {
			if model.Chance(t, "up", 50) {
				c.Reqs[i].Ctx = true
				c.Reqs[i].UP = map[string]string{"n": "outer", "keep": "kept", "*": "/outer", "$1": "o1", "n1": "x"}
			}
		}
		return c
	}
	pbt.Main(t, "C06", rule,
		pbt.P("table", 20000, 900000, genCtx, check),
		pbt.P("match", 30000, 1500000, gen, match))
}

// patCase is one pattern against several paths, directly and through a mux.
type patCase struct {
	P     model.Pat
	Paths []model.Str
	Decoy []model.Pat // never-selected routes (other method) around it
}

func judgePattern(r *pbt.R, c patCase) error {
	pat := web.ParsePattern(c.P.Build(0, nil))
	comp := c.P.Compile()
	tm := newTableMux()
	tm.mux.NotFound(tm.handler(-1))
	for i, d := range c.Decoy {
		if i%2 == 0 {
			tm.add(100+i, model.Route{M: "TRACE", P: d})
		}
	}
	tm.add(0, model.Route{M: "GET", P: c.P})
	for i, d := range c.Decoy {
		if i%2 == 1 {
			tm.add(100+i, model.Route{M: "TRACE", P: d})
		}
	}
	for _, p := range c.Paths {
		q := model.Req{M: "GET", Path: p}
		b, ok := comp.Accept(q.HTTP())
		r.LabelIf(ok, "accepted")
		r.LabelIf(!ok, "rejected")
		r.NonTrivialIf(ok && len(b) > 0)
		if got := pat.Match(q.HTTP(), &web.C{}); got != ok {
			return fmt.Errorf("path %q: Match is %v; want %v", string(p), got, ok)
		}
		if ok {
			var cc web.C
			pat.Run(q.HTTP(), &cc)
			if err := b.Check(nil, cc.URLParams); err != nil {
				return fmt.Errorf("path %q: Run: %w", string(p), err)
			}
		}
		o, _ := tm.do(q)
		want := -1
		if ok {
			want = 0
		}
		if len(o.ran) != 1 || o.ran[0] != want {
			return fmt.Errorf("path %q: through a mux handlers %v ran; want [%d] (prefix %q)", string(p), o.ran, want, pat.Prefix())
		}
		if ok {
			if err := b.Check(nil, o.up); err != nil {
				return fmt.Errorf("path %q: through a mux: %w", string(p), err)
			}
		}
	}
	return nil
}

func genPaths(t *rapid.T, s string) []model.Str {
	out := []model.Str{model.Str(s)}
	n := model.Int(t, "paths", 0, 3)
	for i := 0; i < n; i++ {
		p := s
		switch model.Int(t, "how", 0, 3) {
		case 0:
			p = model.LitPath(t)
		case 1, 2:
			p = model.Mutate(t, p)
			for model.Chance(t, "more", 40) {
				p = model.Mutate(t, p)
			}
		case 3:
			p = s[:model.Int(t, "cut", 0, len(s))]
		}
		out = append(out, model.Str(p))
	}
	return out
}

func genDecoys(t *rapid.T, s string) []model.Pat {
	n := model.Int(t, "decoys", 0, 3)
	var out []model.Pat
	for i := 0; i < n; i++ {
		p, _ := model.AnyPat(t, s[:model.Int(t, "dcut", 0, len(s))])
		out = append(out, p)
	}
	return out
}

func TestC04(t *testing.T) {
	rule := "C04: string patterns from a token grammar (all break characters, odd names, wildcard tails, malformed colons, invalid UTF-8) against accepted, truncated and mutated paths, directly and through a mux with decoy routes; bytes: arbitrary pattern and path bytes; non-trivial when a path is accepted with at least one binding."
	gen := func(t *rapid.T) patCase {
		p, s := model.StrPat(t, model.LitPath(t))
		return patCase{P: p, Paths: genPaths(t, s), Decoy: genDecoys(t, s)}
	}
	raw := func(t *rapid.T) patCase {
		al := []byte("//::..;,*ab\xff\xc3\xa9\x00%")
		bs := func(l string, n int) string {
			return string(rapid.SliceOfN(rapid.SampledFrom(al), 0, n).Draw(t, l))
		}
		vs := func() string {
			b := []byte(bs("val", 3))
			for i := range b {
				if model.Chance(t, "any", 30) {
					b[i] = byte(model.Int(t, "hi", 0, 15)<<4 | model.Int(t, "lo", 0, 15))
				}
			}
			return string(b)
		}
		p := bs("pat", 12)
		c := patCase{P: model.Pat{Kind: "str", S: model.Str(p)}}
		n := model.Int(t, "n", 1, 4)
		for i := 0; i < n; i++ {
			// substitute names by text to get near matches
			var s string
			sub := vs()
			in := false
			for j := 0; j < len(p); j++ {
				if p[j] == ':' && j > 0 && (p[j-1] == '/' || p[j-1] == '.' || p[j-1] == ';' || p[j-1] == ',') {
					in = true
					s += sub
					continue
				}
				if p[j] == '/' || p[j] == '.' || p[j] == ';' || p[j] == ',' {
					in = false
				}
				if !in && !(p[j] == '*' && j == len(p)-1) {
					s += string(p[j])
				}
			}
			if model.Chance(t, "mut", 40) {
				s = model.Mutate(t, s)
			}
			c.Paths = append(c.Paths, model.Str(s))
		}
		return c
	}
	pbt.Main(t, "C04", rule,
		pbt.P("grammar", 30000, 1500000, gen, judgePattern),
		pbt.P("bytes", 30000, 1500000, raw, judgePattern))
}

func TestC05(t *testing.T) {
	rule := "C05: regular expressions from a grammar (anchors, alternations at every level, flags, classes, quotes, non-ASCII and U+FFFD literals, named and unnamed groups) against sampled, truncated and mutated paths including invalid UTF-8, directly and through a mux with decoy routes; non-trivial when a path is accepted with at least one binding or the expression contains an alternation."
	gen := func(t *rapid.T) patCase {
		p, s := model.RePat(t, model.LitPath(t))
		c := patCase{P: p, Paths: genPaths(t, s), Decoy: genDecoys(t, s)}
		if model.Chance(t, "prepend", 40) {
			// the match then does not begin at the first byte
			c.Paths = append(c.Paths, model.Str(model.Pick(t, "pp", "/x", "x", "\n", "/")+s))
		}
		return c
	}
	check := func(r *pbt.R, c patCase) error {
		for i := 0; i < len(c.P.S); i++ {
			if c.P.S[i] == '|' {
				r.NonTrivial()
				r.Label("alternation")
				break
			}
		}
		return judgePattern(r, c)
	}
	pbt.Main(t, "C05", rule, pbt.P("grammar", 30000, 1200000, gen, check))
}
