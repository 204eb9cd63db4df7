package webcheck

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"testing"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

func withTrack(ctx context.Context, t *ctxTrack) context.Context {
	return context.WithValue(ctx, trackKey{}, t)
}

// ---- C11: trees of sub-routers ---------------------------------------------

// node is a mux in a tree of muxes.
type node struct {
	Sub    bool // has the sub-router layer
	Router int  // 1: the router middleware is installed, innermost
	Leaves []leaf
}

// leaf is a route of a node: to a handler or to a nested node.
type leaf struct {
	R     model.Route
	Child *node     `json:",omitempty"`
	Act   string    `json:",omitempty"` // what the handler does to path, match or control flow
	ActS  model.Str `json:",omitempty"`
}

type treeCase struct {
	Root node
	Reqs []model.Req
}

func genNode(t *rapid.T, depth int, paths *[]string, prefix string) node {
	n := node{Sub: true, Router: model.Int(t, "router", 0, 1)}
	if model.Chance(t, "nosub", 12) {
		n.Sub = false
		n.Router = 0
	}
	k := model.Int(t, "leaves", 1, 4)
	for i := 0; i < k; i++ {
		l := leaf{}
		m := model.Pick(t, "m", "*", "*", "GET", "POST")
		if depth > 0 && model.Chance(t, "child", 55) {
			lit := model.LitPath(t)
			if lit[len(lit):] == "" && len(lit) > 0 && lit[len(lit)-1] == '/' {
				lit = lit[:len(lit)-1]
			}
			var s string
			switch model.Int(t, "how", 0, 3) {
			case 0, 1:
				l.R = model.Route{M: m, P: model.Pat{Kind: "str", S: model.Str(lit + "/*")}}
				s = lit
			case 2:
				l.R = model.Route{M: m, P: model.Pat{Kind: "str", S: model.Str(lit + "/:p" + fmt.Sprint(depth) + "/*")}}
				s = lit + "/" + model.Word(t)
			case 3:
				l.R = model.Route{M: m, P: model.Pat{Kind: "re", S: `^/re(?P<_>/.*)$`}}
				s = "/re"
				if model.Chance(t, "plainre", 30) {
					// binds neither: the layer is transparent
					l.R.P.S = `^/re/(x)`
				}
			}
			ch := genNode(t, depth-1, paths, prefix+s)
			l.Child = &ch
		} else {
			p, s := model.StrPat(t, "")
			if model.Chance(t, "re", 20) {
				p, s = model.RePat(t, "/")
			}
			l.R = model.Route{M: m, P: p}
			*paths = append(*paths, prefix+s)
			l.Act = model.Pick(t, "act", "", "", "", "path", "panic", "setmatch", "delmatch", "url")
			l.ActS = model.Str(model.Word(t))
		}
		n.Leaves = append(n.Leaves, l)
	}
	return n
}

func genTree(t *rapid.T) treeCase {
	var paths []string
	c := treeCase{}
	c.Root = genNode(t, 3, &paths, "")
	c.Root.Sub = false
	c.Reqs = model.GenReqs(t, 1, 5, paths)
	for i := range c.Reqs {
		if c.Reqs[i].M != "GET" && model.Chance(t, "get", 60) {
			c.Reqs[i].M = "GET"
		}
		c.Reqs[i].UP = nil // an outer "*" would make the root's layers part of a larger tree
	}
	return c
}

type treeEvent struct {
	where string // "enter", "handler", "nf"
	id    int
	path  string
	match bool
}

func checkTree(r *pbt.R, c treeCase) error {
	var log []treeEvent
	var fail error
	setFail := func(f string, a ...any) {
		if fail == nil {
			fail = fmt.Errorf(f, a...)
		}
	}
	ids := map[*leaf]int{}
	nodeIDs := map[*node]int{}
	tables := map[*node]*model.Table{}
	var build func(n *node) *web.Mux
	build = func(n *node) *web.Mux {
		nodeIDs[n] = len(nodeIDs)
		nid := nodeIDs[n]
		m := web.New()
		tables[n] = model.NewTable(nil)
		// Outermost: what must be restored. It sees the path and the stored match
		// before and after everything inside, however it ends.
		m.Use(func(cc *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				path := r.URL.Path
				match := web.GetMatch(*cc)
				up := cc.URLParams
				u := r.URL
				_, star := up["*"]
				_, under := up["_"]
				if n.Sub && (star || under) {
					defer func() {
						if r.URL != u {
							return // a handler replaced the URL object: not ours to restore
						}
						if r.URL.Path != path {
							setFail("node %d: path is %q after the sub-router, was %q", nid, r.URL.Path, path)
						}
						after := web.GetMatch(*cc)
						if match.Handler == nil {
							if _, ok := cc.Env[web.MatchKey]; ok {
								setFail("node %d: a stored match appeared after the sub-router", nid)
							}
						} else if !sameMatch(match, after) {
							setFail("node %d: stored match changed across the sub-router", nid)
						}
					}()
				}
				h.ServeHTTP(w, r)
			})
		})
		if n.Sub {
			m.Use(middleware.SubRouter)
		}
		m.Use(func(cc *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				log = append(log, treeEvent{"enter", nid, r.URL.Path, web.GetMatch(*cc).Handler != nil})
				h.ServeHTTP(w, r)
			})
		})
		if n.Router == 1 {
			m.Use(m.Router)
		}
		for i := range n.Leaves {
			l := &n.Leaves[i]
			ids[l] = 100 + len(ids)
			id := ids[l]
			tables[n].Add(l.R)
			if l.Child != nil {
				model.Register(m, l.R, l.R.P.Build(i, nil), build(l.Child))
				continue
			}
			act, acts := l.Act, string(l.ActS)
			model.Register(m, l.R, l.R.P.Build(i, nil), func(cc web.C, w http.ResponseWriter, r *http.Request) {
				log = append(log, treeEvent{"handler", id, r.URL.Path, false})
				switch act {
				case "path":
					r.URL.Path = acts
				case "url":
					r.URL.Path = acts
					r.URL.RawQuery = "q"
				case "setmatch":
					if cc.Env != nil {
						cc.Env[web.MatchKey] = web.Match{Handler: web.HandlerFunc(func(web.C, http.ResponseWriter, *http.Request) {})}
					}
				case "delmatch":
					delete(cc.Env, web.MatchKey)
				case "panic":
					r.URL.Path = acts
					panic("tree-boom")
				}
			})
		}
		m.NotFound(func(w http.ResponseWriter, r *http.Request) {
			log = append(log, treeEvent{"nf", nid, r.URL.Path, false})
		})
		return m
	}
	root := build(&c.Root)
	for _, q := range c.Reqs {
		log, fail = nil, nil
		// The model: recursive descent with an explicit path argument.
		var want []treeEvent
		sim := q.HTTP()
		undefined := false
		var walk func(n *node, up map[string]string, outerMatch bool, depth int)
		walk = func(n *node, up map[string]string, outerMatch bool, depth int) {
			path := sim.URL.Path
			match := outerMatch
			if n.Sub {
				if p, ok := up["*"]; ok {
					sim.URL.Path = p
					match = false
				} else if p, ok := up["_"]; ok {
					sim.URL.Path = p
					match = false
				}
			}
			want = append(want, treeEvent{"enter", nodeIDs[n], sim.URL.Path, match})
			if match && n.Router == 0 {
				// Without a sub-router layer (or with nothing bound) the outer
				// match would be picked up: the documented infinite loop. Not a
				// configuration anyone may use.
				undefined = true
				return
			}
			i, b := tables[n].Find(sim)
			if i < 0 {
				want = append(want, treeEvent{"nf", nodeIDs[n], sim.URL.Path, false})
				sim.URL.Path = path
				return
			}
			up2 := model.CopyMap(up)
			for k, vs := range b {
				up2[k] = vs[len(vs)-1]
			}
			l := &n.Leaves[i]
			if l.Child != nil {
				r.LabelIf(depth > 0, "nested-twice")
				walk(l.Child, up2, n.Router == 1, depth+1)
			} else {
				want = append(want, treeEvent{"handler", ids[l], sim.URL.Path, false})
				r.LabelIf(depth > 0, "leaf-in-subtree")
				r.NonTrivialIf(depth > 0)
				r.LabelIf(depth > 0 && l.Act != "", "act "+l.Act)
			}
			sim.URL.Path = path
		}
		var up map[string]string
		walk(&c.Root, up, false, 0)
		if undefined {
			r.Label("skipped: outer match would be picked up")
			continue
		}
		req := q.HTTP()
		func() {
			defer func() {
				if e := recover(); e != nil && e != "tree-boom" {
					panic(e)
				}
			}()
			if q.Ctx {
				root.ServeHTTPC(q.C(), httptest.NewRecorder(), req)
			} else {
				root.ServeHTTP(httptest.NewRecorder(), req)
			}
		}()
		if fail != nil {
			return fmt.Errorf("request %+v: %w", q, fail)
		}
		if !reflect.DeepEqual(log, want) {
			return fmt.Errorf("request %+v: trace %+v; want %+v", q, log, want)
		}
	}
	return nil
}

func sameMatch(a, b web.Match) bool {
	if (a.Handler == nil) != (b.Handler == nil) || (a.Pattern == nil) != (b.Pattern == nil) {
		return false
	}
	if a.Handler != nil && sameValue(a.RawHandler(), b.RawHandler()) != nil {
		return false
	}
	return a.Pattern == nil || sameValue(a.RawPattern(), b.RawPattern()) == nil
}

// subCase drives the layer itself with an arbitrary context.
type subCase struct {
	Path    model.Str
	Star    *model.Str
	Under   *model.Str
	Other   bool // other URL parameters present
	Match   bool
	NilEnv  bool
	Act     string
	Panic   bool
	ActPath model.Str
}

func genSub(t *rapid.T) subCase {
	c := subCase{Path: model.Str(model.LitPath(t)), Other: model.Chance(t, "other", 50), Match: model.Chance(t, "match", 50), NilEnv: model.Chance(t, "nilenv", 20)}
	if model.Chance(t, "star", 60) {
		s := model.Str(model.LitPath(t))
		c.Star = &s
	}
	if model.Chance(t, "under", 40) {
		s := model.Str(model.LitPath(t))
		c.Under = &s
	}
	if c.NilEnv {
		c.Match = false
	}
	c.Act = model.Pick(t, "act", "", "path", "setmatch", "delmatch", "newenv", "nilenv", "replacematch")
	c.ActPath = model.Str(model.LitPath(t))
	c.Panic = model.Chance(t, "panic", 30)
	return c
}

func checkSub(r *pbt.R, c subCase) error {
	cc := &web.C{}
	if c.Star != nil || c.Under != nil || c.Other {
		cc.URLParams = map[string]string{}
		if c.Star != nil {
			cc.URLParams["*"] = string(*c.Star)
		}
		if c.Under != nil {
			cc.URLParams["_"] = string(*c.Under)
		}
		if c.Other {
			cc.URLParams["x"] = "/not-this"
		}
	}
	if !c.NilEnv {
		cc.Env = map[interface{}]interface{}{"keep": 1}
	}
	mine := web.Match{Pattern: web.ParsePattern("/m"), Handler: web.HandlerFunc(func(web.C, http.ResponseWriter, *http.Request) {})}
	if c.Match {
		cc.Env[web.MatchKey] = mine
	}
	want := string(c.Path)
	bound := false
	if c.Star != nil {
		want, bound = string(*c.Star), true
	} else if c.Under != nil {
		want, bound = string(*c.Under), true
	}
	r.NonTrivialIf(bound)
	r.LabelIf(bound, "bound")
	r.LabelIf(!bound, "transparent")
	r.LabelIf(c.Panic, "panics")
	var err error
	other := web.Match{Handler: web.HandlerFunc(func(web.C, http.ResponseWriter, *http.Request) {})}
	ran := 0
	w := httptest.NewRecorder()
	req := model.Req{M: "GET", Path: c.Path}.HTTP()
	req.URL.RawPath = "raw"
	req.URL.RawQuery = "a=b"
	inner := http.HandlerFunc(func(w2 http.ResponseWriter, r2 *http.Request) {
		ran++
		if w2 != w || r2 != req {
			err = fmt.Errorf("another writer or request inside")
		}
		if r2.URL.Path != want {
			err = fmt.Errorf("path inside is %q; want %q", r2.URL.Path, want)
		}
		if has := web.GetMatch(*cc).Handler != nil; has != (c.Match && !bound) {
			err = fmt.Errorf("stored match visible inside: %v; had one: %v, bound: %v", has, c.Match, bound)
		}
		if !c.NilEnv && cc.Env["keep"] != 1 {
			err = fmt.Errorf("environment entry lost inside")
		}
		switch c.Act {
		case "path":
			r2.URL.Path = string(c.ActPath)
		case "setmatch", "replacematch":
			if cc.Env == nil {
				cc.Env = map[interface{}]interface{}{}
			}
			cc.Env[web.MatchKey] = other
		case "delmatch":
			delete(cc.Env, web.MatchKey)
		case "newenv":
			cc.Env = map[interface{}]interface{}{"keep": 1, web.MatchKey: other}
		case "nilenv":
			cc.Env = nil
		}
		if c.Panic {
			panic("sub-boom")
		}
	})
	func() {
		defer func() {
			e := recover()
			if (e == "sub-boom") != c.Panic || (e != nil && e != "sub-boom") {
				err = fmt.Errorf("panic not passed on: %v", e)
			}
		}()
		middleware.SubRouter(cc, inner).ServeHTTP(w, req)
	}()
	if err != nil {
		return err
	}
	if ran != 1 {
		return fmt.Errorf("inner handler ran %d times", ran)
	}
	if !bound {
		return nil
	}
	if req.URL.Path != string(c.Path) || req.URL.RawPath != "raw" || req.URL.RawQuery != "a=b" {
		return fmt.Errorf("URL after: %+v; the path was %q", *req.URL, string(c.Path))
	}
	if c.Act == "nilenv" {
		return nil // nowhere left to put a match back
	}
	got := web.GetMatch(*cc)
	if c.Match && !sameMatch(got, mine) {
		return fmt.Errorf("stored match not restored")
	}
	if !c.Match {
		if _, ok := cc.Env[web.MatchKey]; ok {
			return fmt.Errorf("a stored match appeared that was not there before")
		}
	}
	return nil
}

func TestC11(t *testing.T) {
	pbt.Main(t, "C11", "C11: tree: trees of muxes up to four deep composed with sub-routers, with and without explicit routing, handlers that change path and match or panic, compared with recursive descent over explicit paths; non-trivial when a handler inside a subtree runs. layer: the layer alone under an arbitrary context; non-trivial when a tail is bound.",
		pbt.P("tree", 30000, 1200000, genTree, checkTree),
		pbt.P("layer", 20000, 600000, genSub, checkSub))
}

// ---- C12: context flow through nested muxes ---------------------------------

type flowNode struct {
	Env    bool // a layer writes to the environment (creating it if needed)
	Init   bool // EnvInit installed first
	ReqID  bool
	Via    string // how the next level is mounted: "mux", "handlerfunc", "cfunc", "nethttp", "middleware", "notfound"
	Writes bool   // the level writes on its way out
	NewEnv bool   // the inner level replaces its own environment by a fresh map
}

type flowCase struct {
	Levels []flowNode
	Ctx    bool
	Env    bool
	Path   int
}

func genFlow(t *rapid.T) flowCase {
	c := flowCase{Ctx: model.Chance(t, "ctx", 50), Env: model.Chance(t, "env", 60)}
	n := model.Int(t, "levels", 1, 5)
	for i := 0; i < n; i++ {
		c.Levels = append(c.Levels, flowNode{
			Env: model.Chance(t, "env", 60), Init: model.Chance(t, "init", 30), ReqID: model.Chance(t, "reqid", 25),
			Via:    model.Pick(t, "via", "mux", "mux", "handlerfunc", "cfunc", "nethttp", "both", "notfound"),
			Writes: model.Chance(t, "writes", 60), NewEnv: model.Chance(t, "newenv", 20),
		})
	}
	return c
}

// flowState is the model's context: maps shared or not exactly as Go values are.
type flowState struct {
	env map[interface{}]interface{}
	up  map[string]string
}

// bothMux mounts a mux behind a type that is both kinds of handler.
type bothMux struct{ m *web.Mux }

func (b bothMux) ServeHTTP(w http.ResponseWriter, r *http.Request) { b.m.ServeHTTP(w, r) }
func (b bothMux) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) {
	b.m.ServeHTTPC(c, w, r)
}

func checkFlow(r *pbt.R, c flowCase) error {
	var fail error
	setFail := func(f string, a ...any) {
		if fail == nil {
			fail = fmt.Errorf(f, a...)
		}
	}
	// expected[i] is what level i must see, computed while running from what
	// level i-1 itself holds at the time of the call.
	var expected *flowState
	visited := 0
	eq := func(where string, cc web.C, want *flowState) {
		env := map[interface{}]interface{}{}
		for k, v := range cc.Env {
			if k != middleware.RequestIDKey && k != web.ValidMethodsKey {
				env[k] = v
			}
		}
		wenv := map[interface{}]interface{}{}
		for k, v := range want.env {
			if k != middleware.RequestIDKey && k != web.ValidMethodsKey {
				wenv[k] = v
			}
		}
		if !reflect.DeepEqual(env, wenv) {
			setFail("%s: environment %v; want %v", where, env, wenv)
		}
		if !reflect.DeepEqual(model.CopyMap(cc.URLParams), model.CopyMap(want.up)) {
			setFail("%s: URL parameters %v; want %v", where, cc.URLParams, want.up)
		}
	}
	copyState := func(cc web.C) *flowState {
		s := &flowState{env: map[interface{}]interface{}{}, up: model.CopyMap(cc.URLParams)}
		for k, v := range cc.Env {
			s.env[k] = v
		}
		return s
	}
	var build func(i int) *web.Mux
	build = func(i int) *web.Mux {
		lv := c.Levels[i]
		m := web.New()
		if lv.Init {
			m.Use(middleware.EnvInit)
		}
		if lv.ReqID {
			m.Use(middleware.RequestID)
		}
		m.Use(func(cc *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				visited++
				eq(fmt.Sprintf("level %d on entry", i), *cc, expected)
				if lv.NewEnv {
					cc.Env = map[interface{}]interface{}{}
				}
				if lv.Env {
					if cc.Env == nil {
						cc.Env = map[interface{}]interface{}{}
					}
					cc.Env[fmt.Sprint("in", i)] = i
				}
				before := cc.Env
				h.ServeHTTP(w, r)
				// Calling inner levels must not have replaced or cleared our own
				// context, and entries written into this map by context-passing
				// levels are visible.
				if (before == nil) != (cc.Env == nil) || reflect.ValueOf(before).Pointer() != reflect.ValueOf(cc.Env).Pointer() {
					if !(before == nil && cc.Env != nil && len(cc.Env) == 1 && cc.Env[web.ValidMethodsKey] != nil) {
						setFail("level %d: its environment was replaced while inner levels ran", i)
					}
				}
				if lv.Env && cc.Env[fmt.Sprint("in", i)] != i {
					setFail("level %d: its own entry is gone after the inner levels ran", i)
				}
				if i+1 < len(c.Levels) {
					in := c.Levels[i+1]
					shared := lv.Via != "nethttp" && before != nil && !in.NewEnv && in.Writes
					if _, ok := cc.Env[fmt.Sprint("out", i+1)]; ok != shared {
						setFail("level %d: entry written on the way out by level %d visible: %v; want %v (mounted as %s)", i, i+1, ok, shared, lv.Via)
					}
					r2 := visited
					_ = r2
				}
				if lv.Writes && cc.Env != nil {
					cc.Env[fmt.Sprint("out", i)] = i
				}
			})
		})
		seg := fmt.Sprint("p", i)
		// the innermost handler, or the mount of the next level
		if i+1 == len(c.Levels) {
			m.Handle("/:"+seg+"/*", func(cc web.C, w http.ResponseWriter, r *http.Request) {
				visited++
				if cc.URLParams[seg] != "v" {
					setFail("innermost handler: %q is %q", seg, cc.URLParams[seg])
				}
			})
			return m
		}
		inner := build(i + 1)
		prep := func(cc web.C) { expected = copyState(cc) }
		switch lv.Via {
		case "mux", "both":
			// the context is computed by the router just before the call; compute
			// the expectation in a pattern that runs last
			var h web.HandlerType = inner
			if lv.Via == "both" {
				h = bothMux{inner}
			}
			m.Handle(lastPattern{web.ParsePattern("/:" + seg + "/*"), prep}, h)
		case "handlerfunc":
			m.Handle("/:"+seg+"/*", web.HandlerFunc(func(cc web.C, w http.ResponseWriter, r *http.Request) {
				prep(cc)
				inner.ServeHTTPC(cc, w, r)
			}))
		case "cfunc":
			m.Handle("/:"+seg+"/*", func(cc web.C, w http.ResponseWriter, r *http.Request) {
				prep(cc)
				inner.ServeHTTPC(cc, w, r)
			})
		case "nethttp":
			m.Handle("/:"+seg+"/*", func(w http.ResponseWriter, r *http.Request) {
				expected = &flowState{}
				http.StripPrefix("", inner).ServeHTTP(w, r)
			})
		case "notfound":
			m.Get(lastPattern{web.ParsePattern("/never"), nil}, http.NotFoundHandler())
			m.NotFound(func(cc web.C, w http.ResponseWriter, r *http.Request) {
				prep(cc)
				inner.ServeHTTPC(cc, w, r)
			})
		}
		return m
	}
	root := build(0)
	expected = &flowState{}
	var in web.C
	if c.Ctx {
		if c.Env {
			in.Env = map[interface{}]interface{}{"caller": "x"}
		}
		in.URLParams = map[string]string{"callerparam": "y"}
		expected = copyState(in)
	}
	req := model.Req{M: "POST", Path: "/v/tail"}.HTTP()
	if c.Ctx {
		root.ServeHTTPC(in, httptest.NewRecorder(), req)
	} else {
		root.ServeHTTP(httptest.NewRecorder(), req)
	}
	if fail != nil {
		return fail
	}
	if visited != len(c.Levels)+1 {
		return fmt.Errorf("%d of %d levels ran", visited, len(c.Levels)+1)
	}
	if c.Ctx && c.Env {
		if in.Env["caller"] != "x" {
			return fmt.Errorf("the caller's own environment entry is gone")
		}
		lv := c.Levels[0]
		if _, ok := in.Env["out0"]; ok != (lv.Writes && !lv.NewEnv) {
			return fmt.Errorf("the entry written by the outermost level is visible to the caller: %v", ok)
		}
	}
	r.NonTrivialIf(len(c.Levels) > 1)
	for _, l := range c.Levels {
		r.Label("mounted " + l.Via)
	}
	return nil
}

// lastPattern runs a callback after binding.
type lastPattern struct {
	web.Pattern
	after func(web.C)
}

func (p lastPattern) Run(r *http.Request, c *web.C) {
	p.Pattern.Run(r, c)
	if p.after != nil {
		p.after(*c)
	}
}

func TestC12(t *testing.T) {
	pbt.Main(t, "C12", "C12: chains of up to five muxes mounted as context handlers, functions, dual-kind handlers, not-found handlers or plain net/http handlers, with layers that write to, initialise or replace the environment; every level compares its entry context with what its caller held; non-trivial when there are at least two levels.",
		pbt.P("chain", 30000, 1000000, genFlow, checkFlow))
}
