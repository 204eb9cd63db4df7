package model

import (
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"

	"github.com/zenazn/goji/web"
	"pgregory.net/rapid"
)

// StdMethods are the methods with a registration function of their own.
var StdMethods = []string{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"}

// OddMethods are other things a client may send.
var OddMethods = []string{"BREW", "get", "Get", "", "PROPFIND", "GETT", "HEA", "PO ST", "LINK", "*"}

// Route is one entry of a route table; M is a method or "*" for Handle.
type Route struct {
	M string
	P Pat
}

// Req is one request.
type Req struct {
	M    string
	Path Str
	Hdr  string            `json:",omitempty"` // X-V header
	Ctx  bool              `json:",omitempty"` // entered through ServeHTTPC with this context:
	Env  map[string]string `json:",omitempty"`
	UP   map[string]string `json:",omitempty"`
	// Stale: the environment has the valid methods found by an outer mux already.
	Stale []string `json:",omitempty"`
	// The escaped form of the path as the client sent it, when it is not the
	// default one, and a query string. Neither has a part in routing.
	RawPath, RawQuery string `json:",omitempty"`
}

// EscapePath draws an escaped form of a path that differs from the usual one.
func EscapePath(t *rapid.T, path string) string {
	var b strings.Builder
	for i := 0; i < len(path); i++ {
		c := path[i]
		plain := c >= 'a' && c <= 'z' || c == '/' || c == '.' || c == '_'
		if plain && !Chance(t, "escape", 40) {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	if u := b.String(); u != (&url.URL{Path: path}).EscapedPath() {
		return u
	}
	return ""
}

// HTTP builds the request.
func (q Req) HTTP() *http.Request {
	r := &http.Request{
		Method: q.M, URL: &url.URL{Path: string(q.Path), RawPath: q.RawPath, RawQuery: q.RawQuery},
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"X-Other": {"o"}}, Host: "h.example", RemoteAddr: "192.0.2.1:1234",
		RequestURI: "/uri",
	}
	if q.Hdr != "" {
		r.Header.Set("X-V", q.Hdr)
	}
	return r
}

// C builds the context the request enters with.
func (q Req) C() web.C {
	var c web.C
	if q.Env != nil {
		c.Env = map[interface{}]interface{}{}
		for k, v := range q.Env {
			c.Env[k] = v
		}
	}
	if q.Stale != nil {
		if c.Env == nil {
			c.Env = map[interface{}]interface{}{}
		}
		c.Env[web.ValidMethodsKey] = q.Stale
	}
	if q.UP != nil {
		c.URLParams = map[string]string{}
		for k, v := range q.UP {
			c.URLParams[k] = v
		}
	}
	return c
}

// MethodOK is the documented method rule.
func (rt Route) MethodOK(m string) bool {
	return rt.M == "*" || rt.M == m || rt.M == "GET" && m == "HEAD"
}

// Table is a compiled route table.
type Table struct {
	Routes []Route
	comp   []*Compiled
}

// NewTable compiles.
func NewTable(rs []Route) *Table {
	t := &Table{}
	for _, r := range rs {
		t.Add(r)
	}
	return t
}

// Add appends a route.
func (t *Table) Add(r Route) {
	t.Routes = append(t.Routes, r)
	t.comp = append(t.comp, r.P.Compile())
}

// Find tries the routes one by one in the order they were added.
func (t *Table) Find(r *http.Request) (int, Bindings) {
	for i, rt := range t.Routes {
		if !rt.MethodOK(r.Method) {
			continue
		}
		if b, ok := t.comp[i].Accept(r); ok {
			return i, b
		}
	}
	return -1, nil
}

// Accepts reports whether route i's pattern accepts the request.
func (t *Table) Accepts(i int, r *http.Request) bool {
	_, ok := t.comp[i].Accept(r)
	return ok
}

// Valid lists the standard methods that would have been routed.
func (t *Table) Valid(r *http.Request) []string {
	var out []string
	for _, m := range StdMethods {
		r2 := *r
		r2.Method = m
		if i, _ := t.Find(&r2); i >= 0 {
			out = append(out, m)
		}
	}
	sort.Strings(out)
	return out
}

// Register adds a route to a mux through the method-specific functions.
func Register(m *web.Mux, rt Route, p web.PatternType, h web.HandlerType) {
	switch rt.M {
	case "*":
		m.Handle(p, h)
	case "CONNECT":
		m.Connect(p, h)
	case "DELETE":
		m.Delete(p, h)
	case "GET":
		m.Get(p, h)
	case "HEAD":
		m.Head(p, h)
	case "OPTIONS":
		m.Options(p, h)
	case "PATCH":
		m.Patch(p, h)
	case "POST":
		m.Post(p, h)
	case "PUT":
		m.Put(p, h)
	case "TRACE":
		m.Trace(p, h)
	default:
		panic("bad method " + rt.M)
	}
}

// GenRoutes draws a route table and paths that its routes probably accept.
func GenRoutes(t *rapid.T, max int, methods func(*rapid.T) string) ([]Route, []string) {
	// Few shared prefixes make routes overlap and nest.
	base := []string{"", "/"}
	nb := Int(t, "bases", 1, 5)
	for i := 0; i < nb; i++ {
		b := LitPath(t)
		if i > 0 && Chance(t, "extend", 60) {
			b = strings.TrimSuffix(base[len(base)-1], "/") + b
		}
		base = append(base, b)
		if Chance(t, "cutbase", 40) {
			base = append(base, b[:Int(t, "cut", 0, len(b))])
		}
	}
	n := Int(t, "routes", 0, max)
	var rs []Route
	var paths []string
	for i := 0; i < n; i++ {
		p, s := AnyPat(t, rapid.SampledFrom(base).Draw(t, "base"))
		rs = append(rs, Route{M: methods(t), P: p})
		paths = append(paths, s)
		if Chance(t, "dup", 15) {
			rs = append(rs, Route{M: methods(t), P: p})
		}
	}
	return rs, paths
}

// GenMethod draws the method of a route.
func GenMethod(t *rapid.T) string {
	if Chance(t, "all", 35) {
		return "*"
	}
	if Chance(t, "common", 60) {
		return Pick(t, "m", "GET", "POST", "HEAD")
	}
	return rapid.SampledFrom(StdMethods).Draw(t, "m")
}

// GenReqMethod draws the method of a request.
func GenReqMethod(t *rapid.T) string {
	switch Int(t, "rm", 0, 9) {
	case 0, 1, 2, 3:
		return "GET"
	case 4:
		return rapid.SampledFrom(OddMethods).Draw(t, "om")
	default:
		return rapid.SampledFrom(StdMethods).Draw(t, "sm")
	}
}

// GenReqs draws requests aimed at the given paths.
func GenReqs(t *rapid.T, min, max int, paths []string) []Req {
	n := Int(t, "reqs", min, max)
	var qs []Req
	for i := 0; i < n; i++ {
		q := Req{M: GenReqMethod(t)}
		var p string
		if len(paths) > 0 && !Chance(t, "free", 15) {
			p = rapid.SampledFrom(paths).Draw(t, "path")
			for Chance(t, "mutate", 30) {
				p = Mutate(t, p)
			}
		} else {
			p = LitPath(t)
		}
		q.Path = Str(p)
		if Chance(t, "raw", 25) {
			q.RawPath = EscapePath(t, p)
		}
		if Chance(t, "query", 25) {
			q.RawQuery = Pick(t, "rq", "a=b", "/a/b", "x=/foo;y", "%")
		}
		if Chance(t, "xv", 40) {
			q.Hdr = Pick(t, "v", "1", "2", "3")
		}
		if Chance(t, "ctx", 40) {
			q.Ctx = true
			if Chance(t, "env", 60) {
				q.Env = map[string]string{"k": "v", "other": "w"}
			}
			if Chance(t, "up", 60) {
				q.UP = map[string]string{"n": "outer", "keep": "kept", "*": "/outer", "$1": "o1"}
			}
		}
		qs = append(qs, q)
	}
	return qs
}

// CopyMap copies.
func CopyMap(m map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

// DescribeReq is a comparable description of everything in a request a handler
// could look at.
func DescribeReq(r *http.Request) string {
	var hs []string
	for k, v := range r.Header {
		hs = append(hs, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(hs)
	return fmt.Sprintf("%q %q %+v %q %q %q %q %v %v %v %v", r.Method, r.URL.Path, *r.URL, hs, r.Host, r.RemoteAddr, r.RequestURI, r.Proto, r.Form, r.PostForm, r.ContentLength)
}
