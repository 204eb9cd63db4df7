package model

import (
	"fmt"
	"net/http"
	"regexp"
	"strings"

	"github.com/zenazn/goji/web"
)

// Pat describes a pattern.
type Pat struct {
	Kind string // "str", "re" or "fn"
	S    Str    // the pattern or expression; for fn the prefix
	// fn only: the rest of the path must contain Sub, and the header X-V must
	// equal Hdr unless Hdr is empty.
	Sub  Str    `json:",omitempty"`
	Hdr  string `json:",omitempty"`
	Bind string `json:",omitempty"` // name bound to the path by Run
	Ptr  bool   `json:",omitempty"` // registered through a pointer type
}

// FnPattern is a custom pattern. It keeps its declared promise: it only accepts
// paths starting with its prefix.
type FnPattern struct {
	P       Pat
	ID      int
	Consult *Hook // a pointer, so that values are comparable
}

// Hook is told about consultations.
type Hook struct{ F func(id int) }

func (f FnPattern) Prefix() string { return string(f.P.S) }
func (f FnPattern) Match(r *http.Request, c *web.C) bool {
	if f.Consult.F != nil {
		f.Consult.F(f.ID)
	}
	return f.P.acceptFn(r)
}
func (f FnPattern) Run(r *http.Request, c *web.C) {
	if f.P.Bind == "" {
		return
	}
	if c.URLParams == nil {
		c.URLParams = map[string]string{}
	}
	c.URLParams[f.P.Bind] = r.URL.Path
}

func (p Pat) acceptFn(r *http.Request) bool {
	if !strings.HasPrefix(r.URL.Path, string(p.S)) {
		return false
	}
	if !strings.Contains(r.URL.Path[len(p.S):], string(p.Sub)) {
		return false
	}
	return p.Hdr == "" || r.Header.Get("X-V") == p.Hdr
}

// Fn builds the custom pattern value for p.
func (p Pat) Fn(id int, consult func(int)) web.PatternType {
	f := &FnPattern{P: p, ID: id, Consult: &Hook{consult}}
	if p.Ptr {
		return f
	}
	return *f
}

// Build makes the value to register.
func (p Pat) Build(id int, consult func(int)) web.PatternType {
	switch p.Kind {
	case "str":
		return string(p.S)
	case "re":
		return regexp.MustCompile(string(p.S))
	case "fn":
		return p.Fn(id, consult)
	}
	panic("bad pattern kind " + p.Kind)
}

// Compiled is a pattern ready for the reference matcher.
type Compiled struct {
	P  Pat
	sp StrPattern
	re *regexp.Regexp
}

// Compile prepares the oracle.
func (p Pat) Compile() *Compiled {
	c := &Compiled{P: p}
	switch p.Kind {
	case "str":
		c.sp = ParseStr(string(p.S))
	case "re":
		c.re = regexp.MustCompile(string(p.S))
	}
	return c
}

// Accept is the documented meaning of the pattern: does it accept the request,
// and what does it bind?
func (c *Compiled) Accept(r *http.Request) (Bindings, bool) {
	path := r.URL.Path
	switch c.P.Kind {
	case "str":
		return c.sp.Match(path)
	case "re":
		// The leftmost match starts at 0 iff there is any match starting there.
		loc := c.re.FindStringSubmatchIndex(path)
		if loc == nil || loc[0] != 0 {
			return nil, false
		}
		b := Bindings{}
		for i, n := range c.re.SubexpNames() {
			if i == 0 {
				continue
			}
			if n == "" {
				n = fmt.Sprintf("$%d", i)
			}
			v := ""
			if loc[2*i] >= 0 {
				v = path[loc[2*i]:loc[2*i+1]]
			}
			b[n] = append(b[n], v)
		}
		return b, true
	case "fn":
		if !c.P.acceptFn(r) {
			return nil, false
		}
		b := Bindings{}
		if c.P.Bind != "" {
			b[c.P.Bind] = []string{path}
		}
		return b, true
	}
	panic("kind")
}

// Check compares observed URL parameters with what was there before plus b.
func (b Bindings) Check(before, got map[string]string) error {
	for k, vs := range b {
		g, ok := got[k]
		if !ok {
			return fmt.Errorf("parameter %q is not bound; want %q", k, vs)
		}
		found := false
		for _, v := range vs {
			found = found || v == g
		}
		if !found {
			return fmt.Errorf("parameter %q is bound to %q; want %q", k, g, vs)
		}
	}
	for k, v := range before {
		if _, ok := b[k]; ok {
			continue
		}
		if g, ok := got[k]; !ok || g != v {
			return fmt.Errorf("parameter %q was %q before and is now %q (present: %v)", k, v, g, ok)
		}
	}
	for k, v := range got {
		_, o1 := b[k]
		_, o2 := before[k]
		if !o1 && !o2 {
			return fmt.Errorf("parameter %q=%q was bound by nothing that was selected", k, v)
		}
	}
	return nil
}
