package mwcheck

import (
	"errors"
	"fmt"
	"log"
	"net/http"
	"os"
	"strings"
	"testing"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ---- C16 -------------------------------------------------------------------

type recReq struct {
	Wire  wire
	Ops   []op
	At    int    // operation before which the handler panics; -1 never
	Value string // kind of panic value
	Layer string // "", "pre", "post": a layer inside panics too
}

type recCase struct {
	Stack []string // outermost first; contains recover
	Reqs  []recReq
}

type badStringer struct{}

func (badStringer) String() string { panic("no string") }

type point struct{ X, Y int }

func panicValue(kind string) (v any) {
	switch kind {
	case "string":
		return "boom"
	case "multiline":
		return "first line\nsecond line"
	case "empty":
		return ""
	case "error":
		return errors.New("an error")
	case "int":
		return 42
	case "zero":
		return 0
	case "false":
		return false
	case "struct":
		return point{1, 2}
	case "ptr":
		return &point{3, 4}
	case "nilptr":
		return (*point)(nil)
	case "nilerr":
		return (*os.PathError)(nil)
	case "stringer":
		return badStringer{}
	case "percent":
		return "100%d of 50%, %s%!(NOVERB)%%"
	case "pcterr":
		return fmt.Errorf("open %q: %w", "/a%20b%v", errors.New("%x"))
	case "pctstruct":
		return struct{ A, B string }{"%s", "%[3]d"}
	case "slice":
		return []string{"a", "b"}
	case "map":
		return map[string]int{"k": 1}
	}
	panic("kind " + kind)
}

var panicKinds = []string{"string", "multiline", "empty", "error", "int", "zero", "false", "struct", "ptr", "nilptr", "nilerr", "stringer", "slice", "map", "percent", "pcterr", "pctstruct", "nilderef", "index", "nilmap"}

func doPanic(kind string) {
	switch kind {
	case "nilderef":
		var p *point
		p.X = 1
	case "index":
		var s []int
		_ = s[len(kind)]
	case "nilmap":
		var m map[string]int
		m["a"] = 1
	}
	panic(panicValue(kind))
}

// texts returns the renderings of the value a panic of this kind has.
func texts(kind string) []string {
	var v any
	func() {
		defer func() { v = recover() }()
		doPanic(kind)
	}()
	if kind == "stringer" || kind == "nilerr" || kind == "empty" {
		return []string{""} // formatting such values is fmt's business
	}
	return textsOf(v)
}

func textsOf(v any) []string {
	return []string{fmt.Sprintf("%+v", v), fmt.Sprintf("%v", v), fmt.Sprintf("%#v", v), fmt.Sprintf("%q", fmt.Sprint(v))}
}

func genRec(t *rapid.T) recCase {
	var c recCase
	c.Stack = rapid.SampledFrom([][]string{
		{"recover"}, {"reqid", "recover"}, {"reqid", "logger", "recover"}, {"reqid", "logger", "recover", "options"},
		{"logger", "recover"}, {"recover", "reqid"}, {"recover", "env"}, {"recover", "recover"}, {"reqid", "recover", "nocache"},
	}).Draw(t, "stack")
	n := model.Int(t, "reqs", 1, 3)
	for i := 0; i < n; i++ {
		q := recReq{Wire: genWire(t), At: -1}
		q.Ops = fixLengths(fixHijack(genOps(t, genOpts{flush: true, hijack: true, badCode: true, maxOps: 5})))
		if model.Chance(t, "panics", 75) {
			switch model.Int(t, "where", 0, 5) {
			case 0:
				q.Layer = "pre"
			case 1:
				q.Layer = "post"
			default:
				q.At = model.Int(t, "at", 0, len(q.Ops))
			}
			q.Value = rapid.SampledFrom(panicKinds).Draw(t, "value")
		}
		c.Reqs = append(c.Reqs, q)
	}
	return c
}

var mws = map[string]interface{}{
	"recover": middleware.Recoverer,
	"reqid":   middleware.RequestID,
	"logger":  middleware.Logger,
	"options": middleware.AutomaticOptions,
	"env":     middleware.EnvInit,
	"nocache": middleware.NoCache,
}

// sentFinal tells whether a script sent a final status.
func sentFinal(ops []op, res []result) bool {
	for i, o := range ops {
		if i >= len(res) {
			break
		}
		if res[i].skip || res[i].panic != "" {
			continue
		}
		switch o.Op {
		case "write", "wstr", "flush":
			return true
		case "copy":
			if res[i].n > 0 || o.N > 0 && o.Kind != "errnow" {
				return true
			}
			if o.Kind == "wt" && o.N == 0 {
				continue
			}
		case "status":
			if o.Code >= 200 || o.Code == 101 {
				return true
			}
		}
	}
	return false
}

func hijackedIn(ops []op, res []result) bool {
	for i := range res {
		if ops[i].Op == "hijack" && !res[i].skip && res[i].panic == "" {
			return true
		}
	}
	return false
}

var devNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

// quiet keeps stack traces the code under test prints out of our output.
func quiet(f func()) {
	old := os.Stderr
	os.Stderr = devNull
	defer func() { os.Stderr = old }()
	f()
}

func checkRecover(r *pbt.R, c recCase) error {
	type obs struct {
		res      []result
		reqID    string
		panicked bool
		value    any // of a panic raised by an operation
		escaped  any
	}
	var cur recReq
	var o *obs
	m := web.New()
	idFirst := false
	seenID := false
	for _, s := range c.Stack {
		if s == "reqid" {
			seenID = true
		}
		if s == "recover" && seenID {
			idFirst = true
		}
		m.Use(mws[s])
	}
	m.Use(func(ctx *web.C, h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			o.reqID = middleware.GetReqID(*ctx)
			if cur.Layer == "pre" {
				o.panicked = true
				doPanic(cur.Value)
			}
			h.ServeHTTP(w, r)
			if cur.Layer == "post" {
				o.panicked = true
				doPanic(cur.Value)
			}
		})
	})
	m.Handle("/*", func(w http.ResponseWriter, r *http.Request) {
		for i, p := range cur.Ops {
			if i == cur.At {
				o.panicked = true
				doPanic(cur.Value)
			}
			func() {
				defer func() {
					if v := recover(); v != nil {
						o.panicked, o.value = true, v
						panic(v)
					}
				}()
				o.res = append(o.res, doOp(w, i, p, nil))
			}()
		}
		if cur.At == len(cur.Ops) {
			o.panicked = true
			doPanic(cur.Value)
		}
	})
	for qi, q := range c.Reqs {
		cur = q
		o = &obs{}
		var raw []byte
		var logged string
		quiet(func() {
			logged = captureLog(func(l *logBuf) {
				raw = q.Wire.serve("/x", nil, func(w http.ResponseWriter, req *http.Request) {
					defer func() { o.escaped = recover() }()
					m.ServeHTTP(w, req)
				})
			})
		})
		if o.escaped != nil {
			return fmt.Errorf("request %d: a panic escaped: %v", qi, o.escaped)
		}
		got := parseResponse(raw, q.Wire.Method)
		skip := map[int]bool{}
		for i, x := range o.res {
			if x.skip {
				skip[i] = true
			}
		}
		// What the handler did, without any middleware.
		var dres []result
		draw := q.Wire.serve("/x", nil, func(w http.ResponseWriter, req *http.Request) {
			for _, s := range c.Stack {
				if s == "nocache" {
					presetNoCache(w.Header())
				}
			}
			dres = exec(w, q.Ops[:len(o.res)], skip, nil, nil)
		})
		want := parseResponse(draw, q.Wire.Method)
		desc := func() string {
			return fmt.Sprintf("request %d through %v\n%s(panic before %d, layer %q, %s)\n", qi, c.Stack, opsString(q.Ops), q.At, q.Layer, q.Value)
		}
		if !o.panicked {
			r.Label("no panic")
			for i := range q.Ops {
				if o.res[i] != dres[i] {
					return fmt.Errorf("%soperation %d returned %v; without middleware %v", desc(), i, o.res[i], dres[i])
				}
			}
			if err := sameSeen(got, want, explicitLength(q.Ops)); err != nil {
				return fmt.Errorf("%sthe response differs from that without middleware:\n%v", desc(), err)
			}
			continue
		}
		r.NonTrivial()
		// the log
		var tx []string
		if o.value != nil {
			tx = textsOf(o.value)
			r.Label("invalid status code")
		} else {
			tx = texts(q.Value)
			r.Label("panic with " + q.Value)
		}
		ok := false
		for _, line := range append(strings.Split(logged, "\n"), logged) {
			for _, x := range tx {
				first, _, _ := strings.Cut(x, "\n")
				if strings.Contains(line, first) && strings.Contains(logged, x) {
					if (!idFirst || strings.Contains(line, o.reqID)) && !strings.Contains(line, "Started ") && !strings.Contains(line, "Returning ") && strings.TrimSpace(line) != "" {
						ok = true
					}
				}
			}
		}
		if !ok {
			return fmt.Errorf("%sthe panic (%q) was not logged with its value and the request ID %q; log:\n%s", desc(), tx[0], o.reqID, logged)
		}
		// the response
		a, b := seen{infos: got.infos}, seen{infos: want.infos}
		if a.full() != b.full() {
			return fmt.Errorf("%sinformational responses %v; want %v", desc(), a, b)
		}
		switch {
		case hijackedIn(q.Ops, o.res):
			r.Label("panic after hijack")
			if got.full() != want.full() {
				return fmt.Errorf("%sthe response differs:\ngot  %v\nwant %v", desc(), got, want)
			}
		case !sentFinal(q.Ops, o.res):
			r.Label("nothing sent")
			if got.code != 500 {
				return fmt.Errorf("%snothing was sent before the panic; the client got %v", desc(), got)
			}
		default:
			r.Label("something sent")
			if got.code != want.code {
				return fmt.Errorf("%sstatus %d had been sent; the client got %v", desc(), want.code, got)
			}
			if !strings.HasPrefix(got.body, want.body) {
				return fmt.Errorf("%sbody %s had been sent; the client got %v", desc(), short(want.body), got)
			}
			for k, v := range want.hdr {
				switch k {
				case "Content-Type", "Content-Length", "Transfer-Encoding", "Trailer":
					continue
				}
				if fmt.Sprint(v) != fmt.Sprint(got.hdr[k]) {
					return fmt.Errorf("%sheader %s: %q had been sent; the client got %q", desc(), k, v, got.hdr[k])
				}
			}
		}
	}
	return nil
}

const recoverRule = "C16: generated handler scripts with panics of many kinds of values at any operation or layer, through generated middleware stacks, over real net/http connections; non-trivial when something panics."

func TestC16(t *testing.T) {
	_ = log.Flags
	pbt.Main(t, "C16", recoverRule, pbt.P("stacks", 24000, 800000, genRec, checkRecover))
}
