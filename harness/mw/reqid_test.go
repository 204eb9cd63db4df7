package mwcheck

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ---- C17 -------------------------------------------------------------------

var idForm = regexp.MustCompile(`^(.+)/([0-9A-Za-z]+)-([0-9]+)$`)

// splitID takes an ID apart.
func splitID(id string) (prefix string, n uint64, err error) {
	m := idForm.FindStringSubmatch(id)
	if m == nil {
		return "", 0, fmt.Errorf("ID %q is not of the form host/random-number", id)
	}
	host, e := os.Hostname()
	if e != nil || host == "" {
		host = "localhost"
	}
	if m[1] != host {
		return "", 0, fmt.Errorf("ID %q does not start with the host name %q", id, host)
	}
	n, e = strconv.ParseUint(m[3], 10, 64)
	if e != nil {
		return "", 0, e
	}
	return m[1] + "/" + m[2], n, nil
}

type idReq struct {
	Mux    int
	Before int // layers between the middleware and the handler
	Env    string
	Panic  bool
}

type idCase struct {
	Muxes   int
	Threads [][]idReq
	At, To  []int
}

func genIDReq(t *rapid.T, muxes int) idReq {
	return idReq{Mux: model.Int(t, "mux", 0, muxes-1), Before: model.Int(t, "layers", 0, 2), Env: model.Pick(t, "env", "nil", "nil", "set", "stale", "foreign"), Panic: model.Chance(t, "panic", 5)}
}

func genID(t *rapid.T) idCase {
	c := idCase{Muxes: model.Int(t, "muxes", 1, 2)}
	for i := model.Int(t, "threads", 2, 3); i > 0; i-- {
		var qs []idReq
		for j := model.Int(t, "reqs", 1, 3); j > 0; j-- {
			qs = append(qs, genIDReq(t, c.Muxes))
		}
		c.Threads = append(c.Threads, qs)
	}
	return c
}

type idWorld struct{ muxes []*web.Mux }

type idTrack struct{ ids []string }

type idTrackKey struct{}

func newIDWorld(c idCase) *idWorld {
	w := &idWorld{}
	for i := 0; i < c.Muxes; i++ {
		m := web.New()
		m.Use(middleware.RequestID)
		see := func(ctx *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
				t := r.Context().Value(idTrackKey{}).(*idTrack)
				t.ids = append(t.ids, middleware.GetReqID(*ctx))
				h.ServeHTTP(rw, r)
				t.ids = append(t.ids, middleware.GetReqID(*ctx))
			})
		}
		m.Use(see)
		m.Use(see)
		m.NotFound(func(ctx web.C, rw http.ResponseWriter, r *http.Request) {
			t := r.Context().Value(idTrackKey{}).(*idTrack)
			t.ids = append(t.ids, middleware.GetReqID(ctx))
			if r.URL.Path == "/panic" {
				panic("boom")
			}
		})
		w.muxes = append(w.muxes, m)
	}
	return w
}

// issue runs a request and returns its ID.
func (w *idWorld) issue(q idReq) (id string, err error) {
	tr := &idTrack{}
	p := "/"
	if q.Panic {
		p = "/panic"
	}
	r := httptest.NewRequest("GET", p, nil)
	r = r.WithContext(withValue(r.Context(), idTrackKey{}, tr))
	var c web.C
	switch q.Env {
	case "set":
		c.Env = map[interface{}]interface{}{"a": 1}
	case "stale":
		c.Env = map[interface{}]interface{}{middleware.RequestIDKey: "stale"}
	case "foreign":
		c.Env = map[interface{}]interface{}{middleware.RequestIDKey: 7}
	}
	func() {
		defer func() {
			if v := recover(); v != nil && v != "boom" {
				panic(v)
			}
		}()
		w.muxes[q.Mux].ServeHTTPC(c, httptest.NewRecorder(), r)
	}()
	if len(tr.ids) == 0 {
		return "", fmt.Errorf("the handler did not run")
	}
	for _, x := range tr.ids {
		if x != tr.ids[0] {
			return "", fmt.Errorf("the ID of a request changed: %v", tr.ids)
		}
	}
	return tr.ids[0], nil
}

// judgeIDs checks the IDs of a set of requests that ran between two others.
func judgeIDs(before string, ids []string, after string) error {
	p0, n0, err := splitID(before)
	if err != nil {
		return err
	}
	seen := map[uint64]bool{}
	for _, id := range ids {
		p, n, err := splitID(id)
		if err != nil {
			return err
		}
		if p != p0 {
			return fmt.Errorf("IDs %q and %q of one process have different prefixes", before, id)
		}
		if seen[n] {
			return fmt.Errorf("ID %q was given out twice", id)
		}
		seen[n] = true
		if n <= n0 || n > n0+uint64(len(ids)) {
			return fmt.Errorf("%d requests after %q: ID %q", len(ids), before, id)
		}
	}
	p, n, err := splitID(after)
	if err != nil {
		return err
	}
	if p != p0 || n != n0+uint64(len(ids))+1 {
		return fmt.Errorf("after %q and %d more requests the ID is %q", before, len(ids), after)
	}
	return nil
}

func checkIDs(r *pbt.R, c idCase) error {
	w := newIDWorld(c)
	before, err := w.issue(idReq{})
	if err != nil {
		return err
	}
	var ids []string
	for _, qs := range c.Threads {
		for _, q := range qs {
			id, err := w.issue(q)
			if err != nil {
				return err
			}
			ids = append(ids, id)
		}
	}
	after, err := w.issue(idReq{})
	if err != nil {
		return err
	}
	r.NonTrivialIf(len(ids) > 2)
	return judgeIDs(before, ids, after)
}

type accCase struct {
	Env   string // nil none string foreign
	Value string
}

func genAcc(t *rapid.T) accCase {
	return accCase{Env: model.Pick(t, "env", "nil", "none", "string", "int", "bytes", "stringer", "nilvalue", "ptr", "named"), Value: rapid.String().Draw(t, "v")}
}

type named string
type str struct{ s string }

func (s str) String() string { return s.s }

func checkAcc(r *pbt.R, c accCase) error {
	var ctx web.C
	want := ""
	r.NonTrivialIf(c.Env != "nil" && c.Env != "none")
	if c.Env != "nil" {
		ctx.Env = map[interface{}]interface{}{"x": c.Value}
		k := middleware.RequestIDKey
		switch c.Env {
		case "string":
			ctx.Env[k] = c.Value
			want = c.Value
		case "int":
			ctx.Env[k] = len(c.Value)
		case "bytes":
			ctx.Env[k] = []byte(c.Value)
		case "stringer":
			ctx.Env[k] = str{c.Value}
		case "nilvalue":
			ctx.Env[k] = nil
		case "ptr":
			ctx.Env[k] = &c.Value
		case "named":
			ctx.Env[k] = named(c.Value)
		}
	}
	if got := middleware.GetReqID(ctx); got != want {
		return fmt.Errorf("GetReqID = %q; want %q", got, want)
	}
	return nil
}

type manyCase struct{ N int }

// checkMany passes the numbers at which the counter gets another digit.
func checkMany(r *pbt.R, c manyCase) error {
	r.NonTrivial()
	var ctx web.C
	var last string
	h := middleware.RequestID(&ctx, http.HandlerFunc(func(http.ResponseWriter, *http.Request) {
		last = middleware.GetReqID(ctx)
	}))
	h.ServeHTTP(nil, nil)
	p0, n0, err := splitID(last)
	if err != nil {
		return err
	}
	for i := 1; i <= c.N; i++ {
		h.ServeHTTP(nil, nil)
		j := strings.LastIndexByte(last, '-')
		n, err := strconv.ParseUint(last[j+1:], 10, 64)
		if err != nil || last[:j] != p0 || n != n0+uint64(i) {
			return fmt.Errorf("request %d has ID %q after %s number %d", i, last, p0, n0)
		}
	}
	return nil
}

type crowdCase struct{ Goroutines, Each int }

// checkCrowd has goroutines take IDs as fast as they can, on all processors.
func checkCrowd(r *pbt.R, c crowdCase) error {
	r.NonTrivial()
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(runtime.NumCPU()))
	one := func(ctx *web.C, h http.Handler) string {
		ctx.Env = nil
		h.ServeHTTP(nil, nil)
		return middleware.GetReqID(*ctx)
	}
	nop := http.HandlerFunc(func(http.ResponseWriter, *http.Request) {})
	var ctx web.C
	h := middleware.RequestID(&ctx, nop)
	before := one(&ctx, h)
	got := make([][]string, c.Goroutines)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var ctx web.C
			h := middleware.RequestID(&ctx, nop)
			ids := make([]string, c.Each)
			<-start
			for i := range ids {
				ids[i] = one(&ctx, h)
			}
			got[g] = ids
		}()
	}
	close(start)
	wg.Wait()
	var all []string
	for _, ids := range got {
		all = append(all, ids...)
	}
	return judgeIDs(before, all, one(&ctx, h))
}

type procCase struct{ N int }

func checkProcs(r *pbt.R, c procCase) error {
	r.NonTrivial()
	seen := map[string]bool{}
	for i := 0; i < c.N; i++ {
		out, err := runChild("reqid", "")
		if err != nil {
			return err
		}
		p, _, err := splitID(strings.TrimSpace(string(out)))
		if err != nil {
			return err
		}
		if seen[p] {
			return fmt.Errorf("two processes have the prefix %q", p)
		}
		seen[p] = true
	}
	return nil
}

const idRule = "C17: generated requests over several muxes, in sequence, under generated schedules and on real goroutines; non-trivial with at least three requests (sequence), a preemption (schedules), foreign values (accessor)."

func TestC17(t *testing.T) {
	pbt.Main(t, "C17", idRule, parts("C17",
		pbt.P("sequence", 20000, 600000, genID, checkIDs),
		pbt.P("accessor", 20000, 300000, genAcc, checkAcc),
		pbt.SerialPart(pbt.P("digits", 1, 2, func(t *rapid.T) manyCase { return manyCase{1100000} }, checkMany)),
		pbt.SerialPart(pbt.P("crowd", 6, 100, func(t *rapid.T) crowdCase {
			return crowdCase{model.Int(t, "goroutines", 8, 16), model.Int(t, "each", 10000, 30000)}
		}, checkCrowd)),
		pbt.SerialPart(pbt.P("processes", 3, 50, func(t *rapid.T) procCase { return procCase{model.Int(t, "n", 4, 6)} }, checkProcs)),
	)...)
}
