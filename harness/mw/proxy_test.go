package mwcheck

import (
	"bytes"
	"errors"
	"fmt"
	"net/http"
	"strconv"
	"strings"
	"testing"

	"github.com/zenazn/goji/web/mutil"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ---- C13 -------------------------------------------------------------------

type proxyCase struct {
	Wire wire
	Caps string // of a fake writer; unused with a real server
	Lim  int    // of a fake writer
	Wrap int    // number of proxies around each other
	Ops  []op
}

func genWire(t *rapid.T) wire {
	return wire{
		Method: model.Pick(t, "method", "GET", "GET", "GET", "POST", "HEAD", "OPTIONS"),
		Proto:  model.Pick(t, "proto", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0"),
		RF:     model.Chance(t, "rf", 50),
	}
}

// fixLengths makes declared lengths no smaller than the body: what happens to a
// body that exceeds its declared length depends on buffering.
func fixLengths(ops []op) []op {
	sum := 0
	for _, o := range ops {
		sum += o.N
	}
	for _, o := range ops {
		if strings.HasPrefix(o.Kind, "err") {
			sum++ // reading may stop once the declared length is reached
			break
		}
	}
	for i, o := range ops {
		if o.K == "Content-Length" && o.V != "" {
			v, _ := strconv.Atoi(o.V)
			if v < sum {
				if v%3 == 0 {
					v = sum + v%7
				} else {
					v = sum
				}
			}
			ops[i].V = strconv.Itoa(v)
		}
	}
	return ops
}

// fixHijack drops body bytes before a hijack: how many of them the client gets
// depends on buffering.
func fixHijack(ops []op) []op {
	last := -1
	for i, o := range ops {
		if o.Op == "hijack" {
			last = i
		}
	}
	var out []op
	for i, o := range ops {
		if i < last && o.N > 0 {
			continue
		}
		out = append(out, o)
	}
	return out
}

func wrapN(w http.ResponseWriter, n int) http.ResponseWriter {
	for i := 0; i < n; i++ {
		w = mutil.WrapWriter(w)
	}
	return w
}

func labelOps(r *pbt.R, ops []op, res []result) {
	for i, o := range ops {
		switch {
		case res[i].skip:
			r.Label("unsupported " + o.Op)
		case res[i].panic != "":
			r.Label("panicking status")
		case o.Op == "copy" && o.N >= 512:
			r.Label("long copy")
		case o.Op == "status" && o.Code < 200:
			r.Label("informational")
		case o.Op == "flush", o.Op == "hijack", o.Op == "push":
			r.Label(o.Op)
		}
		if res[i].err != "" {
			r.Label("operation failed")
		}
	}
}

func interesting(ops []op, res []result) bool {
	k := 0
	for i, o := range ops {
		if res[i].skip {
			continue
		}
		switch o.Op {
		case "copy", "flush", "hijack", "push":
			k += 2
		case "status", "write", "wstr":
			k++
		}
	}
	return k >= 2
}

func checkProxyReal(r *pbt.R, c proxyCase) error {
	type obs struct {
		res   []result
		snaps map[int]seen
		final seen
	}
	run := func(wrap int, skip map[int]bool) obs {
		o := obs{snaps: map[int]seen{}}
		raw := c.Wire.serve("/", nil, func(w http.ResponseWriter, r *http.Request) {
			o.res = exec(wrapN(w, wrap), c.Ops, skip, nil, func(i int, p op, res result) {
				if p.Op == "flush" && !res.skip {
					o.snaps[i] = parseResponse(currentConn.snapshot(), c.Wire.Method)
				}
			})
		})
		o.final = parseResponse(raw, c.Wire.Method)
		return o
	}
	p := run(c.Wrap, nil)
	for i, x := range p.res {
		if x.skip {
			return fmt.Errorf("operation %d (%s): the proxy around net/http's writer lacks the capability\n%s", i, c.Ops[i].Op, opsString(c.Ops))
		}
	}
	d := run(0, nil)
	labelOps(r, c.Ops, p.res)
	r.NonTrivialIf(interesting(c.Ops, p.res))
	for i := range c.Ops {
		if p.res[i] != d.res[i] {
			return fmt.Errorf("operation %d returned %v through the proxy, %v without\n%s", i, p.res[i], d.res[i], opsString(c.Ops))
		}
	}
	el := explicitLength(c.Ops)
	for i := range d.snaps {
		if err := sameSeen(p.snaps[i], d.snaps[i], el); err != nil {
			return fmt.Errorf("what the client has after the flush %d differs through the proxy (got) and without (want):\n%v\n%s", i, err, opsString(c.Ops))
		}
	}
	if err := sameSeen(p.final, d.final, el); err != nil {
		return fmt.Errorf("the response differs through the proxy (got) and without (want):\n%v\n%s", err, opsString(c.Ops))
	}
	return nil
}

func checkProxyFake(r *pbt.R, c proxyCase) error {
	pf := newFake(c.Lim)
	pw := wrapN(pf.as(c.Caps), c.Wrap)
	pres := exec(pw, c.Ops, nil, nil, nil)
	skip := map[int]bool{}
	for i, x := range pres {
		if x.skip {
			skip[i] = true
			if strings.HasPrefix(c.Caps, "FHR") {
				return fmt.Errorf("operation %d (%s): the writer supports flushing, hijacking and copying, its proxy does not", i, c.Ops[i].Op)
			}
		}
	}
	df := newFake(c.Lim)
	dres := exec(df.as(c.Caps), c.Ops, skip, nil, nil)
	labelOps(r, c.Ops, pres)
	r.Label("capabilities " + c.Caps)
	r.NonTrivialIf(interesting(c.Ops, pres))
	for i, o := range c.Ops {
		if dres[i].skip && !skip[i] {
			return fmt.Errorf("operation %d (%s) is not supported by the writer but its proxy claims it and returned %v", i, o.Op, pres[i])
		}
		if o.Op == "push" && !strings.HasPrefix(c.Caps, "FHR") && strings.Contains(c.Caps, "P") && pres[i].err == http.ErrNotSupported.Error() {
			continue // not all capabilities are passed on
		}
		if pres[i] != dres[i] {
			return fmt.Errorf("operation %d returned %v through the proxy, %v without\n%s", i, pres[i], dres[i], opsString(c.Ops))
		}
	}
	drop := func(s string) string { return s }
	if strings.Contains(c.Caps, "P") && !strings.HasPrefix(c.Caps, "FHR") {
		drop = func(s string) string {
			// pushes do not reach the writer
			var ev []string
			for _, e := range df.events {
				if !strings.HasPrefix(e, "push") {
					ev = append(ev, e)
				}
			}
			df.events = ev
			return df.state()
		}
	}
	want := drop(df.state())
	if _, isPusher := pw.(http.Pusher); isPusher && c.Caps == "FP" {
		want = df.state()
	}
	if got := pf.state(); got != want {
		return fmt.Errorf("the response differs\nthrough the proxy: %s\nwithout:           %s\n%s", got, want, opsString(c.Ops))
	}
	return nil
}

const proxyRule = "C13: generated handler scripts run with and without the proxy, over real net/http connections and over writers with chosen capabilities; non-trivial when the script sends something by at least two operations or uses an optional capability."

func TestC13(t *testing.T) {
	g := genOpts{hijack: true, push: true, badCode: true, flush: true, maxOps: 8}
	pbt.Main(t, "C13", proxyRule,
		pbt.P("net/http", 24000, 800000, func(t *rapid.T) proxyCase {
			return proxyCase{Wire: genWire(t), Wrap: model.Pick(t, "wrap", 1, 1, 1, 2), Ops: fixLengths(fixHijack(genOps(t, g)))}
		}, checkProxyReal),
		pbt.P("capabilities", 80000, 3000000, func(t *rapid.T) proxyCase {
			c := proxyCase{Caps: rapid.SampledFrom(capSets).Draw(t, "caps"), Lim: -1, Wrap: model.Pick(t, "wrap", 1, 1, 1, 2), Ops: genOps(t, g)}
			if model.Chance(t, "limited", 25) {
				c.Lim = genLimit(t)
			}
			return c
		}, checkProxyFake),
	)
}

// ---- C14 -------------------------------------------------------------------

type teeWriter struct {
	offered bytes.Buffer
	lim     int
	failed  error // error of the current operation
	live    bool
	stray   bool // written to after it was replaced
}

var errTee = errors.New("tee failed")

func (w *teeWriter) Write(p []byte) (int, error) {
	if !w.live {
		w.stray = true
	}
	w.offered.Write(p)
	if w.lim >= 0 && w.offered.Len() > w.lim {
		n := len(p) - (w.offered.Len() - w.lim)
		if n < 0 {
			n = 0
		}
		w.failed = errTee
		return n, errTee
	}
	return len(p), nil
}

func checkAccount(r *pbt.R, c proxyCase) error {
	f := newFake(c.Lim)
	orig := f.as(c.Caps)
	p := mutil.WrapWriter(orig)
	var cur *teeWriter
	var want []byte // what the current tee must have been offered
	last := 0       // accepted bytes before the operation
	var all []*teeWriter
	var err error
	fail := func(i int, format string, args ...any) {
		if err == nil {
			err = fmt.Errorf("after operation %d (%+v): %s\n%s", i, c.Ops[i], fmt.Sprintf(format, args...), opsString(c.Ops))
		}
	}
	tee := func(i int, o op) {
		if cur != nil {
			cur.live = false
		}
		cur, want = nil, nil
		if o.Op == "untee" {
			p.Tee(nil)
			return
		}
		cur = &teeWriter{lim: o.Lim, live: true}
		all = append(all, cur)
		p.Tee(cur)
		r.Label("tee installed")
	}
	if p.Status() != 0 || p.BytesWritten() != 0 {
		return fmt.Errorf("a fresh proxy reports status %d and %d bytes", p.Status(), p.BytesWritten())
	}
	if u := p.Unwrap(); u != orig {
		return fmt.Errorf("unwrapping returned %T, not the original", u)
	}
	res := exec(p, c.Ops, nil, tee, func(i int, o op, x result) {
		acc := len(f.body)
		if got := p.BytesWritten(); got != acc {
			fail(i, "BytesWritten() = %d; the writer accepted %d", got, acc)
		}
		if got := p.Status(); got != f.code && !f.hijack {
			fail(i, "Status() = %d; the writer sent %d", got, f.code)
		}
		if u := p.Unwrap(); u != orig {
			fail(i, "unwrapping returned %T, not the original", u)
		}
		if cur != nil {
			want = append(want, f.body[last:acc]...)
			if !bytes.Equal(cur.offered.Bytes(), want) {
				fail(i, "the tee got %s; want %s", short(cur.offered.String()), short(string(want)))
			}
			r.NonTrivialIf(acc > last)
		}
		for _, tw := range all {
			if tw.stray {
				fail(i, "a tee that had been replaced was written to")
			}
		}
		switch o.Op {
		case "write", "wstr", "copy":
			exp := ""
			if x.panic != "" {
				fail(i, "it panicked: %s", x.panic)
			}
			switch {
			case f.lastErr != nil:
				exp = f.lastErr.Error()
				r.LabelIf(cur != nil && cur.failed != nil, "both errors")
			case cur != nil && cur.failed != nil:
				exp = errTee.Error()
				r.Label("tee error")
			case o.Kind == "err" || o.Kind == "errnow":
				exp = errReader.Error()
			}
			if x.err != exp {
				fail(i, "it returned error %q; want %q", x.err, exp)
			}
			if x.n != int64(acc-last) {
				fail(i, "it returned %d; the writer accepted %d", x.n, acc-last)
			}
		}
		f.lastErr = nil
		if cur != nil {
			cur.failed = nil
		}
		last = acc
	})
	labelOps(r, c.Ops, res)
	r.NonTrivialIf(interesting(c.Ops, res))
	return err
}

func checkAccountReal(r *pbt.R, c proxyCase) error {
	var p mutil.WriterProxy
	var res []result
	var all []*teeWriter
	var cur *teeWriter
	teed := map[*teeWriter]int64{}
	raw := c.Wire.serve("/", nil, func(w http.ResponseWriter, r *http.Request) {
		p = mutil.WrapWriter(w)
		res = exec(p, c.Ops, nil, func(i int, o op) {
			cur = nil
			if o.Op == "untee" {
				p.Tee(nil)
				return
			}
			cur = &teeWriter{lim: -1, live: true}
			all = append(all, cur)
			p.Tee(cur)
		}, func(i int, o op, x result) {
			if cur != nil && (o.Op == "write" || o.Op == "wstr" || o.Op == "copy") {
				teed[cur] += x.n
			}
		})
	})
	var sum int64
	sent := false
	for i, o := range c.Ops {
		switch o.Op {
		case "write", "wstr", "copy":
			sum += res[i].n
			if o.Op != "copy" || res[i].n > 0 {
				sent = true
			}
		case "flush":
			sent = true
		case "status":
			if o.Code >= 200 && o.Code <= 999 || o.Code == 101 {
				sent = true
			}
		}
	}
	s := parseResponse(raw, c.Wire.Method)
	r.NonTrivialIf(interesting(c.Ops, res))
	if int64(p.BytesWritten()) != sum {
		return fmt.Errorf("BytesWritten() = %d; the operations reported %d\n%s", p.BytesWritten(), sum, opsString(c.Ops))
	}
	want := s.code
	if !sent {
		want = 0
	}
	if p.Status() != want {
		return fmt.Errorf("Status() = %d; want %d (the client saw %d)\n%s", p.Status(), want, s.code, opsString(c.Ops))
	}
	for i, tw := range all {
		if int64(tw.offered.Len()) != teed[tw] {
			return fmt.Errorf("tee %d got %d bytes of %d\n%s", i, tw.offered.Len(), teed[tw], opsString(c.Ops))
		}
	}
	if len(all) == 1 && c.Ops[0].Op == "tee" && cur != nil && c.Wire.Method != "HEAD" && s.code != 204 && s.code != 304 && s.code != 101 && !explicitLength(c.Ops) {
		r.Label("teed from the start")
		if all[0].offered.String() != s.body {
			return fmt.Errorf("the tee got %s; the client %s\n%s", short(all[0].offered.String()), short(s.body), opsString(c.Ops))
		}
	}
	return nil
}

const accountRule = "C14: generated handler scripts with tees on proxies over fake writers (which can fail part-way) and over real net/http connections; non-trivial when bytes pass while a tee is installed, or at least two operations send something."

func TestC14(t *testing.T) {
	g := genOpts{hijack: true, push: true, badCode: true, flush: true, tee: true, maxOps: 9}
	pbt.Main(t, "C14", accountRule,
		pbt.P("accounting", 100000, 4000000, func(t *rapid.T) proxyCase {
			c := proxyCase{Caps: rapid.SampledFrom(capSets).Draw(t, "caps"), Lim: -1, Ops: genOps(t, g)}
			if model.Chance(t, "limited", 40) {
				c.Lim = genLimit(t)
			}
			return c
		}, checkAccount),
		pbt.P("net/http", 12000, 400000, func(t *rapid.T) proxyCase {
			g := g
			g.hijack = false
			c := proxyCase{Wire: genWire(t), Ops: fixLengths(fixHijack(genOps(t, g)))}
			if model.Chance(t, "tee first", 40) {
				c.Ops = append([]op{{Op: "tee", Lim: -1}}, c.Ops...)
			}
			return c
		}, checkAccountReal),
	)
}
