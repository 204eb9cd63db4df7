package mwcheck

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
)

// ---- scripts of response operations ----------------------------------------

// op is one operation of a handler on its response writer.
type op struct {
	Op   string // set add del status write wstr copy flush rcflush hijack push tee untee
	K    string `json:",omitempty"`
	V    string `json:",omitempty"`
	Code int    `json:",omitempty"`
	N    int    `json:",omitempty"`
	Kind string `json:",omitempty"` // of reader: plain one err dataeof errnow wt
	Lim  int    `json:",omitempty"` // of tee: bytes until it fails, -1 never
}

// result is what an operation told the handler.
type result struct {
	n     int64
	err   string
	panic string
	skip  bool // the writer does not have the capability
}

func (r result) String() string {
	if r.skip {
		return "not supported"
	}
	if r.panic != "" {
		return "panic: " + r.panic
	}
	return fmt.Sprintf("(%d, %q)", r.n, r.err)
}

var errReader = errors.New("reader failed")

// reader yields n bytes of data in the way of a kind.
type reader struct {
	data []byte
	kind string
}

func (r *reader) Read(p []byte) (int, error) {
	if r.kind == "errnow" {
		return 0, errReader
	}
	if len(r.data) == 0 {
		if r.kind == "err" {
			return 0, errReader
		}
		return 0, io.EOF
	}
	if r.kind == "one" && len(p) > 1 {
		p = p[:1]
	}
	n := copy(p, r.data)
	r.data = r.data[n:]
	if r.kind == "dataeof" && len(r.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func payload(i, n int, v string) []byte {
	b := make([]byte, 0, n+len(v))
	b = append(b, v...)
	for len(b) < n {
		b = append(b, byte('a'+(i*7+len(b))%26))
	}
	return b[:n]
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// tap observes a script: it is called after every operation.
type tap func(i int, o op, r result)

// exec runs a script on a writer. Operations in skip are not run.
func exec(w http.ResponseWriter, ops []op, skip map[int]bool, tee func(i int, o op), after tap) []result {
	res := make([]result, len(ops))
	for i, o := range ops {
		if skip[i] {
			res[i].skip = true
			continue
		}
		res[i] = exec1(w, i, o, tee)
		if after != nil {
			after(i, o, res[i])
		}
	}
	return res
}

func exec1(w http.ResponseWriter, i int, o op, tee func(i int, o op)) (res result) {
	defer func() {
		if v := recover(); v != nil {
			res = result{panic: fmt.Sprint(v)}
		}
	}()
	return doOp(w, i, o, tee)
}

// doOp runs one operation.
func doOp(w http.ResponseWriter, i int, o op, tee func(i int, o op)) result {
	switch o.Op {
	case "set":
		w.Header().Set(o.K, o.V)
	case "add":
		w.Header().Add(o.K, o.V)
	case "del":
		w.Header().Del(o.K)
	case "status":
		w.WriteHeader(o.Code)
	case "write":
		n, err := w.Write(payload(i, o.N, o.V))
		return result{n: int64(n), err: errStr(err)}
	case "wstr":
		n, err := io.WriteString(w, string(payload(i, o.N, o.V)))
		return result{n: int64(n), err: errStr(err)}
	case "copy":
		data := payload(i, o.N, o.V)
		var src io.Reader = &reader{data: data, kind: o.Kind}
		if o.Kind == "wt" {
			src = bytes.NewReader(data)
		}
		n, err := io.Copy(w, src)
		return result{n: n, err: errStr(err)}
	case "flush":
		f, ok := w.(http.Flusher)
		if !ok {
			return result{skip: true}
		}
		f.Flush()
	case "hijack":
		h, ok := w.(http.Hijacker)
		if !ok {
			return result{skip: true}
		}
		c, brw, err := h.Hijack()
		if err != nil {
			return result{err: errStr(err)}
		}
		return hijacked(c, brw, i, o)
	case "push":
		p, ok := w.(http.Pusher)
		if !ok {
			return result{err: http.ErrNotSupported.Error()}
		}
		var opts *http.PushOptions
		if o.V != "" {
			opts = &http.PushOptions{Method: o.V, Header: http.Header{"K": {o.K}}}
		}
		return result{err: errStr(p.Push(o.K, opts))}
	case "tee", "untee":
		if tee != nil {
			tee(i, o)
		}
	default:
		panic("unknown op " + o.Op)
	}
	return result{}
}

func hijacked(c net.Conn, brw *bufio.ReadWriter, i int, o op) result {
	var n int
	var err error
	if o.V == "buf" {
		n, err = brw.Write(payload(i, o.N, "raw"))
		if err == nil {
			err = brw.Flush()
		}
	} else {
		n, err = c.Write(payload(i, o.N, "raw"))
	}
	// what the client had sent ahead
	rest := ""
	if b, e := brw.Peek(brw.Reader.Buffered()); e == nil {
		rest = string(b)
	}
	c.Close()
	return result{n: int64(n), err: errStr(err) + rest}
}

// ---- generator -----------------------------------------------------------

type genOpts struct {
	hijack, push, tee, badCode, flush, copyBig bool
	only404                                    int // percentage of 404 among statuses
	maxOps                                     int
}

var codes = []int{200, 200, 201, 204, 205, 206, 301, 304, 400, 401, 404, 404, 418, 500, 503, 599, 600, 999}
var infoCodes = []int{100, 102, 103, 103, 150, 199}
var badCodes = []int{0, 1, 99, -1, 1000, 12345}

func genSize(t *rapid.T) int {
	switch model.Int(t, "size", 0, 9) {
	case 0:
		return 0
	case 1, 2, 3, 4:
		return model.Int(t, "small", 1, 20)
	case 5, 6:
		return model.Int(t, "mid", 500, 530)
	case 7:
		return model.Int(t, "big", 1000, 1100)
	case 8:
		return model.Int(t, "buf", 2040, 2060)
	}
	if model.Chance(t, "buffers", 25) {
		// more than io.Copy takes at a time
		return model.Int(t, "buffer", 32750, 70000)
	}
	return model.Int(t, "huge", 4000, 9000)
}

func genLimit(t *rapid.T) int {
	if model.Chance(t, "low", 60) {
		return model.Int(t, "limit", 0, 12)
	}
	return genSize(t)
}

func genOp(t *rapid.T, g genOpts) op {
	var o op
	// weights
	kinds := []string{"set", "set", "add", "del", "status", "status", "status", "write", "write", "write", "wstr", "copy", "copy", "copy"}
	if g.flush {
		kinds = append(kinds, "flush", "flush")
	}
	if g.push {
		kinds = append(kinds, "push")
	}
	if g.tee {
		kinds = append(kinds, "tee", "tee", "untee")
	}
	o.Op = rapid.SampledFrom(kinds).Draw(t, "op")
	if g.hijack && model.Chance(t, "hj", 3) {
		o.Op = "hijack"
	}
	switch o.Op {
	case "set", "add", "del":
		o.K = model.Pick(t, "k", "X-A", "X-B", "Content-Type", "Content-Type", "Etag", "Link", "Content-Encoding", "Cache-Control", "Content-Length", "Set-Cookie", "Trailer", "Allow", "Vary")
		if o.Op != "del" {
			o.V = model.Pick(t, "v", "1", "two", "text/html", "")
			switch o.K {
			case "Content-Length":
				o.Op = "set"
				o.V = strconv.Itoa(genSize(t))
			case "Trailer":
				o.V = "X-B"
			}
		}
	case "status":
		switch {
		case g.only404 > 0 && model.Chance(t, "404", g.only404):
			o.Code = 404
		case model.Chance(t, "info", 20):
			o.Code = rapid.SampledFrom(infoCodes).Draw(t, "code")
		case g.badCode && model.Chance(t, "bad", 8):
			o.Code = rapid.SampledFrom(badCodes).Draw(t, "code")
		case model.Chance(t, "101", 2):
			o.Code = 101
		default:
			o.Code = rapid.SampledFrom(codes).Draw(t, "code")
		}
	case "write", "wstr", "copy":
		o.N = genSize(t)
		o.V = model.Pick(t, "lead", "", "<html>", "\x00\xff\xfe", "%PDF-")
		if len(o.V) > o.N {
			o.V = ""
		}
		if o.Op == "copy" {
			o.Kind = model.Pick(t, "reader", "plain", "plain", "one", "err", "dataeof", "errnow", "wt")
		}
	case "push":
		o.K = model.Pick(t, "target", "/x", "/y?z", "bad")
		o.V = model.Pick(t, "pm", "", "GET", "HEAD")
	case "hijack":
		o.N = model.Int(t, "raw", 3, 40)
		o.V = model.Pick(t, "via", "buf", "conn")
	case "tee":
		o.Lim = -1
		if model.Chance(t, "limited", 35) {
			o.Lim = genLimit(t)
		}
	}
	return o
}

func genOps(t *rapid.T, g genOpts) []op {
	min := model.Int(t, "min", 0, g.maxOps)
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) op { return genOp(t, g) }), min, g.maxOps).Draw(t, "ops")
}

// ops to text, for messages
func opsString(ops []op) string {
	var b strings.Builder
	for i, o := range ops {
		fmt.Fprintf(&b, "  %d: %+v\n", i, o)
	}
	return b.String()
}
