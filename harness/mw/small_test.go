package mwcheck

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	osexec "os/exec"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"
	_ "time/tzdata"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ---- C18 -------------------------------------------------------------------

type ripCase struct {
	XFF, XRI []string // nil: absent
	Remote   string
	Method   string
	Path     string
	Other    map[string]string
}

func genAddr(t *rapid.T) string {
	return model.Pick(t, "addr", "10.0.0.1", "192.168.3.4", "::1", "2001:db8::2", "[::1]:80", "1.2.3.4:5678", "unknown", "_hidden", "a b", "client.example.com", "x;y", "\"q\"", "é")
}

func genRip(t *rapid.T) ripCase {
	c := ripCase{Remote: model.Pick(t, "remote", "", "9.9.9.9:1", "@", "[::9]:9"), Method: model.Pick(t, "m", "GET", "POST"), Path: model.Pick(t, "p", "/", "/a?b=c")}
	if model.Chance(t, "xff", 65) {
		switch model.Int(t, "xffkind", 0, 9) {
		case 0:
			c.XFF = []string{""}
		default:
			n := model.Int(t, "hops", 1, 4)
			var hs []string
			for i := 0; i < n; i++ {
				hs = append(hs, genAddr(t))
			}
			c.XFF = []string{strings.Join(hs, ", ")}
			if model.Chance(t, "second", 10) {
				c.XFF = append(c.XFF, genAddr(t))
			}
		}
	}
	if model.Chance(t, "xri", 65) {
		c.XRI = []string{model.Pick(t, "xrikind", genAddr(t), genAddr(t), genAddr(t), "", genAddr(t)+", "+genAddr(t))}
	}
	c.Other = map[string]string{}
	for _, k := range []string{"X-Forwarded-Proto", "Forwarded", "X-Client-Ip", "True-Client-Ip", "X-Forwarded-Host"} {
		if model.Chance(t, "other", 20) {
			c.Other[k] = genAddr(t)
		}
	}
	return c
}

func checkRip(r *pbt.R, c ripCase) error {
	mk := func() *http.Request {
		req := httptest.NewRequest(c.Method, "http://h"+c.Path, nil)
		req.RemoteAddr = c.Remote
		if c.XFF != nil {
			req.Header["X-Forwarded-For"] = append([]string{}, c.XFF...)
		}
		if c.XRI != nil {
			req.Header["X-Real-Ip"] = append([]string{}, c.XRI...)
		}
		for k, v := range c.Other {
			req.Header.Set(k, v)
		}
		return req
	}
	want := mk()
	switch {
	case len(c.XFF) > 0 && c.XFF[0] != "":
		want.RemoteAddr, _, _ = strings.Cut(c.XFF[0], ", ")
		r.Label("forwarded-for")
		r.NonTrivialIf(strings.Contains(c.XFF[0], ", ") || c.XRI != nil)
	case len(c.XRI) > 0 && c.XRI[0] != "":
		want.RemoteAddr = c.XRI[0]
		r.Label("real-ip")
		r.NonTrivial()
	default:
		r.Label("unchanged")
		r.NonTrivialIf(c.XFF != nil || c.XRI != nil)
	}
	runs := 0
	var err error
	req := mk()
	rec := httptest.NewRecorder()
	h := middleware.RealIP(http.HandlerFunc(func(w http.ResponseWriter, got *http.Request) {
		runs++
		if w != http.ResponseWriter(rec) {
			err = fmt.Errorf("the handler got another writer")
		}
		if got.RemoteAddr != want.RemoteAddr {
			err = fmt.Errorf("remote address %q; want %q", got.RemoteAddr, want.RemoteAddr)
		}
		if d := diffRequests(got, want); d != "" {
			err = fmt.Errorf("the request changed: %s", d)
		}
	}))
	h.ServeHTTP(rec, req)
	if err == nil && runs != 1 {
		err = fmt.Errorf("the handler ran %d times", runs)
	}
	return err
}

func diffRequests(got, want *http.Request) string {
	switch {
	case !reflect.DeepEqual(got.Header, want.Header):
		return fmt.Sprintf("headers %v; want %v", got.Header, want.Header)
	case got.Method != want.Method:
		return "method " + got.Method
	case got.URL.String() != want.URL.String():
		return "URL " + got.URL.String()
	case got.Host != want.Host, got.RequestURI != want.RequestURI, got.Proto != want.Proto:
		return fmt.Sprintf("host %q, URI %q, protocol %q", got.Host, got.RequestURI, got.Proto)
	case !reflect.DeepEqual(got.Form, want.Form), !reflect.DeepEqual(got.Trailer, want.Trailer), got.ContentLength != want.ContentLength:
		return "form, trailer or length"
	}
	return ""
}

func TestC18(t *testing.T) {
	pbt.Main(t, "C18", "C18: generated headers against the documented rule; non-trivial when a header is present (for forwarded-for: several entries, or both headers).",
		pbt.P("headers", 100000, 3000000, genRip, checkRip))
}

// ---- C19 -------------------------------------------------------------------

var dropped = []string{"ETag", "If-Modified-Since", "If-Match", "If-None-Match", "If-Range", "If-Unmodified-Since"}

var noCacheWant = map[string]string{
	"Expires":         "Thu, 01 Jan 1970 00:00:00 UTC",
	"Cache-Control":   "no-cache, private, max-age=0",
	"Pragma":          "no-cache",
	"X-Accel-Expires": "0",
}

func presetNoCache(h http.Header) {
	for k, v := range noCacheWant {
		h.Set(k, v)
	}
}

type ncCase struct {
	Wire   wire
	Lines  [][2]string // request headers as sent
	Before []op        // set/add/del by an outer layer
	Ops    []op
	Times  int
}

func spelling(t *rapid.T, s string) string {
	switch model.Int(t, "spelling", 0, 3) {
	case 0:
		return s
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.ToUpper(s)
	}
	b := []byte(s)
	for i := range b {
		if model.Chance(t, "swap", 50) {
			if b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			} else if b[i] >= 'A' && b[i] <= 'Z' {
				b[i] += 32
			}
		}
	}
	return string(b)
}

func genNc(t *rapid.T) ncCase {
	c := ncCase{Wire: genWire(t), Times: model.Pick(t, "times", 1, 1, 1, 2)}
	for i := model.Int(t, "lines", 0, 6); i > 0; i-- {
		k := model.Pick(t, "h", dropped[0], dropped[1], dropped[2], dropped[3], dropped[4], dropped[5], "If-None-Matches", "X-If-Match", "Accept", "Cache-Control", "Pragma", "Cookie", "Range", "If-None", "Etags")
		c.Lines = append(c.Lines, [2]string{spelling(t, k), model.Pick(t, "hv", `"abc"`, "*", "", "Mon, 02 Jan 2006 15:04:05 GMT", "x")})
	}
	g := genOpts{flush: true, maxOps: 4}
	hdrOp := func(n int) (out []op) {
		for i := 0; i < n; i++ {
			o := op{Op: model.Pick(t, "bo", "set", "add", "del"), K: model.Pick(t, "bk", "Expires", "Cache-Control", "Pragma", "X-Accel-Expires", "X-A", "Etag"), V: model.Pick(t, "bv", "", "v", "no-store")}
			out = append(out, o)
		}
		return
	}
	c.Before = hdrOp(model.Int(t, "before", 0, 2))
	c.Ops = append(hdrOp(model.Int(t, "hdrs", 0, 3)), genOps(t, g)...)
	c.Ops = fixLengths(c.Ops)
	return c
}

func checkNc(r *pbt.R, c ncCase) error {
	var in bytes.Buffer
	fmt.Fprintf(&in, "%s /p?q=1 %s\r\nHost: example.com\r\nConnection: close\r\n", c.Wire.Method, c.Wire.Proto)
	for _, l := range c.Lines {
		fmt.Fprintf(&in, "%s: %s\r\n", l[0], l[1])
	}
	in.WriteString("\r\n")
	type obs struct {
		hdr  http.Header // of the request as seen inside
		at   http.Header // of the response when the handler starts
		req  *http.Request
		runs int
		res  []result
	}
	run := func(f func(http.Handler) http.Handler) (*obs, seen) {
		o := &obs{}
		h := f(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			o.runs++
			o.hdr = req.Header.Clone()
			o.at = w.Header().Clone()
			o.req = req
			o.res = exec_(w, c.Ops)
		}))
		raw := c.Wire.serveRaw(in.Bytes(), func(w http.ResponseWriter, req *http.Request) {
			exec_(w, c.Before)
			h.ServeHTTP(w, req)
		})
		return o, parseResponse(raw, c.Wire.Method)
	}
	got, gs := run(func(h http.Handler) http.Handler {
		for i := 0; i < c.Times; i++ {
			h = middleware.NoCache(h)
		}
		return h
	})
	want, ws := run(func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			presetNoCache(w.Header())
			h.ServeHTTP(w, req)
		})
	})
	if got.runs != 1 {
		return fmt.Errorf("the handler ran %d times", got.runs)
	}
	n := len(want.hdr)
	for _, k := range dropped {
		want.hdr.Del(k)
	}
	r.NonTrivialIf(len(want.hdr) != n)
	r.NonTrivialIf(interesting(c.Ops, got.res))
	if !reflect.DeepEqual(got.hdr, want.hdr) {
		return fmt.Errorf("the handler saw request headers %v; want %v", got.hdr, want.hdr)
	}
	want.req.Header = got.req.Header
	if d := diffRequests(got.req, want.req); d != "" {
		return fmt.Errorf("the request changed: %s", d)
	}
	if !reflect.DeepEqual(got.at, want.at) {
		return fmt.Errorf("the response started out with %v; want %v", got.at, want.at)
	}
	for i := range c.Ops {
		if got.res[i] != want.res[i] {
			return fmt.Errorf("operation %d returned %v; want %v", i, got.res[i], want.res[i])
		}
	}
	return sameSeen(gs, ws, explicitLength(c.Ops))
}

func exec_(w http.ResponseWriter, ops []op) []result { return exec(w, ops, nil, nil, nil) }

type tzCase struct{ TZ string }

func genTz(t *rapid.T) tzCase {
	return tzCase{model.Pick(t, "tz", "UTC", "", "America/New_York", "Europe/London", "Europe/Dublin", "Asia/Tokyo", "Asia/Kolkata", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Africa/Monrovia", "America/St_Johns", "Australia/Lord_Howe", "Etc/GMT+12", "Etc/GMT-14", "Local", "Not/AZone")}
}

func checkTz(r *pbt.R, c tzCase) error {
	out, err := runChild("nocache", "", "TZ="+c.TZ)
	if err != nil {
		return err
	}
	var got map[string]string
	if err := json.Unmarshal(out, &got); err != nil {
		return fmt.Errorf("child: %v: %s", err, out)
	}
	r.NonTrivialIf(got["offset"] != "0")
	delete(got, "offset")
	if !reflect.DeepEqual(got, noCacheWant) {
		return fmt.Errorf("headers %v; want %v", got, noCacheWant)
	}
	return nil
}

// runChild runs this binary as another process.
func runChild(name, arg string, env ...string) ([]byte, error) {
	cmd := osexec.Command(os.Args[0], "-test.run", "^$")
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+name, "VERIF_ARG="+arg)
	cmd.Env = append(cmd.Env, env...)
	out, err := cmd.Output()
	if err != nil {
		if ee, ok := err.(*osexec.ExitError); ok {
			return nil, fmt.Errorf("the process failed: %v\n%s", err, ee.Stderr)
		}
		pbt.Broken("child: %v\n", err)
	}
	return out, nil
}

const ncRule = "C19: generated requests (header spellings) and handler scripts, and processes in generated time zones; non-trivial when a documented request header is dropped, the script sends something by two operations, or the zone is not UTC at the epoch."

func TestC19(t *testing.T) {
	pbt.Main(t, "C19", ncRule,
		pbt.P("requests", 24000, 800000, genNc, checkNc),
		pbt.P("zones", 160, 2000, genTz, checkTz))
}

// ---- C20 -------------------------------------------------------------------

type logCase struct {
	Wire    wire
	Target  string
	Remote  string
	ReqID   string // none id foreign own
	Recover bool   // recoverer inside
	Panic   bool   // the handler panics at the end (recoverer only)
	Outer   bool   // the handler panics at the end, and a layer outside the logger recovers
	Change  bool   // the handler changes the request
	Sleep   int    // ms for which the handler sleeps
	Ops     []op
}

func genTarget(t *rapid.T) string {
	s := "/"
	for i := model.Int(t, "segs", 0, 3); i > 0; i-- {
		s += model.Pick(t, "seg", "a", "b/c", "%22q%22", "%0aX", "%25", "%e2%98%83", "%ff", "..", "x%20y", "é", "a'b", "%5c", "%1b%5b31m")
	}
	if model.Chance(t, "query", 40) {
		s += "?" + model.Pick(t, "q", "a=b", "a=%22", "", "x=%s%d", "%", "a=b&c=\"d\"")
	}
	return s
}

func genLog(t *rapid.T) logCase {
	c := logCase{Wire: genWire(t), Target: genTarget(t)}
	c.Wire.Method = model.Pick(t, "method", "GET", "GET", "POST", "HEAD", "OPTIONS", "FOO", "get")
	c.Remote = model.Pick(t, "remote", "1.2.3.4:5", "[::1]:80", "", "unix", "proxy %d")
	c.ReqID = model.Pick(t, "id", "none", "id", "id", "own", "foreign", "empty")
	c.Recover = model.Chance(t, "recover", 30)
	c.Panic = c.Recover && model.Chance(t, "panic", 40)
	c.Outer = !c.Recover && model.Chance(t, "outer", 20)
	c.Change = model.Chance(t, "change", 20)
	if model.Chance(t, "sleep", 1) {
		c.Sleep = model.Pick(t, "ms", 10, 4)
	}
	c.Ops = fixLengths(fixHijack(genOps(t, genOpts{flush: true, hijack: true, badCode: true, push: true, maxOps: 6})))
	return c
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func checkLog(r *pbt.R, c logCase) error {
	type obs struct {
		res     []result
		before  string // log when the handler starts
		id      string
		url     string
		started bool
		runs    int

		inside, outside time.Duration // how long the handler took, as seen from both sides
	}
	run := func(logger bool) (*obs, seen, string) {
		o := &obs{}
		var raw []byte
		logged := captureLog(func(l *logBuf) {
			m := web.New()
			if c.Outer {
				m.Use(func(h http.Handler) http.Handler {
					return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
						defer func() {
							if recover() != nil {
								w.Header().Set("X-Recovered", "yes")
								http.Error(w, "recovered", 503)
							}
						}()
						h.ServeHTTP(w, r)
					})
				})
			}
			switch c.ReqID {
			case "id":
				m.Use(middleware.RequestID)
			case "own", "foreign", "empty":
				m.Use(func(ctx *web.C, h http.Handler) http.Handler {
					return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
						ctx.Env = map[interface{}]interface{}{middleware.RequestIDKey: map[string]interface{}{"own": "my id %d", "foreign": 12, "empty": ""}[c.ReqID]}
						h.ServeHTTP(w, r)
					})
				})
			}
			m.Use(func(ctx *web.C, h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					o.id = middleware.GetReqID(*ctx)
					r.RemoteAddr = c.Remote
					o.url = r.URL.String()
					defer func(t time.Time) { o.outside = time.Since(t) }(time.Now())
					h.ServeHTTP(w, r)
				})
			})
			if logger {
				m.Use(middleware.Logger)
			}
			if c.Recover {
				m.Use(middleware.Recoverer)
			}
			m.NotFound(func(w http.ResponseWriter, r *http.Request) {
				o.runs++
				o.before = l.String()
				if c.Change {
					r.URL.Path, r.Method, r.RemoteAddr = "/changed", "CHANGED", "changed"
				}
				defer func(t time.Time) { o.inside = time.Since(t) }(time.Now())
				time.Sleep(time.Duration(c.Sleep) * time.Millisecond)
				o.res = exec_(w, c.Ops)
				if c.Panic || c.Outer {
					panic("boom")
				}
			})
			quiet(func() { raw = c.Wire.serve(c.Target, nil, m.ServeHTTP) })
		})
		return o, parseResponse(raw, c.Wire.Method), logged
	}
	o, s, logged := run(true)
	if o.runs == 0 && s.code == 400 {
		r.Label("refused by net/http")
		return nil // not a valid request
	}
	if o.runs != 1 {
		return fmt.Errorf("the handler ran %d times", o.runs)
	}
	d, ds, _ := run(false)
	for i := range c.Ops {
		if o.res[i] != d.res[i] {
			return fmt.Errorf("operation %d returned %v with the logger, %v without\n%s", i, o.res[i], d.res[i], opsString(c.Ops))
		}
	}
	if err := sameSeen(s, ds, explicitLength(c.Ops)); err != nil {
		return fmt.Errorf("the response differs with the logger (got) and without (want):\n%v\n%s", err, opsString(c.Ops))
	}
	r.NonTrivialIf(interesting(c.Ops, o.res))
	r.LabelIf(o.id != "", "with ID")
	r.LabelIf(c.Panic, "panicking")
	r.LabelIf(c.Sleep > 0, "slow")
	colour := ansi.MatchString(o.before)
	r.LabelIf(colour, "in colour")
	if tty, sure := terminal(); sure && colour != tty {
		return fmt.Errorf("standard output is a terminal: %v; the start line is in colour: %v", tty, colour)
	}
	start := strings.Split(strings.TrimSuffix(ansi.ReplaceAllString(o.before, ""), "\n"), "\n")
	if len(start) != 1 {
		return fmt.Errorf("%d lines were logged before the handler ran:\n%s", len(start), o.before)
	}
	for _, want := range []string{c.Wire.Method, fmt.Sprintf("%q", o.url), c.Remote, o.id} {
		if !strings.Contains(start[0], want) {
			return fmt.Errorf("start line %q lacks %q", start[0], want)
		}
	}
	if c.Outer {
		r.Label("panicking through the logger")
		return nil
	}
	rest := ansi.ReplaceAllString(strings.TrimPrefix(logged, o.before), "")
	var ends []string
	for _, l := range strings.Split(strings.TrimSuffix(rest, "\n"), "\n") {
		if c.Panic && strings.Contains(l, "panic") {
			continue // the recoverer's
		}
		ends = append(ends, l)
	}
	if len(ends) != 1 {
		return fmt.Errorf("%d lines were logged after the handler started:\n%s", len(ends), rest)
	}
	end := ends[0]
	if o.id != "" {
		i := strings.Index(end, o.id)
		if i < 0 {
			return fmt.Errorf("end line %q lacks the ID %q", end, o.id)
		}
		end = end[:i] + end[i+len(o.id):]
	}
	if hijackedIn(c.Ops, o.res) {
		r.Label("hijacked")
		return nil
	}
	took := false
	for _, f := range strings.Fields(end) {
		// Some slack, for whoever rounds.
		if d, err := time.ParseDuration(f); err == nil && d >= o.inside-o.inside/50-time.Millisecond && d <= o.outside+o.outside/50+time.Millisecond {
			took = true
		}
	}
	if !took {
		return fmt.Errorf("end line %q; the handler took between %v and %v", ends[0], o.inside, o.outside)
	}
	num := regexp.MustCompile(`\d+`).FindString(end)
	if num != fmt.Sprintf("%03d", s.code) {
		return fmt.Errorf("end line %q; the client got status %d\n%s", ends[0], s.code, opsString(c.Ops))
	}
	return nil
}

// terminal reports whether standard output is a terminal, where that is beyond
// doubt.
var terminal = sync.OnceValues(func() (tty, sure bool) {
	fi, err := os.Stdout.Stat()
	if err != nil {
		return false, false
	}
	if m := fi.Mode(); m.IsRegular() || m&os.ModeNamedPipe != 0 {
		return false, true
	}
	name, err := os.Readlink("/proc/self/fd/1")
	return true, err == nil && strings.HasPrefix(name, "/dev/pts/")
})

const logRule = "C20: generated requests and handler scripts with and without the logger over real net/http connections, with the log captured; non-trivial when the script sends something by at least two operations."

func TestC20(t *testing.T) {
	pbt.Main(t, "C20", logRule, pbt.P("requests", 24000, 800000, genLog, checkLog))
}

// ---- C21 -------------------------------------------------------------------

type envCase struct {
	Layers  []string // env query reqid
	Init    map[string]string
	Nil     bool
	Untyped bool // no entry with a key that is not a string
	Query   model.Str
	Via     string // direct, mux, nested
}

func genQuery(t *rapid.T) string {
	var parts []string
	for i := model.Int(t, "parts", 0, 5); i > 0; i-- {
		parts = append(parts, model.Pick(t, "part", "a=b", "a=c", "a", "=", "=v", "b=%20", "b=%zz", "%zz=1", "c=+", "a=b=c", "x;y=1", "d=%e2%98%83", "", "%", "e=\xff", "A=1", "urlquery=1", "q=%3B"))
	}
	s := strings.Join(parts, model.Pick(t, "sep", "&", "&", "&", ";", "&&"))
	if model.Chance(t, "raw", 15) {
		s += rapid.StringOfN(rapid.RuneFrom([]rune("a=&;%+#?/ \x00é2F")), 0, 12, -1).Draw(t, "noise")
	}
	return s
}

func genEnv(t *rapid.T) envCase {
	c := envCase{Query: model.Str(genQuery(t)), Via: model.Pick(t, "via", "direct", "mux", "nested")}
	for i := model.Int(t, "n", 1, 5); i > 0; i-- {
		c.Layers = append(c.Layers, model.Pick(t, "layer", "env", "query", "reqid"))
	}
	c.Nil = model.Chance(t, "nil", 35)
	if !c.Nil {
		c.Untyped = model.Chance(t, "untyped", 60)
		c.Init = map[string]string{}
		for _, k := range []string{"a", "b", middleware.RequestIDKey, middleware.URLQueryKey, web.ValidMethodsKey} {
			if model.Chance(t, "init", 35) {
				c.Init[k] = "initial " + k
			}
		}
	}
	return c
}

type envKey int

func checkEnv(r *pbt.R, c envCase) error {
	req := httptest.NewRequest("GET", "/", nil)
	req.URL.RawQuery = string(c.Query)
	r.NonTrivialIf(len(c.Layers) > 1 && (c.Query != "" || !c.Nil))
	var ctx web.C
	var orig map[interface{}]interface{}
	if !c.Nil {
		orig = map[interface{}]interface{}{}
		if !c.Untyped {
			orig[envKey(1)] = "typed"
		}
		for k, v := range c.Init {
			orig[k] = v
		}
		ctx.Env = orig
	}
	ctx.URLParams = map[string]string{"p": "1"}
	var got web.C
	runs := 0
	final := func(c web.C) {
		runs++
		got = c
	}
	layers := func(ctx *web.C, h http.Handler) http.Handler {
		for i := len(c.Layers) - 1; i >= 0; i-- {
			switch c.Layers[i] {
			case "env":
				h = middleware.EnvInit(ctx, h)
			case "query":
				h = middleware.URLQuery(ctx, h)
			case "reqid":
				h = middleware.RequestID(ctx, h)
			}
		}
		return h
	}
	rec := httptest.NewRecorder()
	switch c.Via {
	case "direct":
		layers(&ctx, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { final(ctx) })).ServeHTTP(rec, req)
	case "mux", "nested":
		m := web.New()
		m.Use(layers)
		m.Handle("*", func(c web.C, w http.ResponseWriter, r *http.Request) { final(c) })
		m.Handle("/*", func(c web.C, w http.ResponseWriter, r *http.Request) { final(c) })
		if c.Via == "nested" {
			o := web.New()
			o.Handle("/*", m)
			m = o
		}
		m.ServeHTTPC(ctx, rec, req)
	}
	if runs != 1 {
		return fmt.Errorf("the handler ran %d times", runs)
	}
	if got.Env == nil {
		return fmt.Errorf("the environment is nil")
	}
	if orig != nil && reflect.ValueOf(got.Env).Pointer() != reflect.ValueOf(orig).Pointer() {
		return fmt.Errorf("the existing environment was replaced")
	}
	if got.URLParams["p"] != "1" {
		return fmt.Errorf("the URL parameters changed: %v", got.URLParams)
	}
	want := map[interface{}]interface{}{}
	if orig != nil {
		if !c.Untyped {
			want[envKey(1)] = "typed"
		}
		for k, v := range c.Init {
			want[k] = v
		}
	}
	wantID := false
	for _, l := range c.Layers {
		switch l {
		case "query":
			q, _ := url.ParseQuery(string(c.Query))
			want[middleware.URLQueryKey] = q
		case "reqid":
			wantID = true
		}
	}
	cp := map[interface{}]interface{}{}
	for k, v := range got.Env {
		cp[k] = v
	}
	if wantID {
		id, ok := cp[middleware.RequestIDKey].(string)
		if !ok || !idForm.MatchString(id) || middleware.GetReqID(got) != id {
			return fmt.Errorf("request ID %v", cp[middleware.RequestIDKey])
		}
		want[middleware.RequestIDKey] = id
	}
	if !reflect.DeepEqual(cp, want) {
		return fmt.Errorf("the environment is %v; want %v", cp, want)
	}
	return nil
}

func TestC21(t *testing.T) {
	pbt.Main(t, "C21", "C21: generated orders of the context-populating middleware, initial environments and query strings; non-trivial with several layers and a query or an initial environment.",
		pbt.P("layers", 80000, 2500000, genEnv, checkEnv))
}
