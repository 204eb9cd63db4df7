package rootcheck

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/zenazn/goji"
	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// C36: what the package-level functions do to the default mux is compared with
// what the methods do to another one. The default mux as the package makes it
// exists once per process, so that part runs every case in a process of its own.

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	switch os.Getenv("VERIF_CHILD") {
	case "app":
		log.SetOutput(os.Stderr)
		appChild()
	case "default":
		child()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// ---- cases -----------------------------------------------------------------------

type rop struct {
	Do      string // use insert abandon route notfound request
	Fn      string // which routing function
	Mw, Bef string
	Pat     string
	H       int
	Kind    int  // how the handler is written
	Direct  bool // on DefaultMux itself
	Method  string
	Path    string
}

type rootCase struct {
	Ops   []rop
	Serve string // child: "", listener, serve, tls
	Raw   []string
}

var routeFns = []string{"Handle", "Connect", "Delete", "Get", "Head", "Options", "Patch", "Post", "Put", "Trace"}
var methods = []string{"GET", "CONNECT", "DELETE", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE", "FOO", "get"}
var patterns = []string{"/a", "/b", "/:x", "/a/:x", "/a/*", "/*", "/", "re:^/a(?P<n>.*)$", "re:^/[ab]", "fn:/a", "fn:/"}
var paths = []string{"/a", "/b", "/", "/a/b", "/c", "/a/b/c", "/ab"}
var mwNames = []string{"m0", "m1", "m2", "m3", "reqid", "logger", "recoverer", "options", "nocache"}

func genOp(t *rapid.T) rop {
	o := rop{Do: model.Pick(t, "do", "route", "route", "route", "request", "request", "request", "use", "insert", "abandon", "notfound")}
	o.Direct = model.Chance(t, "direct", 12)
	switch o.Do {
	case "route":
		o.Fn = model.Pick(t, "fn", routeFns...)
		o.Pat = model.Pick(t, "pat", patterns...)
		o.H, o.Kind = model.Int(t, "h", 0, 9), model.Int(t, "kind", 0, 5)
	case "notfound":
		o.H, o.Kind = model.Int(t, "h", 0, 9), model.Int(t, "kind", 0, 3)
	case "use", "abandon":
		o.Mw = model.Pick(t, "mw", mwNames...)
	case "insert":
		o.Mw, o.Bef = model.Pick(t, "mw", mwNames...), model.Pick(t, "bef", mwNames...)
	case "request":
		o.Method, o.Path = model.Pick(t, "method", methods...), model.Pick(t, "path", paths...)
	}
	return o
}

func genRoot(t *rapid.T) rootCase {
	var c rootCase
	for n := model.Int(t, "ops", 3, 20); n > 0; n-- {
		c.Ops = append(c.Ops, genOp(t))
	}
	return c
}

var rawTargets = []string{"/", "/a", "/a/b", "/b", "//a", "/a/../b", "/a/./b", "/%61", "/a%2Fb", "*", "http://other/a", "/?q=%zz", "/a?x=y", "/a//b", "/.", "/expvars", "other:443", "/é", "", "/stats/x", "/stats"}
var rawMethods = []string{"GET", "GET", "GET", "POST", "OPTIONS", "CONNECT", "HEAD", "DELETE", "PATCH", "PUT", "TRACE", "FOO", "get", "PROPFIND", "M-SEARCH"}

func genDefault(t *rapid.T) rootCase {
	c := genRoot(t)
	c.Serve = model.Pick(t, "serve", "", "listener", "listener", "serve", "tls")
	if c.Serve != "" {
		for n := model.Int(t, "raw", 1, 8); n > 0; n-- {
			h := ""
			if model.Chance(t, "id", 20) {
				h = "X-Request-Id: given\r\n"
			}
			c.Raw = append(c.Raw, fmt.Sprintf("%s %s HTTP/1.1\r\nHost: h\r\nConnection: close\r\n%s\r\n", model.Pick(t, "method", rawMethods...), model.Pick(t, "target", rawTargets...), h))
		}
	}
	return c
}

// ---- the two sides -----------------------------------------------------------------

// side is what the operations are applied to: the functions, or another mux.
type side struct {
	mux   func() *web.Mux // the mux
	funcs bool            // use the package's functions
	mu    sync.Mutex
	trace []string
}

var sides = map[bool]*side{}

func (s *side) event(format string, args ...any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.trace = append(s.trace, fmt.Sprintf(format, args...))
}

type sideKey struct{}

// of finds the side that a request is served by.
func of(r *http.Request) *side {
	if s, ok := r.Context().Value(sideKey{}).(*side); ok {
		return s
	}
	return sides[r.Header.Get("X-Side") == "reference"]
}

func through(name string, c *web.C, h http.Handler) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		id := false
		if c != nil {
			id = middleware.GetReqID(*c) != ""
		}
		of(r).event("%s in, request id %v", name, id)
		w.Header().Add("X-Through", name)
		h.ServeHTTP(w, r)
		of(r).event("%s out", name)
	})
}

func m0(h http.Handler) http.Handler           { return through("m0", nil, h) }
func m1(h http.Handler) http.Handler           { return through("m1", nil, h) }
func m2(c *web.C, h http.Handler) http.Handler { return through("m2", c, h) }
func m3(c *web.C, h http.Handler) http.Handler { return through("m3", c, h) }

var mws = map[string]web.MiddlewareType{
	"m0": m0, "m1": m1, "m2": m2, "m3": m3, "reqid": middleware.RequestID, "logger": middleware.Logger,
	"recoverer": middleware.Recoverer, "options": middleware.AutomaticOptions, "nocache": middleware.NoCache,
}

type fnPattern string

func (p fnPattern) Prefix() string { return string(p) }
func (p fnPattern) Match(r *http.Request, c *web.C) bool {
	return strings.HasPrefix(r.URL.Path, string(p))
}
func (p fnPattern) Run(r *http.Request, c *web.C) {
	if c.URLParams == nil {
		c.URLParams = map[string]string{}
	}
	c.URLParams["fn"] = string(p)
}

func pattern(s string) web.PatternType {
	if re, ok := strings.CutPrefix(s, "re:"); ok {
		return regexp.MustCompile(re)
	}
	if fn, ok := strings.CutPrefix(s, "fn:"); ok {
		return fnPattern(fn)
	}
	return s
}

type webHandler func(c web.C, w http.ResponseWriter, r *http.Request)

func (f webHandler) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) { f(c, w, r) }
func (f webHandler) ServeHTTP(w http.ResponseWriter, r *http.Request)           { f(web.C{}, w, r) }

func handler(n, kind int) web.HandlerType {
	run := func(c *web.C, w http.ResponseWriter, r *http.Request) {
		params, valid, id := "no context", any(nil), false
		if c != nil {
			params, valid, id = fmt.Sprint(c.URLParams), c.Env[web.ValidMethodsKey], middleware.GetReqID(*c) != ""
		}
		of(r).event("handler %d: %s %s params %s methods %v id %v", n, r.Method, r.URL.Path, params, valid, id)
		w.Header().Set("X-Handler", fmt.Sprint(n))
		switch n {
		case 7:
			panic("handler 7")
		case 8:
			w.WriteHeader(418)
		case 9:
			return
		}
		fmt.Fprintf(w, "handler %d", n)
	}
	plain := func(w http.ResponseWriter, r *http.Request) { run(nil, w, r) }
	withC := func(c web.C, w http.ResponseWriter, r *http.Request) { run(&c, w, r) }
	switch kind {
	case 0, 4:
		return withC
	case 1:
		return plain
	case 2:
		return http.HandlerFunc(plain)
	}
	return webHandler(withC)
}

func (s *side) apply(o rop) {
	defer func() {
		if p := recover(); p != nil {
			s.event("%s panics: %v", o.Do, p)
		}
	}()
	m := s.mux()
	f := s.funcs && !o.Direct
	// Is it the package's function or the method of the same name?
	switch o.Do {
	case "use":
		if f {
			goji.Use(mws[o.Mw])
		} else {
			m.Use(mws[o.Mw])
		}
	case "insert":
		var err error
		if f {
			err = goji.Insert(mws[o.Mw], mws[o.Bef])
		} else {
			err = m.Insert(mws[o.Mw], mws[o.Bef])
		}
		s.event("insert %s %s: %v", o.Mw, o.Bef, err)
	case "abandon":
		var err error
		if f {
			err = goji.Abandon(mws[o.Mw])
		} else {
			err = m.Abandon(mws[o.Mw])
		}
		s.event("abandon %s: %v", o.Mw, err)
	case "notfound":
		if f {
			goji.NotFound(handler(o.H, o.Kind))
		} else {
			m.NotFound(handler(o.H, o.Kind))
		}
	case "route":
		type route func(web.PatternType, web.HandlerType)
		fns := map[string][2]route{
			"Handle":  {goji.Handle, m.Handle},
			"Connect": {goji.Connect, m.Connect},
			"Delete":  {goji.Delete, m.Delete},
			"Get":     {goji.Get, m.Get},
			"Head":    {goji.Head, m.Head},
			"Options": {goji.Options, m.Options},
			"Patch":   {goji.Patch, m.Patch},
			"Post":    {goji.Post, m.Post},
			"Put":     {goji.Put, m.Put},
			"Trace":   {goji.Trace, m.Trace},
		}
		if f {
			fns[o.Fn][0](pattern(o.Pat), handler(o.H, o.Kind))
		} else {
			fns[o.Fn][1](pattern(o.Pat), handler(o.H, o.Kind))
		}
	case "request":
		r := httptest.NewRequest(o.Method, o.Path, nil)
		r = r.WithContext(context.WithValue(r.Context(), sideKey{}, s))
		w := httptest.NewRecorder()
		var logged bytes.Buffer
		log.SetOutput(&logged)
		defer log.SetOutput(io.Discard)
		defer func() { s.event("logged %s", normal(logged.String())) }()
		m.ServeHTTP(w, r)
		var h bytes.Buffer
		w.Result().Header.Write(&h)
		s.event("%s %s gets %d %q %q", o.Method, o.Path, w.Code, h.String(), w.Body)
	}
}

var volatileText = regexp.MustCompile(`\d{4}/\d\d/\d\d \d\d:\d\d:\d\d(\.\d+)? |\[[^\[\]]*-\d{6,}\]|in \S*\d+(\.\d+)?[nµm]?s|from \S+`)

func normal(s string) string {
	return volatileText.ReplaceAllStringFunc(s, func(m string) string {
		switch m[0] {
		case '[':
			return "[id]"
		case 'i':
			return "in time"
		case 'f':
			return "from somewhere"
		}
		return ""
	})
}

// silent keeps the stacks of recovered panics out of the way.
func silent(f func()) {
	old := os.Stderr
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		pbt.Broken("%v\n", err)
	}
	os.Stderr = null
	defer func() {
		os.Stderr = old
		null.Close()
	}()
	f()
}

func compare(a, b []string) error {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Errorf("on the default mux: %s\non another mux: %s\nbefore: %s", x, y, strings.Join(a[:min(i, len(a))], "\n        "))
		}
	}
	return nil
}

func label(r *pbt.R, c rootCase) {
	edits, reqs := 0, 0
	for _, o := range c.Ops {
		switch o.Do {
		case "request":
			reqs++
		case "route":
			r.Label("fn:" + o.Fn)
			edits++
		default:
			r.Label("do:" + o.Do)
			edits++
		}
	}
	r.NonTrivialIf(edits > 0 && reqs+len(c.Raw) > 0)
}

// checkFuncs puts a new mux where the default one is.
func checkFuncs(r *pbt.R, c rootCase) error {
	label(r, c)
	def, other := web.New(), web.New()
	old := goji.DefaultMux
	goji.DefaultMux = def
	defer func() { goji.DefaultMux = old }()
	a := &side{mux: func() *web.Mux { return goji.DefaultMux }, funcs: true}
	b := &side{mux: func() *web.Mux { return other }}
	silent(func() {
		for _, o := range c.Ops {
			a.apply(o)
			b.apply(o)
		}
	})
	return compare(a.trace, b.trace)
}

// ---- the default mux as it comes ------------------------------------------------------

type childReport struct {
	A, B  []string
	Error string
}

func child() {
	var c rootCase
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_ARG")), &c); err != nil {
		fmt.Fprintln(os.Stderr, "CHECK-ERROR", err)
		os.Exit(3)
	}
	other := web.New()
	other.Use(middleware.RequestID)
	other.Use(middleware.Logger)
	other.Use(middleware.Recoverer)
	other.Use(middleware.AutomaticOptions)
	a := &side{mux: func() *web.Mux { return goji.DefaultMux }, funcs: true}
	b := &side{mux: func() *web.Mux { return other }}
	for _, o := range c.Ops {
		a.apply(o)
		b.apply(o)
	}
	var rep childReport
	if c.Serve != "" {
		rep.Error = serve(c, a, b, other)
	}
	rep.A, rep.B = a.trace, b.trace
	out, _ := json.Marshal(rep)
	os.Stdout.Write(append(out, '\n'))
}

const patience = 20 * time.Second

func listen() net.Listener {
	pid := os.Getpid()
	l, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:0", 1+(pid>>16)%200, (pid>>8)&255, pid&255))
	if err != nil {
		fmt.Fprintln(os.Stderr, "CHECK-ERROR", err)
		os.Exit(3)
	}
	return l
}

// serve runs the default mux and the other one as servers.
func serve(c rootCase, a, b *side, other *web.Mux) string {
	http.HandleFunc("/stats/", func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "statistics") })
	ref := http.NewServeMux()
	ref.HandleFunc("/stats/", func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "statistics") })
	ref.Handle("/", other)
	sides[false], sides[true] = a, b
	rl := listen()
	go http.Serve(rl, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		r.Header.Set("X-Side", "reference")
		ref.ServeHTTP(w, r)
	}))

	addr := ""
	ended := make(chan bool, 1)
	switch c.Serve {
	case "listener":
		l := listen()
		addr = l.Addr().String()
		go func() {
			goji.ServeListener(l)
			ended <- true
		}()
	case "serve", "tls":
		l := listen()
		addr = l.Addr().String()
		l.Close()
		os.Args = []string{os.Args[0], "-bind", addr}
		if flag.Parsed() {
			return "flags are parsed already"
		}
		go func() {
			if c.Serve == "tls" {
				goji.ServeTLS(certificate())
			} else {
				goji.Serve()
			}
			ended <- true
		}()
	}
	var probe string
	deadline := time.Now().Add(patience)
	for {
		s, err := talk(addr, c.Serve == "tls", "GET /stats/ HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n")
		probe = s
		if err == nil {
			break
		}
		if time.Now().After(deadline) {
			return "the server does not start"
		}
		time.Sleep(2 * time.Millisecond)
	}
	if !strings.HasSuffix(probe, "statistics") {
		return fmt.Sprintf("a handler registered with net/http's default mux is not reached: %q", probe)
	}
	for _, raw := range c.Raw {
		x, err1 := talk(addr, c.Serve == "tls", raw)
		y, err2 := talk(rl.Addr().String(), false, raw)
		a.event("%q gets %s %v", raw, x, err1)
		b.event("%q gets %s %v", raw, y, err2)
	}
	// It is shut down as users do it.
	syscall.Kill(os.Getpid(), syscall.SIGINT)
	select {
	case <-ended:
	case <-time.After(patience):
		return "serving does not end after an interrupt"
	}
	return ""
}

var dateLine = regexp.MustCompile(`Date: [^\r]*\r\n`)

// certificate is a configuration with a new certificate.
func certificate() *tls.Config {
	fatal := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, "CHECK-ERROR", err)
			os.Exit(3)
		}
	}
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	fatal(err)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &k.PublicKey, k)
	fatal(err)
	return &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: k}}}
}

func talk(addr string, secure bool, raw string) (string, error) {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		return "", err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(patience))
	if secure {
		c = tls.Client(c, &tls.Config{InsecureSkipVerify: true})
	}
	if _, err := io.WriteString(c, raw); err != nil {
		return "", err
	}
	b, err := io.ReadAll(c)
	if err != nil && len(b) > 0 {
		err = nil
	}
	return dateLine.ReplaceAllString(string(b), ""), err
}

func checkDefault(r *pbt.R, c rootCase) error {
	label(r, c)
	r.Label("serve:" + c.Serve)
	arg, err := json.Marshal(c)
	if err != nil {
		pbt.Broken("%v\n", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 5*patience)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "-test.run", "^$")
	cmd.Env = append(os.Environ(), "VERIF_CHILD=default", "VERIF_ARG="+string(arg))
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err = cmd.Run()
	var rep childReport
	if jerr := json.Unmarshal(stdout.Bytes(), &rep); err == nil && jerr == nil {
		if rep.Error != "" {
			return fmt.Errorf("%s", rep.Error)
		}
		return compare(rep.A, rep.B)
	}
	text := stderr.String()
	if ctx.Err() != nil || strings.Contains(text, "CHECK-ERROR") {
		pbt.Broken("the process of a case: %v\n%s\n", err, text)
	}
	return fmt.Errorf("the process died: %v\n%.3000s", err, text)
}

const rootRule = "C36: generated sequences of the package-level functions (mixed with methods of DefaultMux) and requests, compared with the same methods on another mux: with a new mux as the default one, and in processes of their own with the default mux as it comes and, mostly, served; non-trivial when something is registered and something requested."

func TestC36(t *testing.T) {
	pbt.Main(t, "C36", rootRule,
		pbt.P("functions", 20000, 600000, genRoot, checkFuncs),
		pbt.P("default", 2500, 40000, genDefault, checkDefault),
	)
}
