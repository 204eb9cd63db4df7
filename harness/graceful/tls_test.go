package gracefulcheck

import (
	"bytes"
	"context"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/zenazn/goji/graceful"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// C32: the same TLS clients connect to a server started by graceful and to one
// started by net/http with the same configuration.

// tlsConf describes a tls.Config.
type tlsConf struct {
	Min, Max  uint16
	Suites    []uint16
	Curves    []tls.CurveID
	Auth      int
	CAs       string   // which authorities sign clients: "", a, b, ab
	Protos    []string // nil: not set
	Empty     bool     // Protos is set and empty
	Certs     string   // own certificates: "", one, two, named
	GetCert   string   // "", always, some, fail
	GetConf   string   // "", nil, fail, some
	VerPeer   string   // "", ok, fail, some
	VerConn   string
	Tickets   string // "", off, key, session
	Time      string // "", late
	Rand, Log bool
	Other     *tlsConf // for GetConf
}

type tlsClient struct {
	Min, Max uint16
	Suites   []uint16
	Curves   []tls.CurveID
	Cert     string // "", a, b, self
	Name     string
	Protos   []string
	Again    int // connects once more, with what the session cache holds
}

type tlsCase struct {
	How     string // method nofiles onefile func
	Nil     bool   // no configuration at all
	H2      bool   // HTTP/2 is not disabled; no client asks for it
	Conf    tlsConf
	Clients []tlsClient
}

var tlsVersions = []uint16{tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13}
var tlsSuites = []uint16{
	tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384,
	tls.TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256, tls.TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA,
	tls.TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA, tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256,
	tls.TLS_RSA_WITH_AES_128_CBC_SHA, tls.TLS_AES_128_GCM_SHA256,
}
var tlsCurves = []tls.CurveID{tls.CurveP256, tls.CurveP384, tls.CurveP521, tls.X25519, tls.X25519MLKEM768}
var tlsProtos = []string{"http/1.1", "http/1.0", "foo", "acme-tls/1", "h2"}
var tlsNames = []string{"", "one.example", "two.example", "other.example", "localhost"}

func genVersions(t *rapid.T) (lo, hi uint16) {
	if model.Chance(t, "min?", 40) {
		lo = model.Pick(t, "min", tlsVersions...)
	}
	if model.Chance(t, "max?", 40) {
		hi = model.Pick(t, "max", tlsVersions...)
		if hi < lo && model.Chance(t, "order", 90) {
			lo, hi = hi, lo
		}
	}
	return
}

func genSome[T any](t *rapid.T, l string, pct int, xs []T) (res []T) {
	if !model.Chance(t, l+"?", pct) {
		return nil
	}
	for n := model.Int(t, l+"n", 1, 3); n > 0; n-- {
		res = append(res, model.Pick(t, l, xs...))
	}
	return
}

func genTLSConf(t *rapid.T, depth int) tlsConf {
	c := tlsConf{}
	c.Min, c.Max = genVersions(t)
	c.Suites = genSome(t, "suites", 30, tlsSuites)
	c.Curves = genSome(t, "curves", 30, tlsCurves)
	if model.Chance(t, "auth?", 50) {
		c.Auth = model.Int(t, "auth", 1, 4)
	}
	c.CAs = model.Pick(t, "cas", "", "a", "b", "ab")
	if c.Auth > 0 && model.Chance(t, "ca", 70) {
		c.CAs = model.Pick(t, "cas2", "a", "ab")
	}
	c.Protos = genSome(t, "protos", 30, tlsProtos)
	c.Empty = c.Protos == nil && model.Chance(t, "noprotos", 15)
	c.Certs = model.Pick(t, "certs", "", "", "one", "two", "named")
	c.GetCert = model.Pick(t, "getcert", "", "", "", "always", "some", "fail")
	c.VerPeer = model.Pick(t, "verpeer", "", "", "", "ok", "fail", "some")
	c.VerConn = model.Pick(t, "verconn", "", "", "", "ok", "fail", "some")
	c.Tickets = model.Pick(t, "tickets", "", "", "", "off", "key", "session")
	if model.Chance(t, "time", 8) {
		c.Time = "late"
	}
	c.Rand = model.Chance(t, "rand", 10)
	c.Log = model.Chance(t, "keylog", 15)
	if depth > 0 {
		c.GetConf = model.Pick(t, "getconf", "", "", "nil", "fail", "some", "some")
		if c.GetConf == "some" {
			o := genTLSConf(t, depth-1)
			c.Other = &o
		}
	}
	return c
}

func genTLS(t *rapid.T) tlsCase {
	c := tlsCase{How: model.Pick(t, "how", "method", "method", "method", "method", "nofiles", "onefile")}
	switch {
	case model.Chance(t, "func", 4):
		c.How, c.Nil = "func", true
	case model.Chance(t, "nil", 10):
		c.Nil = true
	default:
		c.Conf = genTLSConf(t, 1)
	}
	c.H2 = c.How == "func" || model.Chance(t, "h2", 30)
	protos := tlsProtos
	if c.H2 {
		protos = tlsProtos[:4]
	}
	for n := model.Int(t, "clients", 1, 4); n > 0; n-- {
		k := tlsClient{}
		k.Min, k.Max = genVersions(t)
		if c.Nil && model.Chance(t, "old", 50) {
			k.Min = tls.VersionTLS10
			k.Max = model.Pick(t, "old", tlsVersions...)
		}
		k.Suites = genSome(t, "suites", 20, tlsSuites)
		k.Curves = genSome(t, "curves", 20, tlsCurves)
		k.Cert = model.Pick(t, "cert", "", "a", "a", "b", "self")
		k.Name = model.Pick(t, "name", tlsNames...)
		k.Protos = genSome(t, "protos", 30, protos)
		k.Again = model.Pick(t, "again", 0, 0, 1, 2)
		c.Clients = append(c.Clients, k)
	}
	return c
}

// ---- the certificates -----------------------------------------------------------

type tlsFiles struct {
	file, one, two, other  *pair
	caA, caB, clA, clB, cs *pair
}

var tlsPairs *tlsFiles

func pairs() *tlsFiles {
	if tlsPairs == nil {
		f := &tlsFiles{}
		f.file, f.one, f.two, f.other = newPair(bindDir, "file.example", nil), newPair(bindDir, "one.example", nil), newPair(bindDir, "two.example", nil), newPair(bindDir, "other.example", nil)
		f.caA, f.caB = newPair(bindDir, "ca-a", nil), newPair(bindDir, "ca-b", nil)
		f.clA, f.clB, f.cs = newPair(bindDir, "client-a", f.caA), newPair(bindDir, "client-b", f.caB), newPair(bindDir, "client-self", nil)
		tlsPairs = f
	}
	return tlsPairs
}

func (p *pair) tls() tls.Certificate {
	return tls.Certificate{Certificate: [][]byte{p.x.Raw}, PrivateKey: p.k, Leaf: p.x}
}

// tlsRun is one server and what it saw.
type tlsRun struct {
	mu     sync.Mutex
	log    []string
	keys   bytes.Buffer
	random int
}

func (x *tlsRun) event(format string, args ...any) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.log = append(x.log, fmt.Sprintf(format, args...))
}

// Write is the key log.
func (x *tlsRun) Write(b []byte) (int, error) {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.keys.Write(b)
}

// Read is the source of randomness.
func (x *tlsRun) Read(b []byte) (int, error) {
	x.mu.Lock()
	x.random++
	x.mu.Unlock()
	return rand.Read(b)
}

var errVerify = errors.New("the user does not like this client")

// spare copies a slice into one with room behind it.
func spare[T any](xs []T) []T {
	if xs == nil {
		return nil
	}
	r := make([]T, 0, len(xs)+3)
	return append(r, xs...)
}

func (x *tlsRun) config(c tlsConf) *tls.Config {
	f := pairs()
	r := &tls.Config{MinVersion: c.Min, MaxVersion: c.Max, CipherSuites: spare(c.Suites), CurvePreferences: spare(c.Curves), ClientAuth: tls.ClientAuthType(c.Auth), NextProtos: spare(c.Protos)}
	if c.Empty {
		r.NextProtos = []string{}
	}
	if c.CAs != "" {
		r.ClientCAs = x509.NewCertPool()
		if strings.Contains(c.CAs, "a") {
			r.ClientCAs.AddCert(f.caA.x)
		}
		if strings.Contains(c.CAs, "b") {
			r.ClientCAs.AddCert(f.caB.x)
		}
	}
	switch c.Certs {
	case "one":
		r.Certificates = spare([]tls.Certificate{f.one.tls()})
	case "two":
		r.Certificates = spare([]tls.Certificate{f.one.tls(), f.two.tls()})
	case "named":
		one, two := f.one.tls(), f.two.tls()
		r.Certificates = spare([]tls.Certificate{one, two})
		r.NameToCertificate = map[string]*tls.Certificate{"two.example": &two, "other.example": &one}
	}
	if c.GetCert != "" {
		r.GetCertificate = func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
			x.event("GetCertificate %q", h.ServerName)
			if c.GetCert == "fail" && h.ServerName != "two.example" {
				return nil, errVerify
			}
			if c.GetCert == "always" || h.ServerName == "one.example" {
				cert := f.other.tls()
				return &cert, nil
			}
			return nil, nil
		}
	}
	if c.GetConf != "" {
		var other *tls.Config
		if c.Other != nil {
			other = x.config(*c.Other)
			if len(other.Certificates) == 0 && other.GetCertificate == nil {
				other.Certificates = []tls.Certificate{f.two.tls()}
			}
		}
		r.GetConfigForClient = func(h *tls.ClientHelloInfo) (*tls.Config, error) {
			x.event("GetConfigForClient %q %v %v", h.ServerName, h.SupportedVersions, h.SupportedProtos)
			switch c.GetConf {
			case "fail":
				if h.ServerName == "two.example" || h.ServerName == "" {
					return nil, errVerify
				}
			case "some":
				if h.ServerName != "localhost" {
					return other, nil
				}
			}
			return nil, nil
		}
	}
	if c.VerPeer != "" {
		r.VerifyPeerCertificate = func(raw [][]byte, chains [][]*x509.Certificate) error {
			x.event("VerifyPeerCertificate %d certificates %d chains", len(raw), len(chains))
			if c.VerPeer == "fail" || c.VerPeer == "some" && len(raw) > 0 && !bytes.Equal(raw[0], f.clA.x.Raw) {
				return errVerify
			}
			return nil
		}
	}
	if c.VerConn != "" {
		r.VerifyConnection = func(s tls.ConnectionState) error {
			x.event("VerifyConnection %q %v %v resumed %v with %d certificates", s.ServerName, tls.VersionName(s.Version), s.NegotiatedProtocol, s.DidResume, len(s.PeerCertificates))
			if c.VerConn == "fail" || c.VerConn == "some" && s.ServerName == "one.example" {
				return errVerify
			}
			return nil
		}
	}
	switch c.Tickets {
	case "off":
		r.SessionTicketsDisabled = true
	case "key":
		r.SetSessionTicketKeys([][32]byte{{1, 2, 3}, {4}})
	case "session":
		var sessions sync.Map
		r.WrapSession = func(cs tls.ConnectionState, ss *tls.SessionState) ([]byte, error) {
			x.event("WrapSession %q", cs.ServerName)
			id := make([]byte, 16)
			rand.Read(id)
			b, err := ss.Bytes()
			sessions.Store(string(id), b)
			return id, err
		}
		r.UnwrapSession = func(id []byte, cs tls.ConnectionState) (*tls.SessionState, error) {
			b, ok := sessions.Load(string(id))
			x.event("UnwrapSession %q found %v", cs.ServerName, ok)
			if !ok {
				return nil, nil
			}
			return tls.ParseSessionState(b.([]byte))
		}
	}
	if c.Time == "late" {
		r.Time = func() time.Time { return time.Now().Add(2000 * time.Hour) }
	}
	if c.Rand {
		r.Rand = x
	}
	if c.Log {
		r.KeyLogWriter = x
	}
	return r
}

// snapshot describes what is in a configuration, room behind slices included.
func snapshot(c *tls.Config) string {
	if c == nil {
		return "nil"
	}
	var b strings.Builder
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		if !v.Type().Field(i).IsExported() {
			continue
		}
		f := v.Field(i)
		name := v.Type().Field(i).Name
		switch f.Kind() {
		case reflect.Func, reflect.Pointer:
			fmt.Fprintf(&b, "%s %v\n", name, f.Pointer())
		case reflect.Interface:
			fmt.Fprintf(&b, "%s %p\n", name, f.Interface())
		case reflect.Slice:
			fmt.Fprintf(&b, "%s nil %v length %d:", name, f.IsNil(), f.Len())
			full := f.Slice(0, f.Cap())
			for j := 0; j < full.Len(); j++ {
				if cert, ok := full.Index(j).Interface().(tls.Certificate); ok {
					fmt.Fprintf(&b, " %d certificates %v", len(cert.Certificate), cert.Leaf != nil && cert.PrivateKey != nil)
					if cert.Leaf != nil {
						fmt.Fprintf(&b, " %v", cert.Leaf.Subject)
					}
					continue
				}
				fmt.Fprintf(&b, " %#v", full.Index(j).Interface())
			}
			b.WriteString("\n")
		default:
			fmt.Fprintf(&b, "%s %v\n", name, f.Interface())
		}
	}
	return b.String()
}

// run starts the server, lets the clients connect and returns what happened to
// each of them; started is false if the server could not start.
func (x *tlsRun) run(c tlsCase, std bool) (started bool, res [][]string, err error) {
	f := pairs()
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		x.event("request %s", r.URL)
		io.WriteString(w, "hello "+r.URL.Path)
	})
	var conf *tls.Config
	if !c.Nil {
		conf = x.config(c.Conf)
	}
	before := snapshot(conf)
	addrs := make(chan net.Listener, 1)
	ip, _, _ := net.SplitHostPort(freeAddr())
	srv := &http.Server{
		Addr: ip + ":0", Handler: h, TLSConfig: conf, ErrorLog: log.New(io.Discard, "", 0),
		BaseContext: func(l net.Listener) context.Context {
			addrs <- l
			return context.Background()
		},
	}
	if !c.H2 {
		srv.TLSNextProto = map[string]func(*http.Server, *tls.Conn, http.Handler){}
	}
	cert, key := f.file.cert, f.file.key
	switch c.How {
	case "nofiles":
		cert, key = "", ""
	case "onefile":
		key = ""
	}
	ended := make(chan error, 1)
	var addr string
	var l net.Listener
	switch {
	case std:
		if c.Nil {
			srv.TLSConfig = &tls.Config{MinVersion: tls.VersionTLS10}
		}
		go func() { ended <- srv.ListenAndServeTLS(cert, key) }()
	case c.How == "func":
		// This one's listener is out of reach and stays.
		addr = freeAddr()
		go func() { ended <- graceful.ListenAndServeTLS(addr, cert, key, h) }()
		for i := 0; ; i++ {
			k, err := net.Dial("tcp", addr)
			if err == nil {
				k.Close()
				break
			}
			if i > 2000 {
				return false, nil, fmt.Errorf("the server does not start: %v", err)
			}
			time.Sleep(5 * time.Millisecond)
		}
	default:
		go func() { ended <- (*graceful.Server)(srv).ListenAndServeTLS(cert, key) }()
	}
	if addr == "" {
		select {
		case l = <-addrs:
			addr = l.Addr().String()
		case err := <-ended:
			if err == nil {
				return false, nil, fmt.Errorf("the server ended at once")
			}
			return false, [][]string{{err.Error()}}, nil
		case <-time.After(patience):
			return false, nil, fmt.Errorf("the server does not start")
		}
	}
	for i, k := range c.Clients {
		res = append(res, x.client(addr, i, k))
	}
	if l != nil {
		l.Close()
		<-ended
	}
	if after := snapshot(conf); after != before && !std {
		return false, nil, fmt.Errorf("the configuration of the user was changed:\n%s\ninstead of\n%s", after, before)
	}
	return true, res, nil
}

// client connects and describes what it got.
func (x *tlsRun) client(addr string, i int, k tlsClient) (res []string) {
	f := pairs()
	conf := &tls.Config{MinVersion: k.Min, MaxVersion: k.Max, CipherSuites: k.Suites, CurvePreferences: k.Curves, ServerName: k.Name, NextProtos: k.Protos, InsecureSkipVerify: true}
	conf.ClientSessionCache = tls.NewLRUClientSessionCache(4)
	switch k.Cert {
	case "a":
		conf.Certificates = []tls.Certificate{f.clA.tls()}
	case "b":
		conf.Certificates = []tls.Certificate{f.clB.tls()}
	case "self":
		conf.Certificates = []tls.Certificate{f.cs.tls()}
	}
	// Send the certificate whatever the server asks for.
	if len(conf.Certificates) > 0 {
		cert := conf.Certificates[0]
		conf.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &cert, nil }
	}
	for n := 0; n <= k.Again; n++ {
		path := fmt.Sprintf("/%d/%d", i, n)
		res = append(res, tlsTalk(addr, path, conf))
	}
	return
}

func tlsTalk(addr, path string, conf *tls.Config) string {
	tcp, err := net.Dial("tcp", addr)
	if err != nil {
		return "cannot connect"
	}
	defer tcp.Close()
	tcp.SetDeadline(time.Now().Add(patience))
	c := tls.Client(tcp, conf)
	if err := c.Handshake(); err != nil {
		return "rejected" + because(err)
	}
	s := c.ConnectionState()
	what := fmt.Sprintf("%s %s %s protocol %q resumed %v", tls.VersionName(s.Version), tls.CipherSuiteName(s.CipherSuite), s.CurveID, s.NegotiatedProtocol, s.DidResume)
	if len(s.PeerCertificates) > 0 {
		what += " certificate " + s.PeerCertificates[0].Subject.CommonName
	}
	if p := s.NegotiatedProtocol; p != "" && p != "http/1.1" && p != "http/1.0" {
		// What is then spoken is another question.
		c.CloseWrite()
		tcp.(*net.TCPConn).CloseWrite()
		io.Copy(io.Discard, tcp)
		return what
	}
	fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n", path)
	b, err := io.ReadAll(c)
	if _, body, ok := strings.Cut(string(b), "\r\n\r\n"); ok && err == nil {
		head, _, _ := strings.Cut(string(b), "\r\n")
		return what + " gets " + head + " " + body
	}
	if len(b) > 0 {
		return what + fmt.Sprintf(" gets %q and %v", b, err)
	}
	return "rejected" + because(err)
}

// because is only there to see a test that waits in vain.
func because(err error) string {
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		return " (timeout)"
	}
	return ""
}

func checkTLS(r *pbt.R, c tlsCase) error {
	a, b := &tlsRun{}, &tlsRun{}
	okWant, want, err := b.run(c, true)
	if err != nil {
		pbt.Broken("%v\n", err)
	}
	r.Label("how:" + c.How)
	if !okWant && strings.HasPrefix(want[0][0], "http2:") {
		r.Label("net/http cannot do HTTP/2")
		return nil
	}
	okGot, got, err := a.run(c, false)
	if err != nil {
		return err
	}
	if okGot != okWant {
		return fmt.Errorf("the server started: %v, net/http's: %v (%v, %v)", okGot, okWant, got, want)
	}
	if okWant {
		accepted, rejected := 0, 0
		for _, k := range want {
			for _, s := range k {
				if strings.HasPrefix(s, "rejected") {
					rejected++
				} else {
					accepted++
				}
				r.LabelIf(strings.Contains(s, "resumed true"), "resumed")
				for _, v := range tlsVersions {
					r.LabelIf(strings.HasPrefix(s, tls.VersionName(v)), tls.VersionName(v))
				}
			}
		}
		r.LabelIf(accepted > 0, "accepted")
		r.LabelIf(rejected > 0, "rejected")
		r.NonTrivialIf(accepted > 0 || rejected > 0 && !c.Nil)
	} else {
		r.Label("does not start")
	}
	for i := range want {
		for j := range want[i] {
			if got[i][j] != want[i][j] {
				return fmt.Errorf("client %d, connection %d: %s\nwith net/http: %s", i, j, got[i][j], want[i][j])
			}
		}
	}
	a.mu.Lock()
	b.mu.Lock()
	defer a.mu.Unlock()
	defer b.mu.Unlock()
	sort.Strings(a.log)
	sort.Strings(b.log)
	for i := 0; i < len(a.log) || i < len(b.log); i++ {
		x, y := "nothing", "nothing"
		if i < len(a.log) {
			x = a.log[i]
		}
		if i < len(b.log) {
			y = b.log[i]
		}
		if x != y {
			return fmt.Errorf("the callbacks saw %q, those of net/http's server %q", a.log, b.log)
		}
	}
	if (a.keys.Len() > 0) != (b.keys.Len() > 0) {
		return fmt.Errorf("keys logged: %v, by net/http: %v", a.keys.Len() > 0, b.keys.Len() > 0)
	}
	if (a.random > 0) != (b.random > 0) {
		return fmt.Errorf("source of randomness used: %v, by net/http: %v", a.random > 0, b.random > 0)
	}
	return nil
}

const tlsRule = "C32: generated TLS configurations (version bounds, suites, curves, client certificates, callbacks, tickets, per-client configurations; sometimes none) and clients; the outcome of each connection and what the user's callbacks see is compared with net/http's server under the same configuration (TLS 1.0 as the lower bound if there is none), and the user's configuration must come out unchanged; non-trivial when a client is accepted, or rejected under a configuration."

func TestC32(t *testing.T) {
	var cleanup func()
	bindDir, cleanup = tempDir()
	defer cleanup()
	pbt.Main(t, "C32", tlsRule,
		pbt.P("handshakes", 8000, 80000, genTLS, checkTLS),
	)
}
