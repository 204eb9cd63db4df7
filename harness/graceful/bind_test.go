package gracefulcheck

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/zenazn/goji/graceful"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// pair is a certificate and its key, in files.
type pair struct {
	cert, key string
	x         *x509.Certificate
	k         *ecdsa.PrivateKey
}

func must[T any](v T, err error) T {
	if err != nil {
		pbt.Broken("%v\n", err)
	}
	return v
}

// newPair makes a certificate, signed by the parent or by itself.
func newPair(dir, name string, parent *pair) *pair {
	k := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(time.Now().UnixNano()),
		Subject:      pkix.Name{CommonName: name},
		NotBefore:    time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour),
		IsCA: parent == nil, BasicConstraintsValid: true,
		KeyUsage:    x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
		DNSNames:    []string{name, "localhost"},
	}
	px, pk := tmpl, k
	if parent != nil {
		px, pk = parent.x, parent.k
	}
	der := must(x509.CreateCertificate(rand.Reader, tmpl, px, &k.PublicKey, pk))
	p := &pair{cert: filepath.Join(dir, name+".crt"), key: filepath.Join(dir, name+".key"), x: must(x509.ParseCertificate(der)), k: k}
	write(p.cert, string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})))
	write(p.key, string(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: must(x509.MarshalECPrivateKey(k))})))
	return p
}

func write(name, data string) {
	if err := os.WriteFile(name, []byte(data), 0600); err != nil {
		pbt.Broken("%v\n", err)
	}
}

// tempDir makes a directory for this process; cleanup removes it.
func tempDir() (dir string, cleanup func()) {
	dir = must(os.MkdirTemp("", "verif-graceful-"))
	return dir, func() { os.RemoveAll(dir) }
}

// bindCase starts a server that cannot start.
type bindCase struct {
	TLS  bool
	Func bool   // the package function, or the method
	Addr string // free used bad-port bad-host no-port
	Cert string // good missing empty junk key other noread
	Key  string
}

func genBind(t *rapid.T) bindCase {
	c := bindCase{TLS: model.Chance(t, "tls", 70), Func: rapid.Bool().Draw(t, "func")}
	c.Addr = model.Pick(t, "addr", "free", "used", "bad-port", "bad-host", "no-port")
	c.Cert = "good"
	c.Key = "good"
	if c.TLS && model.Chance(t, "badcert", 75) {
		c.Cert = model.Pick(t, "cert", "good", "good", "missing", "empty", "junk", "other", "key")
		c.Key = model.Pick(t, "key", "good", "good", "missing", "empty", "junk", "other", "cert")
	}
	return c
}

var bindDir string
var goodPair, otherPair *pair

func (c bindCase) fails() bool {
	if c.Addr != "free" {
		return true
	}
	return c.TLS && !(c.Cert == "good" && c.Key == "good" || c.Cert == "other" && c.Key == "other")
}

func checkBind(r *pbt.R, c bindCase) error {
	if !c.fails() {
		return nil
	}
	r.NonTrivial()
	r.Label("failing start")
	if goodPair == nil {
		goodPair, otherPair = newPair(bindDir, "good", nil), newPair(bindDir, "other", nil)
		write(filepath.Join(bindDir, "empty"), "")
		write(filepath.Join(bindDir, "junk"), "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n")
	}
	file := func(kind string, key bool) string {
		p := goodPair
		switch kind {
		case "other":
			p = otherPair
		case "key":
			key = true
		case "cert":
			key = false
		case "good":
		default:
			return filepath.Join(bindDir, kind)
		}
		if key {
			return p.key
		}
		return p.cert
	}
	addr := ""
	switch c.Addr {
	case "free":
		addr = freeAddr()
	case "used":
		l := must(net.Listen("tcp", "127.0.0.1:0"))
		defer l.Close()
		addr = l.Addr().String()
	case "bad-port":
		addr = "127.0.0.1:99999"
	case "bad-host":
		addr = "1.2.3.4.5:80"
	case "no-port":
		addr = "127.0.0.1"
	}
	h := http.NotFoundHandler()
	var run, ref func() error
	srv := &graceful.Server{Addr: addr, Handler: h}
	std := &http.Server{Addr: addr, Handler: h}
	cert, key := file(c.Cert, false), file(c.Key, true)
	switch {
	case c.TLS && c.Func:
		run = func() error { return graceful.ListenAndServeTLS(addr, cert, key, h) }
	case c.TLS:
		run = func() error { return srv.ListenAndServeTLS(cert, key) }
	case c.Func:
		run = func() error { return graceful.ListenAndServe(addr, h) }
	default:
		run = srv.ListenAndServe
	}
	ref = std.ListenAndServe
	if c.TLS {
		ref = func() error { return std.ListenAndServeTLS(cert, key) }
	}
	ch := make(chan error, 1)
	go func() { ch <- run() }()
	select {
	case err := <-ch:
		if err == nil {
			return fmt.Errorf("starting the server returned no error")
		}
		if c.Addr == "free" || !c.TLS || c.Cert == "good" && c.Key == "good" {
			// There is one reason only, and it is net/http's.
			if want := ref(); want == nil || want.Error() != err.Error() {
				return fmt.Errorf("starting the server failed with %q, net/http's with %v", err, want)
			}
		}
	case <-time.After(patience):
		return fmt.Errorf("starting the server did not fail")
	}
	return nil
}

func TestC30(t *testing.T) {
	var cleanup func()
	bindDir, cleanup = tempDir()
	defer cleanup()
	pbt.Main(t, "C30", serveRule,
		pbt.P("shutdown", 1500, 12000, genWorld("serve"), checkC30),
		pbt.P("start", 1500, 12000, genBind, checkBind),
	)
}
