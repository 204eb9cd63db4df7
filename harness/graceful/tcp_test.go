package gracefulcheck

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"crypto/tls"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/zenazn/goji/graceful"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// C31 over real sockets: what the kernel moves (files, big bodies in both
// directions, deadlines, hijacked sockets), and the ways to start a server.

type tcpReq struct {
	Do    string // file range head send sendn chunks upload echo deadline hijack big304
	Size  int
	Off   int
	Close bool
	HTTP0 bool
}

type tcpCase struct {
	How   string // method func serve tls tlsserve
	Dead  bool   // see that clients which have gone silently would be noticed
	Conns [][]tcpReq
}

func genTCP(t *rapid.T) tcpCase {
	c := tcpCase{How: model.Pick(t, "how", "method", "method", "serve", "serve", "tls", "tls", "tlsserve", "func")}
	if c.How == "func" && model.Chance(t, "keep", 60) {
		c.How = "method"
	}
	c.Dead = c.How != "tlsserve" && model.Chance(t, "dead", 12)
	for n := model.Int(t, "conns", 1, 3); n > 0; n-- {
		var rs []tcpReq
		for k := model.Int(t, "requests", 1, 5); k > 0; k-- {
			r := tcpReq{
				Do:   model.Pick(t, "do", "file", "range", "head", "send", "sendn", "chunks", "upload", "echo", "deadline", "hijack", "controller"),
				Size: model.Pick(t, "size", 0, 1, 511, 513, 4096, 40000, 300000),
			}
			r.Size += model.Int(t, "more", 0, 3)
			r.Off = model.Int(t, "off", 0, r.Size)
			r.Close = model.Chance(t, "close", 15)
			r.HTTP0 = model.Chance(t, "http0", 10)
			rs = append(rs, r)
		}
		c.Conns = append(c.Conns, rs)
	}
	return c
}

func tcpData(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i/251)
	}
	return b
}

func tcpFile(n int) string {
	name := filepath.Join(bindDir, fmt.Sprintf("file-%d", n))
	if _, err := os.Stat(name); err != nil {
		write(name, string(tcpData(n)))
	}
	return name
}

type tcpRun struct {
	wg  sync.WaitGroup // handlers
	mu  sync.Mutex
	log []string
}

func (x *tcpRun) event(format string, args ...any) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.log = append(x.log, fmt.Sprintf(format, args...))
}

func (x *tcpRun) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	x.wg.Add(1)
	defer x.wg.Done()
	var q tcpReq
	fmt.Sscanf(r.URL.RawQuery, "%d,%d", &q.Size, &q.Off)
	q.Do = r.URL.Path[1:]
	host, _, err := net.SplitHostPort(r.RemoteAddr)
	x.event("%s %s %s from %s %v", r.Method, r.URL, r.Proto, host, err)
	switch q.Do {
	case "file", "range", "head":
		f := must(os.Open(tcpFile(q.Size)))
		defer f.Close()
		http.ServeContent(w, r, "data.bin", time.Unix(1e9, 0), f)
	case "send":
		f := must(os.Open(tcpFile(q.Size)))
		defer f.Close()
		n, err := io.Copy(w, f)
		x.event("sent %d %v", n, err)
	case "sendn":
		f := must(os.Open(tcpFile(q.Size)))
		defer f.Close()
		w.Header().Set("Content-Length", fmt.Sprint(q.Off))
		n, err := io.CopyN(w, f, int64(q.Off))
		x.event("sent %d %v", n, err)
	case "chunks":
		d := tcpData(q.Size)
		for len(d) > 0 {
			k := min(len(d), q.Off+1)
			w.Write(d[:k])
			w.(http.Flusher).Flush()
			d = d[k:]
			if q.Off < 100 && q.Size > 3000 {
				q.Off = 9999
			}
		}
	case "upload":
		h := sha256.New()
		n, err := io.Copy(h, r.Body)
		x.event("received %d %x %v", n, h.Sum(nil), err)
		fmt.Fprintf(w, "%d %x", n, h.Sum(nil))
	case "echo":
		w.Header().Set("Content-Type", "text/plain")
		b, err := io.ReadAll(r.Body)
		x.event("received %d %v", len(b), err)
		io.Copy(w, bytes.NewReader(b))
	case "controller":
		rc := http.NewResponseController(w)
		e1 := rc.SetReadDeadline(time.Now().Add(time.Hour))
		e2 := rc.SetWriteDeadline(time.Now().Add(time.Hour))
		w.Write(tcpData(q.Size))
		e3 := rc.Flush()
		x.event("controller %v %v %v", e1, e2, e3)
	case "deadline":
		// Writing fails once the deadline has passed.
		rc := http.NewResponseController(w)
		e1 := rc.SetWriteDeadline(time.Now().Add(-time.Second))
		w.Write(tcpData(100))
		x.event("deadline %v, flush fails %v", e1, rc.Flush() != nil)
	case "hijack":
		c, brw, err := w.(http.Hijacker).Hijack()
		if err != nil {
			x.event("hijack %v", err)
			return
		}
		x.event("hijacked, nothing buffered %v, local %v", brw.Reader.Buffered() == 0, c.LocalAddr() != nil)
		defer c.Close()
		c.SetDeadline(time.Now().Add(patience))
		f := must(os.Open(tcpFile(q.Size)))
		defer f.Close()
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", q.Size)
		n, err := io.Copy(c, f)
		x.event("hijacked: sent %d %v", n, err)
		line, err := brw.ReadString('\n')
		x.event("hijacked: read %q %v", line, err)
	}
}

// run serves the clients and returns what each of them got.
func (x *tcpRun) run(c tcpCase, std bool) (res [][]string, err error) {
	ls := make(chan net.Listener, 1)
	ip := ownIP()
	f := pairs()
	secure := strings.HasPrefix(c.How, "tls")
	srv := &http.Server{
		Addr: ip + ":0", Handler: x, ErrorLog: log.New(io.Discard, "", 0),
		TLSNextProto: map[string]func(*http.Server, *tls.Conn, http.Handler){},
		BaseContext:  func(l net.Listener) context.Context { ls <- l; return context.Background() },
	}
	if secure {
		srv.TLSConfig = &tls.Config{}
	}
	listen := func() net.Listener {
		lc := net.ListenConfig{}
		if c.Dead {
			lc.KeepAlive = -1 // unless the package sees to it
		}
		l := must(lc.Listen(context.Background(), "tcp", ip+":0"))
		ls <- l
		if c.How == "tlsserve" {
			l = tls.NewListener(l, &tls.Config{Certificates: []tls.Certificate{f.file.tls()}})
		}
		return l
	}
	ended := make(chan error, 1)
	leak := false
	addr := ""
	switch {
	case c.How == "func":
		addr = freeAddr()
		if std {
			go func() { ended <- http.ListenAndServe(addr, x) }()
		} else {
			go func() { ended <- graceful.ListenAndServe(addr, x) }()
		}
		leak = true
	case c.How == "serve" || c.How == "tlsserve":
		l := listen()
		if std {
			go func() { ended <- http.Serve(l, x) }()
		} else {
			go func() { ended <- graceful.Serve(l, x) }()
		}
	case c.How == "method" && std:
		go func() { ended <- srv.ListenAndServe() }()
	case c.How == "method":
		go func() { ended <- (*graceful.Server)(srv).ListenAndServe() }()
	case std:
		go func() { ended <- srv.ListenAndServeTLS(f.file.cert, f.file.key) }()
	default:
		go func() { ended <- (*graceful.Server)(srv).ListenAndServeTLS(f.file.cert, f.file.key) }()
	}
	var l net.Listener
	if !leak {
		select {
		case l = <-ls:
		case err := <-ended:
			return nil, fmt.Errorf("serving ended: %v", err)
		case <-time.After(patience):
			return nil, fmt.Errorf("the server does not start")
		}
		addr = l.Addr().String()
	}
	for _, k := range c.Conns {
		var tcp net.Conn
		for i := 0; ; i++ {
			tcp, err = net.Dial("tcp", addr)
			if err == nil {
				break
			}
			if !leak || i > 2000 {
				return nil, fmt.Errorf("cannot connect: %v", err)
			}
			time.Sleep(5 * time.Millisecond)
		}
		tcp.SetDeadline(time.Now().Add(patience))
		if c.Dead && !std && !probed(tcp) {
			return nil, fmt.Errorf("TCP keep-alives are not enabled on an accepted connection")
		}
		if secure {
			tcp = tls.Client(tcp, &tls.Config{InsecureSkipVerify: true})
		}
		res = append(res, tcpClient(tcp, k))
		tcp.Close()
		x.wg.Wait()
	}
	if l != nil {
		l.Close()
		<-ended
	}
	return res, nil
}

// probed waits for the kernel to have a keep-alive timer on the server's side of
// the connection.
func probed(client net.Conn) bool {
	hex := func(a net.Addr) string {
		t := a.(*net.TCPAddr)
		ip := t.IP.To4()
		return fmt.Sprintf("%02X%02X%02X%02X:%04X", ip[3], ip[2], ip[1], ip[0], t.Port)
	}
	local, remote := hex(client.RemoteAddr()), hex(client.LocalAddr())
	for end := time.Now().Add(patience / 4); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		f, err := os.Open("/proc/net/tcp")
		if err != nil {
			return true
		}
		found, timer := false, ""
		for s := bufio.NewScanner(f); s.Scan(); {
			if w := strings.Fields(s.Text()); len(w) > 5 && w[1] == local && w[2] == remote {
				found, timer = true, w[5]
				break
			}
		}
		f.Close()
		if found && strings.HasPrefix(timer, "02:") {
			return true
		}
	}
	return false
}

// tcpClient makes the requests on one connection for as long as it lasts.
func tcpClient(tcp net.Conn, reqs []tcpReq) (res []string) {
	br := bufio.NewReader(tcp)
	for _, q := range reqs {
		var b bytes.Buffer
		method, proto := "GET", "HTTP/1.1"
		switch q.Do {
		case "head":
			method = "HEAD"
		case "upload", "echo":
			method = "POST"
		}
		if q.HTTP0 {
			proto = "HTTP/1.0"
		}
		fmt.Fprintf(&b, "%s /%s?%d,%d %s\r\nHost: h\r\n", method, q.Do, q.Size, q.Off, proto)
		if q.Close {
			b.WriteString("Connection: close\r\n")
		}
		if q.Do == "range" {
			fmt.Fprintf(&b, "Range: bytes=%d-\r\n", q.Off)
		}
		if method == "POST" {
			fmt.Fprintf(&b, "Content-Length: %d\r\n", q.Size)
		}
		b.WriteString("\r\n")
		if method == "POST" {
			b.Write(tcpData(q.Size))
		}
		if _, err := tcp.Write(b.Bytes()); err != nil {
			return append(res, "cannot send")
		}
		r, err := http.ReadResponse(br, &http.Request{Method: method})
		if err != nil {
			return append(res, "no response"+because(err))
		}
		body, err := io.ReadAll(r.Body)
		r.Header.Del("Date")
		if q.Do == "send" {
			// How net/http frames what it copies on its own account depends on
			// whether the connection has a ReadFrom method.
			r.Header.Del("Content-Length")
			r.TransferEncoding, r.ContentLength = nil, 0
		}
		var h bytes.Buffer
		r.Header.Write(&h)
		sum := sha256.Sum256(body)
		res = append(res, fmt.Sprintf("%s %s %q %v %d %v, %d bytes %x %v", r.Proto, r.Status, h.String(), r.TransferEncoding, r.ContentLength, r.Close, len(body), sum[:6], err))
		if q.Do == "hijack" {
			fmt.Fprintf(tcp, "done\n")
			rest, err := io.ReadAll(br)
			return append(res, fmt.Sprintf("then %q%s", rest, because(err)))
		}
		if err != nil || r.Close {
			rest, err := io.ReadAll(br)
			return append(res, fmt.Sprintf("then %q%s", rest, because(err)))
		}
	}
	return res
}

func checkTCP(r *pbt.R, c tcpCase) error {
	a, b := &tcpRun{}, &tcpRun{}
	want, err := b.run(c, true)
	if err != nil {
		pbt.Broken("%v\n", err)
	}
	got, err := a.run(c, false)
	if err != nil {
		return err
	}
	r.Label("how:" + c.How)
	r.LabelIf(c.Dead, "keep-alives looked at")
	for _, k := range c.Conns {
		for _, q := range k {
			r.Label("do:" + q.Do)
		}
	}
	r.NonTrivial()
	for i := range want {
		for j := 0; j < len(want[i]) || j < len(got[i]); j++ {
			x, y := "nothing", "nothing"
			if j < len(got[i]) {
				x = got[i][j]
			}
			if j < len(want[i]) {
				y = want[i][j]
			}
			if x != y {
				return fmt.Errorf("connection %d, answer %d: %s\nfrom net/http: %s", i, j, x, y)
			}
		}
	}
	a.mu.Lock()
	b.mu.Lock()
	defer a.mu.Unlock()
	defer b.mu.Unlock()
	if x, y := strings.Join(a.log, "\n"), strings.Join(b.log, "\n"); x != y {
		return fmt.Errorf("the handlers saw\n%s\nwith net/http\n%s", x, y)
	}
	return nil
}

const tcpRule = "C31 over TCP: generated requests (files, ranges, big bodies both ways, chunks, deadlines, hijacked sockets) over loopback sockets, plain and TLS, through every way of starting a server; responses and what handlers see compared with net/http's."

func TestC31(t *testing.T) {
	var cleanup func()
	bindDir, cleanup = tempDir()
	defer cleanup()
	known := []pbt.Known{{
		What: "over TLS, handlers see a nil Request.TLS: net/http does not recognise the connections, which are wrapped for graceful shutdown, as TLS connections",
		Run: func(*testing.T) error {
			l := must(net.Listen("tcp", ownIP()+":0"))
			defer l.Close()
			seen := make(chan bool, 1)
			h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { seen <- r.TLS != nil })
			go graceful.Serve(tls.NewListener(l, &tls.Config{Certificates: []tls.Certificate{pairs().file.tls()}}), h)
			c := must(tls.Dial("tcp", l.Addr().String(), &tls.Config{InsecureSkipVerify: true}))
			defer c.Close()
			fmt.Fprintf(c, "GET / HTTP/1.1\r\nHost: h\r\n\r\n")
			select {
			case ok := <-seen:
				if !ok {
					return fmt.Errorf("nil")
				}
			case <-time.After(patience):
			}
			return nil
		},
	}}
	pbt.MainKnown(t, "C31", tcpRule, known, pbt.P("tcp", 4000, 40000, genTCP, checkTCP))
}
