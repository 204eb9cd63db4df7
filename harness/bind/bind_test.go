package bindcheck

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ---- cases -----------------------------------------------------------------------

// A bindCase is the environment of a process and what it does.
type bindCase struct {
	Goji, Port *string
	Master     string   // EINHORN_MASTER_PID: "" absent, right, other, or =text
	Count      string   // EINHORN_FD_COUNT: "" absent, or =text
	EinFds     []string // EINHORN_FD_i; "-" is absent
	Decoys     bool     // descriptors which Einhorn would not have counted
	Sock       string   // EINHORN_SOCK_PATH: "" absent, there
	ListenPid  string   // like Master, with parent for the parent
	ListenFds  string
	Files      []string // the descriptors from 3 on: tcp unix pipe file udp
	Default    *string
	Args       []string
	Do         []string
}

const firstFd = 3

func atoi(s string) (int, bool) {
	n, err := strconv.Atoi(s)
	return n, err == nil
}

// einhorn reports how many sockets Einhorn has passed; bad says that it counts
// but one of its descriptors is not well formed.
func (c *bindCase) einhorn() (n int, bad bool) {
	if c.Master != "right" || c.Count == "" {
		return 0, false
	}
	n, ok := atoi(c.Count[1:])
	if !ok || n <= 0 {
		return 0, false
	}
	for i := 0; i < n; i++ {
		if i >= len(c.EinFds) {
			return n, true
		}
		if _, ok := atoi(c.EinFds[i]); !ok {
			return n, true
		}
	}
	return n, false
}

func (c *bindCase) systemd() int {
	if c.ListenPid != "right" || c.ListenFds == "" {
		return 0
	}
	n, ok := atoi(c.ListenFds[1:])
	if !ok || n < 0 {
		return 0
	}
	return n
}

// sniff is the model of the choice.
func (c *bindCase) sniff() string {
	if c.Goji != nil && *c.Goji != "" {
		return *c.Goji
	}
	if n, _ := c.einhorn(); n > 0 {
		return "einhorn@0"
	}
	if c.systemd() > 0 {
		return "fd@3"
	}
	if c.Port != nil && *c.Port != "" {
		return ":" + *c.Port
	}
	return ""
}

// flagDefault is the model of the flag's default.
func (c *bindCase) flagDefault() string {
	if s := c.sniff(); s != "" {
		return s
	}
	if c.Default != nil {
		return *c.Default
	}
	return ":8000"
}

// flagValue is its value after parsing.
func (c *bindCase) flagValue() string {
	v := c.flagDefault()
	for i := 0; i < len(c.Args); i++ {
		a := strings.TrimPrefix(strings.TrimPrefix(c.Args[i], "-"), "-")
		if s, ok := strings.CutPrefix(a, "bind="); ok {
			v = s
		} else {
			i++
			v = c.Args[i]
		}
	}
	return v
}

// file returns the number of the inherited file behind a descriptor, or -1.
func (c *bindCase) file(fd int) int {
	if fd >= firstFd && fd < firstFd+len(c.Files) {
		return fd - firstFd
	}
	return -1
}

// descriptor returns which descriptor a bind string stands for; ok is false if
// it stands for none.
func (c *bindCase) descriptor(s string) (fd int, ok, is bool) {
	if strings.ContainsRune(s, ':') || strings.HasPrefix(s, ".") || strings.HasPrefix(s, "/") {
		return 0, false, false
	}
	if v, is := strings.CutPrefix(s, "fd@"); is {
		fd, ok := atoi(v)
		return fd, ok, true
	}
	if v, is := strings.CutPrefix(s, "einhorn@"); is {
		k, ok := atoi(v)
		if n, _ := c.einhorn(); !ok || k < 0 || k >= n {
			return 0, false, true
		}
		fd, ok := atoi(c.EinFds[k])
		return fd, ok, true
	}
	return 0, false, false
}

// ---- generators ------------------------------------------------------------------

func genJunkInt(t *rapid.T) string {
	return model.Pick(t, "junk", "", "x", "3x", " 1", "1 ", "1.0", "0x1", "--1", "99999999999999999999", "one", "-")
}

var listenFiles = []string{"tcp", "unix"}
var otherFiles = []string{"pipe", "file", "udp"}

func genFiles(t *rapid.T) (fs []string) {
	n := model.Int(t, "files", 1, 4)
	if model.Chance(t, "many", 6) {
		n = model.Int(t, "manyfiles", 5, 14)
	}
	for ; n > 0; n-- {
		if model.Chance(t, "odd", 20) {
			fs = append(fs, model.Pick(t, "file", otherFiles...))
		} else {
			fs = append(fs, model.Pick(t, "file", listenFiles...))
		}
	}
	return
}

// genEnv draws the environment; well is the chance that one thing is in order.
func genEnv(t *rapid.T, well int) (c bindCase) {
	ok := func(l string) bool { return !model.Chance(t, l, 100-well) }
	str := func(l string, vs ...string) *string {
		v := model.Pick(t, l, vs...)
		return &v
	}
	c.Files = genFiles(t)
	if model.Chance(t, "goji?", 30) {
		c.Goji = str("goji", "", "127.0.0.1:0", ":1234", "/some/path", "fd@4", "einhorn@1", "junk", "./rel", " ", "fd@", "日本")
	}
	if !model.Chance(t, "einhorn?", 40) {
		c.Master = "right"
		if !ok("master") {
			c.Master = model.Pick(t, "master", "", "other", "self", "=", "=0", "=-1", "=1x", "=999999999999999999999")
		}
		n := model.Int(t, "count", 1, len(c.Files))
		c.Count = fmt.Sprintf("=%d", n)
		if !ok("countok") {
			c.Count = model.Pick(t, "badcount", "", "=0", "=-1", "="+genJunkInt(t), "="+genJunkInt(t))
		}
		for i := 0; i < n; i++ {
			fd := strconv.Itoa(firstFd + model.Int(t, "fd", 0, len(c.Files)-1))
			if model.Chance(t, "fdodd", 3) {
				fd = model.Pick(t, "badfd", "-", "", "x", "-1", "250", "-3", "4294967299", "-4294967293")
			}
			c.EinFds = append(c.EinFds, fd)
		}
		c.Decoys = rapid.Bool().Draw(t, "decoys")
		if !model.Chance(t, "nosock", 20) {
			c.Sock = "there"
		}
	}
	if !model.Chance(t, "systemd?", 50) {
		c.ListenPid = "right"
		if !ok("pid") {
			c.ListenPid = model.Pick(t, "badpid", "", "parent", "other", "=", "=0", "=x", "=-1")
		}
		c.ListenFds = fmt.Sprintf("=%d", model.Int(t, "fds", 1, len(c.Files)))
		if !ok("fdsok") {
			c.ListenFds = model.Pick(t, "badfds", "", "=0", "=-1", "="+genJunkInt(t), "="+genJunkInt(t))
		}
	}
	if model.Chance(t, "port?", 60) {
		c.Port = str("port", "", "8080", "80", "0", "http", "x", "99999", "127.0.0.1:3", " ", ":9")
	}
	return
}

func genFlags(t *rapid.T, c *bindCase, values ...string) {
	if len(values) > 0 {
		// What is to be bound must not depend on ports which others may use.
		v := model.Pick(t, "defaultbind", append([]string{"", "{dir}/default", "{ip}:0"}, values...)...)
		c.Default = &v
		if c.Port != nil {
			v := model.Pick(t, "safeport", "", "0", "0", "x", "99999", "127.0.0.1:3")
			c.Port = &v
		}
	} else if model.Chance(t, "default", 50) {
		v := model.Pick(t, "defaultbind", "", ":9999", "/default/path", "127.0.0.1:0", "junk")
		c.Default = &v
	}
	for n := model.Pick(t, "args", 0, 0, 1, 1, 2); n > 0; n-- {
		v := model.Pick(t, "arg", append([]string{"", "127.0.0.1:0", "/arg/path", "fd@7", "junk"}, values...)...)
		switch model.Int(t, "style", 0, 3) {
		case 0:
			c.Args = append(c.Args, "-bind", v)
		case 1:
			c.Args = append(c.Args, "--bind", v)
		case 2:
			c.Args = append(c.Args, "-bind="+v)
		case 3:
			c.Args = append(c.Args, "--bind="+v)
		}
	}
}

func genSniff(t *rapid.T) bindCase {
	c := genEnv(t, 75)
	genFlags(t, &c)
	c.Do = []string{"sniff", "flag"}
	if rapid.Bool().Draw(t, "order") {
		c.Do = []string{"flag", "sniff"}
	}
	return c
}

// The placeholders stand for what exists only when the case runs: {ip} for an
// address of this process alone, {free} for a free port and {used} for a port
// that is in use, {dir} for a scratch directory, which is also the current one.
var tcpStrings = []string{"{ip}:0", "{ip}:0", "{ip}:{free}", "{ip}:{free}", "127.0.0.1:0", ":0", "localhost:0", "[::1]:0", "[::]:0", "0.0.0.0:0", "{ip}:{used}", "{ip}:99999", "{ip}:-1", "{ip}:", ":x:y", "192.0.2.1:0", "256.1.1.1:0", "{ip}:nosuchservice", "[::1:0", "fd@3:0", "./a:b", "/x:y", "einhorn@0:1", "::"}
var unixStrings = []string{"{dir}/sock", "./sock", ".sock", "./dir/../sock", "{dir}/dir/s", ".", "/proc", "{dir}/dir/..", "{dir}/no/such/dir", "{dir}/file", "./used", "{dir}/{long}", "/../{dir}/sock", ".{dir}", "./日本"}
var junkStrings = []string{"", "fd", "fd3", "FD@3", " fd@3", "einhorn", "Einhorn@0", "sock", "dir/sock", "@abstract", "8000", "localhost", "fd#3", "xfd@3", "einhorn@", "fd@", "fd@x", "fd@3x", "fd@ 3", "fd@3 ", "fd@99999999999999999999", "fd@-1", "fd@-3", "fd@4294967299", "fd@-4294967293", "fd@250", "fd@0", "einhorn@x", "einhorn@-1", "einhorn@99", "einhorn@0x", "~", "\\x", "fd@9223372036854775807", "fd@2147483648", "fd@0x3", "fd@3.0"}

func genBindString(t *rapid.T, c *bindCase) string {
	switch model.Int(t, "kind", 0, 11) {
	case 0, 1, 2, 3:
		return model.Pick(t, "tcp", tcpStrings...)
	case 4, 5, 6:
		return model.Pick(t, "unix", unixStrings...)
	case 7, 8, 9:
		return fmt.Sprintf("fd@%d", firstFd+model.Int(t, "fd", 0, len(c.Files)-1))
	case 10:
		return fmt.Sprintf("einhorn@%d", model.Int(t, "index", 0, len(c.EinFds)))
	default:
		return model.Pick(t, "junk", junkStrings...)
	}
}

func genSocket(t *rapid.T) bindCase {
	c := bindCase{Files: genFiles(t)}
	if model.Chance(t, "env", 15) {
		c = genEnv(t, 90)
	}
	if model.Chance(t, "default?", 35) {
		c.Goji = nil
		if model.Chance(t, "goji?", 50) {
			v := genBindString(t, &c)
			c.Goji = &v
		}
		genFlags(t, &c, genBindString(t, &c), genBindString(t, &c))
		c.Do = []string{"flag", "default"}
		return c
	}
	for n := model.Int(t, "sockets", 1, 3); n > 0; n-- {
		c.Do = append(c.Do, "socket "+genBindString(t, &c))
	}
	return c
}

func genEinhorn(t *rapid.T) bindCase {
	c := genEnv(t, 93)
	for n := model.Int(t, "ops", 1, 5); n > 0; n-- {
		switch model.Int(t, "op", 0, 5) {
		case 0, 1:
			i := model.Int(t, "index", 0, max(len(c.EinFds)-1, 0))
			if model.Chance(t, "out", 10) {
				i = model.Pick(t, "outside", len(c.EinFds), -1, len(c.EinFds)+1)
			}
			c.Do = append(c.Do, fmt.Sprintf("socket einhorn@%d", i))
		case 2:
			c.Do = append(c.Do, fmt.Sprintf("socket fd@%d", firstFd+model.Int(t, "fd", 0, len(c.Files)-1)))
		case 3, 4:
			c.Do = append(c.Do, fmt.Sprintf("ready %d", model.Pick(t, "n", 1, 1, 2, 5, 20)))
		case 5:
			c.Do = append(c.Do, "children")
		}
	}
	if c.Sock == "" {
		// Without a control socket there is nothing to tell.
		var do []string
		for _, d := range c.Do {
			if n, _ := c.einhorn(); n == 0 || !strings.HasPrefix(d, "ready") {
				do = append(do, d)
			}
		}
		c.Do = do
	}
	return c
}

// ---- running a case ---------------------------------------------------------------

var scratch string // the current directory

func must[T any](v T, err error) T {
	if err != nil {
		pbt.Broken("%v\n", err)
	}
	return v
}

// ip is a loopback address that no other process of the check uses.
func ip() string {
	pid := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 1+(pid>>16)%200, (pid>>8)&255, pid&255)
}

// inherited is one descriptor that a case passes on.
type inherited struct {
	f     *os.File
	l     net.Listener
	inode string
	close []io.Closer
}

func fileOf(c interface{ File() (*os.File, error) }) *os.File { return must(c.File()) }

func newInherited(i int, kind string) (h inherited) {
	switch kind {
	case "tcp":
		l := must(net.Listen("tcp", ip()+":0")).(*net.TCPListener)
		h = inherited{f: fileOf(l), l: l, close: []io.Closer{l}}
	case "unix":
		l := must(net.Listen("unix", filepath.Join(scratch, fmt.Sprintf("inherited%d", i)))).(*net.UnixListener)
		h = inherited{f: fileOf(l), l: l, close: []io.Closer{l}}
	case "pipe":
		r, w, err := os.Pipe()
		must(0, err)
		h = inherited{f: r, close: []io.Closer{w}}
	case "file":
		h = inherited{f: must(os.Create(filepath.Join(scratch, fmt.Sprintf("plain%d", i))))}
	case "udp":
		c := must(net.ListenPacket("udp", ip()+":0")).(*net.UDPConn)
		h = inherited{f: fileOf(c), close: []io.Closer{c}}
	}
	h.inode = must(os.Readlink(fmt.Sprintf("/proc/self/fd/%d", h.f.Fd())))
	h.close = append(h.close, h.f)
	return h
}

// dial makes one connection to an address and returns the answer.
func dial(network, addr, word string) (string, error) {
	c, err := net.DialTimeout(network, addr, patience)
	if err != nil {
		return "", err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(patience))
	fmt.Fprintf(c, "%s\n", word)
	return bufio.NewReader(c).ReadString('\n')
}

// env is the value of a variable that is to be a process's number.
func pidVar(name, kind string) string {
	switch {
	case kind == "right":
		return ""
	case strings.HasPrefix(kind, "="):
		return name + kind
	case kind == "other":
		return name + "=1"
	case kind == "parent":
		return fmt.Sprintf("%s=%d", name, os.Getpid())
	}
	return ""
}

func prepare() {
	// The scratch directory as every case finds it.
	for _, e := range must(os.ReadDir(scratch)) {
		if err := os.RemoveAll(filepath.Join(scratch, e.Name())); err != nil {
			pbt.Broken("%v\n", err)
		}
	}
	must(0, os.Mkdir("dir", 0700))
	must(0, os.WriteFile("file", nil, 0600))
}

func checkBind(r *pbt.R, c bindCase) error {
	prepare()
	used := must(net.Listen("tcp", ip()+":0"))
	defer used.Close()
	usedSock := must(net.Listen("unix", "./used"))
	defer usedSock.Close()
	free := must(net.Listen("tcp", ip()+":0"))
	_, freePort, _ := net.SplitHostPort(free.Addr().String())
	free.Close()
	_, usedPort, _ := net.SplitHostPort(used.Addr().String())
	repl := strings.NewReplacer("{ip}", ip(), "{free}", freePort, "{used}", usedPort, "{dir}", scratch, "{long}", strings.Repeat("l", 120))
	fill := func(p *string) *string {
		if p == nil {
			return nil
		}
		s := repl.Replace(*p)
		return &s
	}
	// The case with its placeholders filled in.
	f := c
	f.Goji, f.Port, f.Default = fill(c.Goji), fill(c.Port), fill(c.Default)
	f.Do, f.Args = nil, nil
	for _, d := range c.Do {
		f.Do = append(f.Do, repl.Replace(d))
	}
	for _, a := range c.Args {
		f.Args = append(f.Args, repl.Replace(a))
	}
	return f.run(r)
}

// run starts the process and judges what it does.
func (c *bindCase) run(r *pbt.R) error {
	var inh []inherited
	defer func() {
		for _, h := range inh {
			for _, x := range h.close {
				x.Close()
			}
		}
	}()
	arg := must(json.Marshal(childArg{c.Default, c.Args, c.Do}))
	ctx, cancel := context.WithTimeout(context.Background(), 4*patience)
	defer cancel()
	// The shell is there for the numbers that only the new process knows.
	script := "exec \"$0\" -test.run '^$'"
	if c.Decoys {
		// the shell itself drops variables with such a name
		script = fmt.Sprintf("exec /usr/bin/env EINHORN_FD_-1=%d \"$0\" -test.run '^$'", firstFd)
	}
	if c.ListenPid == "right" {
		script = "LISTEN_PID=$$ " + script
	}
	if c.Master == "self" {
		script = "EINHORN_MASTER_PID=$$ " + script
	}
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", script, os.Args[0])
	cmd.Dir = scratch
	cmd.Env = []string{"PATH=/usr/bin:/bin", "VERIF_CHILD=bind", "VERIF_ARG=" + string(arg), "GOMAXPROCS=2"}
	add := func(s string) {
		if s != "" {
			cmd.Env = append(cmd.Env, s)
		}
	}
	if c.Goji != nil {
		add("GOJI_BIND=" + *c.Goji)
	}
	if c.Port != nil {
		add("PORT=" + *c.Port)
	}
	if c.Master == "right" {
		add(fmt.Sprintf("EINHORN_MASTER_PID=%d", os.Getpid()))
	}
	add(pidVar("EINHORN_MASTER_PID", c.Master))
	add(pidVar("LISTEN_PID", c.ListenPid))
	if c.Count != "" {
		add("EINHORN_FD_COUNT" + c.Count)
	}
	if c.ListenFds != "" {
		add("LISTEN_FDS" + c.ListenFds)
	}
	for i, v := range c.EinFds {
		if v != "-" {
			add(fmt.Sprintf("EINHORN_FD_%d=%s", i, v))
		}
	}
	if n, _ := c.einhorn(); c.Decoys && n == len(c.EinFds) {
		add(fmt.Sprintf("EINHORN_FD_%d=%d", n, firstFd))
		add(fmt.Sprintf("EINHORN_FD_%d=%d", n+1, firstFd))
		add(fmt.Sprintf("EINHORN_FD_=%d", firstFd))
	}
	var acks *ackServer
	if c.Sock != "" {
		acks = newAckServer(filepath.Join(scratch, "einhorn.sock"))
		defer acks.l.Close()
		add("EINHORN_SOCK_PATH=" + filepath.Join(scratch, "einhorn.sock"))
	}
	for i, k := range c.Files {
		h := newInherited(i, k)
		inh = append(inh, h)
		cmd.ExtraFiles = append(cmd.ExtraFiles, h.f)
	}
	there := inodes()
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out := must(cmd.StdoutPipe())
	if err := cmd.Start(); err != nil {
		pbt.Broken("%v\n", err)
	}
	v := &verdict{c: c, r: r, inh: inh, stderr: &stderr}
	sc := bufio.NewScanner(out)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var l line
		if err := json.Unmarshal(sc.Bytes(), &l); err != nil {
			continue
		}
		v.lines = append(v.lines, l)
		v.hear(l)
		if v.bad != nil {
			cmd.Process.Kill()
		}
	}
	err := cmd.Wait()
	if ctx.Err() != nil && v.bad == nil {
		return fmt.Errorf("the process hangs; it has said %v\n%s", v.lines, stderr.String())
	}
	if strings.Contains(stderr.String(), "CHECK-ERROR") {
		pbt.Broken("%s\n", stderr.String())
	}
	now := inodes()
	for name, i := range there {
		if now[name] != i && v.bad == nil {
			return fmt.Errorf("%s was there before and is gone or another file: what cannot be bound is to be refused\nthe process did %v and said %v\n%s", name, c.Do, v.lines, stderr.String())
		}
	}
	return v.judge(err, acks)
}

// inodes lists what is in the scratch directory.
func inodes() map[string]uint64 {
	res := map[string]uint64{}
	for _, e := range must(os.ReadDir(scratch)) {
		fi := must(os.Lstat(filepath.Join(scratch, e.Name())))
		res[e.Name()] = fi.Sys().(*syscall.Stat_t).Ino
	}
	return res
}

// verdict follows what a process says.
type verdict struct {
	c      *bindCase
	r      *pbt.R
	inh    []inherited
	stderr *bytes.Buffer
	lines  []line
	bad    error
	pid    string
}

func (v *verdict) fail(format string, args ...any) {
	if v.bad == nil {
		v.bad = fmt.Errorf(format, args...)
	}
}

// expect is what becomes of a bind string.
type expect struct {
	ok            bool
	network, addr string // where it listens; the port of addr may be 0
	message       string // part of what is logged if it is not ok
}

// expect consults the reference: package net in this process.
func (v *verdict) expect(s string) expect {
	c := v.c
	switch {
	case strings.Contains(s, ":"):
		l, err := net.Listen("tcp", s)
		if err != nil {
			return expect{message: err.Error()}
		}
		l.Close()
		return expect{ok: true, network: "tcp", addr: s}
	case strings.HasPrefix(s, "."), strings.HasPrefix(s, "/"):
		l, err := net.Listen("unix", s)
		if err != nil {
			return expect{message: err.Error()}
		}
		l.Close()
		return expect{ok: true, network: "unix", addr: s}
	}
	fd, ok, is := c.descriptor(s)
	if is && ok {
		if i := c.file(fd); i >= 0 && v.inh[i].l != nil {
			a := v.inh[i].l.Addr()
			return expect{ok: true, network: a.Network(), addr: a.String()}
		}
	}
	return expect{}
}

// binds returns the bind string of an operation.
func (v *verdict) binds(do string) (string, bool) {
	if s, ok := strings.CutPrefix(do, "socket "); ok {
		return s, true
	}
	if do == "default" {
		return v.c.flagValue(), true
	}
	return "", false
}

// hear is told of each line as it is said.
func (v *verdict) hear(l line) {
	if l.Do == "start" {
		v.pid = l.Text
		return
	}
	if s, ok := v.binds(l.Do); ok && l.Text == "" {
		v.talk(s, l)
	}
}

// talk connects to the sockets that a bind string describes.
func (v *verdict) talk(s string, l line) {
	addr := l.Addr
	if l.Network == "tcp" {
		host, port, err := net.SplitHostPort(l.Addr)
		if err != nil {
			v.fail("Socket(%q) listens on %q", s, l.Addr)
		}
		if h, p, err := net.SplitHostPort(s); err == nil && strings.Contains(s, ":") {
			// What was asked for, where it says so.
			if p != "0" && p != "" {
				port = p
			}
			if h != "" {
				host = h
			}
		}
		if fd, ok, is := v.c.descriptor(s); is && ok {
			if i := v.c.file(fd); i >= 0 && v.inh[i].l != nil && v.inh[i].l.Addr().Network() == "tcp" {
				host, port, _ = net.SplitHostPort(v.inh[i].l.Addr().String())
			}
		}
		addr = net.JoinHostPort(host, port)
		if strings.HasPrefix(s, ":") {
			// All interfaces, then.
			v.answer(s, l, "tcp", net.JoinHostPort(ip(), port), "one")
		}
	} else if fd, ok, is := v.c.descriptor(s); is && ok {
		if i := v.c.file(fd); i >= 0 && v.inh[i].l != nil {
			addr = v.inh[i].l.Addr().String()
		}
	} else {
		addr = s
	}
	v.answer(s, l, l.Network, addr, "more")
	v.answer(s, l, l.Network, addr, "last")
}

func (v *verdict) answer(s string, l line, network, addr, word string) {
	got, err := dial(network, addr, word)
	want := fmt.Sprintf("%s %s %s\n", v.pid, l.Do, word)
	if err != nil || got != want {
		v.fail("Socket(%q) listens on %s %s, but a connection to %s %s gets %q %v instead of %q", s, l.Network, l.Addr, network, addr, got, err, want)
	}
}

// died checks how the process ended when it should have.
func (v *verdict) died(err error, why, message string) error {
	log := v.stderr.String()
	if err == nil {
		return fmt.Errorf("%s: the process should have ended with an error; it said %v", why, v.lines)
	}
	ee, ok := err.(*exec.ExitError)
	if !ok || !ee.Exited() || crashed(log) {
		return fmt.Errorf("%s: the process crashed: %v\n%s", why, err, log)
	}
	if ee.ExitCode() == 0 || len(strings.TrimSpace(log)) < len("2009/11/10 23:00:00 x") {
		return fmt.Errorf("%s: the process ended without saying why (%v): %q", why, err, log)
	}
	if message != "" && !strings.Contains(log, message) {
		return fmt.Errorf("%s: the process says %q and not %q", why, log, message)
	}
	return nil
}

func crashed(log string) bool {
	return strings.Contains(log, "panic:") || strings.Contains(log, "fatal error:") || strings.Contains(log, "SIGSEGV")
}

func (v *verdict) judge(err error, acks *ackServer) error {
	c, r := v.c, v.r
	if v.bad != nil {
		return fmt.Errorf("%v\nit said %v\n%s", v.bad, v.lines, v.stderr)
	}
	n, bad := c.einhorn()
	r.LabelIf(n > 0, "under Einhorn")
	r.LabelIf(c.systemd() > 0, "under systemd")
	if bad {
		// What becomes of malformed descriptors is not settled: the process may
		// end, but it does not crash.
		r.Label("malformed Einhorn descriptors")
		if crashed(v.stderr.String()) {
			return fmt.Errorf("the process crashed:\n%s", v.stderr)
		}
		if len(v.lines) == 0 || v.lines[0].Do != "start" {
			return v.died(err, "malformed Einhorn descriptors", "")
		}
		return nil
	}
	lines := v.lines
	next := func(do string) (line, bool) {
		if len(lines) == 0 || lines[0].Do != do {
			return line{}, false
		}
		l := lines[0]
		lines = lines[1:]
		return l, true
	}
	missing := func(do string) error {
		return fmt.Errorf("the process did not do %q; it said %v (%v)\n%s", do, v.lines, err, v.stderr)
	}
	l, ok := next("start")
	if !ok {
		return missing("start")
	}
	pid := l.Text
	ready := false
	taken := map[int]bool{}
	closed := func() (want string) {
		if ready && n > 0 {
			want = fmt.Sprintf("{\"command\": \"worker:ack\", \"pid\": %s}\n", pid)
		}
		return
	}
	ackErr := func() error {
		if acks == nil {
			return nil
		}
		got := acks.stop()
		if want := closed(); want == "" && len(got) > 0 || want != "" && (len(got) != 1 || got[0] != want) {
			return fmt.Errorf("Einhorn hears %q instead of %q, exactly once if at all\nthe process said %v\n%s", got, want, v.lines, v.stderr)
		}
		r.LabelIf(len(got) > 0, "acknowledged")
		return nil
	}
	for _, do := range c.Do {
		if s, ok := v.binds(do); ok {
			if fd, ok, is := c.descriptor(s); is && ok && (taken[fd] || fd > 2 && c.file(fd) < 0 && fd < 100) {
				// A descriptor is adopted once; its number may then mean anything.
				return ackErr()
			} else if is && ok {
				taken[fd] = true
			}
			want := v.expect(s)
			if strings.HasSuffix(s, ":0") && strings.Contains(want.message+v.stderr.String(), "address already in use") {
				// Any free port would do, but the machine has run out of them.
				r.Label("no port was free")
				return ackErr()
			}
			if !want.ok {
				if len(lines) > 0 {
					return fmt.Errorf("Socket(%q) should have failed (%s), but the process said %v", s, want.message, lines)
				}
				r.Label("refused")
				if n, _ := c.einhorn(); n > 0 || c.systemd() > 0 || strings.Contains(s, "@") {
					r.NonTrivial()
				}
				r.NonTrivial()
				if e := v.died(err, fmt.Sprintf("Socket(%q)", s), want.message); e != nil {
					return e
				}
				return ackErr()
			}
			l, ok := next(do)
			if !ok {
				return fmt.Errorf("Socket(%q) should have succeeded (%s %s); the process said %v (%v)\n%s", s, want.network, want.addr, v.lines, err, v.stderr)
			}
			if l.Text != "" {
				return fmt.Errorf("Socket(%q): %s", s, l.Text)
			}
			if l.Network != want.network {
				return fmt.Errorf("Socket(%q) listens on %s %s instead of %s %s", s, l.Network, l.Addr, want.network, want.addr)
			}
			if !sameAddr(want.network, l.Addr, want.addr) {
				return fmt.Errorf("Socket(%q) listens on %s instead of %s", s, l.Addr, want.addr)
			}
			if e, ok := next(do + " accept"); ok {
				return fmt.Errorf("Socket(%q), listening on %s: %s", s, l.Addr, e.Text)
			}
			r.Label("bound " + want.network)
			r.LabelIf(strings.Contains(s, "@"), "adopted")
			r.NonTrivial()
			continue
		}
		switch what, _, _ := strings.Cut(do, " "); what {
		case "sniff":
			l, ok := next(do)
			if !ok {
				return missing(do)
			}
			if want := c.sniff(); l.Text != want {
				return fmt.Errorf("Sniff() = %q instead of %q", l.Text, want)
			}
			r.NonTrivialIf(c.sniff() != "")
			kind, _, _ := strings.Cut(c.sniff(), "@")
			switch {
			case kind == "einhorn" || kind == "fd":
				r.Label("sniffed " + kind)
			case kind == "":
				r.Label("sniffed nothing")
			default:
				r.Label("sniffed another")
			}
		case "flag":
			d, ok := next("flag default")
			u, ok2 := next("flag unparsed")
			p, ok3 := next("flag")
			if !ok || !ok2 || !ok3 {
				return missing(do)
			}
			if want := c.flagDefault(); d.Text != want || u.Text != want {
				return fmt.Errorf("the flag's default is %q and %q instead of %q", d.Text, u.Text, want)
			}
			if want := c.flagValue(); p.Text != want {
				return fmt.Errorf("the flag is %q instead of %q", p.Text, want)
			}
			r.LabelIf(len(c.Args) > 0, "flag given")
		case "ready":
			if _, ok := next(do); !ok {
				return missing(do)
			}
			r.LabelIf(ready, "ready again")
			ready = true
			r.NonTrivialIf(n > 0)
		case "children":
			l, ok := next(do)
			if !ok {
				return missing(do)
			}
			for fd := range v.passed() {
				if i := c.file(fd); i >= 0 && strings.Contains(l.Text, v.inh[i].inode+"\n") {
					return fmt.Errorf("a child inherits descriptor %d:\n%s", fd, l.Text)
				}
			}
			r.LabelIf(len(v.passed()) > 0, "children checked")
			r.NonTrivialIf(len(v.passed()) > 0)
		}
	}
	if _, ok := next("end"); !ok || err != nil {
		return missing("end")
	}
	return ackErr()
}

// passed are the descriptors that Einhorn or systemd has passed.
func (v *verdict) passed() map[int]bool {
	res := map[int]bool{}
	n, _ := v.c.einhorn()
	for i := 0; i < n; i++ {
		fd, _ := atoi(v.c.EinFds[i])
		res[fd] = true
	}
	for i := 0; i < v.c.systemd(); i++ {
		res[firstFd+i] = true
	}
	return res
}

// sameAddr compares where something listens with what was asked for.
func sameAddr(network, got, want string) bool {
	if network != "tcp" {
		return got == want
	}
	gh, gp, err1 := net.SplitHostPort(got)
	wh, wp, err2 := net.SplitHostPort(want)
	if err1 != nil || err2 != nil {
		return false
	}
	wild := func(h string) bool { return h == "" || h == "::" || h == "0.0.0.0" }
	if wild(wh) != wild(gh) {
		return false
	}
	if !wild(wh) && wh != "localhost" && gh != wh {
		return false
	}
	if wh == "localhost" && !net.ParseIP(gh).IsLoopback() {
		return false
	}
	return wp == "" || wp == "0" || wp == gp
}

// ackServer is Einhorn's control socket.
type ackServer struct {
	l    *net.UnixListener
	mu   sync.Mutex
	wg   sync.WaitGroup
	said []string
}

func newAckServer(path string) *ackServer {
	a := &ackServer{l: must(net.Listen("unix", path)).(*net.UnixListener)}
	a.wg.Add(1)
	go func() {
		defer a.wg.Done()
		for {
			c, err := a.l.Accept()
			if err != nil {
				return
			}
			c.SetDeadline(time.Now().Add(patience))
			b, _ := io.ReadAll(c)
			c.Close()
			a.mu.Lock()
			a.said = append(a.said, string(b))
			a.mu.Unlock()
		}
	}()
	return a
}

// stop returns what was said. The process has ended: what it has sent is there,
// behind at most as many connections as wait to be accepted.
func (a *ackServer) stop() []string {
	c := must(net.Dial("unix", a.l.Addr().String()))
	fmt.Fprint(c, "stop")
	c.Close()
	for i := 0; ; i++ {
		a.mu.Lock()
		n := len(a.said)
		done := n > 0 && a.said[n-1] == "stop"
		a.mu.Unlock()
		if done {
			break
		}
		if i > 30000 {
			pbt.Broken("the control socket does not answer\n")
		}
		time.Sleep(time.Millisecond)
	}
	a.l.Close()
	a.wg.Wait()
	return a.said[:len(a.said)-1]
}

func inScratch(t *testing.T, f func()) {
	syscall.Umask(077)
	scratch = must(filepath.EvalSymlinks(must(os.MkdirTemp("", "vb"))))
	defer os.RemoveAll(scratch)
	must(0, os.Chdir(scratch))
	defer os.Chdir("/")
	f()
}

const sniffRule = "C33: generated environments (every subset of the variables, well-formed and not, addressing this process and others) and command lines; Sniff and the flag compared with a model of the documented order; non-trivial when something is sniffed."
const socketRule = "C34: generated bind strings (TCP, UNIX, descriptors of every kind, Einhorn, junk) through Socket and through the flag and Default, in processes of their own; what package net does with the same address in this process is the reference, and connections to exactly the described address must be answered by that process; non-trivial when a socket is bound or refused."
const einhornRule = "C35: generated Einhorn and systemd environments with real descriptors and a control socket, and sequences of adopting, announcing readiness (up to 20 times at once) and listing what children inherit; non-trivial when a socket is bound or refused, or readiness announced under Einhorn, or children inspected while descriptors were passed."

func TestC33(t *testing.T) {
	inScratch(t, func() { pbt.Main(t, "C33", sniffRule, pbt.P("sniff", 6000, 100000, genSniff, checkBind)) })
}

func TestC34(t *testing.T) {
	inScratch(t, func() { pbt.Main(t, "C34", socketRule, pbt.P("socket", 6000, 100000, genSocket, checkBind)) })
}

func TestC35(t *testing.T) {
	inScratch(t, func() { pbt.Main(t, "C35", einhornRule, pbt.P("einhorn", 6000, 100000, genEinhorn, checkBind)) })
}
