package gracefulcheck

import (
	"fmt"
	"os"
	"strings"
	"syscall"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ---- shutdowns ------------------------------------------------------------------

func genWorld(focus string) func(t *rapid.T) worldCase {
	return func(t *rapid.T) worldCase {
		var c worldCase
		n := model.Int(t, "servers", 1, 3)
		if focus == "conn" && model.Chance(t, "many", 10) {
			n = model.Int(t, "servers2", 4, 12)
		}
		for i := 0; i < n; i++ {
			s := srvSpec{How: model.Pick(t, "how", "serve", "serve", "server", "wrap", "auto", "tcp", "lis")}
			if focus == "serve" {
				s.How = model.Pick(t, "how2", "serve", "server", "server", "tcp", "lis")
			}
			if s.How != "tcp" && s.How != "lis" {
				k := 20
				if focus == "serve" {
					k = 60
				}
				switch {
				case model.Chance(t, "late?", k):
					s.Late = model.Int(t, "late", 1, 3)
				case focus == "serve" && model.Chance(t, "err?", 50):
					s.Err = model.Pick(t, "err", "plain", "op", "closed", "text", "eof", "other")
					if model.Chance(t, "pre", 60) {
						s.Err = "pre-" + s.Err
					}
				}
			}
			c.Srvs = append(c.Srvs, s)
		}
		// A listener whose serving failed is not served.
		var ok []int
		for i, s := range c.Srvs {
			if !strings.HasPrefix(s.Err, "pre-") {
				ok = append(ok, i)
			}
		}
		nc := 0
		if len(ok) > 0 {
			switch focus {
			case "conn":
				nc = model.Int(t, "conns", 1, 8)
			default:
				nc = model.Int(t, "conns", 0, 3)
			}
		}
		for i := 0; i < nc; i++ {
			k := connSpec{L: model.Pick(t, "on", ok...), Size: model.Pick(t, "size", 0, 1, 20, 5000, 300000)}
			k.State = model.Pick(t, "state", "new", "idle", "partial", "running", "running", "second", "pipelined", "streaming", "upload", "hijacked")
			switch {
			case c.Srvs[k.L].How == "wrap":
				// see known_findings.jsonl for running requests
				k.State = model.Pick(t, "idle", "new", "idle")
			}
			if k.State == "upload" && k.Size < 2 {
				k.Size = 2
			}
			k.Leave = model.Chance(t, "leave", 12)
			c.Conns = append(c.Conns, k)
		}
		hooks := 2
		if focus == "hook" {
			hooks = 5
			if model.Chance(t, "manyhooks", 6) {
				hooks = 40
			}
		}
		c.Pre = rapid.SliceOfN(rapid.Bool(), 0, hooks).Draw(t, "pre-hooks")
		c.Post = rapid.SliceOfN(rapid.Bool(), 0, hooks).Draw(t, "post-hooks")
		c.Register = rapid.Bool().Draw(t, "register")
		c.DK = model.Chance(t, "dk", 40)
		c.Waiters = model.Int(t, "waiters", 0, 3)
		trig := func(l string) trigger {
			tr := trigger{Kind: model.Pick(t, l, "shutdown", "shutdown", "sig", "sig", "now")}
			if focus != "hook" && tr.Kind == "now" && rapid.Bool().Draw(t, "tame") {
				tr.Kind = "shutdown"
			}
			if tr.Kind == "sig" {
				tr.Sig = int(model.Pick(t, "signal", syscall.SIGINT, syscall.SIGUSR1))
			}
			return tr
		}
		n1, n2 := 1, 0
		switch {
		case focus == "hook":
			n1, n2 = model.Int(t, "n1", 1, 4), model.Int(t, "n2", 0, 3)
		case focus == "conn":
			n1, n2 = model.Pick(t, "n1", 1, 1, 1, 2), model.Pick(t, "n2", 0, 0, 0, 1, 2)
		}
		for i := 0; i < n1; i++ {
			c.First = append(c.First, trig("first"))
		}
		for i := 0; i < n2; i++ {
			c.Second = append(c.Second, trig("second"))
		}
		if len(c.First) > 0 && c.First[0].Kind == "sig" && model.Chance(t, "timeout", 25) {
			c.Timeout = model.Pick(t, "ms", 1, 5, 20, 40)
			c.Second = nil
			if focus == "hook" && model.Chance(t, "alone", 60) {
				c.First = c.First[:1]
			}
		}
		perm := make([]int, nc)
		for i := range perm {
			perm[i] = i
		}
		if nc > 1 {
			c.Order = rapid.Permutation(perm).Draw(t, "order")
		} else {
			c.Order = perm
		}
		c.Pause = model.Pick(t, "pause", 0, 0, 1, 3, 10)
		if focus == "serve" || focus == "conn" {
			c.Racing = model.Pick(t, "racing", 0, 0, 0, 1, 2)
			c.After = model.Pick(t, "after", 0, 0, 0, 1)
		}
		return c
	}
}

func runWorld(r *pbt.R, c worldCase, tag string) error {
	rep, err := runChild("world", c)
	if err != nil {
		return err
	}
	return rep.judge(r, tag)
}

const shutdownRule = "C27: every case is a process with generated servers and client connections in generated states (new, idle, half a request, handler running, streaming, uploading, hijacked), shut down by generated triggers; non-trivial when at least one request is running when a graceful shutdown starts, or connections are cut by an immediate one."

func checkC27(r *pbt.R, c worldCase) error {
	forced, _ := c.forced()
	n := 0
	for _, k := range c.Conns {
		if k.State != "new" && k.State != "idle" {
			n++
		}
		r.Label("conn:" + k.State)
	}
	for _, s := range c.Srvs {
		r.Label("server:" + s.How)
	}
	r.NonTrivialIf(n > 0)
	r.LabelIf(forced, "immediate")
	r.LabelIf(c.Timeout > 0, "timeout")
	r.LabelIf(!forced && len(c.Second) > 0, "second trigger")
	return runWorld(r, c, "conn")
}

func TestC27(t *testing.T) {
	known := []pbt.Known{{
		What: "a request running on an http.Server over graceful.WrapListener is cut by a graceful shutdown: net/http calls SetReadDeadline after it has read the request, which marks the connection as idle",
		Run: func(*testing.T) error {
			return runWorld(&pbt.R{}, worldCase{
				Srvs:  []srvSpec{{How: "wrap"}},
				Conns: []connSpec{{State: "running", Size: 5}},
				First: []trigger{{Kind: "shutdown"}},
				Order: []int{0},
			}, "conn")
		},
	}}
	pbt.MainKnown(t, "C27", shutdownRule, known, pbt.P("shutdown", 1500, 12000, genWorld("conn"), checkC27))
}

const hookRule = "C28: as C27, with up to five hooks of each kind registered before or after the servers start and up to seven concurrent or successive triggers; non-trivial when at least two hooks are registered and there are at least two triggers, or a hook asks for the signal."

func checkC28(r *pbt.R, c worldCase) error {
	sig := false
	for _, s := range append(append([]bool{}, c.Pre...), c.Post...) {
		sig = sig || s
	}
	r.NonTrivialIf(sig || len(c.Pre)+len(c.Post) > 1 && len(c.First)+len(c.Second) > 1)
	r.LabelIf(c.Timeout > 0, "timeout")
	for _, tr := range append(append([]trigger{}, c.First...), c.Second...) {
		r.Label("trigger:" + tr.Kind)
	}
	return runWorld(r, c, "hook")
}

func TestC28(t *testing.T) {
	pbt.Main(t, "C28", hookRule, pbt.P("hooks", 1500, 12000, genWorld("hook"), checkC28))
}

const serveRule = "C30: as C27, with connections arriving while a listener is being closed, listeners failing before or during the shutdown, servers started during and after it, and listening or loading a certificate failing; non-trivial when there is such a connection, failure or server."

func checkC30(r *pbt.R, c worldCase) error {
	for _, s := range c.Srvs {
		r.NonTrivialIf(s.Late > 0 || s.Err != "")
		r.LabelIf(s.Err != "", "error:"+s.Err)
	}
	r.NonTrivialIf(c.Racing+c.After > 0)
	return runWorld(r, c, "serve")
}

// ---- signals ----------------------------------------------------------------------

const sigRule = "C29: every case is a process with connections in use and a generated history of HandleSignals, AddSignal, ResetSignals, DoubleKickWindow, Timeout, signals, pauses and manual shutdowns, with and without Einhorn's environment; non-trivial when at least one signal is sent."

func genSig(t *rapid.T) sigCase {
	c := sigCase{Einhorn: model.Pick(t, "einhorn", "", "", "valid", "valid", "other", "junk"), Conns: model.Int(t, "conns", 1, 3)}
	if model.Chance(t, "slow hook", 35) {
		// signals, windows and timeouts while a pre-hook is still running
		c.Hook = model.Pick(t, "hookms", 100, 300, 600, 600)
	}
	sigs := []int{int(syscall.SIGINT), int(syscall.SIGINT), int(syscall.SIGUSR2), int(syscall.SIGUSR2), int(syscall.SIGUSR1), int(syscall.SIGTERM), int(syscall.SIGHUP)}
	if model.Chance(t, "train", 12) {
		// a train of signals, some further apart than the window
		c.Ops = append(c.Ops, sigOp{Op: "handle"}, sigOp{Op: "dk", D: model.Pick(t, "dkw", 40, 120, 300, 300)})
		w := c.Ops[1].D
		n := model.Int(t, "n", 2, 5)
		for i := 0; i < n; i++ {
			c.Ops = append(c.Ops, sigOp{Op: "sig", Sigs: []int{int(syscall.SIGINT)}})
			if !model.Chance(t, "close", 30) {
				c.Ops = append(c.Ops, sigOp{Op: "pause", D: w + model.Pick(t, "pausems", 40, 60, 90)})
			}
		}
		return c
	}
	if model.Chance(t, "handle first", 75) {
		c.Ops = append(c.Ops, sigOp{Op: "handle"})
		sigs = append(sigs, int(syscall.SIGINT), int(syscall.SIGINT), int(syscall.SIGINT), int(syscall.SIGINT))
	}
	window := model.Chance(t, "window", 25) // the case is about the end of a window
	if model.Chance(t, "settings", 35) {
		// settings made before anything happens; the last ones count
		k := model.Int(t, "k", 2, 3)
		op := model.Pick(t, "setting", "dk", "timeout")
		for i := 0; i < k; i++ {
			c.Ops = append(c.Ops, sigOp{Op: op, D: model.Pick(t, "value", 0, -1, 40, 60, 3600000)})
		}
	}
	n := model.Int(t, "n", 2, 9)
	if window && rapid.Bool().Draw(t, "dk first") {
		c.Ops = append(c.Ops, sigOp{Op: "dk", D: model.Pick(t, "dkw", 40, 300, 300)})
	}
	for i := 0; i < n; i++ {
		o := sigOp{Op: model.Pick(t, "op", "handle", "add", "add", "reset", "dk", "dk", "timeout", "sig", "sig", "sig", "sig", "sig", "shutdown", "now")}
		switch o.Op {
		case "add":
			k := model.Pick(t, "adds", 1, 1, 2, 0)
			for j := 0; j < k; j++ {
				o.Sigs = append(o.Sigs, model.Pick(t, "sig", sigs...))
			}
		case "dk":
			o.D = model.Pick(t, "dk", 0, -1, -3600000, 3600000, 3600000)
			if window {
				o.D = model.Pick(t, "dkw", 40, 300, 300, 3600000, 0)
			}
		case "timeout":
			o.D = model.Pick(t, "timeout", 0, -1, -3600000, 3600000, 40, 40, 120)
		case "sig":
			o.Sigs = []int{model.Pick(t, "sig", sigs...)}
			if window && model.Chance(t, "pause", 50) {
				c.Ops = append(c.Ops, sigOp{Op: "pause", D: model.Pick(t, "pausems", 60, 350, 350)})
			}
		case "now":
			if !model.Chance(t, "now", 30) {
				o.Op = "sig"
				o.Sigs = []int{int(syscall.SIGINT)}
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func checkC29(r *pbt.R, c sigCase) error {
	r.LabelIf(c.Hook > 0, "slow hook")
	for _, o := range c.Ops {
		r.NonTrivialIf(o.Op == "sig")
	}
	r.LabelIf(c.Einhorn != "", "einhorn:"+c.Einhorn)
	env := "EINHORN_MASTER_PID="
	switch c.Einhorn {
	case "valid":
		env += fmt.Sprint(os.Getpid())
	case "other":
		env += fmt.Sprint(os.Getpid() + 1)
	case "junk":
		env += "x" + fmt.Sprint(os.Getpid())
	}
	rep, err := runChild("signals", c, env)
	if err != nil {
		return err
	}
	return rep.judge(r, "signal")
}

func TestC29(t *testing.T) {
	pbt.Main(t, "C29", sigRule, pbt.P("signals", 1500, 12000, genSig, checkC29))
}
