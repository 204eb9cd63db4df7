//go:build race

package listenercheck

import (
	"fmt"
	"net"
	"runtime"
	"sync"
	"testing"

	"github.com/zenazn/goji/graceful/listener"
	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// Real goroutines under the race detector: unsynchronised access to the tracking
// data does not show in a history of whole statements.

type rcase struct {
	Mode    int
	Conns   int
	Threads [][]lop
	Rounds  int
}

func genRcase(t *rapid.T) rcase {
	c := rcase{Mode: model.Pick(t, "mode", 1, 1, 2, 0), Conns: model.Int(t, "conns", 1, 6), Rounds: model.Int(t, "rounds", 1, 6)}
	nt := model.Int(t, "threads", 2, 6)
	for i := 0; i < nt; i++ {
		var ops []lop
		n := model.Int(t, "n", 1, 6)
		for j := 0; j < n; j++ {
			o := lop{Op: model.Pick(t, "op", "accept", "read", "read", "rdl", "close", "idle", "inuse", "disown", "shed", "shed", "drain", "drainall"), C: model.Int(t, "c", 0, 5)}
			if model.Chance(t, "gosched", 40) {
				o.N = 1
			}
			ops = append(ops, o)
		}
		c.Threads = append(c.Threads, ops)
	}
	return c
}

func checkRace(r *pbt.R, c rcase) error {
	r.Label("mode " + modes[c.Mode].name)
	r.NonTrivialIf(len(c.Threads) > 1)
	for round := 0; round < c.Rounds; round++ {
		fl := &flist{}
		l := modes[c.Mode].wrap(fl)
		type rc struct {
			f        *fconn
			c        net.Conn
			mu       sync.Mutex
			disowned int
			closes   int
		}
		var mu sync.Mutex
		var conns []*rc
		inner := map[net.Conn]*fconn{}
		accept := func() {
			f := &fconn{readN: 1}
			fl.offer(f)
			if cn, err := l.Accept(); err == nil {
				mu.Lock()
				conns = append(conns, &rc{f: f, c: cn})
				inner[cn] = f
				mu.Unlock()
			}
		}
		for i := 0; i < c.Conns; i++ {
			accept()
		}
		start := make(chan struct{})
		var wg, drains sync.WaitGroup
		for _, ops := range c.Threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, o := range ops {
					if o.N == 1 {
						runtime.Gosched()
					}
					mu.Lock()
					x := conns[o.C%len(conns)]
					mu.Unlock()
					switch o.Op {
					case "accept":
						accept()
					case "read":
						x.c.Read(make([]byte, 4))
					case "rdl":
						x.c.SetReadDeadline(deadline(o.N))
					case "close":
						err := x.c.Close()
						x.mu.Lock()
						if err == nil {
							x.closes++
						}
						x.mu.Unlock()
					case "idle":
						listener.MarkIdle(x.c)
					case "inuse":
						listener.MarkInUse(x.c)
					case "disown":
						if listener.Disown(x.c) == nil {
							x.mu.Lock()
							x.disowned++
							x.mu.Unlock()
						}
					case "shed":
						l.CloseIdle()
					case "drain":
						drains.Add(1)
						go func() { defer drains.Done(); l.Drain() }()
					case "drainall":
						drains.Add(1)
						go func() { defer drains.Done(); l.DrainAll() }()
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		for _, x := range conns {
			if x.disowned == 0 {
				if x.c.Close() == nil {
					x.closes++
				}
			}
		}
		drains.Wait()
		for i, x := range conns {
			if x.disowned > 1 || x.disowned == 0 && x.closes > 1 {
				return fmt.Errorf("connection %d: disowned %d times, Close succeeded %d times", i, x.disowned, x.closes)
			}
		}
	}
	return nil
}

const raceRule = "non-trivial (race): at least two goroutines"

func TestC22(t *testing.T) {
	pbt.Main(t, "C22", raceRule, pbt.P("goroutines", 2400, 100000, genRcase, checkRace))
}

func TestC23(t *testing.T) {
	pbt.Main(t, "C23", raceRule, pbt.P("goroutines", 2400, 100000, genRcase, checkRace))
}
