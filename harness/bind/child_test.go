package bindcheck

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"net"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/zenazn/goji/bind"
)

// What package bind does depends on the environment, the process's numbers and
// its descriptors at the moment it starts, and it ends processes. Every case is
// therefore a process of its own: this binary, started with the environment of
// the case, which prints a line for everything it does.

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_CHILD") == "bind" {
		child()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// childArg is what a child is told to do.
type childArg struct {
	Default *string  // bind.DefaultBind
	Args    []string // command line
	Do      []string
}

// line is what a child prints.
type line struct {
	Do      string
	Text    string
	Network string
	Addr    string
}

const patience = 15 * time.Second

func say(l line) {
	b, _ := json.Marshal(l)
	os.Stdout.Write(append(b, '\n'))
}

func child() {
	var a childArg
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_ARG")), &a); err != nil {
		fmt.Fprintln(os.Stderr, "CHECK-ERROR", err)
		os.Exit(3)
	}
	say(line{Do: "start", Text: strconv.Itoa(os.Getpid())})
	for _, do := range a.Do {
		what, arg, _ := strings.Cut(do, " ")
		switch what {
		case "sniff":
			say(line{Do: do, Text: bind.Sniff()})
		case "flag":
			if a.Default != nil {
				bind.DefaultBind = *a.Default
			}
			bind.WithFlag()
			f := flag.Lookup("bind")
			if f == nil {
				say(line{Do: do, Text: "there is no such flag"})
				return
			}
			say(line{Do: "flag default", Text: f.DefValue})
			say(line{Do: "flag unparsed", Text: f.Value.String()})
			if err := flag.CommandLine.Parse(a.Args); err != nil {
				say(line{Do: do, Text: err.Error()})
				return
			}
			say(line{Do: do, Text: f.Value.String()})
		case "socket":
			accept(do, bind.Socket(arg))
		case "default":
			accept(do, bind.Default())
		case "ready":
			n, _ := strconv.Atoi(arg)
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					bind.Ready()
				}()
			}
			wg.Wait()
			say(line{Do: do})
		case "children":
			// The descriptors that a child of this process has.
			out, err := exec.Command("/bin/ls", "-l", "/proc/self/fd").CombinedOutput()
			if err != nil {
				fmt.Fprintln(os.Stderr, "CHECK-ERROR", err, string(out))
				os.Exit(3)
			}
			say(line{Do: do, Text: string(out)})
		}
	}
	say(line{Do: "end"})
}

// accept answers on the listener until a client says that it was the last one.
func accept(do string, l net.Listener) {
	if l == nil {
		say(line{Do: do, Text: "nil listener"})
		return
	}
	say(line{Do: do, Network: l.Addr().Network(), Addr: l.Addr().String()})
	done := make(chan error, 1)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				done <- err
				return
			}
			c.SetDeadline(time.Now().Add(patience))
			s, _ := bufio.NewReader(c).ReadString('\n')
			fmt.Fprintf(c, "%d %s %s", os.Getpid(), do, s)
			c.Close()
			if strings.HasPrefix(s, "last") {
				done <- nil
				return
			}
		}
	}()
	select {
	case err := <-done:
		if err != nil {
			say(line{Do: do + " accept", Text: err.Error()})
		}
	case <-time.After(patience):
		say(line{Do: do + " accept", Text: "no connection arrives"})
	}
	l.Close()
}
