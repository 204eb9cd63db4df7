package gracefulcheck

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"strings"
	"testing"
	"time"

	"verif/harness/pbt"
)

// The state of package graceful is global and a process shuts down once, so
// every case is a process of its own: this binary, started as a child with the
// case in its environment. The child plays server and clients, judges what it
// saw, and prints what was wrong.

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	switch os.Getenv("VERIF_CHILD") {
	case "world":
		childWorld()
		os.Exit(0)
	case "signals":
		childSignals()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// failure is something a child found wrong.
type failure struct{ Tag, What string }

// report is what a child prints.
type report struct {
	Failures []failure
	Labels   []string
	Log      []string
}

// runChild runs one case in a process of its own.
func runChild(name string, c any, env ...string) (*report, error) {
	b, err := json.Marshal(c)
	if err != nil {
		pbt.Broken("%v\n", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "-test.run", "^$")
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+name, "VERIF_ARG="+string(b))
	cmd.Env = append(cmd.Env, env...)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err = cmd.Run()
	var rep report
	if jerr := json.Unmarshal(stdout.Bytes(), &rep); jerr == nil && err == nil {
		return &rep, nil
	}
	if ctx.Err() != nil {
		pbt.Broken("the process of a case did not end: %s\n%s\n", b, stderr.String())
	}
	if strings.Contains(stderr.String(), "CHECK-ERROR") {
		pbt.Broken("%s\n", stderr.String())
	}
	if strings.Contains(stderr.String(), "github.com/zenazn/goji/") {
		return nil, fmt.Errorf("the process died: %v\n%s", err, tail(stderr.String()))
	}
	pbt.Broken("the process of a case failed: %v: %s\n%s\n%s\n", err, b, stdout.String(), stderr.String())
	return nil, nil
}

func tail(s string) string {
	if len(s) > 5000 {
		return s[:5000]
	}
	return s
}

// judge turns a report into a verdict on the failures with one of the tags.
func (rep *report) judge(r *pbt.R, tags ...string) error {
	for _, l := range rep.Labels {
		r.Label(l)
	}
	for _, f := range rep.Failures {
		for _, t := range tags {
			if f.Tag == t {
				return fmt.Errorf("%s\nhistory:\n%s", f.What, strings.Join(rep.Log, "\n"))
			}
		}
	}
	return nil
}
