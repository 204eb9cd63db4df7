package mwcheck

import (
	"bytes"
	"io"
	"log"
	"os"
	"sync"
	"testing"
)

func TestMain(m *testing.M) {
	if c := os.Getenv("VERIF_CHILD"); c != "" {
		child(c)
		os.Exit(0)
	}
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

// logBuf collects what the code under test logs.
type logBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *logBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *logBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// captureLog runs f with the standard logger going to the returned buffer.
func captureLog(f func(l *logBuf)) string {
	l := &logBuf{}
	log.SetFlags(0)
	log.SetOutput(l)
	defer log.SetOutput(io.Discard)
	f(l)
	return l.String()
}
