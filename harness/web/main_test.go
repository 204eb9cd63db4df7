package webcheck

import (
	"io"
	"log"
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	if c := os.Getenv("VERIF_CHILD"); c != "" {
		child(c)
		os.Exit(0)
	}
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}
