// Package model holds the reference models the checks compare against, and the
// generators of the things they are about: patterns, route tables, requests.
//
// Nothing here is derived from the implementation's own parsing or matching
// code; the semantics are those of the documentation.
package model

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Str is a byte string that survives JSON.
type Str string

// MarshalJSON writes valid UTF-8 as it is and anything else as a quoted Go string
// inside an array.
func (s Str) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		return json.Marshal(string(s))
	}
	return json.Marshal([]string{strconv.QuoteToASCII(string(s))})
}

// UnmarshalJSON is the inverse.
func (s *Str) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '[' {
		var a []string
		if err := json.Unmarshal(b, &a); err != nil || len(a) != 1 {
			return fmt.Errorf("bad Str %s", b)
		}
		u, err := strconv.Unquote(a[0])
		*s = Str(u)
		return err
	}
	var v string
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	*s = Str(v)
	return nil
}

const breakChars = "/.;,"

type strTok struct {
	lit  byte   // literal byte, when name is empty
	name string // parameter
	stop byte   // break character of the parameter
}

// StrPattern is the reference reading of a string pattern.
type StrPattern struct {
	toks []strTok
	wild bool
}

func isBreak(b byte) bool { return strings.IndexByte(breakChars, b) >= 0 }

// ParseStr reads a pattern one character at a time: a break character followed
// by ':' and at least one character that is not a break character starts a
// parameter; everything else is literal.
func ParseStr(p string) StrPattern {
	var sp StrPattern
	if len(p) >= 2 && p[len(p)-2] == '/' && p[len(p)-1] == '*' {
		sp.wild = true
		p = p[:len(p)-1]
	}
	i := 0
	for i < len(p) {
		sp.toks = append(sp.toks, strTok{lit: p[i]})
		if isBreak(p[i]) && i+2 < len(p) && p[i+1] == ':' && !isBreak(p[i+2]) {
			j := i + 2
			for j < len(p) && !isBreak(p[j]) {
				j++
			}
			stop := byte('/')
			if j < len(p) {
				stop = p[j]
			}
			sp.toks = append(sp.toks, strTok{name: p[i+2 : j], stop: stop})
			i = j
			continue
		}
		i++
	}
	return sp
}

// Bindings maps a name to the values it may be bound to (more than one only if
// the pattern uses the name several times).
type Bindings map[string][]string

// Match is the reference matcher.
func (sp StrPattern) Match(path string) (Bindings, bool) {
	b := Bindings{}
	i := 0
	for _, t := range sp.toks {
		if t.name == "" {
			if i >= len(path) || path[i] != t.lit {
				return nil, false
			}
			i++
			continue
		}
		j := i
		for j < len(path) && path[j] != '/' && path[j] != t.stop {
			j++
		}
		if j == i {
			return nil, false
		}
		b[t.name] = append(b[t.name], path[i:j])
		i = j
	}
	if sp.wild {
		// the last literal byte consumed is the slash
		b["*"] = append(b["*"], path[i-1:])
		return b, true
	}
	return b, i == len(path)
}

// Names lists the parameters.
func (sp StrPattern) Names() (out []string) {
	for _, t := range sp.toks {
		if t.name != "" {
			out = append(out, t.name)
		}
	}
	if sp.wild {
		out = append(out, "*")
	}
	return
}

// Wild reports whether the pattern ends in "/*".
func (sp StrPattern) Wild() bool { return sp.wild }
