package model

import (
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// Draw helpers -----------------------------------------------------------

// Pick draws one of the arguments.
func Pick[T any](t *rapid.T, label string, xs ...T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}

// Chance is true in about pct percent of draws; it shrinks to false.
func Chance(t *rapid.T, label string, pct int) bool {
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-pct
}

// Int draws in [a, b].
func Int(t *rapid.T, label string, a, b int) int { return rapid.IntRange(a, b).Draw(t, label) }

var words = []string{"a", "b", "c", "ab", "abc", "abd", "foo", "foobar", "bar", "ba", "baz", "é", "日", "x", "xy", "A", "0", "-", "_", ":", "*", ":a", "a:b", "%2F", " ", "\n", "\xff", "�", "\xe3"}

// Word draws a short piece of text, mostly plain.
func Word(t *rapid.T) string {
	if Chance(t, "oddword", 25) {
		return rapid.SampledFrom(words).Draw(t, "word")
	}
	return rapid.SampledFrom(words[:11]).Draw(t, "word")
}

// LitPath draws a literal path, usually starting with a slash, drawn from few
// words so that paths overlap.
func LitPath(t *rapid.T) string {
	if Chance(t, "oddpath", 4) {
		return rapid.StringOfN(rapid.RuneFrom([]rune("/a.;,:*é\xff")), 0, 6, -1).Draw(t, "oddpath")
	}
	n := Int(t, "segs", 0, 4)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteByte('/')
		sb.WriteString(Word(t))
		if Chance(t, "ext", 15) {
			sb.WriteString(Pick(t, "brk", ".", ";", ","))
			sb.WriteString(Word(t))
		}
	}
	if n == 0 || Chance(t, "trail", 20) {
		sb.WriteByte('/')
	}
	return sb.String()
}

// StrPat draws a string pattern and a path that it probably accepts.
func StrPat(t *rapid.T, prefix string) (Pat, string) {
	var p, s strings.Builder
	p.WriteString(prefix)
	s.WriteString(prefix)
	n := Int(t, "toks", 0, 5)
	if Chance(t, "manytoks", 2) {
		n = Int(t, "manytok", 6, 30)
	}
	for i := 0; i < n; i++ {
		switch Int(t, "tok", 0, 7) {
		case 0, 1, 2:
			w := "/" + Word(t)
			p.WriteString(w)
			s.WriteString(w)
		case 3, 4, 5:
			b := Pick(t, "b", "/", "/", "/", ".", ";", ",")
			name := Pick(t, "name", "n", "name", "id", "n", "a-b", "é", "_", "x1", ":", "*")
			p.WriteString(b + ":" + name)
			s.WriteString(b + Word(t))
		case 6:
			w := Pick(t, "b", ".", ";", ",", "/") + Word(t)
			p.WriteString(w)
			s.WriteString(w)
		case 7:
			w := Pick(t, "odd", ":", ":x", "*", "/:", "//", "/*", "/:.x", "", "\xff", "/::")
			p.WriteString(w)
			s.WriteString(w)
		}
	}
	switch Int(t, "end", 0, 5) {
	case 0:
		p.WriteString("/")
		s.WriteString("/")
	case 1, 2:
		p.WriteString("/*")
		s.WriteString("/" + Pick(t, "tail", "", "a", "x/y", "*", "/", "a/b/"))
	}
	return Pat{Kind: "str", S: Str(p.String())}, s.String()
}

// reNode draws an expression and a sample it accepts.
func reNode(t *rapid.T, depth int, names *int) (string, string) {
	k := Int(t, "re", 0, 15)
	if depth <= 0 && k > 7 {
		k = k % 8
	}
	switch k {
	case 0, 1, 2:
		w := Pick(t, "lit", "/a", "/b", "/foo", "/ab", "a", "b", "/", "foo", "bar", "é", "�", "日", "ab")
		return regexp.QuoteMeta(w), w
	case 3:
		return "[a-c]", Pick(t, "s", "a", "b", "c")
	case 4:
		return Pick(t, "cls", "[^/]", ".", `\w`, "[^/]", `[a-zé]`, `(?i:q)`, `[aA]`, `\x{e9}`), Pick(t, "s", "a", "x", "é", "Q", "A")
	case 5:
		return "[^/]+", Pick(t, "s", "a", "foo", "x.y")
	case 6:
		return Pick(t, "q", `\Q/a.b\E`, `\Qfoo\E`, "/a", "fo", "/a"), Pick(t, "s", "/a.b", "foo", "/a", "fo", "/")
	case 7:
		return Pick(t, "zero", "", "^", `\A`, "(?m:^)", `\b`, "$", "(?m)", "(?s)", "(?U)", "(?i)"), ""
	case 8, 9:
		a, sa := reNode(t, depth-1, names)
		b, sb := reNode(t, depth-1, names)
		return a + b, sa + sb
	case 10, 11:
		a, sa := reNode(t, depth-1, names)
		b, sb := reNode(t, depth-1, names)
		if Chance(t, "right", 50) {
			return a + "|" + b, sb
		}
		return a + "|" + b, sa
	case 12, 13:
		a, sa := reNode(t, depth-1, names)
		if Chance(t, "named", 50) {
			*names++
			return "(?P<n" + string(rune('0'+*names%10)) + ">" + a + ")", sa
		}
		return "(" + a + ")", sa
	case 14:
		a, sa := reNode(t, depth-1, names)
		return "(?:" + a + ")", sa
	default:
		a, sa := reNode(t, depth-1, names)
		q := Pick(t, "rep", "?", "*", "+", "{1,2}", "??", "*?", "{2}")
		s := sa
		switch q {
		case "{2}":
			s = sa + sa
		case "?", "*", "??", "*?":
			if Chance(t, "none", 40) {
				s = ""
			}
		}
		return "(?:" + a + ")" + q, s
	}
}

// RePat draws a regular-expression pattern and a path that it probably accepts.
func RePat(t *rapid.T, prefix string) (Pat, string) {
	prefix = strings.ToValidUTF8(prefix, "\ufffd")
	{
		names := 0
		var sb, ss strings.Builder
		sb.WriteString(Pick(t, "anchor", "", "^", "", `\A`, "(?i)", "(?s)", "(?m)^", "^(?:)"))
		if Chance(t, "useprefix", 70) {
			sb.WriteString(regexp.QuoteMeta(prefix))
			ss.WriteString(prefix)
		}
		n := Int(t, "nodes", 0, 3)
		for i := 0; i < n; i++ {
			e, s := reNode(t, 3, &names)
			sb.WriteString(e)
			ss.WriteString(s)
		}
		if Chance(t, "manygroups", 2) {
			for n := Int(t, "groups", 5, 25); n > 0; n-- {
				sb.WriteString(Pick(t, "group", "([a-c])", "(/[^/]*)", "(x)?", "(?:-)", "(a)"))
				ss.WriteString(Pick(t, "gs", "a", "/b", "x", "-", "a"))
			}
		}
		sb.WriteString(Pick(t, "endanchor", "", "", "$", `\z`, ".*", `\Q`))
		if Chance(t, "longtail", 3) {
			sb.WriteString(`\Q.a`)
			ss.WriteString(".a")
		}
		e := sb.String()
		if _, err := regexp.Compile(e); err != nil {
			// an odd combination (an unterminated quote inside a group, a
			// duplicate name): fall back to something simple
			return Pat{Kind: "re", S: Str("^" + regexp.QuoteMeta(prefix) + "(.*)$")}, prefix + "a"
		}
		return Pat{Kind: "re", S: Str(e)}, ss.String()
	}
}

// FnPat draws a custom pattern.
func FnPat(t *rapid.T, prefix string) (Pat, string) {
	p := Pat{Kind: "fn", S: Str(prefix), Ptr: Chance(t, "ptr", 40)}
	if Chance(t, "shorter", 30) && len(prefix) > 0 {
		p.S = Str(prefix[:Int(t, "cut", 0, len(prefix))])
	}
	s := string(p.S)
	if Chance(t, "sub", 50) {
		p.Sub = Str(Word(t))
		s += string(p.Sub)
	}
	if Chance(t, "hdr", 25) {
		p.Hdr = Pick(t, "hv", "1", "2")
	}
	if Chance(t, "bind", 40) {
		p.Bind = Pick(t, "bn", "n", "fn", "*", "name")
	}
	return p, s
}

// AnyPat draws a pattern of any kind.
func AnyPat(t *rapid.T, prefix string) (Pat, string) {
	switch Int(t, "pk", 0, 9) {
	case 0, 1, 2, 3, 4:
		return StrPat(t, prefix)
	case 5, 6, 7:
		return RePat(t, prefix)
	default:
		return FnPat(t, prefix)
	}
}

// Mutate perturbs a path.
func Mutate(t *rapid.T, s string) string {
	if len(s) == 0 {
		return Pick(t, "m0", "", "/", "a")
	}
	i := Int(t, "at", 0, len(s))
	switch Int(t, "mut", 0, 5) {
	case 0:
		return s[:i]
	case 1:
		return s + Pick(t, "app", "/", "a", "/a", ".x", "\xff", "\n")
	case 2:
		return s[:i] + Pick(t, "ins", "/", "a", ".", "é", "\xff", "//") + s[i:]
	case 3:
		if i == len(s) {
			i--
		}
		return s[:i] + s[i+1:]
	case 4:
		if i == len(s) {
			i--
		}
		return s[:i] + Pick(t, "sub", "/", "b", ".", "\xff", "*", "A") + s[i+1:]
	default:
		return Pick(t, "pre", "x", "/", "/x") + s
	}
}
