package main

import (
	"fmt"
	"strings"
	"unicode"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// lexable reports whether v is the value of some argument: whether there is a text that the model reads as it.
func lexable(v string) bool {
	if strings.ContainsRune(v, '\r') || strings.ContainsRune(v, unicode.ReplacementChar) {
		return false
	}
	return readsAs(v, v) || quotable(v)
}

// quotable reports whether v has a quoted form.
func quotable(v string) bool {
	for _, q := range []string{`"`, "'"} {
		if readsAs(q+strings.ReplaceAll(v, q, `\`+q)+q, v) { // only the quote itself can be escaped
			return true
		}
	}
	return false
}

func readsAs(text, v string) bool {
	ts := refLex("a "+text+" ;", nil)
	return len(ts) == 3 && !ts[1].isErr() && ts[1].V == v && (ts[1].Q || !strings.HasPrefix(v, "#")) && ts[2].special(";")
}

// ordinary reports whether v needs no quotes by any reading of the grammar.
func ordinary(v string) bool {
	if v == "" || v[0] == '#' {
		return false
	}
	escaped := false
	for i, r := range v {
		switch {
		case escaped:
			escaped = false
		case r == '\\':
			escaped = true
		case unicode.IsSpace(r) || strings.ContainsRune("{};\"'", r):
			return false
		case r == '$':
			if i+1 == len(v) || !isWordByte(v[i+1]) {
				return false
			}
		}
	}
	return !escaped && !strings.HasSuffix(v, `\`) && !strings.HasSuffix(v, "$")
}

func isWordByte(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

var quoteContexts = []struct{ pre, post string }{
	{"a ", " ;"}, {"a ", ";"}, {"a ", " { }"}, {"a ", "{}"}, {"a ", "\n#c\n;"}, {"a\n", " #c\n\"x\" y;"}, {"a {\nb c\t", "\t; }"},
	{"a b ", " x;"}, {"", ";"}, {"", " x;"}, {"a;", " {}"}, {"a {", "; }"}, {"a 'x' ", " {b;}c;"},
}

func quoteOne(w *W, v string) error {
	if !lexable(v) {
		w.Outcome("not a value")
		return nil
	}
	q := crossplane.Enquote(v)
	switch {
	case q == v:
		w.Outcome("as it is")
	case strings.HasPrefix(q, `"`):
		w.Outcome("double quotes")
	default:
		w.Outcome("single quotes")
	}
	w.State(q)
	if ordinary(v) && q != v {
		return fmt.Errorf("Enquote quotes %q, which needs no quotes, as %q", v, q)
	}
	for _, c := range quoteContexts {
		if c.post[0] == '{' && !quotable(v) {
			continue // an unquoted value that ends in $ can't be followed by { directly
		}
		want := refLex(c.pre+"VALUE"+c.post, nil)
		src := c.pre + q + c.post
		got := realLex(src)
		w.Steps(len(want))
		if len(got) != len(want) {
			return fmt.Errorf("Enquote(%q) is %q: %q reads as %v", v, q, src, got)
		}
		for i := range want {
			wv := want[i]
			if wv.V == "VALUE" {
				wv.V = v
				// what would mean something else must stand in quotes
				if !got[i].Q && (v == "" || v[0] == '#' || v == "{" || v == "}" || v == ";") {
					return fmt.Errorf("Enquote(%q) is %q, which is not an argument", v, q)
				}
				wv.Q = got[i].Q
			}
			if wv.V != got[i].V || wv.Q != got[i].Q || wv.E != got[i].E {
				return fmt.Errorf("Enquote(%q) is %q: %q reads as %v", v, q, src, got)
			}
		}
	}
	return nil
}

// valueOf takes the values that the model reads from a text.
func valueOf(w *W, text string) error {
	ts := refLex("a "+text+" ;", nil)
	for i, t := range ts {
		if t.isErr() || !t.Q && (t.anySpecial() || t.V[0] == '#') {
			continue
		}
		if i == 0 || t.V == "" && !t.Q {
			continue
		}
		w.Outcome("a value of a text")
		if !lexable(t.V) {
			return fmt.Errorf("the model of values misses %q, from %q", t.V, text)
		}
		if err := quoteOne(w, t.V); err != nil {
			return err
		}
	}
	return nil
}

func allRunes(hi rune, forms []string) func(func(string) bool) {
	return func(yield func(string) bool) {
		var rs []rune
		for r := rune(0); r <= hi; r++ {
			rs = append(rs, r)
		}
		for _, r := range []rune{0xE000, 0xF8FF, 0xFDD0, 0xFE0F, 0xFEFF, 0xFF03, 0xFF04, 0xFF1B, 0xFF3C, 0xFF5B, 0xFF5D, 0xFFA0, 0xFFF9, 0xFFFC, 0xFFFE, 0xFFFF, 0x10000, 0x1D400, 0x1F600, 0xE0001, 0xE0020, 0x10FFFF} {
			if r > hi { // the remarkable ones of the rest
				rs = append(rs, r)
			}
		}
		for _, r := range rs {
			if r >= 0xD800 && r < 0xE000 || r == unicode.ReplacementChar {
				continue
			}
			for _, f := range forms {
				if !yield(strings.ReplaceAll(f, "%", string(r))) {
					return
				}
			}
		}
	}
}

// lastRune is the last character of the spaces of every character.
func lastRune(x *X) rune {
	if x.thorough {
		return unicode.MaxRune
	}
	return 0x3010
}

func init() {
	register("C15", func(x *X) {
		crossplane.SetTokenChanCap(32)
		n, nw, nt, hi, long := 5, 4, 5, rune(0x3010), 5000
		if x.thorough {
			n, nw, nt, hi, long = 6, 5, 6, unicode.MaxRune, 1<<20
		}
		Explore(x, fmt.Sprintf("all values up to %d characters", n), stringsOver(lexCore, 0, n), quoteOne)
		Explore(x, fmt.Sprintf("all values up to %d characters (wide alphabet)", nw), stringsOver([]string{"b", "=", "(", ")", "\t", "\u00a0", "é", "🙂", "\x01", "~", "*", ".", "/", "|", "%", "@", ",", "[", "]", "{", "}", `"`, `\`, "$", "#"}, 0, nw), quoteOne)
		Explore(x, fmt.Sprintf("the values of all texts up to %d characters", nt), stringsOver(lexCore, 0, nt), valueOf)
		Explore(x, fmt.Sprintf("every character up to %#x", hi), allRunes(hi, []string{"%", "a%", "%a", "a%b", `\%`, `\%'"`, "$%", "%{", "${%}"}), quoteOne)
		Explore(x, "values as people write them, with anything inserted or left out, and in pairs", realishValues(true), quoteOne)
		Explore(x, "long values", func(y func(string) bool) {
			for _, k := range sizes(140, 1100) {
				pad := strings.Repeat("a", k)
				for _, c := range append(append([]string(nil), oddChars...), valueSpecials...) {
					if !y(pad+c) || !y(c+pad) || !y(pad[:k/2]+c+pad[k/2:]) || !y(strings.Repeat(c, k)) || !y(strings.Repeat("a"+c, k)) {
						return
					}
				}
			}
			longLexInputs(func(s string) bool { return len(s) > long || y(s) })
		}, quoteOne)
	}, "Values that no text has (with a carriage return or a backslash that escapes nothing) are left out.")
}
