package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"hash/maphash"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// The reference model of the lexer: the nginx lexical grammar, over a slice of runes.

type tok struct {
	V    string // value
	L    int    // line
	Q    bool   // quoted
	E    string // error, if this is an error token
	EL   int    // line of the error
	Prem bool   // the error is a premature end
}

func (t tok) isErr() bool { return t.E != "" }

func (t tok) special(s string) bool { return !t.Q && t.E == "" && t.V == s }

func (t tok) anySpecial() bool { return t.special("{") || t.special("}") || t.special(";") }

func (t tok) String() string { return string(t.append(nil)) }

func (t tok) append(b []byte) []byte {
	if t.E != "" {
		b = append(append(b, "ERR("...), t.E...)
		b = append(b, '@')
		return append(strconv.AppendInt(b, int64(t.EL), 10), ')')
	}
	if t.Q {
		b = append(b, 'q')
	}
	b = strconv.AppendQuote(b, t.V)
	b = append(b, '@')
	return strconv.AppendInt(b, int64(t.L), 10)
}

// refExt models an external lexer: given the text that follows its directive it returns its tokens and how much it used.
type refExt func(rest []rune, line int, name string) (toks []tok, used int)

type refLexer struct {
	r    []rune
	pos  int
	line int
	out  []tok
	ext  map[string]refExt
}

// unit reads one lexical unit: a character, or a backslash and the character after it. Carriage returns do not exist.
func (l *refLexer) unit() (string, bool) {
	next := func() (rune, bool) {
		for l.pos < len(l.r) {
			c := l.r[l.pos]
			l.pos++
			if c == '\r' {
				continue
			}
			if c == '\n' {
				l.line++
			}
			return c, true
		}
		return 0, false
	}
	c, ok := next()
	if !ok {
		return "", false
	}
	if c != '\\' {
		return string(c), true
	}
	d, ok := next()
	if !ok {
		return `\`, true
	}
	return `\` + string(d), true
}

func unitSpace(u string) bool {
	r, n := utf8.DecodeRuneInString(u)
	return n == len(u) && unicode.IsSpace(r)
}

func refLex(src string, ext map[string]refExt) []tok {
	l := &refLexer{line: 1, ext: ext}
	for _, c := range src { // an invalid byte reads as U+FFFD
		l.r = append(l.r, c)
	}
	l.run()
	return l.out
}

func (l *refLexer) run() {
	depth := 0
	after := true     // a special character (or the start of the file) came last, comments aside
	directive := true // a directive is expected next
	var pending string
	havePending := false
	special := func(u string) bool { // returns false when lexing ends
		if u != "}" && after {
			l.out = append(l.out, tok{E: fmt.Sprintf("unexpected %q", u), EL: l.line})
			return false
		}
		switch u {
		case "{":
			depth++
		case "}":
			depth--
			if depth < 0 {
				l.out = append(l.out, tok{E: `unexpected "}"`, EL: l.line})
				return false
			}
		}
		after, directive = true, true
		l.out = append(l.out, tok{V: u, L: l.line})
		return true
	}
	// external hands over to an external lexer if name is one of its directives
	external := func(name string, term string) (bool, string) {
		e, ok := l.ext[name]
		if !ok || !directive {
			return false, term
		}
		rest := l.r[l.pos:]
		isSpecial := term == "{" || term == "}" || term == ";"
		if isSpecial {
			rest = append([]rune(term), rest...)
		}
		toks, used := e(rest, l.line, name)
		directive = false
		for _, t := range toks {
			l.out = append(l.out, t)
			directive = t.anySpecial()
		}
		after = directive
		if isSpecial && used > 0 {
			used--
			term = ""
		}
		for i := 0; i < used; i++ {
			if l.r[l.pos] == '\n' {
				l.line++
			}
			l.pos++
		}
		return true, term
	}

	for {
		var u string
		if havePending {
			u, havePending = pending, false
		} else {
			var ok bool
			if u, ok = l.unit(); !ok {
				break
			}
		}
		start := l.line
		switch {
		case unitSpace(u):
		case u == "{" || u == "}" || u == ";":
			if !special(u) {
				return
			}
		case u == "#":
			v := []byte(u)
			for {
				c, ok := l.unit()
				if !ok || strings.HasSuffix(c, "\n") {
					break
				}
				v = append(v, c...)
			}
			l.out = append(l.out, tok{V: string(v), L: start})
		case u == `"` || u == `'`:
			var v []byte
			closed := false
			for {
				c, ok := l.unit()
				if !ok {
					break
				}
				if c == u {
					closed = true
					break
				}
				if c == `\`+u {
					c = u
				}
				v = append(v, c...)
			}
			l.out = append(l.out, tok{V: string(v), L: start, Q: true})
			after = false
			if closed && len(v) > 0 {
				if ok, _ := external(string(v), ""); ok {
					break
				}
			}
			directive = false
		default:
			v := []byte(u)
			term := ""
			inVar := false
			for {
				c, ok := l.unit()
				if !ok {
					break
				}
				if inVar {
					v = append(v, c...)
					if v[len(v)-1] == '}' || unitSpace(c) {
						inVar = false
					}
					continue
				}
				if c == "{" && v[len(v)-1] == '$' {
					v = append(v, c...)
					inVar = true
					continue
				}
				if unitSpace(c) || c == "{" || c == "}" || c == ";" {
					term = c
					break
				}
				v = append(v, c...)
			}
			l.out = append(l.out, tok{V: string(v), L: start})
			after = false
			if term != "" {
				if ok, t := external(string(v), term); ok {
					if t != "" && !unitSpace(t) {
						pending, havePending = t, true
					}
					break
				}
				directive = false
			}
			if term != "" && !unitSpace(term) {
				pending, havePending = term, true
			}
		}
	}
	if depth > 0 {
		l.out = append(l.out, tok{E: `unexpected end of file, expecting "}"`, EL: l.line, Prem: true})
	}
}

// realToks collects the tokens of the implementation in the form of the model.
func realToks(ch <-chan crossplane.NgxToken) []tok {
	out, _ := realToksLast(ch)
	return out
}

// realToksLast also returns the last error.
func realToksLast(ch <-chan crossplane.NgxToken) (out []tok, last error) {
	for t := range ch {
		x := tok{V: t.Value, L: t.Line, Q: t.IsQuoted}
		if t.Error != nil {
			x.L, last = 0, t.Error
			x.E, x.EL = t.Error.Error(), t.Line
			var pe *crossplane.ParseError
			if errors.As(t.Error, &pe) {
				x.E = pe.What
				if pe.Line != nil {
					x.EL = *pe.Line
				}
			}
			x.Prem = errors.Is(t.Error, crossplane.ErrPrematureLexEnd)
		}
		out = append(out, x)
	}
	return out, last
}

func realLex(src string) []tok { return realToks(crossplane.Lex(strings.NewReader(src))) }

func toksEqual(a, b []tok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func toksKey(ts []tok) string {
	var b []byte
	for _, t := range ts {
		b = append(t.append(b), ' ')
	}
	return string(b)
}

func toksHash(ts []tok) uint64 {
	var h maphash.Hash
	h.SetSeed(seed)
	var n [9]byte
	for _, t := range ts {
		h.WriteString(t.V)
		h.WriteString(t.E)
		binary.LittleEndian.PutUint64(n[:8], uint64(t.L))
		n[8] = 0
		if t.Q {
			n[8] = 1
		}
		h.Write(n[:])
	}
	return h.Sum64()
}

func diffToks(want, got []tok) error {
	if toksEqual(want, got) {
		return nil
	}
	return fmt.Errorf("tokens differ\n model: %s\n  real: %s", clip(toksKey(want), 1500), clip(toksKey(got), 1500))
}
