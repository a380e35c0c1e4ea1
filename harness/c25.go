package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"path/filepath"
	"slices"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// errFacts is everything a caller can learn from an error.
type errFacts struct {
	Text, JSON       string
	Parse            bool // it is a ParseError
	Prem             bool // it is ErrPrematureLexEnd
	Fault, Glob, Lex bool // it is the error that the environment returned
	Open             bool
}

var errGlob, errLexer, errOpen = errors.New("the pattern is bad"), errors.New("the lexer fails"), errors.New("it can't be opened")

// env has the errors that the environment returns.
type env struct{ Fault, Glob, Lex, Open error }

func factsOf(err error, v env) errFacts {
	var pe *crossplane.ParseError
	f := errFacts{Text: err.Error(), Parse: errors.As(err, &pe), Prem: errors.Is(err, crossplane.ErrPrematureLexEnd),
		Fault: sameErr(err, v.Fault), Glob: sameErr(err, v.Glob), Lex: sameErr(err, v.Lex), Open: sameErr(err, v.Open)}
	if f.Parse {
		b, e := json.Marshal(err)
		f.JSON = string(b)
		if e != nil {
			f.JSON = e.Error()
		}
		var text string
		if json.Unmarshal(b, &text) == nil { // however it is escaped
			f.JSON = jsonString(text)
		}
	}
	return f
}

// facts is what the model says about an error; what the environment returned is known by its text.
func (e *rErr) facts(v env) errFacts {
	f := errFacts{Text: e.What, Parse: !e.Raw, Prem: e.Prem}
	if !e.Raw {
		f.Text = fmt.Sprintf("%s in %s:%d", e.What, e.File, e.Line)
		f.JSON = jsonString(f.Text)
	}
	for is, err := range map[*bool]error{&f.Fault: v.Fault, &f.Glob: v.Glob, &f.Lex: v.Lex, &f.Open: v.Open} {
		if e.What == err.Error() {
			*is = true
			f.Prem = f.Prem || errors.Is(err, crossplane.ErrPrematureLexEnd)
		}
	}
	return f
}

// jsonString is the JSON text of a string of printable characters.
func jsonString(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteString(`\` + string(r))
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r < 0x20 || strings.ContainsRune("<>&\u2028\u2029", r):
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.WriteRune(r)
		}
	}
	return `"` + b.String() + `"`
}

// badLexer reports errors of several kinds.
type badLexer struct{ err error }

func (b badLexer) Lex(s *crossplane.SubScanner, name string) <-chan crossplane.NgxToken {
	ch := make(chan crossplane.NgxToken, 1)
	line, file := s.Line(), "elsewhere"
	switch name {
	case "plain":
		ch <- crossplane.NgxToken{Error: b.err, Line: line}
	case "own":
		ch <- crossplane.NgxToken{Error: &crossplane.ParseError{What: "own error", File: &file, Line: &line, Statement: "the statement", BlockCtx: "the block"}, Line: 99}
	}
	close(ch)
	return ch
}

func (b badLexer) ref() map[string]refExt {
	return map[string]refExt{
		"plain": func(_ []rune, line int, _ string) ([]tok, int) { return []tok{errTok(b.err, line)}, 0 },
		"own":   func(_ []rune, line int, _ string) ([]tok, int) { return []tok{{E: "own error", EL: line}}, 0 },
	}
}

type factCase struct {
	multiCase
	Fault string // a file that can't be read to its end
	At    int
	Where string // what fails with the error of this kind, in errKinds
	Kind  int
}

func (c factCase) String() string {
	s := c.multiCase.String()
	if c.Fault != "" {
		s += fmt.Sprintf(" reading %s fails at %d", c.Fault, c.At)
	}
	if c.Where != "" {
		s += fmt.Sprintf(" %s returns %v", c.Where, errKinds[c.Kind])
	}
	return s
}

func errorFacts(w *W, c factCase) error {
	v := env{errFault, errGlob, errLexer, errOpen}
	kind := 0
	switch k := errKinds[c.Kind]; c.Where {
	case "read":
		v.Fault, kind = k, c.Kind
	case "glob":
		v.Glob = k
	case "lex":
		v.Lex = k
	case "open":
		v.Open = k
	}
	errExt := badLexer{v.Lex}.ref()
	glob := func(p string) ([]string, error) {
		if _, err := filepath.Match(p, ""); err != nil {
			return []string{"/d/main", "/d/f", "/nope"}, v.Glob
		}
		l, err := c.Files.globText(p)
		if strings.HasSuffix(p, "/gone*") {
			l = append(l, "/d/gone", "/d/f")
		}
		return l, err
	}
	base := options(c.Opt)
	base.LexOptions.Lexers = []crossplane.RegisterLexer{crossplane.LexWithLexer(badLexer{v.Lex}, "plain", "own")}
	lex := func(path, src string) []tok {
		if path != c.Fault {
			return refLex(src, errExt)
		}
		return deliveryCase{Src: src, Fault: c.At, Kind: kind}.tokensExt(errExt)
	}
	openText := func(p string) (string, error) {
		if s, ok := c.Files[p]; ok {
			return s, nil
		}
		return "", v.Open
	}
	open := func(p string) (io.ReadCloser, error) {
		s, err := openText(p)
		if err != nil {
			return nil, err
		}
		if p == c.Fault {
			return deliveryCase{Src: s, Fault: c.At, Kind: kind}.reader(), nil
		}
		return c.Files.open(p)
	}
	for _, stop := range []bool{false, true} {
		o := base
		o.StopParsingOnError = stop
		o.Glob, o.Open = glob, open
		wp, we := refParseToks("/d/main", &o, openText, glob, lex)
		var called []error
		o.ErrorCallback = func(e error) any { called = append(called, e); return nil }
		p, err := crossplane.Parse("/d/main", &o)
		w.Steps(1)
		if we != nil {
			if err == nil {
				return fmt.Errorf("stop %v: no error, the model has %s", stop, we.dump())
			}
			w.Outcome("returned " + we.What)
			w.State(we.dump())
			if err := differ("returned error", fmt.Sprintf("%+v", we.facts(v)), fmt.Sprintf("%+v", factsOf(err, v))); err != nil {
				return err
			}
			if stop && len(called) > 0 {
				return fmt.Errorf("the callback is called for an error that is returned: %v", called)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("stop %v: %v", stop, err)
		}
		if len(p.Errors) != len(wp.Errs) || len(called) != len(wp.Errs) {
			return fmt.Errorf("%d errors and %d calls, the model has %d", len(p.Errors), len(called), len(wp.Errs))
		}
		var inConfigs []crossplane.ConfigError
		for _, c := range p.Config {
			inConfigs = append(inConfigs, c.Errors...)
		}
		for i, e := range wp.Errs {
			w.Outcome("reported " + e.What)
			w.State(e.dump())
			want := fmt.Sprintf("%+v", e.facts(v))
			for place, err := range map[string]error{"payload": p.Errors[i].Error, "config": inConfigs[i].Error, "callback": called[i]} {
				if err := differ(fmt.Sprintf("error %d of the %s", i, place), want, fmt.Sprintf("%+v", factsOf(err, v))); err != nil {
					return err
				}
			}
			for place, l := range map[string]*int{"payload": p.Errors[i].Line, "config": inConfigs[i].Line} {
				if l == nil || *l != e.Line {
					return fmt.Errorf("error %d of the %s: the line is not %d", i, place, e.Line)
				}
			}
		}
	}
	return nil
}

type fieldsCase struct {
	What       string
	File       *string
	Line       *int
	Stmt, Ctx  string
	Wrapped    bool
	fileS, lnS string
}

func (c fieldsCase) String() string {
	return fmt.Sprintf("ParseError{%q %s %s %q %q} wrapped %v", c.What, c.fileS, c.lnS, c.Stmt, c.Ctx, c.Wrapped)
}

func errorFields(w *W, c fieldsCase) error {
	pe := &crossplane.ParseError{What: c.What, File: c.File, Line: c.Line, Statement: c.Stmt, BlockCtx: c.Ctx}
	want := c.What + " in (nofile)"
	if c.File != nil {
		want = c.What + " in " + *c.File
	}
	if c.Line != nil {
		want += fmt.Sprint(":", *c.Line)
	}
	w.Steps(1)
	w.State(want)
	if got := pe.Error(); got != want {
		return fmt.Errorf("Error() is %q, want %q", got, want)
	}
	var err error = pe
	if c.Wrapped {
		err = fmt.Errorf("w: %w", pe)
	}
	var found *crossplane.ParseError
	if !errors.As(err, &found) || found != pe || errors.Is(err, crossplane.ErrPrematureLexEnd) || pe.Unwrap() != nil {
		return fmt.Errorf("an error without a cause has one: %v", pe.Unwrap())
	}
	line := 7
	p := crossplane.Payload{Status: "failed", Errors: []crossplane.PayloadError{{File: "f", Line: &line, Error: pe}}, Config: []crossplane.Config{}}
	b, e := json.Marshal(p)
	if e != nil {
		return e
	}
	return differ("JSON", `{"status":"failed","errors":[{"file":"f","line":7,"error":`+jsonString(want)+`}],"config":[]}`, string(b))
}

func init() {
	register("C25", func(x *X) {
		crossplane.SetTokenChanCap(32)
		n, nf := 4, 3
		if x.thorough {
			n, nf = 5, 4
		}
		toks := []string{"http {", "}", "user;", "foo {", "x y", ";", "map a b {", "include nope;", "include [;", "include f;", "plain", "own", "\n", "'q", "#c\n", "if a {"}
		facts := func(g func(func(string) bool), fault bool, opts ...int) func(func(factCase) bool) {
			return func(y func(factCase) bool) {
				g(func(s string) bool {
					for _, o := range opts {
						m := multiCase{memFS{"/d/main": s, "/d/f": "a;\nlisten 1;\nb", "/d/g": "}"}, o}
						if !fault {
							if !y(factCase{multiCase: m}) {
								return false
							}
							continue
						}
						for _, f := range []string{"/d/main", "/d/f"} {
							for at := 0; at <= len(m.Files[f]); at++ {
								if !y(factCase{multiCase: m, Fault: f, At: at}) {
									return false
								}
							}
						}
					}
					return true
				})
			}
		}
		Explore(x, "every ParseError", func(y func(fieldsCase) bool) {
			strs := []string{"", "a", "a b\n", `"q"`, "é", "<&>", "a in b:1", "%s%d", "\u2028"}
			for _, what := range strs {
				for fi := -1; fi < len(strs); fi++ {
					for _, line := range []int{-1, 0, 1, 10, 1 << 20} {
						for i, other := range strs {
							c := fieldsCase{What: what, Stmt: other, Ctx: strs[(i+3)%len(strs)], Wrapped: i%2 == 0, fileS: "-", lnS: "-"}
							if fi >= 0 {
								c.File, c.fileS = &strs[fi], strs[fi]
							}
							if line >= 0 {
								c.Line, c.lnS = &line, fmt.Sprint(line)
							}
							if !y(c) {
								return
							}
						}
					}
				}
			}
		}, errorFields)
		Explore(x, fmt.Sprintf("every error of all sequences of up to %d tokens", n), facts(tokSeqs(toks, 0, n), false, 0, oUnknown|oComments, oCombine), errorFacts)
		Explore(x, fmt.Sprintf("the same up to %d tokens, every option", n-1), facts(tokSeqs(append(toks, "[*]", "include *;"), 0, n-1), false, oSingle, oSkipCtx, oSkipArgs, oIgnore, oSkipCtx|oSkipArgs|oUnknown), errorFacts)
		Explore(x, "values as people write them, in right and wrong statements", facts(inTexts(slices.Values(realValues), wrongForms...), false, 0, oUnknown|oComments, oCombine), errorFacts)
		Explore(x, fmt.Sprintf("a fault at every offset of all sequences of up to %d tokens", nf), facts(tokSeqs(toks, 0, nf), true, 0, oCombine), errorFacts)
		Explore(x, "every kind of error of a reader, Open, Glob and an external lexer", func(y func(factCase) bool) {
			m := "a;\nhttp {\ninclude %s;\n# c\nserver { listen\n%s 1; }\n%s\n; x }\n%s"
			for _, o := range []int{0, oCombine, oUnknown, oSkipCtx | oSkipArgs, oSingle} {
				for kind := range errKinds {
					for _, in := range []string{"f", "f*", "nope", "/nope", "[", "g", "n*", "", "gone*"} {
						for _, where := range []string{"open", "glob", "lex", "read"} {
							for i := 0; i < 4; i++ {
								place := []any{in, "", "", ""}
								if where == "lex" {
									place[max(1, i)] = "plain"
								}
								fs := memFS{"/d/main": fmt.Sprintf(m, place...), "/d/f": "a;\nserver {\nlisten 1\n; }", "/d/g": "plain b;\n;"}
								c := factCase{multiCase: multiCase{fs, o}, Where: where, Kind: kind}
								switch where {
								case "read":
									c.Fault = "/d/f"
									if i%2 == 1 {
										c.Fault = "/d/main"
									}
									for c.At = 0; c.At <= len(fs[c.Fault]); c.At++ {
										if !y(c) {
											return
										}
									}
									continue
								case "open":
									if i == 1 {
										delete(fs, "/d/main")
									}
								}
								if !y(c) {
									return
								}
							}
						}
					}
				}
			}
		}, errorFacts)
		Explore(x, "every directive name, in right and wrong statements", facts(inNames(append(wrongNames, blockForms...)...), false, 0, oUnknown), errorFacts)
		Explore(x, fmt.Sprintf("every character up to %#x, everywhere", lastRune(x)), facts(allRunes(lastRune(x), []string{"% a;\nhttp { %b; }\n%", "user '%' % ;\nuser {%", "include %[;"}), false, oUnknown), errorFacts)
		Explore(x, "deviations of realistic configurations", facts(deviations(x, allConfigs, corpusDeviants(x, []string{"", ";", "{", "}", `"`}, "")), false, oUnknown), errorFacts)
	}, "An error that is not from parsing (a reader, Open, Glob, an external lexer) is known by identity, through errors.Is.")
}
