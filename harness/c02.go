package main

import (
	"fmt"
	"slices"
	"strconv"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// External lexers that differ in how much they read and what they emit. Each exists twice: as a
// real crossplane.Lexer and as the model's function over the text that follows.

type extKind struct {
	name  string
	take  int    // characters to scan; -1: up to and including the closing brace, -2: to the end of input
	emit  string // what to emit: "" nothing, "t" the text scanned, ";" a terminator, ... in order
	after int    // characters to scan after having emitted the first token
}

func (k extKind) String() string { return k.name }

var extKinds = []extKind{
	{"nothing", 0, "", 0},
	{"one character", 1, "t", 0},
	{"one, end", 1, "t;", 0},
	{"two, end", 2, "t;", 0},
	{"end only", 0, ";", 0},
	{"quoted ; last", 1, "q", 0},
	{"opens a block", 1, "t{", 0},
	{"a block", -1, "t;", 0},
	{"the rest", -2, "t", 0},
	{"two parts", 1, "tt;", 2},
	{"lines of its own", 1, "0-m9;", 0},
	{"odd values", 0, "EW#B", 0},
	{"goes on after an error", 1, "Xt;", 2},
	{"errors only", 1, "XYX", 0},
	{"ends with an error", 1, "t;Y", 0},
}

func (k extKind) run(scan func() (string, bool), line func() int, name string, emit func(tok)) {
	read := func(n int) string {
		var s []byte
		depth := 0
		for i := 0; n < 0 || i < n; i++ {
			c, ok := scan()
			if !ok {
				return string(s) + "<end>"
			}
			s = append(s, c...)
			s = append(strconv.AppendInt(append(s, '@'), int64(line()), 10), ',')
			if n == -1 {
				switch c {
				case "{":
					depth++
				case "}":
					depth--
				}
				if depth <= 0 && c != " " && c != "\n" {
					break
				}
			}
		}
		return string(s)
	}
	text := "<" + name + ">" + read(k.take)
	for i, e := range k.emit {
		if i == 1 && k.after > 0 {
			text = read(k.after)
		}
		switch e {
		case 't':
			emit(tok{V: text, L: line()})
		case 'q':
			emit(tok{V: ";", L: line(), Q: true})
		case '0', '9': // at no line, or before all others
			emit(tok{V: "at0", L: 0})
		case '-':
			emit(tok{V: "at-1", L: -1})
		case 'm':
			emit(tok{V: "far", L: 1 << 30, Q: true})
		case 'X':
			emit(tok{V: "part", EL: line(), E: "bad"})
		case 'Y':
			emit(tok{V: "{", EL: 7, E: "worse", Q: true})
		case 'E':
			emit(tok{V: "", L: line()})
		case 'W':
			emit(tok{V: " a; {b} \r\n\xff\"'\\ ", L: line()})
		case 'B':
			emit(tok{V: "}", L: line(), Q: true})
		default:
			emit(tok{V: string(e), L: line()})
		}
	}
}

func (k extKind) model(rest []rune, line int, name string) (out []tok, used int) {
	k.run(func() (string, bool) {
		if used >= len(rest) {
			return "", false
		}
		c := rest[used]
		used++
		if c == '\n' {
			line++
		}
		return string(c), true
	}, func() int { return line }, name, func(t tok) { out = append(out, t) })
	return
}

type extLexer struct {
	k     extKind
	calls *int
}

func (l extLexer) Lex(s *crossplane.SubScanner, name string) <-chan crossplane.NgxToken {
	ch := make(chan crossplane.NgxToken)
	go func() {
		defer close(ch)
		l.k.run(func() (string, bool) {
			if !s.Scan() {
				return "", false
			}
			return s.Text(), true
		}, s.Line, name, func(t tok) {
			n := crossplane.NgxToken{Value: t.V, Line: t.L, IsQuoted: t.Q}
			if t.isErr() {
				n.Line, n.Error = 5, &crossplane.ParseError{What: t.E, Line: &t.EL}
			}
			ch <- n
		})
	}()
	return ch
}

type extCase struct {
	Src  string
	Kind int
}

func (c extCase) String() string {
	return fmt.Sprintf("external lexer %q for ext and ext2: %q", extKinds[c.Kind].name, c.Src)
}

func extOptions(k extKind) (crossplane.LexOptions, map[string]refExt) {
	return crossplane.LexOptions{Lexers: []crossplane.RegisterLexer{
			crossplane.LexWithLexer(extLexer{k: extKinds[0]}, "ext2", "other"), // the last registration of a name counts
			crossplane.LexWithLexer(extLexer{k: k}, "ext", "ext2"),
			crossplane.LexWithLexer(extLexer{k: extKinds[2]}, "e}t"),
		}},
		map[string]refExt{"other": extKinds[0].model, "ext": k.model, "ext2": k.model, "e}t": extKinds[2].model}
}

func extLexCase(w *W, c extCase) error {
	o, m := extOptions(extKinds[c.Kind])
	want := refLex(c.Src, m)
	got := realToks(crossplane.LexWithOptions(strings.NewReader(c.Src), o))
	w.Steps(len(want))
	w.StateHash(toksHash(want))
	n := 0
	for _, t := range want {
		if strings.HasPrefix(t.V, "<ext") {
			n++
		}
	}
	w.Outcome(extKinds[c.Kind].name + ": " + strconv.Itoa(n) + " calls")
	return diffToks(want, got)
}

// any word can be a name: it is written in every way, where it is one and where it is not.
type extNameCase struct {
	Name string
	Kind int
}

func (c extNameCase) String() string {
	return fmt.Sprintf("external lexer %q for %q", extKinds[c.Kind].name, c.Name)
}

var extNameTexts = []string{
	"N {b}\na;", "N x;b;", "N;N;", "N{b} c;", "'N' {b} c;", "\"N\" {b}\nN {c} d;", "a N {b} N {c} d;", "a 'N' {b} \"N\"{c} d;", "aN {b} Na {c} NN {d} e;",
	"a {\nN {b} c; } N {d} e;", "#N {b}\nN {c} d;", "a #N\nN b; N", "a${N} {b} c;", "$N {b} ${N} c; \\N {c} d;", "a; N\n\n{\n} b\n;",
}

func extNameOne(w *W, c extNameCase) error {
	k := extKinds[c.Kind]
	o := crossplane.LexOptions{Lexers: []crossplane.RegisterLexer{crossplane.LexWithLexer(extLexer{k: k}, c.Name)}}
	for _, t := range extNameTexts {
		src := strings.ReplaceAll(t, "N", c.Name)
		want := refLex(src, map[string]refExt{c.Name: k.model})
		got := realToks(crossplane.LexWithOptions(strings.NewReader(src), o))
		w.Steps(len(want))
		w.StateHash(toksHash(want))
		if err := diffToks(want, got); err != nil {
			return fmt.Errorf("%q: %w", src, err)
		}
	}
	return nil
}

func extNames(n int) func(func(extNameCase) bool) {
	return func(yield func(extNameCase) bool) {
		each := func(s string) bool {
			for _, k := range []int{0, 2, 7} {
				if !yield(extNameCase{s, k}) {
					return false
				}
			}
			return true
		}
		on := true
		stringsOver([]string{"e", "$", "{", "}", `\`, "'", `"`, "#", ".", "é", "/", " ", ";", "*", "\n"}, 1, n)(func(s string) bool { on = each(s); return on })
		if on {
			slices.Values(handValues)(each)
		}
	}
}

func withKinds(g func(func(string) bool), kinds ...int) func(func(extCase) bool) {
	return func(yield func(extCase) bool) {
		g(func(s string) bool {
			for _, k := range kinds {
				if !yield(extCase{s, k}) {
					return false
				}
			}
			return true
		})
	}
}

func extParseCase(w *W, c extCase) error {
	o, m := extOptions(extKinds[c.Kind])
	for _, po := range []int{0, oComments | oSkipCtx | oSkipArgs, oStop} {
		opts := options(po)
		opts.LexOptions = o
		fs := memFS{"/d/main": c.Src, "/d/inc": "ext {a}\nb;"}
		want, got, _, _ := parseBoth(fs, "/d/main", opts, m)
		w.Steps(1)
		w.State(want)
		if err := differ("payloads differ, options "+optName(po), want, got); err != nil {
			return err
		}
	}
	return nil
}

func longExtInputs(yield func(string) bool) {
	rep := strings.Repeat
	for _, n := range append(sizes(140, 9000), 2046, 4090, 65536, 70000) {
		for _, s := range []string{
			rep("a;\n", n) + "ext {b}\nc;", "ext {" + rep("x", n) + "}\nc;", "ext {" + rep("\n", n) + "} c; d\n;", "ext " + rep(" ", n) + "{ é }\nb;",
			rep("x {\n", n%3000) + "ext{a}" + rep("}\n", n%3000), rep("ext {b}\n", n%5000) + "end;", "ext {" + rep("{a}", n) + "} b;", "a " + rep("ext ", n%5000) + "; ext {}",
			rep("é", n) + " x;ext {a} b;", "# " + rep("ext {", n) + "\next {z}; a;",
		} {
			if !yield(s) {
				return
			}
		}
	}
}

func init() {
	register("C02", func(x *X) {
		crossplane.SetTokenChanCap(32)
		n, np, nn := 5, 4, 6
		if x.thorough {
			n, np, nn = 6, 5, 7
		}
		all := []int{}
		for i := range extKinds {
			all = append(all, i)
		}
		frags := []string{"ext", " ", ";", "{", "}", "\n", `"`, "#", "a", "2", `\`}
		Explore(x, fmt.Sprintf("all compositions of up to %d fragments, every external lexer", n), withKinds(stringsOver(frags, 0, n), all...), extLexCase)
		Explore(x, fmt.Sprintf("all compositions of up to %d fragments, three lexers", nn), withKinds(stringsOver([]string{"ext", " ", ";", "{", "}", "\n", `"`, "a"}, nn, nn), 1, 3, 7), extLexCase)
		Explore(x, "names that are near misses, and other ways to write a name",
			withKinds(stringsOver([]string{"e}t", "ext", "ex", "t", "'ext'", `"ext"`, "ext2", "other", "$", "${ext}", "\r", " ", ";", "\u00a0", `\ext`, "x;", "EXT"}, 0, n-1), 0, 2, 3, 7), extLexCase)
		Explore(x, "parsing with external lexers", withKinds(tokSeqs([]string{"ext", `"ext"`, "a", ";", "{", "}", "#c\n", "\n", "ext {b}", "http {", "include inc;", "'{"}, 0, np), 1, 3, 4, 6, 7, 10, 11, 12, 14), extParseCase)
		Explore(x, "values as people write them", withKinds(inTexts(slices.Values(realValues), "ext {%}\na;", "a % ext { % ; }\n %;", "\"%\" ext {'%'} b;", "#%\next {\n%\n} b;"), all...), extLexCase)
		Explore(x, fmt.Sprintf("lexers for every name of up to %d characters, and for values as people write them", n-2), extNames(n-2), extNameOne)
		Explore(x, "long inputs", withKinds(longExtInputs, 1, 2, 7, 8), extLexCase)
		Explore(x, "deviations of a realistic configuration", withKinds(deviations(x, []string{"http {\n  ext { a {b} 'c' }\n  server { ext2 {\n\n} location ext {\n # ext {\n ext; } \"ext\" {x}\n }\n}\n"}, lexDeviants), all...), extLexCase)
	}, "An external lexer closes its channel and reads no more after that.")
}
