package main

import (
	"fmt"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// A condCase is a condition: its words, and how it is written.
type condCase struct {
	Words []string // as they are written
	Open  string   // from if to the first word
	Close string   // from the last word to the block
	Sep   string
	Frame string
}

func (c condCase) text() string {
	return strings.Replace(c.Frame, "%s", "if"+c.Open+strings.Join(c.Words, c.Sep)+c.Close+"{ set $a b; }", 1)
}

func (c condCase) String() string { return fmt.Sprintf("%q", c.text()) }

var condWords = []string{"a", "$x", "=", `"b c"`, `'it"s'`, "(y)", "!~*", "^/(a|b)$", `"("`, `")"`, `"(z)"`, "-f", `''`, "a)b", "(", "\\)", "x(", `"#"`, `"{"`, "if"}

// condOne: the arguments are the words, whatever the spacing.
func condOne(w *W, c condCase) error {
	// the values of the words, by the model of the lexer
	var words []string
	for _, t := range refLex("x "+strings.Join(c.Words, " ")+" ;", nil) {
		if !t.isErr() {
			words = append(words, t.V)
		}
	}
	words = words[1 : len(words)-1]
	attachable := c.Words[0][0] != '"' && c.Words[0][0] != '\''
	if strings.HasSuffix(c.Open, "(") && !attachable {
		w.Outcome("a quote within a word") // then the words are others
		return nil
	}
	last := words[len(words)-1]
	if last != strings.TrimSpace(last) || strings.TrimSpace(strings.Join(words, "")) == "" {
		w.Outcome("blank")
		return nil
	}
	fs := memFS{"/d/main": c.text()}
	o := options(0)
	o.SkipDirectiveContextCheck = true
	o.Open = fs.open
	p, err := crossplane.Parse("/d/main", &o)
	if err != nil {
		return err
	}
	if p.Status != "ok" {
		return fmt.Errorf("%q: %s", c.text(), dumpPayload(p))
	}
	w.Steps(len(words))
	w.State(strings.Join(words, "\x00"))
	w.Outcome(fmt.Sprintf("%d words", len(words)))
	ifs := findIfs(p.Config[0].Parsed)
	if len(ifs) != 1 {
		return fmt.Errorf("%q: %d ifs in %s", c.text(), len(ifs), dumpPayload(p))
	}
	if got := ifs[0].Args; strings.Join(got, "\x00") != strings.Join(words, "\x00") {
		return fmt.Errorf("%q has the words %q, not %q", c.text(), got, words)
	}
	text, err := buildText(p.Config[0], layout{})
	if err != nil {
		return err
	}
	if !strings.Contains(strings.ReplaceAll(text, "( ", "("), "if (") {
		return fmt.Errorf("built without parentheses: %q", text)
	}
	fs["/d/main"] = text
	q, err := crossplane.Parse("/d/main", &o)
	if err != nil {
		return err
	}
	return differ(fmt.Sprintf("built as %q", text), dumpDirsNoLines(p.Config[0].Parsed), dumpDirsNoLines(q.Config[0].Parsed))
}

func findIfs(ds crossplane.Directives) (out crossplane.Directives) {
	for _, d := range ds {
		if d.Directive == "if" {
			out = append(out, d)
		}
		out = append(out, findIfs(d.Block)...)
	}
	return
}

var condOpens = []string{" (", " ( ", "\n(\n", "\t(\t", " (  ", " #c\n(", " ( #c (\n"}
var condCloses = []string{")", " )", ") ", "\n)\n", " ) #c )\n", "\t)\t"}

func init() {
	register("C22", func(x *X) {
		n, m := 3, 6
		if x.thorough {
			n, m = 4, 7
		}
		frames := []string{"http { server { %s } }"}
		Explore(x, fmt.Sprintf("all conditions of up to %d words, however they are spaced", n), func(y func(condCase) bool) {
			for k := 1; k <= n; k++ {
				opens, closes, seps := condOpens, condCloses, []string{" ", "\n", " #c)\n", "\t  "}
				if k == n {
					opens, closes, seps = opens[:2], closes[:2], seps[:1]
				}
				if !seqs(condWords, k, k, func(ws []string) bool {
					words := append([]string(nil), ws...)
					for _, o := range opens {
						for _, c := range closes {
							for _, s := range seps {
								if !y(condCase{words, o, c, s, frames[0]}) {
									return false
								}
							}
						}
					}
					return true
				}) {
					return
				}
			}
		}, condOne)
		Explore(x, "all conditions of up to 4 words and operators", func(y func(condCase) bool) {
			ops := []string{"!", "=", "!=", "~", "~*", "!~", "!~*", "-f", "!-f", "-d", "!-d", "-e", "!-e", "-x", "!-x", "$a", "b", "!$a", `"$a"`, "~a", "!b"}
			seqs(ops, 1, 4, func(ws []string) bool {
				o := []string{" (", " ( "}[(len(ws[0])+len(ws[len(ws)-1]))%2]
				return y(condCase{append([]string(nil), ws...), o, ")", " ", frames[0]})
			})
			seqs([]string{"!", "=", "-f", "$a"}, 5, 6, func(ws []string) bool {
				return y(condCase{append([]string(nil), ws...), " (", ")", " ", frames[0]})
			})
		}, condOne)
		Explore(x, "conditions everywhere", func(y func(condCase) bool) {
			for _, f := range contextFrames {
				for _, ws := range [][]string{{"a"}, {"$x", "=", `"b c"`}, {"(y)"}, {"(", ")"}, {"((a)", "(b))"}} {
					for _, o := range condOpens {
						for _, c := range condCloses {
							if !y(condCase{ws, o, c, " ", f}) {
								return
							}
						}
					}
				}
			}
		}, func(w *W, c condCase) error {
			return parseOne(w, parseCase{c.text(), 0})
		})
		Explore(x, fmt.Sprintf("every character up to %#x, everywhere", lastRune(x)), withOpts(allRunes(lastRune(x), []string{"if (a%) {x;}", "if (%a) {}", "if ( % a) {}", "if ('%a' b%c) {}", "if%(a) {}", "if (a)% {}"}), 0), parseOne)
		Explore(x, "conditions as people write them", withOpts(inTexts(realishValues(false), "if (%) {x;}\ny;", "if ( '%' ) {x;}", "if ($a = \"%\") {x;} if (\"%\" = b ) {}", "if (a %) {} if (% b) {}"), 0), parseOne)
		Explore(x, "long conditions and words", func(y func(condCase) bool) {
			for _, k := range sizes(140, 1100) {
				for _, c := range []string{"a", "$x", `"b c"`, "(", "\\)", `''`, "a)b"} {
					many := append([]string{"z"}, strings.Split(strings.TrimSuffix(strings.Repeat(c+"\x00", k), "\x00"), "\x00")...)
					for _, ws := range [][]string{many, append(many[1:], "z"), {"x" + strings.Repeat("y", k) + "z", c, "z"}, {"(" + strings.Repeat("(", k), "a" + strings.Repeat(")", k) + "b"}} {
						if !y(condCase{ws, " (", ")", " ", frames[0]}) || !y(condCase{ws, " ( ", " ) ", "\n", frames[0]}) {
							return
						}
					}
				}
			}
		}, condOne)
		text := func(n int, a ...string) func(func(string) bool) { return stringsOver(a, 0, n) }
		Explore(x, fmt.Sprintf("all texts up to %d characters after if", m), withOpts(lexStrings(text(m, "(", ")", "a", " ", `"`, "{", ";"), "if%s {x;}y;", "http{server{if%s{}}}"), 0), parseOne)
		Explore(x, fmt.Sprintf("all texts up to %d characters after if (second alphabet)", m-1), withOpts(lexStrings(text(m-1, "(", ")", "b", "\n", "'", `\`, "#", "$", "}"), "http{server{if%s{}}}"), oComments, oSkipArgs, oStop), parseOne)
		Explore(x, fmt.Sprintf("all texts up to %d characters after if, built and parsed again", m-1), withOpts(lexStrings(text(m-1, "(", ")", "a", " ", `"`, `\`, "'", "}"), "if%s {x;}", "if (%s) {}"), oSkipCtx), roundTrip)
		Explore(x, "names that are like if", withOpts(lexStrings(listOf("", " (a)", " ( a )", "(a)", " a", " ()"), `"if"%s {}`, "IF%s {}", "iff%s {}", `i\f%s {}`, "http { server { location / { if%s; } } }", "map a b { if%s; }", "http { map a b { if%s; 'if' (x); } }", "http { types { if%s; } }", "x { if%s { } }", "limit_except%s { }"), 0, oUnknown, oSkipCtx|oSkipArgs), parseOne)
	}, "A condition that is blank, or whose last word ends in a blank within quotes, is not covered.")
}
