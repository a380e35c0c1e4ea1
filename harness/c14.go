package main

import (
	"bytes"
	"fmt"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

type layout struct {
	Indent       int
	Tabs, Header bool
}

func (l layout) options() *crossplane.BuildOptions {
	return &crossplane.BuildOptions{Indent: l.Indent, Tabs: l.Tabs, Header: l.Header}
}

var layouts = []layout{{}, {1, false, false}, {0, true, false}, {3, true, true}, {8, false, true}}

func buildText(c crossplane.Config, l layout) (string, error) {
	var b bytes.Buffer
	err := crossplane.Build(&b, c, l.options())
	return b.String(), err
}

// roundTrip parses, builds and parses again.
func roundTrip(w *W, c parseCase) error {
	o := options(c.Opt)
	parse := func(src string) (*crossplane.Payload, error) {
		fs := memFS{"/m": src}
		o.Open = fs.open
		return crossplane.Parse("/m", &o)
	}
	p, err := parse(c.Src)
	if err != nil || p.Status != "ok" {
		w.Outcome("does not parse")
		return nil
	}
	if unbuildable(p.Config[0].Parsed) {
		w.Outcome("outside the domain")
		return nil
	}
	w.Outcome("parses")
	w.Steps(1)
	want := dumpDirsNoLines(mergeComments(p.Config[0].Parsed, 0))
	w.State(want)
	for _, l := range layouts {
		text, err := buildText(p.Config[0], l)
		if err != nil {
			return err
		}
		q, err := parse(text)
		if err != nil || q.Status != "ok" {
			return fmt.Errorf("built with %+v as %q, which does not parse: %v %s", l, text, err, dumpPayload(q))
		}
		again := q.Config[0]
		if l.Header && c.Opt&oComments != 0 {
			if len(again.Parsed) < 3 {
				return fmt.Errorf("no header in %q", text)
			}
			again.Parsed = again.Parsed[3:]
		}
		if got := dumpDirsNoLines(again.Parsed); got != want {
			return fmt.Errorf("built with %+v as %q: %w", l, text, differ("statements differ", want, got))
		}
		text2, err := buildText(again, l)
		if err != nil {
			return err
		}
		if c.Opt&oComments != 0 && text2 != text {
			// a comment next to the brace that closes a block moves to its own line, once
			r, err := parse(text2)
			if err != nil {
				return err
			}
			text = text2
			cfg := r.Config[0]
			if l.Header {
				cfg.Parsed = cfg.Parsed[3:]
			}
			if text2, err = buildText(cfg, l); err != nil {
				return err
			}
		}
		if text2 != text {
			return fmt.Errorf("built with %+v as %q and then as %q", l, text, text2)
		}
	}
	return nil
}

// mergeComments joins the comments that share a line, as the text that stands for them does: the
// second one is part of the first. It leaves the statements as they are.
func mergeComments(ds crossplane.Directives, line int) crossplane.Directives {
	var out crossplane.Directives
	for _, d := range ds {
		if d.IsComment() && d.Line == line && len(out) > 0 && out[len(out)-1].IsComment() {
			c := *out[len(out)-1]
			text := *c.Comment + " #" + *d.Comment
			c.Comment = &text
			out[len(out)-1] = &c
			continue
		}
		if !d.IsComment() || d.Line != line {
			line = d.Line
		}
		if len(d.Block) > 0 {
			c := *d
			c.Block = mergeComments(d.Block, d.Line)
			d = &c
		}
		out = append(out, d)
	}
	return out
}

// unbuildable reports whether there is a condition that no text of an if stands for.
func unbuildable(ds crossplane.Directives) bool {
	for _, d := range ds {
		if d.Directive == "if" && !d.IsMapBlockParameter && len(d.Args) > 0 {
			last := d.Args[len(d.Args)-1]
			if last != strings.TrimSpace(last) || len(strings.TrimSpace(strings.Join(d.Args, ""))) == 0 {
				return true
			}
		}
		if unbuildable(d.Block) {
			return true
		}
	}
	return false
}

func init() {
	register("C14", func(x *X) {
		crossplane.SetTokenChanCap(32)
		n, nt, ns, limit := 5, 5, 5, 4200
		if x.thorough {
			n, nt, ns, limit = 7, 6, 6, 13000
		}
		Explore(x, fmt.Sprintf("all texts up to %d characters", n), withOpts(stringsOver(lexCore, 0, n), oComments), roundTrip)
		Explore(x, fmt.Sprintf("all arguments up to %d characters", n), withOpts(lexStrings(stringsOver([]string{"a", " ", ";", "{", "}", "\n", `"`, "'", `\`, "#", "$"}, 1, n), "a %s ;"), oComments), roundTrip)
		Explore(x, fmt.Sprintf("all sequences of up to %d tokens", nt), withOpts(tokSeqs([]string{"a", `"b c"`, "if (x)", ";", "{", "}", "#c\n", "\n", `"{"`, `'"'`, `""`, "map a b {", "x y;"}, 0, nt), 0, oComments), roundTrip)
		Explore(x, fmt.Sprintf("all sequences of up to %d statements", ns), withOpts(tokSeqs([]string{"a;", `"b" '' "\"'";`, "#c\n", "\n", "x {", "}", "if (a = 'b') {", `"if" "(" ")";`, "http { map a b { if c; } }", "include f;", `"#d" ${e}\f;`}, 0, ns), oSingle|oComments, oSingle), roundTrip)
		Explore(x, "all configuration trees", withOpts(func(y func(string) bool) {
			trees(nt, []string{"a", `b "x y" ''`, "# c\nc #d\n1"}, []string{"e", `"f" "{"`, "location /"}, y)
		}, oComments), roundTrip)
		Explore(x, "deviations of realistic configurations", withOpts(deviations(x, realConfigs, lexDeviants), oSingle|oComments|oSkipCtx|oSkipArgs, oSingle|oUnknown), roundTrip)
		Explore(x, "deviations of many configurations", withOpts(deviations(x, corpus, corpusDeviants(x, lexDeviants, "", `"`, "\\", "#")), oSingle|oComments|oSkipCtx|oSkipArgs), roundTrip)
		Explore(x, fmt.Sprintf("every character up to %#x, everywhere", lastRune(x)), withOpts(allRunes(lastRune(x), []string{"#%\na; # c%\n", "#%c\na { b; #d%\n }", "a% %b c%c '%' '% ' '%;';", "map a b { %k %v; k% v% '%'; }", "if (a %) { x; } if (b%c) {}"}), oComments), roundTrip)
		Explore(x, "values as people write them, with anything inserted or left out", withOpts(inTexts(realishValues(false), "a % '%';", "if (a \"%\") { map a b { \"%\" %; } }", "#%\n \"%\" %;"), oComments), roundTrip)
		Explore(x, "every directive name", withOpts(inNames(blockForms...), oComments|oSkipCtx|oSkipArgs, oSkipCtx|oSkipArgs|oSingle), roundTrip)
		Explore(x, "deep and wide files", withOpts(func(y func(string) bool) {
			deepNesting(func(s string) bool { return len(s) > limit || y(s) })
		}, oComments), roundTrip)
	}, "A condition that is blank or ends in a blank inside quotes has no text that stands for it, and is left out.",
		"A comment next to the brace that closes a block moves to a line of its own once.",
		"Several comments among the arguments of one statement share its line and become one comment.")
}
