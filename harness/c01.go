package main

import (
	"fmt"
	"strings"
	"unicode"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

var lexCore = []string{"a", " ", ";", "{", "}", "\n", `"`, "'", `\`, "#", "$"}
var lexWide = []string{"b", " ", ";", "{", "}", "\n", `"`, `\`, "#", "\r", "\u00a0", "é", "\xff", "\t", "(", "\x01", "🙂"}

var lexFragments = []string{
	"a", " ", "\n", ";", "{", "}", "# c\n", "#", `"q \" ' "`, `'s \' " '`, `"`, "${v}", "${v", "$", `\`, `\"`, "\r\n",
	`""`, "x#y", `a"b`, `\${`, "}}", " { ", "/*", "\\\n", "é\u00a0",
}

func lexCase(w *W, s string) error {
	want := refLex(s, nil)
	got := realLex(s)
	w.Steps(len(want))
	w.StateHash(toksHash(want))
	w.Outcome(lexClass(want))
	return diffToks(want, got)
}

var lexClasses = func() (names [1024]string) {
	parts := []string{"word", "quoted", "comment", "{", "}", ";", "!}", "!{", "!;", "!eof"}
	for i := range names {
		for j, p := range parts {
			if i&(1<<j) != 0 {
				names[i] += p + " "
			}
		}
	}
	return
}()

func lexClass(ts []tok) string {
	c := 0
	for _, t := range ts {
		switch {
		case t.Prem:
			c |= 512
		case t.E != "":
			c |= map[byte]int{'}': 64, '{': 128, ';': 256}[t.E[len(t.E)-2]]
		case t.Q:
			c |= 2
		case t.V == "{":
			c |= 8
		case t.V == "}":
			c |= 16
		case t.V == ";":
			c |= 32
		case t.V[0] == '#':
			c |= 4
		default:
			c |= 1
		}
	}
	return lexClasses[c]
}

func longLexInputs(yield func(string) bool) {
	rep := strings.Repeat
	// every small size, and around the sizes of the buffers the lexer uses: 2048 tokens, 4096 bytes, 64 KiB
	for _, n := range append(sizes(140, 9000), 2045, 2046, 2050, 65535, 65536, 65537, 70000) {
		for _, c := range []string{"a", "é", "🙂", `\"`, "$"} {
			for _, f := range []string{"%s", "%s;", "a %s;", `"%s"`, `a "%s";`, "# %s\na;", "a '%s'", "${%s}x;"} {
				if !yield(strings.ReplaceAll(f, "%s", rep(c, n))) {
					return
				}
			}
		}
		for _, s := range []string{"a;", "a b;\n", "a{", "a{}", "}", "\n", "#c\n", "a{\n#x\nb c;}\n", `"x\"y" 'z';`, "${v}; "} {
			for _, tail := range []string{"", "end", "}", "end \"q\n\" x;"} {
				if !yield(rep(s, n) + tail) {
					return
				}
			}
		}
		if n < 5000 {
			for k := -1; k <= 1; k++ {
				if !yield(rep("a {", n)+rep("}", n+k)) || !yield(rep(" ", n)+"é \"é\" "+rep("\n", n)+"é;") {
					return
				}
			}
		}
	}
	for n := 4080; n < 4100; n++ { // every alignment of multi-byte runes and line ends with the read buffer
		for _, s := range []string{"🙂🙂;", "é;é;", "\r\n\r\na;", "\\\r\n\"a\\\"b\";", "${v}\n;", "#🙂\n\n;"} {
			if !yield(rep("x", n)+s) || !yield(rep(" ", n)+s) || !yield("a "+rep("\n", n)+s) || !yield("\""+rep("\n", n)+s) {
				return
			}
		}
	}
}

func init() {
	register("C01", func(x *X) {
		crossplane.SetTokenChanCap(32)
		core, wide, frag := 6, 5, 4
		if x.thorough {
			core, wide, frag = 7, 6, 5
		}
		Explore(x, fmt.Sprintf("all strings over the core alphabet up to %d", core), stringsOver(lexCore, 0, core), lexCase)
		Explore(x, fmt.Sprintf("all strings over the wide alphabet up to %d", wide), stringsOver(lexWide, 0, wide), lexCase)
		Explore(x, fmt.Sprintf("all compositions of up to %d fragments", frag), stringsOver(lexFragments, 0, frag), lexCase)
		hi := rune(0xffff)
		if x.thorough {
			hi = unicode.MaxRune
		}
		Explore(x, fmt.Sprintf("every character up to %#x, everywhere", hi), allRunes(hi, []string{"%", "%a;", "a%b \n%", "a {%\nb\n%c;}", `'%'%;`, "#%\n%", "$%{%}", `\%a \%`}), lexCase)
		Explore(x, "values as people write them, with anything inserted or left out", inTexts(realishValues(false), "a % b;\nc;", "a '%' b \"%\" {\n", "#%\n a %;"), lexCase)
		Explore(x, "every three of the characters that are easily taken for others", stringsOver(oddChars, 0, 3), lexCase)
		crossplane.SetTokenChanCap(crossplane.TokenChanCap)
		Explore(x, "long inputs around buffer sizes", longLexInputs, lexCase)
		Explore(x, "inputs of megabytes", hugeInputs(x.thorough), lexCase)
		Explore(x, "realistic configurations and all their one-byte deviations", deviations(x, allConfigs, lexDeviants), lexCase)
	}, "The model is the grammar the library documents by its behaviour: ${ opens an expansion even after an escaped $, and a blank in an unclosed expansion belongs to the word.",
		"Strings longer than the bounds are covered only through fragments, long inputs and one-byte deviations.")
}

// oddChars are white space, or not, and look like something that means something to a lexer, or vanish.
var oddChars = []string{"a", " ", "\n", ";", "\ufeff", "\u200b", "\u200d", "\u00ad", "\u00a0", "\u2028", "\u0085", "\u3000", "\v", "\f", "\t", "\b", "\x00", "\x1a", "\x1b", "\x7f", "\u201c", "\u2018", "\uff1b", "\uff5b", "\uff03", "\u0301", "\u202e", "`", "\xef", "\xbb", "\xc2", "\r"}

var lexDeviants = []string{"", " ", ";", "{", "}", "\n", `"`, "'", `\`, "#", "$", "\r", "x", "\u00a0"}

// deviations yields each base and every base with one rune replaced by, or preceded by, a deviant.
func deviations(x *X, bases []string, deviants []string) func(func(string) bool) {
	return func(yield func(string) bool) {
		for _, b := range bases {
			if !yield(b) {
				return
			}
		}
		for _, b := range bases {
			for i, r := range b {
				n := len(string(r))
				for _, d := range deviants {
					if !yield(b[:i]+d+b[i+n:]) || d != "" && !yield(b[:i]+d+b[i:]) {
						return
					}
				}
			}
		}
	}
}
