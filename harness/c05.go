package main

import (
	"fmt"
	"slices"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// Token alphabets for parse-level enumeration. Each fragment is followed by a blank, except the newline.
var treeTokens = []string{"a", "b", ";", "{", "}", "#c\n", "\n", `"{"`, `";"`, `'#x'`, `""`, "${v}"}

var structTokens = []string{"http", "server", "location", "events", "x", "/", ";", "{", "}"}

func joinToks(ts []string) string {
	var b []byte
	for i, t := range ts {
		if i > 0 && ts[i-1][len(ts[i-1])-1] != '\n' {
			b = append(b, ' ')
		}
		b = append(b, t...)
	}
	return string(b)
}

func tokSeqs(alphabet []string, lo, hi int, frames ...string) func(func(string) bool) {
	if len(frames) == 0 {
		frames = []string{"%s"}
	}
	return func(yield func(string) bool) {
		seqs(alphabet, lo, hi, func(ts []string) bool {
			s := joinToks(ts)
			for _, f := range frames {
				if !yield(strings.Replace(f, "%s", s, 1)) {
					return false
				}
			}
			return true
		})
	}
}

// trees yields the text of every forest of up to n statements, from the given heads.
func trees(n int, heads []string, blocks []string, yield func(string) bool) bool {
	// memo of forests by size
	memo := make([][]string, n+1)
	memo[0] = []string{""}
	for k := 1; k <= n; k++ {
		// first statement: simple (1), or block with j statements inside (1+j)
		for _, h := range heads {
			for _, r := range memo[k-1] {
				memo[k] = append(memo[k], h+";\n"+r)
			}
		}
		for _, h := range blocks {
			for j := 0; j < k; j++ {
				for _, in := range memo[j] {
					for _, r := range memo[k-1-j] {
						memo[k] = append(memo[k], h+" {\n"+in+"}\n"+r)
					}
				}
			}
		}
	}
	for k := 0; k <= n; k++ {
		for _, s := range memo[k] {
			if !yield(s) {
				return false
			}
		}
	}
	return true
}

type parseCase struct {
	Src string
	Opt int
}

func (c parseCase) String() string { return fmt.Sprintf("options %s: %q", optName(c.Opt), c.Src) }

const (
	oComments = 1 << iota
	oUnknown
	oSkipCtx
	oSkipArgs
	oSingle
	oIgnore
	oCombine
	oStop
)

func optName(o int) string {
	s := ""
	for i, n := range []string{"ParseComments", "ErrorOnUnknown", "SkipContext", "SkipArgs", "SingleFile", "Ignore", "Combine", "StopOnError"} {
		if o&(1<<i) != 0 {
			s += n + " "
		}
	}
	return "[" + strings.TrimSpace(s) + "]"
}

var ignoreList = []string{"b", "location", "include"}

func options(o int) crossplane.ParseOptions {
	p := crossplane.ParseOptions{
		ParseComments: o&oComments != 0, ErrorOnUnknownDirectives: o&oUnknown != 0,
		SkipDirectiveContextCheck: o&oSkipCtx != 0, SkipDirectiveArgsCheck: o&oSkipArgs != 0,
		SingleFile: o&oSingle != 0, CombineConfigs: o&oCombine != 0, StopParsingOnError: o&oStop != 0,
	}
	if o&oIgnore != 0 {
		p.IgnoreDirectives = ignoreList
	}
	return p
}

// parseOne compares one parse of one file with the model.
func parseOne(w *W, c parseCase) error {
	m := memFS{"/d/main": c.Src}
	want, got, wp, _ := parseBoth(m, "/d/main", options(c.Opt), nil)
	w.Steps(strings.Count(c.Src, " ") + 1)
	w.State(want)
	switch {
	case wp == nil:
		w.Outcome("error")
	case len(wp.Errs) == 0:
		w.Outcome("ok")
	default:
		w.Outcome(fmt.Sprintf("failed with %d errors", len(wp.Errs)))
	}
	return differ("payloads differ", want, got)
}

func withOpts(g func(func(string) bool), opts ...int) func(func(parseCase) bool) {
	return func(yield func(parseCase) bool) {
		g(func(s string) bool {
			for _, o := range opts {
				if !yield(parseCase{s, o}) {
					return false
				}
			}
			return true
		})
	}
}

// deepNesting yields blocks nested and repeated far beyond what enumeration reaches.
func deepNesting(yield func(string) bool) {
	rep := strings.Repeat
	for _, n := range append(sizes(140, 1100), 2047, 2048, 2049, 4097, 10001) {
		for _, s := range []string{
			rep("a {", n) + rep("}", n), rep("a b;\n", n), rep("a {}", n) + "z;", "a " + rep("x ", n) + ";", rep("a {\nb c;\n", n) + rep("d; }\n", n) + "z;",
			rep("# c\n", n) + "a;", "a " + rep("#c\n", n) + ";", "a " + rep(`"q" #c`+"\n", n) + "{ b; }", rep("\n", n) + "a;" + rep("\n", n) + "b;",
			"http { " + rep("server { location / { location /x { } } }", n) + " }", "http { server { " + rep("location / {", n) + "x y;" + rep("}", n) + " } }",
			"http { map a b { " + rep("x y;\n", n) + " } }", "a;" + rep("b { c; }", n) + "}" /* one too many */, rep("a { ", n) + "b;", "a " + rep("b\n", n),
		} {
			if !yield(s) {
				return
			}
		}
	}
}

func init() {
	register("C05", func(x *X) {
		crossplane.SetTokenChanCap(64)
		n, k, tn := 5, 6, 5
		if x.thorough {
			n, k, tn = 6, 8, 6
		}
		Explore(x, fmt.Sprintf("all token sequences up to %d (quoting alphabet)", n), withOpts(tokSeqs(treeTokens, 0, n), 0, oComments), parseOne)
		Explore(x, fmt.Sprintf("all token sequences up to %d (structure alphabet)", k), withOpts(tokSeqs(structTokens, 0, k), 0), parseOne)
		Explore(x, fmt.Sprintf("all configuration trees up to %d statements", tn), withOpts(func(y func(string) bool) {
			trees(tn, []string{"a", `b "x y" ''`, "# c\nc #d\n1"}, []string{"e", `"f" "{"`, "location /"}, y)
		}, 0, oComments), parseOne)
		Explore(x, "comments and line ends among the words of a statement, anywhere", withOpts(func(y func(string) bool) {
			between := []string{" ", " #1\n", " #2\n#3 \n", "\n", " '#4' ", " #\n"}
			for _, in := range []string{"%", "http { % }", "http { map a b { % } %", "types { % }", "http { server { location / { % } } }", "x { % }", "http { geo a { % y z; }"} {
				for _, s := range []string{"a&b&c&", "include&f&", "if&(a)&", "user&a&", "listen&", "server&", "if&(&a&)&", "ranges&", "include&f*&"} {
					n := strings.Count(s, "&")
					ok := seqs(between, n, n, func(bs []string) bool {
						i := -1
						var b strings.Builder
						for _, r := range s {
							if r == '&' {
								i++
								b.WriteString(bs[i])
							} else {
								b.WriteRune(r)
							}
						}
						for _, end := range []string{";", "{ x; #5\n}", "}"} {
							if !y(strings.ReplaceAll(in, "%", b.String()+end+" #6\n") + "\nlast;") {
								return false
							}
						}
						return true
					})
					if !ok {
						return
					}
				}
			}
		}, oComments, oComments|oCombine, 0, oComments|oIgnore|oSkipCtx|oSkipArgs), parseOne)
		Explore(x, "deep and wide files", withOpts(deepNesting, oComments), parseOne)
		Explore(x, "inputs of megabytes", withOpts(hugeInputs(x.thorough), 0, oComments), parseOne)
		Explore(x, fmt.Sprintf("every character up to %#x, everywhere", lastRune(x)), withOpts(allRunes(lastRune(x), []string{"% a;\n", "a% {\n#%\n%b c%; } d", "map a b { %k %v; k% v%; }", "a b;#%a%\n'%' \"%\"{}"}), oComments), parseOne)
		Explore(x, "values as people write them, anywhere", withOpts(inTexts(slices.Values(realValues), "% a;\n% { % b % c; % } % ;", "'%' a; \"%\" { b '%' \"%\"; '%' {}}", "a%b c; a '%%' {%;}", "map % '%' { % %; '%' \"%\"; } %;", "#%\na %#%\n;"), 0, oComments, oSkipCtx|oSkipArgs), parseOne)
		Explore(x, "every directive name", withOpts(inNames(blockForms...), 0, oComments|oSkipCtx, oSkipCtx|oSkipArgs), parseOne)
		Explore(x, "values as people write them, with anything inserted or left out", withOpts(inTexts(realishValues(false), "a % { % ; }\n%"), 0), parseOne)
		Explore(x, "deviations of realistic configurations", withOpts(deviations(x, allConfigs, []string{"", ";", "{", "}", " ", "\n", `"`, "#", "\\"}), oComments|oSkipCtx|oSkipArgs|oSingle), parseOne)
	}, "Statement lines are those of the first token; a comment among the arguments has the line of its statement.")
}
