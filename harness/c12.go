package main

import (
	"fmt"
	"io"
	"slices"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

var optTokens = []string{"a", ";", "{", "}", "#c\n", "b {", "include f;", "location / {", "map x y {", "http {", "listen 1;", "daemon x;", `"b"`}

var optFiles = memFS{"/d/f": "b c; #in f\nlocation /x { listen 1; }\na #d\n e;", "/d/g": "user x;\n"}

func withFiles(g func(func(string) bool), opts ...int) func(func(multiCase) bool) {
	return func(yield func(multiCase) bool) {
		g(func(s string) bool {
			fs := memFS{"/d/main": s}
			for k, v := range optFiles {
				fs[k] = v
			}
			for _, o := range opts {
				if !yield(multiCase{fs, o}) {
					return false
				}
			}
			return true
		})
	}
}

// parseOptions compares with the model, and compares the parse with and without each neutral option.
func parseOptions(w *W, c multiCase) error {
	want, got, wp, gp := parseBoth(c.Files, "/d/main", options(c.Opt), nil)
	w.State(want)
	w.Steps(1)
	if wp == nil {
		w.Outcome("error")
	} else {
		w.Outcome(fmt.Sprintf("%d files, %d errors", len(wp.Configs), len(wp.Errs)))
	}
	if err := differ("payloads differ", want, got); err != nil {
		return err
	}
	if gp == nil || c.Opt&oComments == 0 {
		return nil
	}
	// comments aside, the payload is that without them
	o := options(c.Opt &^ oComments)
	o.Open, o.Glob = c.Files.open, c.Files.globText
	plain, err := crossplane.Parse("/d/main", &o)
	if err != nil {
		return fmt.Errorf("fails without ParseComments: %v", err)
	}
	for i := range gp.Config {
		gp.Config[i].Parsed = dropComments(gp.Config[i].Parsed)
	}
	return differ("ParseComments changes more than comments", dumpPayload(plain), dumpPayload(gp))
}

func dropComments(ds crossplane.Directives) crossplane.Directives {
	out := crossplane.Directives{}
	for _, d := range ds {
		if d.IsComment() {
			continue
		}
		c := *d
		if c.Block != nil {
			c.Block = dropComments(c.Block)
		}
		out = append(out, &c)
	}
	return out
}

type ignoreCase struct {
	Src  string
	List []string
	Opt  int
}

// names that are alike without being the same
var similarNames = []struct{ src, name string }{
	{"ab", "ab"}, {"AB", "AB"}, {"aB", "aB"}, {"a", "a"}, {"b", "b"}, {"abc", "abc"}, {"aab", "aab"}, {"ba", "ba"}, {"a_b", "a_b"}, {"a-b", "a-b"}, {"a.b", "a.b"},
	{`"ab"`, "ab"}, {`" ab"`, " ab"}, {`"ab "`, "ab "}, {`"a b"`, "a b"}, {`""`, ""}, {`"'ab'"`, "'ab'"}, {"$ab", "$ab"}, {`\ab`, `\ab`}, {"áb", "áb"}, {"a*", "a*"}, {"*", "*"}, {"^ab$", "^ab$"}, {"[ab]", "[ab]"}, {"ab,a", "ab,a"},
	{"\u212a", "\u212a"}, {"k", "k"}, {"K", "K"}, // the Kelvin sign folds to k
}

func parseIgnore(w *W, c ignoreCase) error {
	fs := memFS{"/d/main": c.Src, "/d/f": optFiles["/d/f"]}
	o := options(c.Opt)
	o.IgnoreDirectives = c.List
	want, got, _, _ := parseBoth(fs, "/d/main", o, nil)
	w.Steps(1)
	w.State(want)
	return differ("payloads differ", want, got)
}

// hooks checks that each of Open and Glob, if given, is used every time, and the real ones otherwise.
type hookCase struct {
	Src        string
	Open, Glob bool
}

func parseHooks(w *W, c hookCase) error {
	w.Steps(1)
	fs := memFS{"/nonexistent/d/main": c.Src, "/nonexistent/d/f": "a;", "/nonexistent/d/g.x": "b;", "/dev/null": ""}
	o := crossplane.ParseOptions{}
	var opens, globs []string
	if c.Open {
		o.Open = func(p string) (io.ReadCloser, error) { opens = append(opens, p); return fs.open(p) }
	}
	if c.Glob {
		o.Glob = func(p string) ([]string, error) { globs = append(globs, p); return fs.globText(p) }
	}
	p, err := crossplane.Parse("/nonexistent/d/main", &o)
	w.Outcome(fmt.Sprintf("open %v glob %v", c.Open, c.Glob))
	if !c.Open {
		if err == nil {
			return fmt.Errorf("opened a file that does not exist: %s", dumpPayload(p))
		}
		return nil
	}
	var wantGlobs []string
	globText := func(p string) ([]string, error) { wantGlobs = append(wantGlobs, p); return fs.globText(p) }
	if !c.Glob {
		globText = func(string) ([]string, error) { return nil, nil } // the real one finds nothing there
	}
	wp, we := refParse("/nonexistent/d/main", &o, fs.openText, globText, nil)
	want, got := "", ""
	if we != nil {
		want = "error " + we.dump()
	} else {
		want = wp.dump()
	}
	if err != nil {
		got = "error " + dumpErr(err)
	} else {
		got = dumpPayload(p)
	}
	if err := differ("payloads differ", want, got); err != nil {
		return err
	}
	if c.Glob && strings.Join(globs, " ") != strings.Join(wantGlobs, " ") {
		return fmt.Errorf("Glob should be called for %q, was for %q", wantGlobs, globs)
	}
	return nil
}

func init() {
	register("C12", func(x *X) {
		crossplane.SetTokenChanCap(64)
		n, ni, nn := 4, 3, 6
		if x.thorough {
			n, ni, nn = 5, 4, 7
		}
		var all, neutral []int
		for o := 0; o < 256; o++ {
			if o&oStop == 0 {
				all = append(all, o)
			}
		}
		for _, o := range []int{oComments, oIgnore, oSingle, oComments | oIgnore, oComments | oIgnore | oSingle | oCombine} {
			neutral = append(neutral, o)
		}
		Explore(x, fmt.Sprintf("every combination of options, all sequences of up to %d", n-1), withFiles(tokSeqs(optTokens, 0, n-1), all...), parseOptions)
		Explore(x, fmt.Sprintf("comments, ignored directives and includes, all sequences of up to %d", n), withFiles(tokSeqs(optTokens, 0, n), neutral...), parseOptions)
		Explore(x, fmt.Sprintf("comments and ignored directives, all sequences of up to %d", nn), withFiles(tokSeqs([]string{"a", "b", ";", "{", "}", "#c\n", "location", "map {"}, 0, nn), oComments, oIgnore, oComments|oIgnore), parseOptions)
		Explore(x, "every set of ignored names", func(y func(ignoreCase) bool) {
			names := []string{"a", "include", "http", "if", "", "#", "map", "}"}
			tokSeqs([]string{"a", ";", "{", "}", "#c\n", "include f;", "http {", "if (x) {", "map a b {", `""`, `"#" x;`, `"}" y;`}, 0, ni)(func(s string) bool {
				for set := 1; set < 1<<len(names); set++ {
					var l []string
					for i, n := range names {
						if set&(1<<i) != 0 {
							l = append(l, n)
						}
					}
					if !y(ignoreCase{s, l, oComments}) {
						return false
					}
				}
				return true
			})
		}, parseIgnore)
		Explore(x, "every name against every ignored name", func(y func(ignoreCase) bool) {
			for _, n := range similarNames {
				for _, l := range similarNames {
					for _, end := range []string{";", " x;", "{}", " { a; }"} {
						if !y(ignoreCase{n.src + end + " z; http { " + n.src + end + "} z;", []string{l.name}, oComments}) ||
							!y(ignoreCase{n.src + end + " z;", []string{"x", l.name, "y"}, 0}) {
							return
						}
					}
				}
			}
		}, parseIgnore)
		Explore(x, "comments and names as people write them", withFiles(inTexts(slices.Values(realValues), "#%\na b; #%\n% {#%\nc #%\n; } '%' %;", "a #%\n{ location % { b; } #%\n} location '%';\n#%"), all...), parseOptions)
		Explore(x, "every directive name", withFiles(inNames("%;\n#%\n% { # c\n} % a # d\n;", "http { % a; server { % {} include f; } } % b {%;}", "x { % a { include f; } % 'a b' \"%\"; }"), all...), parseOptions)
		Explore(x, "every directive name, ignored", func(y func(ignoreCase) bool) {
			for _, v := range allNames() {
				for _, s := range []string{"%; a; % b; http { % {} server { % x; b; } % } }", "% { %; a; } b; % c { b; # d\n} a;"} {
					for _, l := range [][]string{{v}, {v, "a"}, {"b"}, {v + "x", v[1:], strings.ToUpper(v)}} {
						if !y(ignoreCase{strings.ReplaceAll(s, "%", v), l, oComments}) || !y(ignoreCase{strings.ReplaceAll(s, "%", v), l, oSkipCtx | oSkipArgs}) {
							return
						}
					}
				}
			}
		}, parseIgnore)
		Explore(x, "ignored names as people write them", func(y func(ignoreCase) bool) {
			for _, v := range realValues {
				if !y(ignoreCase{strings.ReplaceAll("'%' a; % b; \"%\" {'%' c;} http { '%'; % {} map a b { '%' c; % d; } } z '%';", "%", v), []string{v}, oComments}) {
					return
				}
			}
		}, parseIgnore)
		Explore(x, "many ignored names and statements", func(y func(ignoreCase) bool) {
			for _, n := range sizes(140, 1100) {
				var list []string
				for i := 0; i < n; i++ {
					list = append(list, fmt.Sprintf("n%d", i))
				}
				long := strings.Repeat("n", n)
				rep := func(s string) string { return strings.Repeat(s, n) }
				for _, pos := range []int{-1, 0, n / 2, n - 1} {
					l := append([]string(nil), list...)
					if pos >= 0 {
						l[pos] = "a"
					}
					for _, s := range []string{"a; b; a {b;} n0; x { a; b {a;} }", rep("a;\n") + "b;", rep("a {\n") + rep("}\n") + "b;", "x {" + rep("a { b; }\n") + "} b;", "a " + rep("b ") + "; c;", "a {" + rep("b { a; } ") + "}\nc;",
						rep("a; b;\n"), rep("x {\n") + "a; c;" + rep("}\n") + "b;", fmt.Sprintf("n%d; n%d; n%d { b; } b;", n-1, n, n/2), "a" + rep("#c\n") + "; b;", rep("#c\na;\n") + "b;", "b; " + rep("a {") + "c; " + rep("} ")} {
						if !y(ignoreCase{s, l, oComments}) {
							return
						}
					}
				}
				for _, s := range []string{long, long + "n", long[1:] + "x", long[:n-1]} {
					if s != "" && !y(ignoreCase{s + "; " + s + " {} b;", []string{"q", long}, 0}) {
						return
					}
				}
			}
		}, parseIgnore)
		Explore(x, "deviations of realistic configurations, all neutral options", withFiles(deviations(x, allConfigs, corpusDeviants(x, []string{"", ";", "}", "#", " "}, "", "#")), oComments|oSingle, oIgnore|oSingle, oComments|oIgnore|oSingle), parseOptions)
		Explore(x, "Open and Glob are used whenever they are given", func(y func(hookCase) bool) {
			tokSeqs([]string{"include f;", "include *.x;", "include /nonexistent/d/[fg]*;", "include /dev/null;", "include nope;", "http {", "}", "a;"}, 0, ni)(func(s string) bool {
				for i := 0; i < 4; i++ {
					if !y(hookCase{s, i&1 == 0, i&2 == 0}) {
						return false
					}
				}
				return true
			})
		}, parseHooks)
	}, "Ignoring applies to directives, not to the parameters of map-like blocks.")
}
