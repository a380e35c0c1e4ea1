package main

import (
	"fmt"
	"path/filepath"
	"slices"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// statements and pieces of statements, right and wrong, for error accounting and recovery
var errTokens = []string{
	"http {", "server {", "}", "listen 80;", "listen;", "user x;", "foo;", "foo {", "events {", "listen 80", "daemon maybe;", "map a b {", "x y;", "return 1", ";", `"open`,
}

var errTokens2 = []string{
	"http {", "}", "include nope;", "include f;", "x {", "x", "\n", "user;", "types {", "location / {", "if x {", "#c\n", "{",
}

// multiCase is a parse of several files.
type multiCase struct {
	Files memFS
	Opt   int
}

func (c multiCase) String() string {
	s := "options " + optName(c.Opt)
	for _, f := range sortedKeys(c.Files) {
		s += fmt.Sprintf(" %s=%q", f, c.Files[f])
	}
	return s
}

func sortedKeys(m memFS) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

// parseMulti compares the payloads, and checks the callback against the payload.
func parseMulti(w *W, c multiCase) error {
	o := options(c.Opt)
	want, got, wp, gp := parseBoth(c.Files, "/d/main", o, nil)
	w.State(want)
	n := 1
	for _, s := range c.Files {
		n += strings.Count(s, " ") + 1
	}
	w.Steps(n)
	switch {
	case wp == nil:
		w.Outcome("error")
	default:
		w.Outcome(fmt.Sprintf("%d files, %d errors", len(wp.Configs), len(wp.Errs)))
	}
	if err := differ("payloads differ", want, got); err != nil {
		return err
	}
	if wp == nil || len(wp.Errs) == 0 {
		return nil
	}
	// again, with a callback
	var seen []error
	o.Open, o.Glob = c.Files.open, c.Files.globText
	o.ErrorCallback = func(e error) interface{} {
		seen = append(seen, e)
		if len(seen)%3 == 0 {
			return nil
		}
		return fmt.Sprintf("cb%d", len(seen)-1)
	}
	cp, err := crossplane.Parse("/d/main", &o)
	if err != nil {
		return fmt.Errorf("with a callback, Parse fails: %v", err)
	}
	if err := differ("the callback changes the payload", want, dumpPayload(cp)); err != nil {
		return err
	}
	if len(seen) != len(cp.Errors) {
		return fmt.Errorf("%d errors but %d callbacks", len(cp.Errors), len(seen))
	}
	for i, e := range cp.Errors {
		if dumpErr(e.Error) != dumpErr(seen[i]) {
			return fmt.Errorf("callback %d got %v, the payload has %v", i, seen[i], e.Error)
		}
		var want interface{}
		if (i+1)%3 != 0 {
			want = fmt.Sprintf("cb%d", i)
		}
		if e.Callback != want {
			return fmt.Errorf("error %d has callback result %v, want %v", i, e.Callback, want)
		}
		if gp.Errors[i].Callback != nil {
			return fmt.Errorf("error %d has callback result %v without a callback", i, gp.Errors[i].Callback)
		}
	}
	return nil
}

func single(g func(func(string) bool), opts ...int) func(func(multiCase) bool) {
	return func(yield func(multiCase) bool) {
		g(func(s string) bool {
			for _, o := range opts {
				if !yield(multiCase{memFS{"/d/main": s, "/d/f": "user a;"}, o}) {
					return false
				}
			}
			return true
		})
	}
}

// mainAndInclude yields pairs of a main file that includes f somewhere, and f.
func mainAndInclude(alphabet []string, nm, nf int, opts ...int) func(func(multiCase) bool) {
	frames := []string{"include f; %s", "%s include f; foo;", "http { server { include f; %s } user; }", "http { include f; include f; } %s", "user; include /d/*; %s"}
	return func(yield func(multiCase) bool) {
		seqs(alphabet, 0, nf, func(fs []string) bool {
			f := joinToks(fs)
			return seqs(alphabet, 0, nm, func(ms []string) bool {
				m := joinToks(ms)
				for _, fr := range frames {
					if strings.Contains(fr, "/d/*") {
						fr = strings.Replace(fr, "/d/*", "/d/[f]", 1)
					}
					for _, o := range opts {
						if !yield(multiCase{memFS{"/d/main": strings.Replace(fr, "%s", m, 1), "/d/f": f}, o}) {
							return false
						}
					}
				}
				return true
			})
		})
	}
}

var wrongForms = []string{"user;\n% %;\n\"%\" '%' {a b; user;}\n'%'; user", "http { listen %;\nlisten '%';\nserver { if % {} if '%' {} daemon %; gzip '%'; } }\nuser;", "map x y { % ; '%'; \"%\" a; % b c; }\nuser;", "a { '%' \"%\" } % } user;"}

var wrongNames = []string{"%\nuser;", "% }\nuser;\n%;\n%", "x { % user; } http { % a; } }\nuser; %", "% a b c d e f g;\n% {\nuser; } {} a;", "http { server { % on; % maybe; % a; % {} } % a { user; } % }"}

// alikeFiles yields files that are included together, whose names differ in the directory, the case, or the end, with up to n statements each.
func alikeFiles(n int, opts ...int) func(func(multiCase) bool) {
	pairs := [][2]string{{"f", "s/f"}, {"s/f", "f"}, {"s/f", "t/f"}, {"f", "F"}, {"f", "f.conf"}, {"f.conf", "f"}, {"f", "/f"}, {"f", "f~"}, {"f", ".f"}, {"f", "/e/f"}, {"s/main", "main.conf"}}
	return func(yield func(multiCase) bool) {
		var bodies []string
		seqs([]string{"user;", "a;\n", "listen;\n", "foo {}", "http", "}"}, 0, n, func(s []string) bool { bodies = append(bodies, joinToks(s)); return true })
		for _, p := range pairs {
			for _, main := range []string{"include %;\ninclude &;\nuser;", "http { include %; server { include &; } }", "include %;\nx { include &; include %; }"} {
				main = strings.NewReplacer("%", p[0], "&", p[1]).Replace(main)
				for i, b := range bodies {
					for j, c := range bodies {
						if i != j && len(p[0]) == len(p[1]) && (i+j)%3 != 0 && n > 2 {
							continue
						}
						m := memFS{"/d/main": main}
						m[filepath.Join("/d", p[0])], m[filepath.Join("/d", p[1])] = b, c
						if p[1][0] == '/' {
							delete(m, filepath.Join("/d", p[1]))
							m[p[1]] = c
						}
						for _, o := range append([]int{0}, opts...) {
							if !yield(multiCase{m, o}) {
								return
							}
						}
					}
				}
			}
		}
	}
}

func init() {
	register("C08", func(x *X) {
		crossplane.SetTokenChanCap(64)
		n, n2, nm, nf := 5, 5, 0, 3
		if x.thorough {
			n, n2, nm, nf = 6, 6, 2, 4
		}
		Explore(x, fmt.Sprintf("all sequences of up to %d right and wrong statements", n), single(tokSeqs(errTokens, 0, n), 0), parseMulti)
		Explore(x, fmt.Sprintf("the same up to %d, unknown directives are errors, comments kept", n-1), single(tokSeqs(errTokens, 0, n-1), oUnknown|oComments, oCombine|oIgnore), parseMulti)
		Explore(x, fmt.Sprintf("all sequences of up to %d (second alphabet)", n2), single(tokSeqs(errTokens2, 0, n2), 0), parseMulti)
		Explore(x, "two files with errors in either", mainAndInclude(errTokens, nm, nf, 0), parseMulti)
		Explore(x, "two files with errors in either, combined", mainAndInclude(errTokens, 1, nf-1, oCombine), parseMulti)
		Explore(x, "deviations of realistic configurations", func(y func(multiCase) bool) {
			single(deviations(x, allConfigs, []string{"", ";", "{", "}", " ", "\n", `"`}), 0, oUnknown)(y)
		}, parseMulti)
		Explore(x, "bad include patterns", single(tokSeqs([]string{"http {", "}", "include [;", "include [", "include nope;", "a;", "x {", "user;"}, 0, n), 0, oUnknown, oSingle, oCombine), parseMulti)
		Explore(x, "deep and wide files", single(deepNesting, oUnknown), parseMulti)
		Explore(x, "many errors, and errors after many statements", single(manyErrors, 0, oUnknown|oComments), parseMulti)
		Explore(x, fmt.Sprintf("every character up to %#x, everywhere", lastRune(x)), single(allRunes(lastRune(x), []string{"a b;\nuser %;\nuser;\n%", "http { server { listen %; % %a; user a%; } }", "types { %; % a { b; } } user {%"}), oUnknown), parseMulti)
		Explore(x, "values as people write them, in right and wrong statements", single(inTexts(slices.Values(realValues), wrongForms...), 0, oUnknown|oComments, oSkipCtx, oCombine|oSkipArgs), parseMulti)
		Explore(x, "every directive name, in right and wrong statements", single(inNames(append(wrongNames, blockForms...)...), 0, oUnknown|oComments, oSkipCtx, oCombine|oSkipArgs), parseMulti)
		Explore(x, "files whose names are alike, with errors", alikeFiles(nm/2+2), parseMulti)
	})

	register("C09", func(x *X) {
		crossplane.SetTokenChanCap(64)
		n, nm, nf := 5, 1, 2
		if x.thorough {
			n, nm, nf = 6, 1, 4
		}
		Explore(x, fmt.Sprintf("all sequences of up to %d right and wrong statements", n-1), single(tokSeqs(errTokens, 0, n-1), 0, oUnknown, oSkipCtx, oSkipArgs, oSkipCtx|oUnknown, oSingle, oIgnore, oComments), stopBoth)
		Explore(x, fmt.Sprintf("all sequences of up to %d right and wrong statements, default options", n), single(tokSeqs(errTokens, 0, n), 0), stopBoth)
		Explore(x, fmt.Sprintf("all sequences of up to %d (second alphabet)", n), single(tokSeqs(errTokens2, 0, n), 0), stopBoth)
		Explore(x, "two files with errors in either", mainAndInclude(errTokens, nm, nf, 0, oCombine|oUnknown), stopBoth)
		Explore(x, "bad include patterns", single(tokSeqs([]string{"http {", "}", "include [;", "include [", "include nope;", "a;", "x {", "user;"}, 0, n), 0), stopBoth)
		Explore(x, "include graphs", includeGraphs(1, 1, 1, 0), stopBoth)
		Explore(x, "many errors, and errors after many statements", single(manyErrors, 0, oUnknown|oComments), stopBoth)
		Explore(x, "values as people write them, in right and wrong statements", single(inTexts(slices.Values(realValues), wrongForms...), 0, oUnknown|oComments, oSkipCtx, oCombine|oSkipArgs), stopBoth)
		Explore(x, "every directive name, in right and wrong statements", single(inNames(wrongNames...), 0, oUnknown|oComments, oSkipCtx, oCombine|oSkipArgs), stopBoth)
		Explore(x, "files whose names are alike, with errors", alikeFiles(2, oCombine), stopBoth)
		Explore(x, "deviations of realistic configurations", single(deviations(x, allConfigs, []string{"", ";", "{", "}", " ", "\n", `"`}), 0), stopBoth)
	}, "When the include graph has a cycle both modes fail; the first statement error, if there is one, comes first when stopping.")
}

// manyErrors yields files with many errors, and with an error among many statements, lines, levels and arguments.
func manyErrors(yield func(string) bool) {
	rep := strings.Repeat
	for _, n := range sizes(140, 1100) {
		for _, s := range []string{
			rep("foo;\n", n) + "listen;", "http {" + rep("listen;\n", n) + "}", rep("user;", n), "a;" + rep("include nope;\n", n) + "b;", rep("http { listen; user }\n", n),
			rep("a;\n", n) + "http;\nb;\nuser a b c d;", rep("\n", n) + "http;\n" + rep("\n", n) + "user;", rep("a {", n) + "listen 1; http; " + rep("}", n) + "user;", rep("a {", n) + "user; " + rep("}", n+1) + "user;",
			"listen " + rep("x ", n) + "; user;", "http " + rep("x ", n) + "{ a; } user;", "user { " + rep("a { b; } ", n) + "} user;", "user { " + rep("a { ", n) + "c; " + rep("} ", n) + "} user;", "user { " + rep("a { ", n) + "c; " + rep("} ", n-1) + "} user;",
			"http { map a b { " + rep("x;\n", n) + "} user; }", "http { map a b { " + rep("x y;\n", n) + " z; y } user; }", "http { map a b { x " + rep("y ", n) + "; z } user; }", "http { map a b { x { " + rep("y {", n) + rep("}", n) + " } z; } user; }",
			"http { server { " + rep("if a { b; }\n", n) + "} user; }", rep("# c\n", n) + "user;", "user" + rep(" # c\n", n) + ";user;", "http { server { listen " + rep("# c\n", n) + "; user; } }", "user" + rep("\n", n) + "a" + rep("\n", n) + "b; user; 'x" + rep("\n", n),
			"http { server { " + rep("location / { ", n) + "user; " + rep("} ", n) + "user; }", "http;" + rep("a", n) + ";user " + rep("é", n) + " x;" + rep("a", n) + " {", `user "` + rep("a\n", n) + `" b; user;`, "user\n" + rep("a {\n", n),
		} {
			if !yield(s) {
				return
			}
		}
	}
}

// stopBoth compares the two modes with each other and with the model.
func stopBoth(w *W, c multiCase) error {
	w.Steps(2)
	want, got, wp, gp := parseBoth(c.Files, "/d/main", options(c.Opt), nil)
	if err := differ("collecting mode", want, got); err != nil {
		return err
	}
	swant, sgot, swp, sgp := parseBoth(c.Files, "/d/main", options(c.Opt|oStop), nil)
	w.State(swant)
	if err := differ("stopping mode", swant, sgot); err != nil {
		return err
	}
	_ = swp
	switch {
	case gp == nil: // not an error of a file: a cycle, or a file that can't be opened
		w.Outcome("hard error")
		if sgp != nil {
			return fmt.Errorf("collecting mode fails with %s, stopping mode does not", got)
		}
	case len(gp.Errors) > 0:
		w.Outcome("first error returned")
		first := "error " + dumpErr(gp.Errors[0].Error)
		if sgot != first {
			return differ("not the first error", first, sgot)
		}
	default:
		w.Outcome("same payload")
		if sgot != got {
			return differ("payloads of the two modes", got, sgot)
		}
	}
	_ = wp
	return nil
}
