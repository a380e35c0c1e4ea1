package main

import (
	"fmt"
	"io"
	"maps"
	"os"
	"path/filepath"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

var includeItems = []string{
	"include a;", "include b;", "http { include a; }", "http { server { include b; } }", "include main;", "include nope;",
	"include *.x;", "include /d/a;", "http { server { include a; } include b; server { include c.x; } include a; }", "user u;", "listen 80;", "root /r;", "include [ab];",
	"http { location / { include a; } include sub/../b; }", "include a; include a;",
}

// includeGraphs yields every assignment of up to nm, na, nb items to the files main, a, b and fixed leaves c.x, d.x.
func includeGraphs(nm, na, nb int, opts ...int) func(func(multiCase) bool) {
	return func(yield func(multiCase) bool) {
		seqs(includeItems, 0, nm, func(ms []string) bool {
			m := strings.Join(ms, "\n")
			return seqs(includeItems, 0, na, func(as []string) bool {
				a := strings.Join(as, "\n")
				return seqs(includeItems, 0, nb, func(bs []string) bool {
					b := strings.Join(bs, "\n")
					for _, o := range opts {
						if !yield(multiCase{memFS{"/d/main": m, "/d/a": a, "/d/b": b, "/d/c.x": "listen 1; include d.x;", "/d/d.x": "root r;"}, o}) {
							return false
						}
					}
					return true
				})
			})
		})
	}
}

// pureGraphs yields every include graph of k files in which each file includes up to n of them, in every order.
func pureGraphs(k, n int, opts ...int) func(func(multiCase) bool) {
	names := []string{"main", "f1", "f2", "f3", "f4"}[:k]
	var bodies []string
	seqs(names, 0, n, func(ts []string) bool {
		s := ""
		for i, t := range ts {
			if i%2 == 1 {
				s += "x { include " + t + "; }\n"
			} else {
				s += "include " + t + ";\n"
			}
		}
		bodies = append(bodies, s+"y z;")
		return true
	})
	return func(yield func(multiCase) bool) {
		seqs(bodies, k, k, func(bs []string) bool {
			m := memFS{}
			for i, b := range bs {
				m["/d/"+names[i]] = b
			}
			for _, o := range opts {
				if !yield(multiCase{m, o}) {
					return false
				}
			}
			return true
		})
	}
}

// contextPairs yields main files in which a file is included in every two contexts, itself or by another file, after others or not.
func contextPairs(y func(multiCase) bool) {
	frames := append([]string{"%s", "http { location / { location /a { %s } } }", "http { server { location / { limit_except a { %s } } } }", "http { location / { %s } }", "stream { upstream u { %s } }", "events { %s }", "x { location / { %s } }", "x { y { z { %s } } }"}, contextFrames...)
	bodies := []string{"listen 80; server { root r; } user u; worker_connections 1;", "location / { deny all; } server a; set $a b;"}
	for _, f := range frames {
		for _, g := range frames {
			for _, forms := range [][2]string{{"include a;", "include a;"}, {"include b;", "include a;"}, {"include a;", "include b;"}, {"include c; include a;", "include [a-c];"}, {"include [ab];", "include b; include a;"}} {
				for i, b := range bodies {
					main := strings.Replace(f, "%s", forms[0], 1) + "\n" + strings.Replace(g, "%s", forms[1], 1)
					if !y(multiCase{memFS{"/d/main": main, "/d/a": b, "/d/b": "include a; " + bodies[1-i], "/d/c": "user u; include b;"}, i * oCombine}) {
						return
					}
				}
			}
		}
	}
}

// parseGraph is parseMulti, which also checks which files were opened and which patterns were expanded.
func parseGraph(w *W, c multiCase) error {
	if err := parseMulti(w, c); err != nil {
		return err
	}
	o := options(c.Opt)
	var opened, globs []string
	o.Open = func(p string) (io.ReadCloser, error) { opened = append(opened, p); return c.Files.open(p) }
	o.Glob = func(p string) ([]string, error) { globs = append(globs, p); return c.Files.globText(p) }
	p, err := crossplane.Parse("/d/main", &o)
	if err != nil {
		return nil
	}
	if o.CombineConfigs {
		return nil
	}
	count := map[string]int{}
	for _, f := range opened {
		count[f]++
	}
	for i, cfg := range p.Config {
		if count[cfg.File] == 0 {
			return fmt.Errorf("%s is in the payload but was not opened through Open", cfg.File)
		}
		for j := range p.Config[:i] {
			if p.Config[j].File == cfg.File {
				return fmt.Errorf("%s is in the payload twice", cfg.File)
			}
		}
	}
	for _, g := range globs {
		if !magic.MatchString(g) || !strings.HasPrefix(g, "/") {
			return fmt.Errorf("Glob was called for %q", g)
		}
	}
	return nil
}

type diskCase struct {
	Case multiCase
	Rel  bool
}

func (c diskCase) String() string { return fmt.Sprintf("relative=%v %s", c.Rel, c.Case) }

// parseDisk compares a parse through the real file system with the model.
func parseDisk(w *W, c diskCase) error {
	root, err := os.MkdirTemp("", "vhdisk")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(root)
	dir := filepath.Join(root, "d")
	_ = os.MkdirAll(filepath.Join(dir, "sub"), 0o755)
	m := memFS{}
	for f, s := range c.Case.Files {
		s = strings.ReplaceAll(s, "/d/", dir+"/")
		f = filepath.Join(dir, filepath.Base(f))
		if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
			return nil
		}
		m[f] = s
	}
	main := filepath.Join(dir, "main")
	o := options(c.Case.Opt)
	base := ""
	if c.Rel {
		cwd, err := os.Getwd()
		if err != nil {
			return nil
		}
		rel, err := filepath.Rel(cwd, main)
		if err != nil {
			return nil
		}
		main = rel
		base = cwd
	}
	abs := func(p string) string {
		if base != "" && !filepath.IsAbs(p) {
			return filepath.Join(base, p)
		}
		return p
	}
	open := func(p string) (string, error) {
		if s, ok := m[abs(p)]; ok {
			return s, nil
		}
		return "", fmt.Errorf("open %s: no such file or directory", p)
	}
	wp, we := refParse(main, &o, open, filepath.Glob, nil)
	want := ""
	if we != nil {
		want = "error " + we.dump()
	} else {
		want = wp.dump()
	}
	got := ""
	gp, err := crossplane.Parse(main, &o)
	if err != nil {
		got = "error " + dumpErr(err)
	} else {
		got = dumpPayload(gp)
	}
	w.Steps(len(m))
	clean := strings.ReplaceAll(strings.ReplaceAll(want, root, "R"), filepath.Dir(main), "D")
	w.State(clean)
	w.Outcome(fmt.Sprintf("relative=%v error=%v", c.Rel, we != nil))
	return differ("payloads differ", want, got)
}

func onDisk(g func(func(multiCase) bool)) func(func(diskCase) bool) {
	return func(yield func(diskCase) bool) {
		g(func(c multiCase) bool { return yield(diskCase{c, false}) && yield(diskCase{c, true}) })
	}
}

// sortedGlobs yields main files with globs over directories whose entries sort in surprising ways.
func sortedGlobs(yield func(multiCase) bool) {
	names := []string{"a", "A", "a.x", "a-x", "b", "10", "9", "é", "_"}
	seqs([]string{"*", "?", "[a-b]*", "a*", "*x", "[!a]", "nope*", "a", "?", "\\a", "[", "/d/s/*", "s/../s/*"}, 1, 2, func(ps []string) bool {
		main := ""
		for i, p := range ps {
			if !strings.HasPrefix(p, "/") && !strings.HasPrefix(p, "s/") {
				p = "s/" + p
			}
			if i == 1 {
				main += "http { include " + p + "; }\n"
			} else {
				main += "include " + p + ";\n"
			}
		}
		for sub := 0; sub < 1<<len(names); sub += 37 {
			m := memFS{"/d/main": main}
			for i, n := range names {
				if sub&(1<<i) != 0 {
					m["/d/s/"+n] = "user " + n + ";"
				}
			}
			if !yield(multiCase{m, 0}) {
				return false
			}
		}
		return true
	})
}

// A nameCase is a main file, somewhere, that includes files by names of every kind. Every file exists but those whose base starts with n.
type nameCase struct {
	Main  string
	Names []string // as they are written
	Opt   int
}

func (c nameCase) String() string {
	return fmt.Sprintf("%q includes %q, options %s", c.Main, c.Names, optName(c.Opt))
}

var nameFiles = []string{"", "a", "b", "ab", " a", "a ", "a b", "*", "a*", `a\`, `\a`, "[a]", "?", ".a", "..a", "é", "a.b", "s/a", "s/b", "s/ab", "~", "$a", "A", "a,b", "{a,b}", "a\tb", "-a", "#a", "%61", "a:b"}

func nameOne(w *W, c nameCase) error {
	text := ""
	for _, n := range c.Names {
		text += `include "` + n + "\";\n"
	}
	text += "user u;"
	openText := func(log map[string]int) func(string) (string, error) {
		return func(p string) (string, error) {
			log["open "+p]++
			if strings.HasPrefix(filepath.Base(p), "n") {
				return "", fmt.Errorf("no %s", p)
			}
			if p == c.Main {
				return text, nil
			}
			return "user x;", nil
		}
	}
	glob := func(log map[string]int) func(string) ([]string, error) {
		return func(p string) ([]string, error) {
			log["glob "+p]++
			if _, err := filepath.Match(p, ""); err != nil {
				return nil, fmt.Errorf("bad %s", p)
			}
			var out []string
			for _, dir := range []string{filepath.Dir(c.Main), "/", "/d"} {
				for _, f := range nameFiles {
					if f = filepath.Join(dir, f); magic.MatchString(p) {
						if ok, _ := filepath.Match(p, f); ok {
							out = append([]string{f}, out...)
						}
					}
				}
			}
			return out, nil
		}
	}
	o := options(c.Opt)
	asked, called := map[string]int{}, map[string]int{}
	wp, we := refParse(c.Main, &o, openText(asked), glob(asked), nil)
	open := openText(called)
	o.Open = func(p string) (io.ReadCloser, error) {
		s, err := open(p)
		if err != nil {
			return nil, err
		}
		return io.NopCloser(strings.NewReader(s)), nil
	}
	o.Glob = glob(called)
	p, err := crossplane.Parse(c.Main, &o)
	want, got := "", ""
	if we != nil {
		want = "error " + we.dump()
	} else {
		want = wp.dump()
	}
	if err != nil {
		got = "error " + dumpErr(err)
	} else {
		got = dumpPayload(p)
	}
	w.Steps(len(called))
	w.State(want)
	w.Outcome(fmt.Sprintf("error %v, failures %v", we != nil, wp != nil && len(wp.Errs) > 0))
	if err := differ("payloads differ", want, got); err != nil {
		return err
	}
	for _, q := range []struct {
		what string
		a, b map[string]int
	}{{"is not done", asked, called}, {"is done, too", called, asked}} {
		for k := range q.a {
			if q.b[k] == 0 {
				return fmt.Errorf("%s %s", k, q.what)
			}
		}
	}
	return nil
}

// A matchesCase has a Glob that returns a fixed list, whatever the pattern.
type matchesCase struct {
	Main string
	List []string
	Opt  int
}

func (c matchesCase) String() string {
	return fmt.Sprintf("%q, matches %q, options %s", c.Main, c.List, optName(c.Opt))
}

func matchesOne(w *W, c matchesCase) error {
	fs := memFS{"/d/main": c.Main, "/d/a": "listen 1;", "/d/b": "b; include /d/a;", "b": "c {}", "/d/./a": "d;", "/e/a": "user;"}
	o := options(c.Opt)
	want := ""
	wp, we := refParse("/d/main", &o, fs.openText, func(string) ([]string, error) { return append([]string(nil), c.List...), nil }, nil)
	if we != nil {
		want = "error " + we.dump()
	} else {
		want = wp.dump()
	}
	list := append([]string(nil), c.List...)
	o.Open = fs.open
	o.Glob = func(string) ([]string, error) { return list, nil }
	got := ""
	if p, err := crossplane.Parse("/d/main", &o); err != nil {
		got = "error " + dumpErr(err)
	} else {
		got = dumpPayload(p)
	}
	w.Steps(len(c.List))
	w.State(want)
	w.Outcome(fmt.Sprintf("%d matches, error %v", len(c.List), we != nil))
	if err := differ("payloads differ", want, got); err != nil {
		return err
	}
	return differ("the matches of Glob are changed", fmt.Sprintf("%q", c.List), fmt.Sprintf("%q", list))
}

// manyIncludes yields many files, included one by one, by a pattern, twice, from one file each, and in a loop.
func manyIncludes(opts ...int) func(func(multiCase) bool) {
	return func(yield func(multiCase) bool) {
		rep := strings.Repeat
		for _, n := range sizes(140, 600) {
			name := func(i int) string { return fmt.Sprintf("f%d", i) }
			var each, back, nested, twice string
			for i := 0; i < n; i++ {
				each += "include " + name(i) + ";\n"
				back += "include " + name(n-1-i) + ";\n"
				nested += "x { include " + name(i) + "; }\n"
				twice += "include " + name(i) + "; include " + name(i/2) + ";\n"
			}
			for k, main := range []string{each, back, nested, twice, "include f*;", each + "include f*;", "http { include f*; } include f[0-9]*;", rep("include f0;\n", n), "a;" + rep("x {", n) + "include f0;" + rep("}", n) + "include f1;",
				rep("include f*;", 2) + rep("\n", n) + "include nope;", each + rep("include nope;\n", n), rep("x { y { include s/../f0; } }\n", n) + "include f0;", "include l0;", "include l0;" + back} {
				m := memFS{"/d/main": main}
				for i := 0; i < n; i++ {
					m["/d/"+name(i)] = fmt.Sprintf("a%d %d;", i, i)
				}
				if k >= 12 { // each of n files includes itself or not, the last one maybe the first
					for i := 0; i < n; i++ {
						m[fmt.Sprintf("/d/l%d", i)] = fmt.Sprintf("include l%d; include f%d;", (i+1)%(n+k-12), i)
					}
				} else if n%5 == 0 {
					m["/d/"+name(n-1)] += "include main;"
				} else if n%7 == 0 {
					m["/d/"+name(n/2)] += "} x"
				}
				m[fmt.Sprintf("/d/l%d", n)] = "b;"
				for _, o := range opts {
					if !yield(multiCase{m, o}) {
						return
					}
				}
			}
		}
	}
}

func thousandsOfIncludes(y func(multiCase) bool) {
	for _, n := range []int{1000, 1023, 1024, 1025, 2047, 2049, 4095, 4097, 5000, 10001} {
		m := memFS{}
		var each strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&each, "include f%d;\n", i)
			m[fmt.Sprintf("/d/f%d", i)] = fmt.Sprintf("a%d %d;", i, i)
		}
		for i, main := range []string{"x { include f*; }\ny;", each.String(), "include f0;" + strings.Repeat("\ninclude f1;", n), "include f*; include f*;"} {
			own := maps.Clone(m)
			own["/d/main"] = main
			if !y(multiCase{own, []int{0, oCombine, oComments, oStop}[(i+n)%4]}) {
				return
			}
		}
	}
}

func init() {
	register("C10", func(x *X) {
		crossplane.SetTokenChanCap(16)
		graphs := [][3]int{{2, 1, 1}, {1, 2, 1}, {1, 1, 2}, {3, 1, 0}}
		if x.thorough {
			graphs = append(graphs, [3]int{3, 1, 1}, [3]int{2, 2, 1}, [3]int{2, 1, 2}, [3]int{1, 2, 2})
		}
		for _, n := range graphs {
			Explore(x, fmt.Sprintf("include graphs with contexts, up to %d, %d and %d items", n[0], n[1], n[2]), includeGraphs(n[0], n[1], n[2], 0), parseGraph)
		}
		Explore(x, "all include graphs of 4 files with up to 2 includes each", pureGraphs(4, 2, 0), parseGraph)
		Explore(x, "all include graphs of 3 files with up to 3 includes each", pureGraphs(3, 3, 0), parseGraph)
		if x.thorough {
			Explore(x, "all include graphs of 5 files with up to 2 includes each", pureGraphs(5, 2, 0), parseGraph)
		}
		Explore(x, "globs", sortedGlobs, parseGraph)
		mains := []string{"/d/main", "main", "./main", "../main", "d/main", "/main", "//d//main", "/d/../d/main", "d/", "", "/", ".", " d/main ", "/d e/m", "/é/m", "/d*/main", "/d[a/main", "nope", `/d\\/m`, "~/main", "C:/m"}
		chars := []string{"a", "b", " ", `\`, "*", "?", "[", "]", ".", "/", "~", "$", "é", ",", "{", "}", "\t", "-", "^", "#", "%", ":", "A", "'", `\"`, "\n", "n", "!"}
		nn := 3
		if x.thorough {
			nn = 4
		}
		Explore(x, fmt.Sprintf("every name of up to %d characters", nn), func(y func(nameCase) bool) {
			stringsOver(chars, 0, nn)(func(s string) bool { return y(nameCase{"/d/main", []string{s}, 0}) })
		}, nameOne)
		Explore(x, "names as people write them", func(y func(nameCase) bool) {
			for _, v := range realValues {
				for _, o := range []int{0, oSkipCtx | oCombine, oStop, oSingle} {
					if !y(nameCase{"/d/main", []string{v}, o}) || !y(nameCase{"/d/main", []string{"a", v, "s/" + v}, o}) || !y(nameCase{v, []string{"a", v}, o}) {
						return
					}
				}
			}
		}, nameOne)
		Explore(x, "every main file, every two names", func(y func(nameCase) bool) {
			names := []string{"a", "./a", "../a", "/a", "//a", "a/", "s/../a", "", " ", "/", ".", "..", "*", "s/*", "../*", "/*", "./*", "[a", "a*", "/d/a", "/d/*", "main", "./main", "/d/main", "nope", " a", "a ", `a\\`, `\\a`, `\\*`, "~/a", "$HOME/a", "${a}", "a b", "a,b", "{a,b}", "é", "%61", "file:///a", "http://a/b", "C:\\a", "a\n", "-", "--", "*.*", "**", "s/**/a", "A"}
			for _, m := range mains {
				for _, o := range []int{0, oSkipCtx | oCombine, oStop, oSingle} {
					if !seqs(names, 1, 2, func(ns []string) bool { return y(nameCase{m, append([]string{}, ns...), o}) }) {
						return
					}
				}
			}
		}, nameOne)
		Explore(x, "a file that is included in every two contexts", contextPairs, parseGraph)
		Explore(x, "files whose names are alike", alikeFiles(2, oCombine, oStop), parseGraph)
		Explore(x, "every list of up to 4 matches", func(y func(matchesCase) bool) {
			for _, m := range []string{"include *;", "http { include *; } include ?;", "include /d/b; x { include *; } include a;"} {
				for _, o := range []int{0, oCombine, oStop, oComments | oSkipCtx} {
					if !seqs([]string{"/d/a", "/d/b", "b", "/d/nope", "", "/d/main", "/d/./a", "/e/a"}, 0, 4, func(s []string) bool { return y(matchesCase{m, append([]string(nil), s...), o}) }) {
						return
					}
				}
			}
		}, matchesOne)
		Explore(x, "includes in blocks of every name", func(y func(multiCase) bool) {
			inNames("% { include a; } include a;", "include a; include b; % x { include a; include b; }", "http { % { include a; } server { % y { include b; } include a; } location / { % { include c.x; } include c.x; } }", "% { % { include a; } } % include b;")(func(s string) bool {
				for _, o := range []int{0, oSkipCtx | oSkipArgs} {
					if !y(multiCase{memFS{"/d/main": s, "/d/a": "listen 80;\nuser u;\nserver { include b; }", "/d/b": "root r; location / { listen 1; }", "/d/c.x": "listen 1; root r;"}, o}) {
						return false
					}
				}
				return true
			})
		}, parseGraph)
		Explore(x, "single file", includeGraphs(2, 1, 0, oSingle, oSingle|oCombine), parseGraph)
		Explore(x, "chains of includes", func(y func(multiCase) bool) {
			for _, n := range sizes(140, 600) {
				for _, loop := range []int{-1, 0, n / 2, n} {
					m := memFS{"/d/main": "include f0;"}
					for i := 0; i <= n; i++ {
						m[fmt.Sprintf("/d/f%d", i)] = fmt.Sprintf("x { include f%d; include f%d; }", i+1, i+1)
					}
					last := "y z;"
					if loop >= 0 {
						last += fmt.Sprintf("include f%d;", loop)
					}
					m[fmt.Sprintf("/d/f%d", n)] = last
					if !y(multiCase{m, 0}) {
						return
					}
				}
			}
		}, parseGraph)
		Explore(x, "many includes", manyIncludes(0, oCombine, oComments|oStop), parseGraph)
		Explore(x, "thousands of includes", thousandsOfIncludes, parseGraph)
		Explore(x, fmt.Sprintf("real files, every history of up to %d edits and parses", nn+1), diskHistories(nn+1, 0, oCombine), parseHistory)
		Explore(x, "real file system", onDisk(includeGraphs(1, 1, 1, 0)), parseDisk)
	}, "A file reached by several includes is parsed once, in the context of the include that first reached it (the library documents this limit).",
		"Files are identified by path as written and resolved, not by inode.")
}
