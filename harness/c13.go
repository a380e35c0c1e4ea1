package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"sync"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// faultFS serves files and can fail at any operation. Operations have names that do not depend on timing.
// maxOpen is how many files a parse may have open at once, however many it reads.
const maxOpen = 8

type faultFS struct {
	live, most int // files that are open, and were at once
	mu         sync.Mutex
	files      memFS
	faults     map[string]bool
	points     []string
	count      map[string]int
	open       []*faultFile
	bad        []string
}

func newFaultFS(files memFS, faults ...string) *faultFS {
	f := &faultFS{files: files, faults: map[string]bool{}, count: map[string]int{}}
	for _, s := range faults {
		f.faults[s] = true
	}
	return f
}

func (f *faultFS) point(what string) error {
	n := f.count[what]
	f.count[what]++
	p := fmt.Sprintf("%s#%d", what, n)
	f.points = append(f.points, p)
	if f.faults[p] {
		return fmt.Errorf("fault at %s", p)
	}
	return nil
}

type faultFile struct {
	fs     *faultFS
	id     string
	rest   string
	closed int
	busy   bool
}

func (f *faultFS) Open(path string) (io.ReadCloser, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	n := f.count["open "+path]
	if err := f.point("open " + path); err != nil {
		return nil, err
	}
	s, err := f.files.openText(path)
	if err != nil {
		return nil, err
	}
	ff := &faultFile{fs: f, id: fmt.Sprintf("%s/%d", path, n), rest: s}
	f.open = append(f.open, ff)
	if f.live++; f.live > f.most {
		f.most = f.live
	}
	return ff, nil
}

func (f *faultFS) Glob(p string) ([]string, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if err := f.point("glob " + p); err != nil {
		return nil, err
	}
	return f.files.globText(p)
}

func (f *faultFile) Read(p []byte) (int, error) {
	f.fs.mu.Lock()
	defer f.fs.mu.Unlock()
	if f.closed > 0 {
		f.fs.bad = append(f.fs.bad, "read after close of "+f.id)
	}
	if err := f.fs.point("read " + f.id); err != nil {
		return 0, err
	}
	if f.rest == "" {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), 5)], f.rest)
	f.rest = f.rest[n:]
	return n, nil
}

func (f *faultFile) Close() error {
	f.fs.mu.Lock()
	defer f.fs.mu.Unlock()
	f.closed++
	f.fs.live--
	return f.fs.point("close " + f.id)
}

// verdict is what is wrong after everything has ended.
func (f *faultFS) verdict() error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if len(f.bad) > 0 {
		return errors.New(f.bad[0])
	}
	if f.most > maxOpen {
		return fmt.Errorf("%d files are open at once", f.most)
	}
	for _, ff := range f.open {
		if ff.closed != 1 {
			return fmt.Errorf("%s was closed %d times", ff.id, ff.closed)
		}
	}
	return nil
}

// faultRun parses, and combines and builds what comes out, with the given faults.
func faultRun(c multiCase, faults ...string) (points []string, err error) {
	fs := newFaultFS(c.Files, faults...)
	err = bubble(func() error {
		o := options(c.Opt)
		o.Open, o.Glob = fs.Open, fs.Glob
		o.ErrorCallback = func(error) interface{} { return nil }
		o.LexOptions = luaLexOptions()
		p, err := crossplane.Parse("/d/main", &o)
		if (err == nil) == (p == nil) {
			return fmt.Errorf("Parse returns payload %v and error %v", p, err)
		}
		if v := fs.verdict(); v != nil {
			return v
		}
		if p == nil {
			return nil
		}
		for _, cfg := range p.Config {
			if err := crossplane.Build(io.Discard, cfg, &crossplane.BuildOptions{}); err != nil {
				return err
			}
		}
		if _, err := p.Combined(); err != nil {
			return fmt.Errorf("Combined of what Parse returned fails: %v", err)
		}
		return nil
	})
	if err == nil {
		err = fs.verdict() // what was left running may have done something
	}
	sort.Strings(fs.points)
	return fs.points, err
}

// everyFault runs the case without faults, with every single one and, if deep, with every pair.
func everyFault(deep bool) func(w *W, c multiCase) error {
	return func(w *W, c multiCase) error {
		points, err := faultRun(c)
		if err != nil {
			return err
		}
		w.Steps(len(points))
		w.State(strings.Join(points, ","))
		w.Outcome("no fault")
		for _, p := range points {
			second, err := faultRun(c, p)
			if err != nil {
				return fmt.Errorf("with a fault at %s: %w", p, err)
			}
			w.Steps(len(second))
			w.outcomes["one fault"]++
			if !deep {
				continue
			}
			for _, q := range second {
				if q > p {
					if _, err := faultRun(c, p, q); err != nil {
						return fmt.Errorf("with faults at %s and %s: %w", p, q, err)
					}
					w.outcomes["two faults"]++
				}
			}
		}
		return nil
	}
}

func noFault(w *W, c multiCase) error {
	_, err := faultRun(c)
	w.Steps(1)
	return err
}

// onDiskCase is a parse of real files: the main file, and the one it may include, end in Tail more statements.
type onDiskCase struct {
	Main, Inc string
	Tail      int
	Opt       int
}

func onDiskCases(yield func(onDiskCase) bool) {
	texts := []string{"", "a;", "a { b }", "a }", "a b", "a {", "http { b; }; ;", "user;", "user; user", "include inc;", "include i*;", "include inc; user;", "include nope; include inc; a { b }", "include main;", "include *;", "include d;", "include d*; a;", "include [; include inc;", "http { include inc; server { include inc; } } }", "content_by_lua_block { }", "content_by_lua_block x", "map a b { c }"}
	for _, m := range texts {
		for i, inc := range texts {
			if i > 0 && !strings.Contains(m, "include") {
				break
			}
			for _, tail := range []int{0, 1, 40, 1000, 15000} {
				for _, o := range []int{0, oStop, oCombine, oStop | oCombine, oSingle | oStop, oUnknown | oStop, oComments | oSkipCtx | oSkipArgs} {
					if tail == 15000 && o != oStop && o != 0 {
						continue
					}
					if !yield(onDiskCase{m, inc, tail, o}) {
						return
					}
				}
			}
		}
	}
}

func onDiskLeaves(w *W, c onDiskCase) error {
	root, err := os.MkdirTemp("", "vhleaves")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(root)
	tail := strings.Repeat("\nx y;", c.Tail)
	_ = os.Mkdir(root+"/d", 0o755)
	if os.WriteFile(root+"/main", []byte(c.Main+tail), 0o600) != nil || os.WriteFile(root+"/inc", []byte(c.Inc+tail), 0o600) != nil {
		return nil
	}
	w.Steps(1)
	return bubble(func() error {
		o := options(c.Opt)
		o.LexOptions = luaLexOptions()
		p, err := crossplane.Parse(root+"/main", &o)
		if (err == nil) == (p == nil) {
			return fmt.Errorf("Parse returns payload %v and error %v", p, err)
		}
		w.Outcome(fmt.Sprintf("payload: %t", p != nil))
		fds, _ := os.ReadDir("/proc/self/fd")
		for _, fd := range fds {
			if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(to, root+"/") {
				return fmt.Errorf("%s is left open", strings.TrimPrefix(to, root+"/"))
			}
		}
		return nil
	})
}

func lexLeaves(w *W, s string) error {
	w.Steps(1)
	return bubble(func() error {
		for range crossplane.Lex(strings.NewReader(s)) { //nolint:revive
		}
		for range crossplane.LexWithOptions(strings.NewReader(s), luaLexOptions()) { //nolint:revive
		}
		return nil
	})
}

// ---- payloads made by hand ----

type handCase struct {
	P *crossplane.Payload
}

func (c handCase) String() string {
	s := ""
	for _, cfg := range c.P.Config {
		s += cfg.File + ": " + dumpDirs(cfg.Parsed) + " | "
	}
	return s
}

func dir(name string, args []string, includes []int, block crossplane.Directives) *crossplane.Directive {
	return &crossplane.Directive{Directive: name, Args: args, Includes: includes, Block: block, Line: 1}
}

// badIncludes yields payloads of two configs in which any of several includes exists or does not, at any depth.
func badIncludes(yield func(handCase) bool) {
	item := []func() *crossplane.Directive{
		func() *crossplane.Directive { return dir("include", []string{"x"}, []int{1}, nil) },
		func() *crossplane.Directive { return dir("include", []string{"x"}, []int{2}, nil) },
		func() *crossplane.Directive { return dir("include", []string{"x"}, []int{-1}, nil) },
		func() *crossplane.Directive { return dir("include", []string{"x"}, []int{1, 7, 1}, nil) },
		func() *crossplane.Directive { return dir("include", []string{"x"}, []int{}, nil) },
		func() *crossplane.Directive { return dir("include", []string{"x"}, nil, nil) },
		func() *crossplane.Directive { return dir("a", nil, nil, nil) },
		func() *crossplane.Directive {
			return dir("b", nil, nil, crossplane.Directives{dir("include", nil, []int{1}, nil), dir("c", nil, nil, crossplane.Directives{dir("include", nil, []int{3}, nil), dir("z", nil, nil, nil)}), dir("d", nil, nil, nil)})
		},
		func() *crossplane.Directive {
			return dir("include", nil, []int{1}, crossplane.Directives{dir("e", nil, nil, nil)})
		},
	}
	leaf := []func() *crossplane.Directive{
		func() *crossplane.Directive { return dir("l", nil, nil, crossplane.Directives{}) },
		func() *crossplane.Directive { return dir("include", nil, []int{9}, nil) },
		func() *crossplane.Directive {
			return dir("m", nil, nil, crossplane.Directives{dir("include", nil, []int{-5}, nil), dir("n", nil, nil, nil)})
		},
	}
	mk := func(fs []func() *crossplane.Directive) (ds crossplane.Directives) {
		for _, f := range fs {
			ds = append(ds, f())
		}
		return
	}
	seqs(item, 0, 3, func(ms []func() *crossplane.Directive) bool {
		return seqs(leaf, 0, 2, func(ls []func() *crossplane.Directive) bool {
			return yield(handCase{&crossplane.Payload{Config: []crossplane.Config{{File: "m", Parsed: mk(ms)}, {File: "l", Parsed: mk(ls)}}}})
		})
	})
	yield(handCase{&crossplane.Payload{}})
}

func combineLeaves(w *W, c handCase) error {
	w.Steps(1)
	return bubble(func() error {
		p, err := c.P.Combined()
		if (err == nil) == (p == nil) {
			return fmt.Errorf("Combined returns %v and %v", p, err)
		}
		w.Outcome(fmt.Sprintf("combined: %v", err == nil))
		return nil
	})
}

type failWriter struct{ n, at int }

func (f *failWriter) Write(p []byte) (int, error) {
	f.n++
	if f.n > f.at {
		return 0, errFault
	}
	return len(p), nil
}

// oddPayloads yields directives of every shape, however odd.
func oddPayloads(n int) func(func(handCase) bool) {
	return func(yield func(handCase) bool) {
		empty, text := "", " c"
		var heads []crossplane.Directive
		for _, name := range []string{"", "a", "if", "#", "include", "map", "set_by_lua_block", "content_by_lua_block", " ", "}"} {
			for _, args := range [][]string{nil, {}, {""}, {"x"}, {`\`}, {"(", ")"}, {"a b", "'\"", "${x"}, {"\xff", "#"}} {
				for _, com := range []*string{nil, &empty, &text} {
					heads = append(heads, crossplane.Directive{Directive: name, Args: args, Comment: com})
				}
			}
		}
		blocks := []func(crossplane.Directives) crossplane.Directives{
			func(crossplane.Directives) crossplane.Directives { return nil },
			func(ds crossplane.Directives) crossplane.Directives { return append(crossplane.Directives{}, ds...) },
		}
		for _, h := range heads {
			for _, b := range blocks {
				for _, in := range heads[:min(len(heads), n)] {
					d, i := h, in
					d.Block = b(crossplane.Directives{&i})
					for _, param := range []bool{false, true} {
						d := d
						d.IsMapBlockParameter = param
						if !yield(handCase{&crossplane.Payload{Config: []crossplane.Config{{Parsed: crossplane.Directives{&d, &i, &d}}}}}) {
							return
						}
					}
				}
			}
		}
	}
}

func buildLeaves(w *W, c handCase) error {
	return bubble(func() error {
		for _, o := range []crossplane.BuildOptions{{}, {Tabs: true, Header: true}, {Indent: 1000}, {Builders: []crossplane.RegisterBuilder{(&crossplane.Lua{}).RegisterBuilder()}}} {
			for at := 0; ; at++ {
				w.Steps(1)
				fw := &failWriter{at: at}
				err := crossplane.Build(fw, c.P.Config[0], &o)
				if err == nil && fw.n > at {
					return fmt.Errorf("write %d failed, but Build reports success", at+1)
				}
				if err != nil && !errors.Is(err, errFault) {
					return err
				}
				if err == nil {
					break
				}
			}
			_ = c.P.Config[0].Parsed[0].String()
			var sc crossplane.StringsCreator
			if err := crossplane.BuildInto(c.P, &sc, &o); err != nil {
				return err
			}
		}
		return nil
	})
}

func deepBuild(yield func(int) bool) {
	for _, n := range []int{1, 2, 24, 25, 26, 33, 49, 50, 51, 99, 100, 101, 102, 1000, 1500} {
		if !yield(n) {
			return
		}
	}
}

func buildDeep(w *W, n int) error {
	var ds crossplane.Directives
	for i := 0; i < n; i++ {
		ds = crossplane.Directives{dir("a", nil, nil, ds), dir("b", nil, nil, nil)}
	}
	for _, indent := range []int{0, 1, 2, 3, 4, 7, 8, 99, 100, 101} {
		if n*indent > 20000 {
			continue
		}
		for _, tabs := range []bool{false, true} {
			w.Steps(n)
			var b bytes.Buffer
			if err := crossplane.Build(&b, crossplane.Config{Parsed: ds}, &crossplane.BuildOptions{Indent: indent, Tabs: tabs}); err != nil {
				return err
			}
		}
	}
	return nil
}

func init() {
	register("C13", func(x *X) {
		crossplane.SetTokenChanCap(4)
		frames := []string{"%s"}
		n, nf, nl := 5, 4, 5
		if x.thorough {
			n, nf, nl = 6, 5, 6
		}
		toks := []string{"a", ";", "{", "}", "include f;", "include *.x;", "include main;", "http {", "'q", "if (", "content_by_lua_block {", "map x y {", "include nope;"}
		files := func(g func(func(string) bool), opts ...int) func(func(multiCase) bool) {
			return func(yield func(multiCase) bool) {
				g(func(s string) bool {
					for _, o := range opts {
						if !yield(multiCase{memFS{"/d/main": s, "/d/f": "b c;", "/d/g.x": "include f; } x", "/d/h.x": "d {"}, o}) {
							return false
						}
					}
					return true
				})
			}
		}
		Explore(x, fmt.Sprintf("every fault of every parse of up to %d tokens", nf), files(tokSeqs(toks, 0, nf, frames...), 0, oStop, oCombine, oSingle|oComments|oIgnore), everyFault(false))
		Explore(x, fmt.Sprintf("every pair of faults of every parse of up to %d tokens", nf-1), files(tokSeqs(toks, 0, nf-1, frames...), 0, oStop, oCombine), everyFault(true))
		Explore(x, "every fault with a token channel that never fills", func(y func(multiCase) bool) {
			files(listOf(strings.Repeat("a b;\n", 40)+"}"+strings.Repeat("c d;\n", 40), strings.Repeat("x { y ", 30), "include f; include *.x; include g.x; include h.x;"), 0, oStop, oCombine)(y)
		}, everyFault(true))
		Explore(x, fmt.Sprintf("all texts up to %d characters, parsed and built", n), files(stringsOver([]string{"a", " ", ";", "{", "}", `"`, `\`, "#", "$", "(", ")"}, 0, n), 0), noFault)
		Explore(x, "if and its argument", files(lexStrings(stringsOver([]string{"(", ")", "a", " ", `"`, "{", ";", "'"}, 0, n), "if%s {}", "http{server{if %s{}}}"), 0), noFault)
		Explore(x, fmt.Sprintf("all texts up to %d characters, lexed", nl), stringsOver(append([]string{"content_by_lua_block", "set_by_lua_block "}, lexCore...), 0, nl), lexLeaves)
		Explore(x, "deep files", files(deepNesting, 0, oStop), noFault)
		Explore(x, "many includes", chain(manyIncludes(0, oStop|oCombine), thousandsOfIncludes), noFault)
		Explore(x, "real files, short and long", onDiskCases, onDiskLeaves)
		Explore(x, "combining with includes that do not exist", badIncludes, combineLeaves)
		nb := 40
		if x.thorough {
			nb = 1000
		}
		Explore(x, "building directives of every shape, writes that fail", oddPayloads(nb), buildLeaves)
		Explore(x, "building at every depth", deepBuild, buildDeep)
		crossplane.SetTokenChanCap(crossplane.TokenChanCap)
	}, "Callbacks return; payloads made by hand contain no nil directives, and no block contains itself; blocks nest at most a few thousand deep.",
		"The code under test runs in a testing/synctest bubble, which reports exactly whether a goroutine is left.")
}
