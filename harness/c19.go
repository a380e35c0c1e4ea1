package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// ---- the shared objects, and the calls that use them ----

// A world holds everything that calls share.
type world struct {
	files    memFS
	parse    []*crossplane.ParseOptions
	build    []*crossplane.BuildOptions
	payloads []*crossplane.Payload
	lex      crossplane.LexOptions
	dirs     crossplane.Directives
	masks    map[string][]uint   // what a source of directives returns
	matches  map[string][]string // what Glob returns

	pass func(label string) // called by every callback
	mu   *sync.Mutex        // not part of what is compared
}

// spare returns s with capacity to spare, filled: an append to it would be seen.
func spare[T any](filler T, s ...T) []T {
	out := append(append(make([]T, 0, len(s)+3), s...), filler, filler, filler)
	return out[:len(s)]
}

const luaText = "content_by_lua_block { local a = '}' -- {\n return [[}]] }"

func newWorld(pass func(string)) *world {
	if pass == nil {
		pass = func(string) {}
	}
	w := &world{pass: pass, mu: &sync.Mutex{}}
	w.files = memFS{
		"/d/main":  "user x; # c1\nhttp {\n include f*; server { listen 80; " + luaText + " foo 'b c' #in\n; }\n map a b { include x; c d; } }\nevents { }\n",
		"/d/f1":    "server { listen; location / { if ($a = b) { return 200 \"x y\"; } } }\ngzip on;\n",
		"/d/f2":    "include f1;\ngzip maybe; unknown a;\n",
		"/e/main":  "stream { server { listen 1; include nope; } }\nbad;;\n",
		"/e/map":   "http { types { a b c; include d; } geo a { ranges; } split_clients a b { * }\n}\nhttp { server { listen 8080 { } } }",
		"/e/dyn":   "dyn1 a; http { dyn2 on; gzip on; foo; dyn1 { x; } }",
		"/e/cycle": "include cycle;",
	}
	open := func(p string) (io.ReadCloser, error) {
		w.pass("open " + p)
		s, err := w.files.openText(p)
		if err != nil {
			return nil, err
		}
		return &worldFile{w: w, path: p, rest: s}, nil
	}
	w.matches = map[string][]string{}
	for _, p := range []string{"/d/f*", "/e/f*"} {
		l, _ := w.files.globText(p)
		w.matches[p] = spare("a filler", l...)
	}
	glob := func(p string) ([]string, error) {
		w.pass("glob " + p)
		if l, ok := w.matches[p]; ok {
			return l, nil
		}
		return w.files.globText(p)
	}
	callback := func(e error) any { w.pass("error " + e.Error()); return "cb " + e.Error() }
	dyn := func(name string) ([]uint, bool) {
		w.pass("match " + name)
		m, ok := w.masks[name]
		return m, ok
	}
	w.masks = map[string][]uint{"dyn1": spare[uint](0, 1<<15|2, 1<<19|2), "dyn2": spare[uint](0, 1<<19|0x200), "gzip": spare[uint](0)}
	dynMore := func(name string) ([]uint, bool) {
		if name == "dyn1" {
			return []uint{1<<19 | 0x100}, true
		}
		return nil, name == "dyn2"
	}
	lua := &crossplane.Lua{}
	w.lex = crossplane.LexOptions{Lexers: spare(crossplane.RegisterLexer(nil), lua.RegisterLexer(), crossplane.LexWithLexer(wordLexer{w}, spare("x", "foo")...))}
	base := crossplane.ParseOptions{Open: open, Glob: glob, ErrorCallback: callback, LexOptions: w.lex}
	add := func(f func(o *crossplane.ParseOptions)) {
		o := base
		f(&o)
		w.parse = append(w.parse, &o)
	}
	add(func(o *crossplane.ParseOptions) { o.ParseComments = true })
	add(func(o *crossplane.ParseOptions) {
		o.StopParsingOnError = true
		o.SkipDirectiveContextCheck = true
		o.IgnoreDirectives = spare("y", "listen", "bad")
	})
	add(func(o *crossplane.ParseOptions) {
		o.DirectiveSources = spare[crossplane.MatchFunc](nil, dyn, dynMore, crossplane.MatchOssLatest, crossplane.MatchOssLatest)
		o.ErrorOnUnknownDirectives = true
	})
	add(func(o *crossplane.ParseOptions) {
		o.CombineConfigs = true
		o.ParseComments = true
		o.LexOptions = crossplane.LexOptions{}
	})
	add(func(o *crossplane.ParseOptions) { o.Glob = nil; o.SingleFile = true; o.ErrorCallback = nil })

	tb := worldBuilder{w}
	w.build = []*crossplane.BuildOptions{
		{},
		{Tabs: true, Header: true},
		{Indent: 2, Builders: spare(crossplane.RegisterBuilder(nil), lua.RegisterBuilder(), crossplane.BuildWithBuilder(tb, spare("z", "foo", "gzip")...))},
	}
	note, note2 := " c1", " own line"
	luaArgs := spare("filler", " local a = '}' -- {\n return [[}]] ")
	http := &crossplane.Directive{Directive: "http", Line: 2, Args: []string{}, Block: spare[*crossplane.Directive](nil,
		&crossplane.Directive{Directive: "include", Line: 3, Args: spare("f", "f*"), Includes: spare(7, 1, 2)},
		&crossplane.Directive{Directive: "content_by_lua_block", Line: 4, Args: luaArgs},
		&crossplane.Directive{Directive: "foo", Line: 6, Args: spare("f", "b c", "", "#x")},
		&crossplane.Directive{Directive: "map", Line: 7, Args: []string{"a", "b"}, Block: crossplane.Directives{{Directive: "if", Args: []string{"x"}, Line: 8, IsMapBlockParameter: true}}},
	)}
	w.payloads = []*crossplane.Payload{
		{Status: "ok", Errors: spare(crossplane.PayloadError{}), Config: spare(crossplane.Config{File: "filler"},
			crossplane.Config{File: "/d/main", Status: "ok", Errors: spare(crossplane.ConfigError{}), Parsed: spare[*crossplane.Directive](nil,
				&crossplane.Directive{Directive: "user", Line: 1, Args: []string{"x"}},
				&crossplane.Directive{Directive: "#", Line: 1, Args: []string{}, Comment: &note}, http,
				&crossplane.Directive{Directive: "#", Line: 12, Args: []string{}, Comment: &note2})},
			crossplane.Config{File: "/d/f1", Status: "ok", Parsed: spare[*crossplane.Directive](nil,
				&crossplane.Directive{Directive: "gzip", Line: 1, Args: []string{"on"}},
				&crossplane.Directive{Directive: "if", Line: 2, Args: spare("f", "$a", "=", "b c"), Block: crossplane.Directives{}})},
			crossplane.Config{File: "/d/f2", Status: "ok", Parsed: spare[*crossplane.Directive](nil,
				&crossplane.Directive{Directive: "include", Line: 1, Args: []string{"f1"}, Includes: spare(7, 1)})},
		)},
	}
	line := 4
	bad := *w.payloads[0]
	perr := &crossplane.ParseError{What: "what", File: &w.payloads[0].Config[1].File, Line: &line}
	bad.Status = "failed"
	bad.Errors = spare(crossplane.PayloadError{}, crossplane.PayloadError{File: "/d/f1", Line: &line, Error: perr, Callback: 1})
	bad.Config = spare(crossplane.Config{}, bad.Config...)
	bad.Config[1].Status = "failed"
	bad.Config[1].Errors = spare(crossplane.ConfigError{}, crossplane.ConfigError{Line: &line, Error: perr})
	bad.Config[2].Parsed = crossplane.Directives{{Directive: "include", Line: 1, Args: []string{"x"}, Includes: []int{9}}}
	w.payloads = append(w.payloads, &bad)
	return w
}

type worldFile struct {
	w    *world
	path string
	rest string
}

func (f *worldFile) Read(p []byte) (int, error) {
	f.w.pass(fmt.Sprint("read ", f.path, " ", len(f.rest)))
	if f.rest == "" {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), 64)], f.rest)
	f.rest = f.rest[n:]
	return n, nil
}
func (f *worldFile) Close() error { f.w.pass("close " + f.path); return nil }

// wordLexer is an external lexer: it takes everything up to a semicolon as one argument.
type wordLexer struct{ w *world }

func (l wordLexer) Lex(s *crossplane.SubScanner, name string) <-chan crossplane.NgxToken {
	l.w.pass("lex " + name)
	ch := make(chan crossplane.NgxToken)
	go func() {
		defer close(ch)
		arg := ""
		for s.Scan() {
			if s.Text() == ";" {
				ch <- crossplane.NgxToken{Value: strings.TrimSpace(arg), Line: s.Line(), IsQuoted: true}
				ch <- crossplane.NgxToken{Value: ";", Line: s.Line()}
				return
			}
			arg += s.Text()
		}
	}()
	return ch
}

type worldBuilder struct{ w *world }

func (b worldBuilder) Build(d *crossplane.Directive) string {
	b.w.pass("build " + d.Directive)
	return d.Directive + "<" + strings.Join(d.Args, "|") + ">;"
}

type passWriter struct {
	w *world
	b bytes.Buffer
}

func (p *passWriter) Write(b []byte) (int, error) { p.w.pass("write"); return p.b.Write(b) }
func (p *passWriter) Close() error                { p.w.pass("close"); return nil }

type passCreator struct {
	w     *world
	files []*passWriter
	names []string
}

func (c *passCreator) Create(name string) (io.WriteCloser, error) {
	c.w.pass("create " + name)
	f := &passWriter{w: c.w}
	c.files, c.names = append(c.files, f), append(c.names, name)
	return f, nil
}
func (c *passCreator) Reset() {}

// A failing says what fails, from which file on, and whether some of what is written is written all the same.
type failing struct {
	Create, Write, Close, Short bool
	At                          int
}

type failingWriter struct {
	passWriter
	fail failing
}

func (p *failingWriter) Write(b []byte) (int, error) {
	if p.fail.Write {
		n := 0
		if p.fail.Short {
			n = len(b) / 2
		}
		_, _ = p.passWriter.Write(b[:n])
		return n, errors.New("cannot write")
	}
	return p.passWriter.Write(b)
}

func (p *failingWriter) Close() error {
	_ = p.passWriter.Close()
	if p.fail.Close {
		return errors.New("cannot close")
	}
	return nil
}

type failingCreator struct {
	passCreator
	fail failing
}

func (c *failingCreator) Create(name string) (io.WriteCloser, error) {
	n := len(c.files)
	f, err := c.passCreator.Create(name)
	if n < c.fail.At {
		return f, err
	}
	if c.fail.Create {
		return nil, errors.New("cannot create")
	}
	fw := &failingWriter{passWriter{w: c.w}, c.fail}
	c.files[n] = &fw.passWriter
	return fw, err
}

type failingReader struct{}

func (failingReader) Read([]byte) (int, error) { return 0, errors.New("cannot read") }

type panickingBuilder struct{}

func (panickingBuilder) Build(*crossplane.Directive) string { panic("cannot build") }

// ruin overwrites everything that can be reached from v and is not an error.
func ruin(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			ruin(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			ruin(v.Field(i))
		}
	case reflect.Slice:
		for i, full := 0, v.Slice(0, v.Cap()); i < full.Len(); i++ {
			ruin(full.Index(i))
		}
	}
	if v.CanSet() && v.Kind() != reflect.Struct {
		switch v.Kind() {
		case reflect.String:
			v.SetString("ruined")
		case reflect.Int:
			v.SetInt(-9)
		default:
			v.SetZero()
		}
	}
}

type op struct {
	name string
	run  func(w *world) string
}

func payloadText(p *crossplane.Payload, err error) string {
	s := dumpPayload(p) + dumpErr(err)
	if p != nil {
		for _, e := range p.Errors {
			s += fmt.Sprint(" ", e.Callback)
		}
	}
	return s
}

var ops = func() (all []op) {
	add := func(name string, run func(w *world) string) { all = append(all, op{name, run}) }
	parse := func(o int, file string) {
		add(fmt.Sprintf("parse %s with options %d", file, o), func(w *world) string {
			p, err := crossplane.Parse(file, w.parse[o])
			s := payloadText(p, err)
			if p != nil { // what comes out belongs to the caller, who may do anything with it
				ruin(reflect.ValueOf(p))
			}
			return s
		})
	}
	parse(0, "/d/main")
	parse(1, "/d/main")
	parse(2, "/d/main")
	parse(3, "/d/main")
	parse(4, "/d/main")
	parse(0, "/e/main")
	parse(1, "/e/main")
	parse(3, "/e/map")
	parse(2, "/e/dyn")
	parse(0, "/e/dyn")
	parse(0, "/e/cycle")
	parse(3, "/nonexistent")
	lex := func(name string, f func(w *world) chan crossplane.NgxToken) {
		add(name, func(w *world) string { return toksKey(realToks(f(w))) })
	}
	lex("lex", func(w *world) chan crossplane.NgxToken { return crossplane.Lex(strings.NewReader(w.files["/d/main"])) })
	lex("lex with options", func(w *world) chan crossplane.NgxToken {
		return crossplane.LexWithOptions(&worldFile{w: w, path: "lexed", rest: w.files["/d/main"]}, w.lex)
	})
	build := func(p, c, o int) {
		add(fmt.Sprintf("build %d of payload %d with options %d", c, p, o), func(w *world) string {
			b := &passWriter{w: w}
			err := crossplane.Build(b, w.payloads[p].Config[c], w.build[o])
			return b.b.String() + dumpErr(err)
		})
	}
	build(0, 0, 0)
	build(0, 0, 1)
	build(0, 0, 2)
	build(0, 1, 2)
	build(0, 2, 0)
	add("build something deep", func(w *world) string {
		deep := crossplane.Directives{{Directive: "d", Line: 50}}
		for i := 49; i > 0; i-- {
			deep = crossplane.Directives{{Directive: "e", Line: i, Block: deep}}
		}
		s := ""
		for _, o := range []*crossplane.BuildOptions{{}, {Tabs: true}, {Indent: 9}} {
			b := &passWriter{w: w}
			err := crossplane.Build(b, crossplane.Config{Parsed: deep}, o)
			s += b.b.String() + dumpErr(err)
		}
		return s
	})
	add("quote and compare", func(w *world) string {
		s := ""
		for _, v := range []string{"", "a b", "${x}", strings.Repeat("é ", 300), `"'\`} {
			s += crossplane.Enquote(v)
		}
		a, b := w.payloads[0].Config[0].Parsed, w.payloads[1].Config[0].Parsed
		for i := range a {
			s += fmt.Sprint(a[i].Equal(b[i]), a[i].String(), a[i].IsBlock(), a[i].IsInclude(), a[i].IsComment())
			j, err := json.Marshal(a[i])
			s += string(j) + dumpErr(err)
		}
		return s
	})
	add("build into", func(w *world) string {
		c := &passCreator{w: w}
		err := crossplane.BuildInto(w.payloads[0], c, w.build[2])
		s := dumpErr(err)
		for i := range c.files {
			s += c.names[i] + c.files[i].b.String()
		}
		return s
	})
	add("build files", func(w *world) string {
		dir, err := os.MkdirTemp("", "vhw")
		if err != nil {
			return "no directory"
		}
		defer os.RemoveAll(dir)
		p := *w.payloads[0]
		p.Config = append([]crossplane.Config(nil), p.Config...)
		for i := range p.Config {
			p.Config[i].File = "x" + p.Config[i].File
		}
		s := dumpErr(crossplane.BuildFiles(p, dir, w.build[2]))
		return s + strings.ReplaceAll(readDisk(dir).String(), dir, "")
	})
	// Calls whose callbacks fail: what was half done is not to be seen by any other call.
	for _, c := range []failing{{Write: true}, {Write: true, Short: true}} {
		add(fmt.Sprintf("build, and the write fails %+v", c), func(w *world) string {
			b := &failingWriter{passWriter{w: w}, c}
			err := crossplane.Build(b, w.payloads[0].Config[0], w.build[1])
			return b.b.String() + dumpErr(err)
		})
	}
	for _, c := range []failing{{Create: true}, {Write: true, At: 1}, {Close: true, At: 1}} {
		add(fmt.Sprintf("build into, and something fails %+v", c), func(w *world) string {
			cr := &failingCreator{passCreator: passCreator{w: w}, fail: c}
			s := dumpErr(crossplane.BuildInto(w.payloads[0], cr, w.build[2]))
			for i := range cr.files {
				s += cr.names[i] + cr.files[i].b.String()
			}
			return s
		})
	}
	add("parse, and everything fails once", func(w *world) string {
		s := ""
		for _, bad := range []string{"/d/main", "/d/f1", "/d/f2", "/d/f*"} {
			for _, late := range []bool{false, true} {
				o := *w.parse[0]
				o.Open = func(p string) (io.ReadCloser, error) {
					r, err := w.parse[0].Open(p)
					if err != nil || p != bad {
						return r, err
					}
					if !late {
						_ = r.Close()
						return nil, errors.New("cannot open")
					}
					return struct {
						io.Reader
						io.Closer
					}{io.MultiReader(io.LimitReader(r, 20), failingReader{}), r}, nil
				}
				o.Glob = func(p string) ([]string, error) {
					l, err := w.parse[0].Glob(p)
					if p == bad {
						return l, errors.New("cannot expand")
					}
					return l, err
				}
				s += payloadText(crossplane.Parse("/d/main", &o))
			}
		}
		return s
	})
	add("build, and a builder panics", func(w *world) (s string) {
		o := crossplane.BuildOptions{Builders: []crossplane.RegisterBuilder{crossplane.BuildWithBuilder(panickingBuilder{}, "foo")}}
		b := &passWriter{w: w}
		defer func() { s = fmt.Sprint(b.b.String(), recover()) }()
		err := crossplane.Build(b, w.payloads[0].Config[0], &o)
		return dumpErr(err)
	})
	add("combine", func(w *world) string { return payloadText(w.payloads[0].Combined()) })
	add("combine one that fails", func(w *world) string { return payloadText(w.payloads[1].Combined()) })
	add("equal", func(w *world) string {
		s := ""
		for _, a := range w.payloads[0].Config[0].Parsed {
			for _, b := range w.payloads[1].Config[0].Parsed {
				s += fmt.Sprint(a.Equal(b), b.Equal(a), " ")
			}
		}
		return s
	})
	add("string", func(w *world) string {
		s := ""
		for _, d := range w.payloads[0].Config[0].Parsed {
			s += fmt.Sprintln(d.String(), d.IsBlock(), d.IsComment(), d.IsInclude())
		}
		return s + w.payloads[1].Errors[0].Error.Error()
	})
	add("enquote", func(*world) string {
		s := ""
		for _, v := range []string{"", "a", "a b", `"`, "'", `"'`, "{", "${x}", "a;", "#", `\"\'`, "é\u00a0"} {
			s += crossplane.Enquote(v) + "\n"
		}
		return s
	})
	add("marshal", func(w *world) string {
		b, err := json.Marshal(w.payloads)
		return string(b) + dumpErr(err)
	})
	add("match", func(*world) string {
		s := ""
		for _, f := range []crossplane.MatchFunc{crossplane.DefaultDirectivesMatchFunc, crossplane.MatchOssLatest, crossplane.MatchNginxPlusLatest, crossplane.MatchLuaLatest} {
			for _, n := range []string{"listen", "dyn1", "if", "js_set", "content_by_lua_block", "gzip", ""} {
				m, ok := f(n)
				s += fmt.Sprint(m, ok)
			}
		}
		return s
	})
	return
}()

// ---- what a world looks like, down to spare capacity and unexported fields ----

func deepText(v any) string {
	var b bytes.Buffer
	seen := map[uintptr]bool{}
	deepWrite(&b, reflect.ValueOf(v), seen)
	return b.String()
}

func deepWrite(b *bytes.Buffer, v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "%x", v.Pointer())
		if seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		b.WriteByte('>')
		deepWrite(b, v.Elem(), seen)
	case reflect.Interface:
		deepWrite(b, v.Elem(), seen)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprintf(b, "%x", v.Pointer())
	case reflect.Struct:
		b.WriteByte('{')
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			if n := t.Field(i).Name; t == reflect.TypeOf(world{}) && (n == "mu" || n == "pass") {
				continue
			}
			b.WriteString(t.Field(i).Name + ":")
			deepWrite(b, v.Field(i), seen)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice:
		fmt.Fprintf(b, "%x[%d/", v.Pointer(), v.Len())
		for i, full := 0, v.Slice(0, v.Cap()); i < full.Len(); i++ {
			deepWrite(b, full.Index(i), seen)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			deepWrite(b, v.Index(i), seen)
		}
	case reflect.Map:
		var es []string
		for _, k := range v.MapKeys() {
			var e bytes.Buffer
			deepWrite(&e, k, seen)
			e.WriteByte('=')
			deepWrite(&e, v.MapIndex(k), seen)
			es = append(es, e.String())
		}
		sort.Strings(es)
		fmt.Fprint(b, es)
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	default:
		fmt.Fprint(b, v.Kind())
	}
}

// ---- 1: every history ----

type history struct{ Ops []int }

func (h history) String() string {
	var ns []string
	for _, i := range h.Ops {
		ns = append(ns, ops[i].name)
	}
	return strings.Join(ns, "; ")
}

// alone holds the result of every call as the first one of a process.
var alone struct {
	sync.Once
	results []string
	err     error
}

func aloneResults() ([]string, error) {
	alone.Do(func() {
		exe, err := os.Executable()
		if err != nil {
			alone.err = err
			return
		}
		alone.results = make([]string, len(ops))
		var wg sync.WaitGroup
		sem := make(chan struct{}, workers)
		for i := range ops {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				out, err := exec.Command(exe, "alone", strconv.Itoa(i)).Output()
				if err != nil {
					out = []byte("fails: " + err.Error())
				}
				alone.results[i] = string(out)
			}()
		}
		wg.Wait()
	})
	return alone.results, alone.err
}

func runAlone(i int) int {
	os.Stdout.WriteString(ops[i].run(newWorld(nil)))
	return 0
}

func historyOne(w *W, h history) error {
	want, err := aloneResults()
	if err != nil {
		return err
	}
	wd := newWorld(nil)
	before := deepText(wd)
	for n, i := range h.Ops {
		got := ops[i].run(wd)
		if err := differ(fmt.Sprintf("call %d (%s), compared with the same call alone", n, ops[i].name), want[i], got); err != nil {
			return err
		}
		if err := differ(fmt.Sprintf("call %d (%s) modifies what it was given", n, ops[i].name), before, deepText(wd)); err != nil {
			return err
		}
	}
	w.Steps(len(h.Ops))
	w.State(h.String())
	return nil
}

// ---- 2: every interleaving at the callbacks ----

type together struct {
	Ops         []int
	Preemptions int // how often a call that could go on is interrupted; less than 0: any number
	Quiet       string
}

func (t together) String() string {
	return fmt.Sprintf("%s || with %d preemptions", strings.ReplaceAll(history{t.Ops}.String(), "; ", " || "), t.Preemptions)
}

// A controller lets one callback of all the calls return at a time.
type controller struct {
	mu      sync.Mutex
	waiting []*point
}

type point struct {
	label string
	step  chan struct{}
}

func (c *controller) pass(label string) {
	p := &point{label, make(chan struct{})}
	c.mu.Lock()
	c.waiting = append(c.waiting, p)
	c.mu.Unlock()
	<-p.step
}

func togetherOne(w *W, t together) error {
	want, err := aloneResults()
	if err != nil {
		return err
	}
	n, err := interleave(func(choose func(int) int) error {
		return bubble(func() error {
			c := &controller{}
			wd := newWorld(nil)
			wd.pass = func(label string) {
				for _, q := range strings.Fields(t.Quiet) {
					if strings.HasPrefix(label, q) {
						return
					}
				}
				c.pass(label)
			}
			before := deepText(wd)
			results := make([]string, len(t.Ops))
			var left atomic.Int32
			left.Store(int32(len(t.Ops)))
			for k, i := range t.Ops {
				go func() {
					defer left.Add(-1)
					c.pass(fmt.Sprintf("start %d", k))
					if err := guarded(func() error { results[k] = ops[i].run(wd); return nil }); err != nil {
						results[k] = err.Error()
					}
				}()
			}
			last, used := "", 0
			for {
				synctestWait()
				if left.Load() == 0 {
					break
				}
				if len(c.waiting) == 0 {
					return fmt.Errorf("the calls wait for each other")
				}
				sort.SliceStable(c.waiting, func(a, b int) bool {
					x, y := c.waiting[a], c.waiting[b]
					if (x.label == last) != (y.label == last) {
						return x.label == last
					}
					return x.label < y.label
				})
				k := 0
				// points with the same name are the same to the calls
				distinct := []int{0}
				for i := 1; i < len(c.waiting); i++ {
					if c.waiting[i].label != c.waiting[i-1].label {
						distinct = append(distinct, i)
					}
				}
				if len(distinct) > 1 && (t.Preemptions < 0 || used < t.Preemptions) {
					k = choose(len(distinct))
					if k > 0 {
						used++
					}
				}
				p := c.waiting[distinct[k]]
				c.waiting = append(c.waiting[:distinct[k]:distinct[k]], c.waiting[distinct[k]+1:]...)
				last = p.label
				w.Steps(1)
				p.step <- struct{}{}
			}
			for k, i := range t.Ops {
				if err := differ(fmt.Sprintf("call %d (%s), compared with the same call alone", k, ops[i].name), want[i], results[k]); err != nil {
					return err
				}
			}
			return differ("the calls modify what they were given", before, deepText(wd))
		})
	})
	w.State(t.String())
	w.outcomes["interleavings"] += int64(n)
	return err
}

// ---- calls within the callbacks of another call ----

type within struct{ Outer, Inner int }

func (c within) String() string {
	return fmt.Sprintf("%s, within each callback of %s", ops[c.Inner].name, ops[c.Outer].name)
}

func withinOne(w *W, c within) error {
	want, err := aloneResults()
	if err != nil {
		return err
	}
	for at := int32(0); ; at++ {
		wd := newWorld(nil)
		before := deepText(wd)
		var n atomic.Int32
		inner, where := "", ""
		wd.pass = func(label string) {
			if n.Add(1) == at+1 {
				where, inner = label, ops[c.Inner].run(wd)
			}
		}
		got := ops[c.Outer].run(wd)
		wd.pass = nil
		if n.Load() <= at {
			w.outcomes["callbacks"] += int64(n.Load())
			break
		}
		w.Steps(1)
		if err := differ("the inner call, at "+where, want[c.Inner], inner); err != nil {
			return err
		}
		if err := differ("the outer call, after one at "+where, want[c.Outer], got); err != nil {
			return err
		}
		if err := differ("the calls modify what they were given", before, deepText(wd)); err != nil {
			return err
		}
	}
	w.State(c.String())
	return nil
}

// ---- 3: unsynchronized accesses, under the race detector ----

type raceRow struct{ Op int }

func (r raceRow) String() string { return ops[r.Op].name + " with every other call" }

func raceOne(w *W, r raceRow) error {
	exe := os.Getenv("VH_RACE")
	if exe == "" {
		exe = filepath.Join(os.Getenv("VH_BIN"), "vhrace")
	}
	cmd := exec.Command(exe, "race", strconv.Itoa(r.Op))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	w.Steps(3 * len(ops))
	w.State(r.String())
	if err != nil {
		return fmt.Errorf("%v\n%s", err, clip(out.String(), 6000))
	}
	return nil
}

// runRace runs call i together with every other one, in three relative orders, without synchronization.
func runRace(i int) int {
	for j := range ops {
		for _, delays := range [][2]time.Duration{{0, 0}, {0, 2 * time.Millisecond}, {2 * time.Millisecond, 0}} {
			fmt.Printf("%s || %s\n", ops[i].name, ops[j].name)
			wd := newWorld(nil)
			done := make(chan struct{}, 2)
			for k, o := range []int{i, j} {
				go func() {
					time.Sleep(delays[k]) // orders the calls without synchronizing them
					ops[o].run(wd)
					done <- struct{}{}
				}()
			}
			<-done
			<-done
		}
	}
	return 0
}

func init() {
	register("C19", func(x *X) {
		n := 3
		if x.thorough {
			n = 4
		}
		crossplane.SetTokenChanCap(crossplane.TokenChanCap)
		var all []int
		for i := range ops {
			all = append(all, i)
		}
		Explore(x, fmt.Sprintf("every history of up to %d calls", n), func(y func(history) bool) {
			seqs(all, 1, n, func(is []int) bool { return y(history{append([]int(nil), is...)}) })
		}, historyOne)
		Explore(x, fmt.Sprintf("real files, every history of up to %d edits and parses", n), diskHistories(n, 0, oStop), parseHistory)
		Explore(x, fmt.Sprintf("real files, every history of up to %d edits and builds", n), buildHistories(n), buildHistoryOne)
		Explore(x, "every two of many calls with similar arguments, both ways round", func(y func(similarCase) bool) {
			texts := len(similarTexts())
			for c := range similarCalls {
				for t := 0; t < texts; t++ {
					if !y(similarCase{c, t}) {
						return
					}
				}
			}
		}, similarOne)
		Explore(x, "the parts of every payload share no memory", func(y func(multiCase) bool) {
			toks := []string{"a;", "b x;", "c x y z;", "d 1 2 3 4 5 '';", "#c\n", "x y {", "}", "http { map a b {", "include f f;", "include *;", "if (a = b) {", "listen;"}
			withFiles(tokSeqs(toks, 0, n+1), oComments, oSkipArgs|oSkipCtx|oUnknown)(y)
			withFiles(slices.Values(allConfigs), 0, oComments|oSingle, oSkipArgs|oSkipCtx)(y)
			withFiles(deviations(x, realConfigs, []string{"", " ", ";"}), oSingle|oComments)(y)
			withFiles(longLexInputs, oSkipArgs|oSkipCtx|oComments)(func(c multiCase) bool { return len(c.Files["/d/main"]) > 6000 || y(c) })
		}, aliasOne)
		Explore(x, "every call within every callback of every other", func(y func(within) bool) {
			for i := range ops {
				for j := range ops {
					if !y(within{i, j}) {
						return
					}
				}
			}
		}, withinOne)
		Explore(x, "every pair of calls, every interleaving at the callbacks (bounded preemptions)", func(y func(together) bool) {
			for i := range ops {
				for j := i; j < len(ops); j++ {
					p := 1
					if i == j || x.thorough {
						p = 2
					}
					if !y(together{Ops: []int{i, j}, Preemptions: p}) {
						return
					}
				}
			}
		}, togetherOne)
		if x.thorough {
			Explore(x, "every three calls, every interleaving at the callbacks with at most one preemption", func(y func(together) bool) {
				for i := range ops {
					for j := i; j < len(ops); j++ {
						for k := j; k < len(ops); k++ {
							if !y(together{Ops: []int{i, j, k}, Preemptions: 1}) {
								return
							}
						}
					}
				}
			}, togetherOne)
		}
		Explore(x, "every pair of calls under the race detector", func(y func(raceRow) bool) {
			for i := range ops {
				if !y(raceRow{i}) {
					return
				}
			}
		}, raceOne)
	}, "Interleavings are explored at the points where a call uses what it was given (files, readers, writers, callbacks); in between, the race detector shows that calls share nothing they do not synchronize.",
		"SetTokenChanCap is not called concurrently: it sets a global, as the library's tests do.")
}
