package main

import (
	"errors"
	"fmt"
	"io"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// The reference model of Parse: what the documentation and nginx say a parse means, over whole token lists.
// It shares no code with the implementation; only the data types of the result are the library's.

type rErr struct {
	What  string
	File  string
	Line  int
	Stmt  string
	Block string
	Raw   bool // not a ParseError: only What counts
	Prem  bool // the file ended too early
}

func (e *rErr) dump() string {
	if e.Raw {
		return "raw:" + e.What
	}
	return fmt.Sprintf("%s|%s:%d|%q|%s", e.What, e.File, e.Line, e.Stmt, e.Block)
}

type rConfig struct {
	File   string
	Errs   []*rErr
	Parsed []*crossplane.Directive
	Failed bool
}

type rPayload struct {
	Errs    []*rErr
	ErrFile []string
	Configs []*rConfig
}

// bits of the masks, as in nginx (ngx_conf_file.h) and this library's tables
const (
	bNoArgs = 1 << 0
	bBlock  = 1 << 8
	bExpr   = 1 << 9
	bFlag   = 1 << 10
	bAny    = 1 << 11
	b1More  = 1 << 12
	b2More  = 1 << 13
)

var ctxBits = map[string]uint{
	"":                           1 << 18,
	"events":                     1 << 19,
	"mail":                       1 << 20,
	"mail>server":                1 << 21,
	"stream":                     1 << 22,
	"stream>server":              1 << 23,
	"stream>upstream":            1 << 24,
	"http":                       1 << 25,
	"http>server":                1 << 26,
	"http>location":              1 << 27,
	"http>upstream":              1 << 28,
	"http>server>if":             1 << 29,
	"http>location>if":           1 << 30,
	"http>location>limit_except": 1 << 31,
	"mgmt":                       1 << 17,
	"http>oidc_provider":         1 << 32,
}

// ctxBit finds the bit of a context, which is known only if each of its blocks has exactly the name nginx gives it.
func ctxBit(ctx []string) (uint, bool) {
	if len(ctx) > 3 || len(ctx) == 1 && ctx[0] == "" {
		return 0, false
	}
	for _, name := range ctx {
		if strings.Contains(name, ">") {
			return 0, false
		}
	}
	bit, ok := ctxBits[strings.Join(ctx, ">")]
	return bit, ok
}

type mapRule struct {
	more  bool // one or more values; else exactly one
	exact map[string]int
}

var mapRules = map[string]mapRule{
	"charset_map":   {},
	"geo":           {exact: map[string]int{"ranges": 0, "proxy_recursive": 0}},
	"map":           {exact: map[string]int{"volatile": 0, "hostnames": 0}},
	"match":         {more: true},
	"types":         {more: true},
	"split_clients": {},
	"geoip2":        {more: true, exact: map[string]int{"auto_reload": 1}},
	"otel_exporter": {},
}

type refParser struct {
	o     *crossplane.ParseOptions
	dir   string
	open  func(string) (string, error)
	glob  func(string) ([]string, error)
	index map[string]int
	queue []refFile
	edges map[string][]string
	pay   *rPayload
	cfg   *rConfig
	toks  []tok
	pos   int
}

type refFile struct {
	path string
	ctx  []string
}

type fatal struct{ e *rErr }

func lastOf(ctx []string) string {
	if len(ctx) == 0 {
		return "main"
	}
	return ctx[len(ctx)-1]
}

// refParse returns the payload, or the error that Parse returns.
func refParse(main string, o *crossplane.ParseOptions, open func(string) (string, error), glob func(string) ([]string, error), ext map[string]refExt) (*rPayload, *rErr) {
	return refParseToks(main, o, open, glob, func(_, src string) []tok { return refLex(src, ext) })
}

// refParseToks is refParse with the tokens of each file given.
func refParseToks(main string, o *crossplane.ParseOptions, open func(string) (string, error), glob func(string) ([]string, error), lex func(path, src string) []tok) (*rPayload, *rErr) {
	p := &refParser{o: o, dir: filepath.Dir(main), open: open, glob: glob,
		index: map[string]int{main: 0}, queue: []refFile{{main, nil}}, edges: map[string][]string{}, pay: &rPayload{}}
	for len(p.queue) > 0 {
		f := p.queue[0]
		p.queue = p.queue[1:]
		src, err := open(f.path)
		if err != nil {
			return nil, &rErr{What: err.Error(), Raw: true}
		}
		p.cfg = &rConfig{File: f.path}
		p.toks, p.pos = lex(f.path, src), 0
		parsed, fe := p.file(f.ctx)
		if fe != nil {
			if o.StopParsingOnError {
				return nil, fe
			}
			p.report(fe)
		} else {
			p.cfg.Parsed = parsed
		}
		p.pay.Configs = append(p.pay.Configs, p.cfg)
	}
	if p.cyclic() {
		return nil, &rErr{What: "configs contain include cycle", Raw: true}
	}
	if o.CombineConfigs {
		return refCombine(p.pay), nil
	}
	return p.pay, nil
}

func (p *refParser) file(ctx []string) (ds []*crossplane.Directive, fe *rErr) {
	defer func() {
		if r := recover(); r != nil {
			f, ok := r.(fatal)
			if !ok {
				panic(r)
			}
			ds, fe = nil, f.e
		}
	}()
	return p.block(ctx), nil
}

func (p *refParser) report(e *rErr) {
	p.cfg.Failed = true
	p.cfg.Errs = append(p.cfg.Errs, e)
	p.pay.Errs = append(p.pay.Errs, e)
	p.pay.ErrFile = append(p.pay.ErrFile, p.cfg.File)
}

func (p *refParser) lexErr(t tok, ctx []string) fatal {
	return fatal{&rErr{What: t.E, File: p.cfg.File, Line: t.EL, Block: lastOf(ctx), Prem: t.Prem}}
}

// skip passes over the rest of a block.
func (p *refParser) skip() {
	depth := 1
	for p.pos < len(p.toks) {
		t := p.toks[p.pos]
		p.pos++
		switch {
		case t.isErr():
			panic(p.lexErr(t, nil))
		case t.special("{"):
			depth++
		case t.special("}"):
			depth--
			if depth == 0 {
				return
			}
		}
	}
}

func stmtText(d *crossplane.Directive) string { return d.Directive + " " + strings.Join(d.Args, " ") }

func (p *refParser) block(ctx []string) []*crossplane.Directive {
	var out []*crossplane.Directive
	fileName := ""
	if p.o.CombineConfigs {
		fileName = p.cfg.File
	}
	comment := func(text string, line int) {
		if p.o.ParseComments {
			c := text[1:]
			out = append(out, &crossplane.Directive{Directive: "#", Line: line, Comment: &c, File: fileName})
		}
	}
	for p.pos < len(p.toks) {
		t := p.toks[p.pos]
		p.pos++
		if t.isErr() {
			panic(p.lexErr(t, ctx))
		}
		if t.special("}") {
			return out
		}
		if !t.Q && strings.HasPrefix(t.V, "#") {
			comment(t.V, t.L)
			continue
		}
		d := &crossplane.Directive{Directive: t.V, Line: t.L, File: fileName}
		var inArgs []string
		term := ""
		for term == "" {
			if p.pos >= len(p.toks) || p.toks[p.pos].Prem {
				panic(fatal{&rErr{What: "premature end of file", File: p.cfg.File, Line: d.Line, Block: lastOf(ctx), Prem: true}})
			}
			a := p.toks[p.pos]
			p.pos++
			switch {
			case a.isErr():
				panic(p.lexErr(a, ctx))
			case a.anySpecial():
				term = a.V
			case !a.Q && strings.HasPrefix(a.V, "#"):
				inArgs = append(inArgs, a.V)
			default:
				d.Args = append(d.Args, a.V)
			}
		}
		// bad passes over an invalid or ignored statement; true if the block it is in ended with it
		bad := func() bool {
			if term == "{" {
				p.skip()
			}
			return term == "}"
		}
		fail := func(what string) bool {
			e := &rErr{What: what, File: p.cfg.File, Line: d.Line, Stmt: stmtText(d), Block: lastOf(ctx)}
			if p.o.StopParsingOnError {
				panic(fatal{e})
			}
			p.report(e)
			return bad()
		}
		keep := func() {
			out = append(out, d)
			for _, c := range inArgs {
				comment(c, d.Line)
			}
		}

		if rule, ok := mapRules[lastOf(ctx)]; ok && len(ctx) > 0 {
			if what := rule.check(d, term); what != "" {
				if fail(what) {
					return out
				}
				continue
			}
			d.IsMapBlockParameter = true
			keep()
			continue
		}
		ignored := false
		for _, n := range p.o.IgnoreDirectives {
			ignored = ignored || n == d.Directive
		}
		if ignored {
			if bad() {
				return out
			}
			continue
		}
		what := refAnalyze(d, term, ctx, p.o)
		if what == "" && term == "}" {
			what = fmt.Sprintf(`directive "%s" is not terminated by ";"`, d.Directive)
		}
		if what != "" {
			if fail(what) {
				return out
			}
			continue
		}
		if d.Directive == "if" {
			d.Args = refCondition(d.Args)
		}
		if d.Directive == "include" && !p.o.SingleFile {
			p.include(d, ctx)
		}
		if term == "{" {
			d.Block = append(crossplane.Directives{}, p.block(enter(ctx, d.Directive))...)
		}
		keep()
	}
	return out
}

func enter(ctx []string, name string) []string {
	if len(ctx) > 0 && ctx[0] == "http" && name == "location" {
		return []string{"http", "location"}
	}
	if name == "" {
		name = `""` // how errors name the block
	}
	return append(append([]string{}, ctx...), name)
}

func (r mapRule) check(d *crossplane.Directive, term string) string {
	if term != ";" {
		return fmt.Sprintf(`unexpected "%s"`, term)
	}
	ok := len(d.Args) == 1 || r.more && len(d.Args) > 1
	if n, special := r.exact[d.Directive]; special {
		ok = len(d.Args) == n
	}
	if !ok {
		return "invalid number of parameters"
	}
	return ""
}

// refAnalyze returns what is wrong with a statement.
func refAnalyze(d *crossplane.Directive, term string, ctx []string, o *crossplane.ParseOptions) string {
	sources := o.DirectiveSources
	if len(sources) == 0 {
		sources = []crossplane.MatchFunc{crossplane.DefaultDirectivesMatchFunc}
	}
	var masks []uint
	known := false
	for _, f := range sources {
		if m, ok := f(d.Directive); ok {
			known = true
			masks = append(masks, m...)
		}
	}
	if !known {
		if o.ErrorOnUnknownDirectives {
			return fmt.Sprintf(`unknown directive "%s"`, d.Directive)
		}
		return ""
	}
	bit, knownCtx := ctxBit(ctx)
	if !knownCtx {
		return ""
	}
	var here []uint
	for _, m := range masks {
		if o.SkipDirectiveContextCheck || m&bit != 0 {
			here = append(here, m)
		}
	}
	if len(here) == 0 {
		return fmt.Sprintf(`"%s" directive is not allowed here`, d.Directive)
	}
	if o.SkipDirectiveArgsCheck {
		return ""
	}
	what := ""
	for _, m := range here {
		w := refMask(d, term, m)
		if w == "" {
			return ""
		}
		what = w
	}
	return what
}

// refMask returns why a mask does not accept a statement.
func refMask(d *crossplane.Directive, term string, m uint) string {
	n := len(d.Args)
	if m&bExpr != 0 && !refEnclosed(d.Args) {
		return fmt.Sprintf(`directive "%s"'s is not enclosed in parentheses`, d.Directive)
	}
	if m&bBlock != 0 {
		if term != "{" {
			return fmt.Sprintf(`directive "%s" has no opening "{"`, d.Directive)
		}
	} else if term != ";" {
		return fmt.Sprintf(`directive "%s" is not terminated by ";"`, d.Directive)
	}
	if m&bAny != 0 || m&b1More != 0 && n >= 1 || m&b2More != 0 && n >= 2 || n < 8 && m&(bNoArgs<<n) != 0 {
		return ""
	}
	if m&bFlag != 0 && n == 1 {
		if v := strings.ToLower(d.Args[0]); v == "on" || v == "off" {
			return ""
		}
		return fmt.Sprintf(`invalid value "%s" in "%s" directive, it must be "on" or "off"`, d.Args[0], d.Directive)
	}
	return fmt.Sprintf(`invalid number of arguments in "%s" directive`, d.Directive)
}

// refEnclosed reports whether the arguments are a non-empty expression in parentheses.
func refEnclosed(args []string) bool {
	all := strings.Join(args, "")
	if len(args) == 0 || !strings.HasPrefix(args[0], "(") || !strings.HasSuffix(args[len(args)-1], ")") {
		return false
	}
	// () and ( ) are empty; a third argument, even an empty string, is a condition
	return len(args) > 2 || len(all) > 2
}

func refCondition(args []string) []string {
	n := len(args)
	if n == 0 || !strings.HasPrefix(args[0], "(") || !strings.HasSuffix(args[n-1], ")") {
		return args
	}
	out := append([]string{}, args...)
	out[0] = strings.TrimLeftFunc(out[0][1:], unicode.IsSpace)
	out[n-1] = strings.TrimRightFunc(strings.TrimSuffix(out[n-1], ")"), unicode.IsSpace)
	if out[n-1] == "" {
		out = out[:n-1]
	}
	if len(out) > 0 && out[0] == "" && (n > 1 || len(out) == 1) {
		out = out[1:]
	}
	return out
}

var magic = regexp.MustCompile(`[*?[]`)

func (p *refParser) include(d *crossplane.Directive, ctx []string) {
	stop := func(e *rErr) bool {
		if p.o.StopParsingOnError {
			panic(fatal{e})
		}
		p.report(e)
		return true
	}
	if len(d.Args) == 0 {
		panic(fatal{&rErr{What: fmt.Sprintf(`invalid number of arguments in "%s" directive in %s:%d`, d.Directive, p.cfg.File, d.Line),
			File: p.cfg.File, Line: d.Line, Stmt: stmtText(d), Block: lastOf(ctx)}})
	}
	pat := d.Args[0]
	if !strings.HasPrefix(pat, "/") {
		pat = filepath.Join(p.dir, pat)
	}
	var files []string
	if magic.MatchString(pat) {
		g, err := p.glob(pat)
		if err != nil {
			stop(&rErr{What: err.Error(), File: p.cfg.File, Line: d.Line, Stmt: stmtText(d), Block: lastOf(ctx)})
			return
		}
		files = append(files, g...)
		sort.Strings(files)
	} else if _, err := p.open(pat); err != nil {
		stop(&rErr{What: err.Error(), File: p.cfg.File, Line: d.Line, Stmt: stmtText(d), Block: lastOf(ctx)})
		return
	} else {
		files = []string{pat}
	}
	for _, f := range files {
		if _, seen := p.index[f]; !seen {
			p.index[f] = len(p.index)
			p.queue = append(p.queue, refFile{f, ctx})
		}
		d.Includes = append(d.Includes, p.index[f])
		p.edges[p.cfg.File] = append(p.edges[p.cfg.File], f)
	}
}

func (p *refParser) cyclic() bool {
	state := map[string]int{}
	var visit func(string) bool
	visit = func(f string) bool {
		if state[f] != 0 {
			return state[f] == 1
		}
		state[f] = 1
		for _, g := range p.edges[f] {
			if visit(g) {
				return true
			}
		}
		state[f] = 2
		return false
	}
	for f := range p.index {
		if visit(f) {
			return true
		}
	}
	return false
}

// refCombine expands every include in place.
func refCombine(p *rPayload) *rPayload {
	if len(p.Configs) == 0 {
		return p
	}
	out := &rConfig{File: p.Configs[0].File}
	for _, c := range p.Configs {
		out.Errs = append(out.Errs, c.Errs...)
		out.Failed = out.Failed || c.Failed
	}
	var expand func(ds []*crossplane.Directive) []*crossplane.Directive
	expand = func(ds []*crossplane.Directive) []*crossplane.Directive {
		res := []*crossplane.Directive{}
		for _, d := range ds {
			if d.Directive == "include" && d.Includes != nil {
				for _, i := range d.Includes {
					res = append(res, expand(p.Configs[i].Parsed)...)
				}
				continue
			}
			c := *d
			if d.Block != nil {
				c.Block = expand(d.Block)
			}
			res = append(res, &c)
		}
		return res
	}
	out.Parsed = expand(p.Configs[0].Parsed)
	return &rPayload{Errs: p.Errs, ErrFile: p.ErrFile, Configs: []*rConfig{out}}
}

// ---- canonical text of payloads, to compare and count them ----

type dumper struct {
	b       []byte
	noLines bool
}

func (w *dumper) dirs(ds []*crossplane.Directive) {
	for _, d := range ds {
		w.dir(d)
	}
}

func (w *dumper) dir(d *crossplane.Directive) {
	if d == nil {
		w.b = append(w.b, "<nil>"...)
		return
	}
	w.b = append(w.b, d.Directive...)
	if !w.noLines {
		w.b = append(w.b, '@')
		w.b = strconv.AppendInt(w.b, int64(d.Line), 10)
	}
	for _, a := range d.Args {
		w.b = append(w.b, ' ')
		w.b = strconv.AppendQuote(w.b, a)
	}
	if d.File != "" {
		w.b = append(append(w.b, " file="...), d.File...)
	}
	if d.Includes != nil {
		w.b = append(w.b, " incl="...)
		for _, i := range d.Includes {
			w.b = append(strconv.AppendInt(w.b, int64(i), 10), ',')
		}
	}
	if d.Comment != nil {
		w.b = append(append(append(w.b, " comment=<"...), *d.Comment...), '>')
	}
	if d.IsMapBlockParameter {
		w.b = append(w.b, " mapparam"...)
	}
	if d.Block != nil {
		w.b = append(w.b, " {"...)
		w.dirs(d.Block)
		w.b = append(w.b, '}')
	}
	w.b = append(w.b, ';')
}

func dumpDirs(ds []*crossplane.Directive) string {
	w := &dumper{}
	w.dirs(ds)
	return string(w.b)
}

func dumpDirsNoLines(ds []*crossplane.Directive) string {
	w := &dumper{noLines: true}
	w.dirs(ds)
	return string(w.b)
}

func dumpErr(err error) string {
	if err == nil {
		return "nil"
	}
	var pe *crossplane.ParseError
	if errors.As(err, &pe) {
		e := rErr{What: pe.What, Stmt: pe.Statement, Block: pe.BlockCtx}
		if pe.File != nil {
			e.File = *pe.File
		}
		if pe.Line != nil {
			e.Line = *pe.Line
		}
		return e.dump()
	}
	return "raw:" + err.Error()
}

func (p *rPayload) dump() string {
	w := &dumper{}
	add := func(s string) { w.b = append(w.b, s...) }
	if len(p.Errs) > 0 {
		add("failed\n")
	} else {
		add("ok\n")
	}
	for i, e := range p.Errs {
		add("ERR " + p.ErrFile[i] + " " + lineOf(e) + " " + e.dump() + "\n")
	}
	for _, c := range p.Configs {
		st := "ok"
		if c.Failed {
			st = "failed"
		}
		add("FILE " + c.File + " " + st + "\n")
		for _, e := range c.Errs {
			add(" err " + lineOf(e) + " " + e.dump() + "\n")
		}
		add(" ")
		w.dirs(c.Parsed)
		add("\n")
	}
	return string(w.b)
}

func lineOf(e *rErr) string {
	if e.Raw {
		return "-"
	}
	return strconv.Itoa(e.Line)
}

func dumpPayload(p *crossplane.Payload) string {
	if p == nil {
		return "<nil payload>"
	}
	w := &dumper{}
	add := func(s string) { w.b = append(w.b, s...) }
	ln := func(l *int) string {
		if l == nil {
			return "-"
		}
		return strconv.Itoa(*l)
	}
	add(p.Status + "\n")
	for _, e := range p.Errors {
		add("ERR " + e.File + " " + ln(e.Line) + " " + dumpErr(e.Error) + "\n")
	}
	for _, c := range p.Config {
		add("FILE " + c.File + " " + c.Status + "\n")
		for _, e := range c.Errors {
			add(" err " + ln(e.Line) + " " + dumpErr(e.Error) + "\n")
		}
		add(" ")
		w.dirs(c.Parsed)
		add("\n")
	}
	return string(w.b)
}

// ---- running the real Parse over files in memory ----

type memFS map[string]string

type memFile struct {
	*strings.Reader
	fs *memLog
	n  string
}

func (f *memFile) Close() error {
	if f.fs != nil {
		f.fs.closed[f.n]++
	}
	return nil
}

type memLog struct {
	opened []string
	closed map[string]int
	globs  []string
}

func (m memFS) openText(path string) (string, error) {
	if s, ok := m[path]; ok {
		return s, nil
	}
	return "", fmt.Errorf("open %s: no such file", path)
}

func (m memFS) open(path string) (io.ReadCloser, error) {
	s, err := m.openText(path)
	if err != nil {
		return &memFile{Reader: strings.NewReader("what=comes with an error;")}, err // means nothing
	}
	return &memFile{Reader: strings.NewReader(s)}, nil
}

func (m memFS) globText(pattern string) ([]string, error) {
	var out []string
	var bad error
	for f := range m {
		ok, err := filepath.Match(pattern, f)
		if err != nil {
			bad = err
		}
		if ok || err != nil { // what comes with an error means nothing
			out = append(out, f)
		}
	}
	sort.Sort(sort.Reverse(sort.StringSlice(out))) // Parse must sort
	return out, bad
}

// parseBoth runs the model and the implementation and returns their canonical results.
func parseBoth(m memFS, main string, o crossplane.ParseOptions, ext map[string]refExt) (want, got string, wp *rPayload, gp *crossplane.Payload) {
	wp, we := refParse(main, &o, m.openText, m.globText, ext)
	if we != nil {
		want = "error " + we.dump()
		wp = nil
	} else {
		want = wp.dump()
	}
	o.Open, o.Glob = m.open, m.globText
	gp, err := crossplane.Parse(main, &o)
	if err != nil {
		got = "error " + dumpErr(err)
		if gp != nil {
			got += " with a payload"
		}
		gp = nil
	} else {
		got = dumpPayload(gp)
	}
	return
}

func differ(what, want, got string) error {
	if want == got {
		return nil
	}
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	return fmt.Errorf("%s\n model: %s\n  real: %s\n (first difference at byte %d: model %q, real %q)", what, clip(want, 1500), clip(got, 1500), i, clip(want[i:], 60), clip(got[i:], 60))
}
