package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/internal/generator"
)

// ---- what masks mean to nginx ----

// frames24 are what to write around a statement to put it in a context, by the mask of the context.
var frames24 = []struct{ mask, frame string }{
	{"NGX_MAIN_CONF", "%s"}, {"NGX_EVENT_CONF", "events {%s}"}, {"NGX_MAIL_MAIN_CONF", "mail {%s}"}, {"NGX_MAIL_SRV_CONF", "mail {server {%s}}"},
	{"NGX_STREAM_MAIN_CONF", "stream {%s}"}, {"NGX_STREAM_SRV_CONF", "stream {server {%s}}"}, {"NGX_STREAM_UPS_CONF", "stream {upstream u {%s}}"},
	{"NGX_HTTP_MAIN_CONF", "http {%s}"}, {"NGX_HTTP_SRV_CONF", "http {server {%s}}"}, {"NGX_HTTP_LOC_CONF", "http {location / {%s}}"},
	{"NGX_HTTP_LOC_CONF", "http {server {location / {location /a {%s}}}}"}, {"NGX_HTTP_UPS_CONF", "http {upstream u {%s}}"},
	{"NGX_HTTP_SIF_CONF", "http {server {if (a) {%s}}}"}, {"NGX_HTTP_LIF_CONF", "http {server {location / {if (a) {%s}}}}"},
	{"NGX_HTTP_LMT_CONF", "http {server {location / {limit_except GET {%s}}}}"},
}

// takes reports whether a mask of argument counts allows n arguments, the first of them being first.
func takes(mask string, n int, first string) bool {
	switch mask {
	case "NGX_CONF_NOARGS":
		return n == 0
	case "NGX_CONF_ANY":
		return true
	case "NGX_CONF_1MORE":
		return n >= 1
	case "NGX_CONF_2MORE":
		return n >= 2
	case "NGX_CONF_FLAG":
		return n == 1 && (strings.EqualFold(first, "on") || strings.EqualFold(first, "off"))
	}
	if digits, ok := strings.CutPrefix(mask, "NGX_CONF_TAKE"); ok {
		return n < 10 && strings.Contains(digits, strconv.Itoa(n)) // each digit is a count: TAKE123 is 1, 2 or 3
	}
	return false
}

var args24 = []string{"", " a", " on", " OFF", " a b", " on off", " a b c", " a b c d", " a b c d e", " a b c d e f", " a b c d e f g", " a b c d e f g h", " a b c d e f g h i", " a b c d e f g h i j k"}

// source24 writes a directive everywhere, and allowed24 lists the lines where it may not be.
func source24(name string) string {
	var b strings.Builder
	for _, f := range frames24 {
		for _, a := range args24 {
			for _, e := range []string{";", "{}"} {
				b.WriteString(strings.Replace(f.frame, "%s", name+a+e, 1) + "\n")
			}
		}
	}
	return b.String()
}

func badLines24(masks [][]string) string {
	var bad []int
	line := 0
	for _, f := range frames24 {
		for _, a := range args24 {
			for _, e := range []string{";", "{}"} {
				line++
				args := strings.Fields(a)
				ok := false
				for _, ms := range masks {
					here, form, count := false, e == ";", false
					for _, m := range ms {
						here = here || m == f.mask || m == "NGX_ANY_CONF"
						if m == "NGX_CONF_BLOCK" {
							form = e == "{}"
						}
						count = count || takes(m, len(args), strings.Join(args, " "))
					}
					ok = ok || here && form && count
				}
				if !ok {
					bad = append(bad, line)
				}
			}
		}
	}
	return fmt.Sprint(bad)
}

// ---- generated files, compiled into the package ----

type genFile struct {
	Source   string
	Config   generator.GenerateConfig
	Defs     map[string][][]string // in masks of C
	Extra    map[string][]uint     // directives with masks that C does not have
	Comment  string
	compiled map[string][]uint
}

var (
	oneSource = cArray("a", entry("d1", "NGX_MAIN_CONF|NGX_CONF_TAKE1"), entry("d2", "NGX_HTTP_MAIN_CONF|NGX_CONF_FLAG"), entry("d1", "NGX_EVENT_CONF|NGX_CONF_NOARGS"))
	oneDefs   = map[string][][]string{"d1": {{"NGX_MAIN_CONF", "NGX_CONF_TAKE1"}, {"NGX_EVENT_CONF", "NGX_CONF_NOARGS"}}, "d2": {{"NGX_HTTP_MAIN_CONF", "NGX_CONF_FLAG"}}}
)

func genFiles() (files []*genFile) {
	big := &genFile{Defs: map[string][][]string{}}
	names := cMaskNames()
	var entries []string
	for i, a := range names {
		n := fmt.Sprintf("one_%d", i)
		big.Defs[n] = [][]string{{a}}
		entries = append(entries, entry(n, a))
		for j := i + 1; j < len(names); j++ {
			b := names[j]
			n := fmt.Sprintf("two_%d_%d", i, j)
			big.Defs[n] = [][]string{{a, b}}
			entries = append(entries, entry(n, a+"|"+b))
			n = fmt.Sprintf("list_%d_%d", i, j)
			big.Defs[n] = [][]string{{a, "NGX_HTTP_LOC_CONF", "NGX_CONF_TAKE2"}, {"NGX_CONF_FLAG", b, "NGX_MAIN_CONF"}}
			entries = append(entries, entry(n, a+"|NGX_HTTP_LOC_CONF|NGX_CONF_TAKE2"), entry(n, "NGX_CONF_FLAG|"+b+"|NGX_MAIN_CONF"))
		}
	}
	// every context with every count, as plain statement and as block
	for _, f := range frames24 {
		for _, a := range names {
			if !strings.HasPrefix(a, "NGX_CONF_") {
				continue
			}
			for _, blk := range []string{"", "|NGX_CONF_BLOCK"} {
				n := fmt.Sprintf("ctx_%s_%s%d", f.mask, a, len(blk))
				big.Defs[n] = [][]string{strings.Split(f.mask+"|"+a+blk, "|")}
				entries = append(entries, entry(n, f.mask+"|"+a+blk))
				if _, twice := big.Defs[n]; twice && f.frame == "http {server {location / {location /a {%s}}}}" {
					entries = entries[:len(entries)-1]
				}
			}
		}
	}
	big.Source = cArray("big", entries...)
	files = append(files, big)
	for _, c := range []string{"", "Match matches.", "one\ntwo", "one\n\nthree\n", "// one", "/* */ \"' {{ . }} <&>", "é\tx", "a\r\nb", "\n"} {
		files = append(files, &genFile{Source: oneSource, Defs: oneDefs, Comment: c})
	}
	files = append(files,
		&genFile{Source: oneSource, Config: generator.GenerateConfig{Filter: generator.Filters{"d1": {}, "d2": {}}}},
		&genFile{Source: oneSource, Defs: map[string][][]string{"d1": oneDefs["d1"]}, Config: generator.GenerateConfig{Filter: generator.Filters{"d2": {}}}},
		&genFile{Source: oneSource, Defs: map[string][][]string{"d1": oneDefs["d1"]}, Extra: map[string][]uint{"d2": {0x40000 | 0x200 | 0x100, 0x20000}},
			Config: generator.GenerateConfig{Override: map[string][]generator.Mask{"d2": {{"ngxMainConf", "ngxConfExpr", "ngxConfBlock"}, {"ngxMgmtMainConf"}}}}},
	)
	for i, f := range files {
		f.Config.DirectiveMapName = fmt.Sprintf("verifMap%d", i)
		f.Config.MatchFuncName = fmt.Sprintf("VerifMatch%d", i)
		f.Config.MatchFuncComment = f.Comment
	}
	return
}

// goBuild builds a package of the harness with an overlay.
func goBuild(out, overlay, pkg string) error {
	args := []string{"build", "-o", out}
	if overlay != "" {
		args = append(args, "-overlay", overlay)
	}
	cmd := exec.Command("go", append(args, pkg)...)
	cmd.Dir = harnessDir()
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("go build %s: %w\n%s", pkg, err, clip(string(b), 3000))
	}
	return nil
}

func harnessDir() string {
	if d := os.Getenv("VH_SRC"); d != "" {
		return d
	}
	return "/verif/harness"
}

func repoDir() string { return "/repo" }

// compileAll generates the files, compiles them into the package, and runs every match function.
func compileAll(files []*genFile) error {
	dir, err := os.MkdirTemp("", "vhgen")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	replace := map[string]string{}
	var drv strings.Builder
	drv.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"os\"\n\n\tcrossplane \"github.com/nginxinc/nginx-go-crossplane\"\n)\n\nfunc main() {\n\tall := []map[string][]uint{}\n\tadd := func(f crossplane.MatchFunc, names ...string) {\n\t\tm := map[string][]uint{}\n\t\tfor _, n := range names {\n\t\t\tif masks, ok := f(n); ok {\n\t\t\t\tm[n] = masks\n\t\t\t} else if masks != nil {\n\t\t\t\tpanic(n)\n\t\t\t}\n\t\t}\n\t\tall = append(all, m)\n\t}\n")
	for i, f := range files {
		c := filepath.Join(dir, fmt.Sprintf("s%d.c", i))
		if err := os.WriteFile(c, []byte(f.Source), 0o644); err != nil {
			return nil
		}
		var out bytes.Buffer
		if err := generator.Generate(c, &out, f.Config); err != nil {
			return fmt.Errorf("generating %d: %w", i, err)
		}
		g, err := readGenerated(out.String())
		if err != nil {
			return fmt.Errorf("comment %q: %w", f.Comment, err)
		}
		squeeze := func(s string) string { return strings.Join(strings.Fields(s), " ") }
		if g.Map != f.Config.DirectiveMapName || g.Func != f.Config.MatchFuncName || squeeze(g.Above) != squeeze(f.Comment) {
			return fmt.Errorf("names and comment are %q; want %q %q %q", []string{g.Map, g.Func, g.Above}, f.Config.DirectiveMapName, f.Config.MatchFuncName, f.Comment)
		}
		to := filepath.Join(dir, fmt.Sprintf("g%d.go", i))
		if err := os.WriteFile(to, out.Bytes(), 0o644); err != nil {
			return nil
		}
		replace[filepath.Join(repoDir(), fmt.Sprintf("zz_verif%d.gen.go", i))] = to
		fmt.Fprintf(&drv, "\tadd(crossplane.%s", f.Config.MatchFuncName)
		for _, n := range namesOf(f) {
			fmt.Fprintf(&drv, ", %q", n)
		}
		drv.WriteString(")\n")
	}
	drv.WriteString("\t_ = json.NewEncoder(os.Stdout).Encode(all)\n}\n")
	main := filepath.Join(dir, "main.go")
	overlay := filepath.Join(dir, "overlay.json")
	replace[filepath.Join(harnessDir(), "zzdriver", "main.go")] = main
	ov, _ := json.Marshal(map[string]any{"Replace": replace})
	if os.WriteFile(main, []byte(drv.String()), 0o644) != nil || os.WriteFile(overlay, ov, 0o644) != nil {
		return nil
	}
	exe := filepath.Join(dir, "driver")
	if err := goBuild(exe, overlay, "./zzdriver"); err != nil {
		return fmt.Errorf("what the generator writes does not compile: %w", err)
	}
	out, err := exec.Command(exe).Output()
	if err != nil {
		return fmt.Errorf("the generated match functions: %w", err)
	}
	var all []map[string][]uint
	if err := json.Unmarshal(out, &all); err != nil || len(all) != len(files) {
		return fmt.Errorf("the generated match functions: %q %v", out, err)
	}
	for i, f := range files {
		f.compiled = all[i]
	}
	return nil
}

// namesOf are the names to ask about: the defined ones, and others.
func namesOf(f *genFile) (names []string) {
	for n := range f.Defs {
		names = append(names, n)
	}
	for n := range f.Extra {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range []string{"d1", "d2", "D1", "", "listen", "http", "d"} {
		if f.Defs[n] == nil && f.Extra[n] == nil {
			names = append(names, n)
		}
	}
	return
}

type meaning struct {
	File int
	Name string
}

var built struct {
	sync.Once
	files []*genFile
	err   error
}

func builtFiles() ([]*genFile, error) {
	built.Do(func() {
		built.files = genFiles()
		built.err = compileAll(built.files)
	})
	return built.files, built.err
}

func meaningOne(w *W, m meaning) error {
	files, err := builtFiles()
	if err != nil {
		return err
	}
	f := files[m.File]
	masks, found := f.compiled[m.Name]
	defined := f.Defs[m.Name] != nil || f.Extra[m.Name] != nil
	if found != defined {
		return fmt.Errorf("found: %v, defined: %v", found, defined)
	}
	if !found {
		return nil
	}
	if ex := f.Extra[m.Name]; ex != nil {
		return differ("masks", fmt.Sprint(ex), fmt.Sprint(masks))
	}
	src := source24(m.Name)
	o := crossplane.ParseOptions{
		Open:             memFS{"/m": src}.open,
		DirectiveSources: []crossplane.MatchFunc{func(n string) ([]uint, bool) { return masks, n == m.Name }},
	}
	p, err := crossplane.Parse("/m", &o)
	if err != nil {
		return err
	}
	lines := []int{}
	for _, e := range p.Config[0].Errors {
		lines = append(lines, *e.Line)
	}
	w.Steps(len(frames24) * len(args24) * 2)
	want := badLines24(f.Defs[m.Name])
	w.State(want)
	if got := fmt.Sprint(lines); got != want {
		return fmt.Errorf("%s is defined as %v; lines that are refused:\nwant %s\ngot  %s\n%s", m.Name, f.Defs[m.Name], want, got, src)
	}
	return nil
}

// ---- the command ----

type cliCase struct {
	Args   []string
	Config string // the contents of the file that @CONFIG names
	// what to expect
	Fail  bool
	Any   bool // it may be refused, or not
	Map   string
	Func  string
	Above string
	Defs  defs
}

func (c cliCase) String() string { return fmt.Sprintf("generate %q with config %s", c.Args, c.Config) }

var cli struct {
	sync.Once
	exe, dir string
	err      error
}

func cliOne(w *W, c cliCase) error {
	cli.Do(func() {
		cli.dir, cli.err = os.MkdirTemp("", "vhcli")
		if cli.err == nil {
			scratch.Lock()
			scratch.dirs = append(scratch.dirs, cli.dir)
			scratch.Unlock()
			cli.exe = filepath.Join(cli.dir, "generate")
			cli.err = os.WriteFile(filepath.Join(cli.dir, "s.c"), []byte(oneSource), 0o644)
		}
		if cli.err == nil {
			cli.err = goBuild(cli.exe, "", "github.com/nginxinc/nginx-go-crossplane/cmd/generate")
		}
	})
	if cli.err != nil {
		return cli.err
	}
	config := ""
	if c.Config != "" {
		f, err := os.CreateTemp(cli.dir, "c")
		if err != nil {
			return nil
		}
		defer os.Remove(f.Name())
		f.WriteString(c.Config)
		f.Close()
		config = f.Name()
	}
	var args []string
	for _, a := range c.Args {
		args = append(args, strings.NewReplacer("@CONFIG", config, "@SRC", filepath.Join(cli.dir, "s.c"), "@NONE", filepath.Join(cli.dir, "none")).Replace(a))
	}
	cmd := exec.Command(cli.exe, args...)
	var out, msg bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &msg
	err := cmd.Run()
	w.Steps(1)
	if c.Any && err != nil {
		return nil
	}
	if c.Fail || err != nil {
		w.Outcome("fails")
		w.State("fails " + strings.Join(c.Args, " "))
		if !c.Fail {
			return fmt.Errorf("fails: %w\n%s", err, msg.String())
		}
		if err == nil {
			return fmt.Errorf("must fail, but writes\n%s", out.String())
		}
		if out.Len() > 0 {
			return fmt.Errorf("fails, and writes\n%s", out.String())
		}
		if strings.Contains(msg.String(), "panic") || strings.TrimSpace(msg.String()) == "" {
			return fmt.Errorf("fails with %q", msg.String())
		}
		return nil
	}
	if c.Any {
		return nil
	}
	g, err := readGenerated(out.String())
	if err != nil {
		return err
	}
	want := fmt.Sprintf("map %s func %s comment %q\n%s", c.Map, c.Func, c.Above, c.Defs)
	w.Outcome("writes")
	w.State(want)
	return differ("output", want, fmt.Sprintf("map %s func %s comment %q\n%s", g.Map, g.Func, g.Above, g.Defs))
}

func goDefs() defs {
	return defs{"d1": {{"ngxMainConf", "ngxConfTake1"}, {"ngxEventConf", "ngxConfNoArgs"}}, "d2": {{"ngxHTTPMainConf", "ngxConfFlag"}}}
}

// parseOverride reads the value of an override; odd are those whose masks are no names.
func parseOverride(s string) (name string, masks [][]string, ok, odd bool) {
	name, rest, ok := strings.Cut(s, ":")
	if name = strings.TrimSpace(name); !ok || name == "" {
		return "", nil, false, false
	}
	for _, m := range strings.Split(rest, ",") {
		var ms []string
		for _, v := range strings.Split(m, "|") {
			if v = strings.TrimSpace(v); v == "" {
				return "", nil, false, false
			}
			odd = odd || strings.ContainsAny(v, ": ")
			ms = append(ms, v)
		}
		masks = append(masks, ms)
	}
	return name, masks, true, odd
}

func cliOptions(y func(cliCase) bool) {
	// each of the five settings is in the config, on the command line, in both or in neither
	for bits := 0; bits < 1<<10; bits++ {
		c := cliCase{Args: []string{"-src-path", "@SRC"}, Defs: goDefs()}
		cfg := map[string]any{}
		has := func(k int) bool { return bits>>k&1 == 1 }
		if has(0) {
			cfg["directiveMapName"] = "cfgMap"
			c.Map = "cfgMap"
		}
		if has(1) {
			c.Args = append(c.Args, "-directive-map-name", "argMap")
			c.Map = "argMap"
		}
		if has(2) {
			cfg["matchFuncName"] = "CfgFunc"
			c.Func = "CfgFunc"
		}
		if has(3) {
			c.Args = append(c.Args, "-match-func-name=ArgFunc")
			c.Func = "ArgFunc"
		}
		if has(4) {
			cfg["matchFuncComment"] = "from config"
			c.Above = "from config"
		}
		if has(5) {
			c.Args = append(c.Args, "--match-func-comment", "from arguments")
			c.Above = "from arguments"
		}
		filter := ""
		if has(6) {
			cfg["filter"] = []string{"d2", "other"}
			filter = "d2"
		}
		if has(7) {
			c.Args = append(c.Args, "-filter", "d1", "-filter", "x")
			filter = "d1"
		}
		var over map[string][][]string
		if has(8) {
			over = map[string][][]string{"d1": {{"cfgA", "cfgB"}, {"cfgC"}}, "d2": {{"cfgD"}}}
			cfg["override"] = over
		}
		if has(9) {
			c.Args = append(c.Args, "-override", " d2 : argA | argB , argC", "-override=d3:argD")
			over = map[string][][]string{"d2": {{"argA", "argB"}, {"argC"}}, "d3": {{"argD"}}}
		}
		delete(c.Defs, filter)
		for n, ms := range over {
			if c.Defs[n] != nil {
				c.Defs[n] = ms
			}
		}
		if len(cfg) > 0 || has(0) {
			b, _ := json.Marshal(cfg)
			c.Config = string(b)
			c.Args = append(c.Args, "-config-path", "@CONFIG")
		}
		c.Fail = c.Map == "" || c.Func == ""
		if !y(c) {
			return
		}
	}
	names := []string{"-directive-map-name", "m", "-match-func-name", "F"}
	ok := cliCase{Map: "m", Func: "F", Defs: goDefs()}
	for _, bad := range []struct {
		args   []string
		config string
	}{
		{append([]string{}, names...), ""},
		{append([]string{"-src-path", ""}, names...), ""},
		{append([]string{"-src-path", "@NONE"}, names...), ""},
		{append([]string{"-src-path", "@SRC", "-config-path", "@NONE"}, names...), ""},
		{append([]string{"-src-path", "@SRC", "-unknown"}, names...), ""},
		{append([]string{"-src-path", "@SRC", "-config-path", "@CONFIG"}, names...), "{"},
		{append([]string{"-src-path", "@SRC", "-config-path", "@CONFIG"}, names...), "[]"},
		{append([]string{"-src-path", "@SRC", "-config-path", "@CONFIG"}, names...), `{"filter": {"d1": true}}`},
		{append([]string{"-src-path", "@SRC", "-config-path", "@CONFIG"}, names...), `{"override": {"d1": ["a"]}}`},
		{append([]string{"-src-path", "@SRC", "-config-path", "@CONFIG"}, names...), `{"override": "d1:a"}`},
		{append([]string{"-src-path", "@SRC", "-directive-map-name", ""}, names[2:]...), ""},
		{append([]string{"-src-path", "@SRC", "-match-func-name", ""}, names[:2]...), ""},
	} {
		if !y(cliCase{Args: bad.args, Config: bad.config, Fail: true}) {
			return
		}
	}
	for _, config := range []string{"{}", `{"filter": []}`, `{"override": {}}`, `{"filter": null, "override": null}`, `{"other": 1}`} {
		c := ok
		c.Args, c.Config = append([]string{"-src-path", "@SRC", "-config-path", "@CONFIG"}, names...), config
		if !y(c) {
			return
		}
	}
}

func cliOverrides(n int) func(func(cliCase) bool) {
	return func(y func(cliCase) bool) {
		base := []string{"-src-path", "@SRC", "-directive-map-name", "m", "-match-func-name", "F"}
		one := func(vs ...string) cliCase {
			c := cliCase{Args: append([]string{}, base...), Map: "m", Func: "F", Defs: goDefs()}
			over := map[string][][]string{}
			for _, v := range vs {
				c.Args = append(c.Args, "-override="+v)
				name, masks, ok, odd := parseOverride(v)
				c.Fail = c.Fail || !ok
				c.Any = c.Any || odd
				over[name] = masks
			}
			for d, ms := range over {
				if c.Defs[d] != nil {
					c.Defs[d] = ms
				}
			}
			if c.Fail {
				c.Any = false
			}
			return c
		}
		if !seqs([]string{"d1", ":", "|", ",", " ", "m"}, 0, n, func(t []string) bool { return y(one(strings.Join(t, ""))) }) {
			return
		}
		vs := []string{"d1:a", "d1:b|c", "d2:a,b", "d3:x", "d1", ":a", "d2:", " d2 : x ", "d1:a,", "\td1:\ta|b\n"}
		seqs(vs, 2, 3, func(t []string) bool { return y(one(t...)) })
	}
}

func init() {
	register("C24", func(x *X) {
		Explore(x, "every mask, every pair of masks, every context with every count; compiled and used", func(y func(meaning) bool) {
			for i, f := range genFiles() {
				for _, n := range namesOf(f) {
					if !y(meaning{i, n}) {
						return
					}
				}
			}
		}, meaningOne)
		Explore(x, "every combination of arguments and config of the command", cliOptions, cliOne)
		n := 4
		if x.thorough {
			n = 6
		}
		Explore(x, fmt.Sprintf("every override of up to %d tokens, and several", n), cliOverrides(n), cliOne)
		Explore(x, "every generated file of the package, against its config", func(y func(regeneration) bool) {
			files, _ := filepath.Glob(filepath.Join(repoDir(), "*.gen.go"))
			for _, f := range files {
				if !y(regeneration{filepath.Base(f)}) {
					return
				}
			}
		}, asConfigured)
		if haveGit() == nil {
			forms := 1
			if x.thorough {
				forms = 3
			}
			Explore(x, "generate.sh: every branch, path and set of options", scriptCases(forms), scriptOne)
			Explore(x, "go generate", func(y func(regeneration) bool) { y(regeneration{"every go:generate line"}) }, regenerateAll)
		}
		removeScratch()
	}, "The masks of nginx are those of its sources: ngx_conf_file.h and the configuration headers of its modules.")
}
