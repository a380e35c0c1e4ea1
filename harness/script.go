package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
)

// scripts/generate/generate.sh: the repositories it is given are local ones, made here.

type scriptCase struct {
	Args []string
	Fail bool
	Help bool
	want generated
}

func (c scriptCase) String() string { return fmt.Sprintf("generate.sh %q", c.Args) }

// what the directories of the branches of the repository define
var scriptTree = map[string]map[string]string{
	"master": {"r.c": "root", "src/s.c": "s", "src/a/x.c": "a", "src/b/y.cpp": "b", "other dir/z.c": "o", "src/no.h": "header"},
	"dev":    {"r.c": "devroot", "src/a/x.c": "deva", "src/new/n.c": "new"},
}

func scriptDefs(branch, path string) defs {
	d := defs{}
	for f, n := range scriptTree[branch] {
		if strings.HasSuffix(f, ".h") {
			continue
		}
		dir := filepath.Clean(path)
		if dir == "." || strings.HasPrefix(f, dir+"/") {
			d[n] = [][]string{{"ngxMainConf", "ngxConfTake1"}, {"ngxEventConf", "ngxConfNoArgs"}}
		}
	}
	return d
}

func scriptSource(name string) string {
	return fmt.Sprintf("static ngx_command_t  c[] = {\n    { ngx_string(\"%s\"),\n      NGX_MAIN_CONF|NGX_CONF_TAKE1,\n      f, 0, 0, NULL },\n    { ngx_string(\"%s\"), NGX_EVENT_CONF|NGX_CONF_NOARGS, f, 0, 0, NULL },\n    ngx_null_command\n};\n", name, name)
}

var gits struct {
	sync.Once
	dir string
	err error
}

func gitEnv(more ...string) []string {
	env := append(os.Environ(), "GIT_CONFIG_GLOBAL=/dev/null", "GIT_CONFIG_NOSYSTEM=1", "GIT_TERMINAL_PROMPT=0",
		"GIT_AUTHOR_NAME=v", "GIT_AUTHOR_EMAIL=v@v", "GIT_COMMITTER_NAME=v", "GIT_COMMITTER_EMAIL=v@v", "HOME="+gits.dir)
	if os.Getenv("GOCACHE") == "" {
		if b, err := exec.Command("go", "env", "GOCACHE").Output(); err == nil {
			env = append(env, "GOCACHE="+strings.TrimSpace(string(b)))
		}
	}
	if os.Getenv("GOMODCACHE") == "" {
		if b, err := exec.Command("go", "env", "GOMODCACHE").Output(); err == nil {
			env = append(env, "GOMODCACHE="+strings.TrimSpace(string(b)))
		}
	}
	return append(env, more...)
}

// makeRepo makes a repository whose branches have these files.
func makeRepo(dir string, branches map[string]map[string]string, source func(string) string) error {
	run := func(args ...string) error {
		cmd := exec.Command("git", append([]string{"-C", dir, "-c", "init.defaultBranch=master"}, args...)...)
		cmd.Env = gitEnv()
		if b, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("git %q: %w\n%s", args, err, b)
		}
		return nil
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	if err := run("init", "-q"); err != nil {
		return err
	}
	var names []string
	for b := range branches {
		names = append(names, b)
	}
	sort.Slice(names, func(i, j int) bool { return names[i] == "master" || names[j] != "master" && names[i] < names[j] })
	for _, b := range names {
		if err := run("checkout", "-q", "--orphan", b); err != nil && b != "master" {
			return err
		}
		if b != names[0] {
			if err := run("rm", "-rfq", "."); err != nil {
				return err
			}
		}
		for f, n := range branches[b] {
			p := filepath.Join(dir, f)
			if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
				return err
			}
			if err := os.WriteFile(p, []byte(source(n)), 0o644); err != nil {
				return err
			}
		}
		if err := run("add", "-A"); err != nil {
			return err
		}
		if err := run("commit", "-qm", b); err != nil {
			return err
		}
	}
	return run("checkout", "-q", "master")
}

func scriptSetup() error {
	gits.Do(func() {
		gits.dir, gits.err = os.MkdirTemp("", "vhgit")
		if gits.err != nil {
			return
		}
		scratch.Lock()
		scratch.dirs = append(scratch.dirs, gits.dir)
		scratch.Unlock()
		gits.err = makeRepo(filepath.Join(gits.dir, "repo"), scriptTree, scriptSource)
		b, _ := json.Marshal(map[string]any{"directiveMapName": "cfgMap", "matchFuncName": "CfgFunc", "matchFuncComment": "from config", "filter": []string{"b"}, "override": map[string]any{"o": [][]string{{"cfgA"}}}})
		if gits.err == nil {
			gits.err = os.WriteFile(filepath.Join(gits.dir, "my config.json"), b, 0o644)
		}
	})
	return gits.err
}

func scriptOne(w *W, c scriptCase) error {
	if err := scriptSetup(); err != nil {
		return fmt.Errorf("no repository to generate from: %w", err)
	}
	tmp, err := os.MkdirTemp(gits.dir, "t")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(tmp)
	var args []string
	for _, a := range c.Args {
		args = append(args, strings.NewReplacer("@URL", "file://"+gits.dir+"/repo", "@NONE", "file://"+gits.dir+"/none", "@CONFIG", filepath.Join(gits.dir, "my config.json")).Replace(a))
	}
	cmd := exec.Command("bash", append([]string{"./scripts/generate/generate.sh"}, args...)...)
	cmd.Dir = repoDir()
	cmd.Env = gitEnv("TMPDIR=" + tmp)
	var out, msg bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &msg
	err = cmd.Run()
	w.Steps(1)
	if left, _ := os.ReadDir(tmp); len(left) > 0 {
		return fmt.Errorf("it leaves %s behind in the directory for temporary files", left[0].Name())
	}
	switch {
	case c.Help:
		w.Outcome("helps")
		if err != nil || !strings.Contains(out.String(), "--override") {
			return fmt.Errorf("no help: %v\n%s%s", err, out.String(), msg.String())
		}
		return nil
	case c.Fail:
		w.Outcome("fails")
		w.State("fails " + strings.Join(c.Args, " "))
		if err == nil || strings.Contains(out.String(), "package crossplane") {
			return fmt.Errorf("must fail, but: %v\n%s%s", err, out.String(), msg.String())
		}
		return nil
	case err != nil:
		return fmt.Errorf("fails: %w\n%s%s", err, out.String(), msg.String())
	}
	g, err := readGenerated(out.String())
	if err != nil {
		return err
	}
	show := func(g generated) string {
		return fmt.Sprintf("map %s func %s comment %q\n%s", g.Map, g.Func, g.Above, g.Defs)
	}
	w.Outcome("writes")
	w.State(show(c.want))
	return differ("output", show(c.want), show(g))
}

// scriptCases are all combinations of branches, paths, and options in their different forms.
func scriptCases(forms int) func(func(scriptCase) bool) {
	return func(y func(scriptCase) bool) {
		paths := []string{"", "src", "./src", "src/a", "src/a/", "other dir", "."}
		n := 0
		for _, branch := range []string{"", "master", "dev"} {
			for _, path := range paths {
				for bits := 0; bits < 1<<5; bits++ {
					// in the quick tier, the forms of the options take turns
					n++
					for form := 0; form < 3; form++ {
						if forms == 1 && form != n%3 {
							continue
						}
						c, ok := scriptCaseOf(branch, path, bits, form)
						if !ok {
							continue
						}
						if !y(c) {
							return
						}
					}
				}
			}
		}
		good := []string{"--url", "@URL", "-d", "m", "-mn", "F"}
		for _, c := range []scriptCase{
			{Args: []string{"-h"}, Help: true},
			{Args: []string{"--help"}, Help: true},
			{Args: append([]string{"--path", "src", "--help"}, good...), Help: true},
			{Args: []string{}, Fail: true},
			{Args: good[2:], Fail: true},
			{Args: good[:2], Fail: true},
			{Args: good[:4], Fail: true},
			{Args: append([]string{}, good[0], "", good[2], good[3], good[4], good[5]), Fail: true},
			{Args: append([]string{"--unknown"}, good...), Fail: true},
			{Args: append([]string{"word"}, good...), Fail: true},
			{Args: append([]string{"--branch", "none"}, good...), Fail: true},
			{Args: append([]string{"--path", "none"}, good...), Fail: true},
			{Args: append([]string{"--path", "src/new"}, good...), Fail: true},
			{Args: append([]string{"--config-path", "none.json"}, good...), Fail: true},
			{Args: append([]string{"--override", "a"}, good...), Fail: true},
			{Args: append([]string{"--url", "@NONE"}, good[2:]...), Fail: true},
		} {
			if !y(c) {
				return
			}
		}
	}
}

func scriptCaseOf(branch, path string, bits, form int) (scriptCase, bool) {
	c := scriptCase{want: generated{Map: "m", Func: "F"}}
	has := func(k int) bool { return bits>>k&1 == 1 }
	add := func(value string, names ...string) {
		c.Args = append(c.Args, names[form%len(names)], value)
	}
	urlLast := form == 1
	if !urlLast {
		add("@URL", "--url")
	}
	b := branch
	if b == "" {
		b = "master"
	} else {
		add(branch, "--branch", "-b")
	}
	d := scriptDefs(b, path)
	if path != "" {
		add(path, "--path", "-p")
	}
	filter, over := map[string]bool{}, map[string][][]string{}
	if has(0) {
		add("@CONFIG", "--config-path", "-c")
		c.want = generated{Map: "cfgMap", Func: "CfgFunc", Above: "from config"}
		filter["b"] = true
		over["o"] = [][]string{{"cfgA"}}
	}
	if has(1) || !has(0) {
		add("argMap", "--directive-map-name", "-d")
		add("ArgFunc", "--match-func-name", "-mn")
		c.want.Map, c.want.Func = "argMap", "ArgFunc"
	}
	if has(2) {
		filter = map[string]bool{"a": true, "devroot": true}
		add("a", "--filter", "-f")
		add("devroot", "-f", "--filter")
	}
	if has(3) {
		over = map[string][][]string{"s": {{"argA", "argB"}, {"argC"}}, "new": {{"argD"}}}
		add("s:argA|argB,argC", "--override", "-o", "-override")
		add(" new : argD ", "-o", "-override", "--override")
	}
	if has(4) {
		text := "it's \"all\" of $HOME, `ls` \\n * & more; and    so on"
		add(text, "--match-func-comment", "-mc")
		c.want.Above = text
	}
	if urlLast {
		add("@URL", "--url")
	}
	for n := range d {
		if filter[n] {
			delete(d, n)
		} else if over[n] != nil {
			d[n] = over[n]
		}
	}
	if len(scriptDefs(b, path)) == 0 {
		c.Fail = true
	} else if len(d) == 0 {
		return c, false // C23 says what a tree of which nothing remains gives
	}
	c.want.Defs = d
	return c, true
}

// ---- go generate ----

type regeneration struct{ Line string }

func (r regeneration) String() string { return r.Line }

type genLine struct {
	url, config, branch, path, out string
	cfg                            struct {
		DirectiveMapName, MatchFuncName, MatchFuncComment string
		Filter                                            []string
		Override                                          map[string][][]string
	}
}

var genOption = regexp.MustCompile(`--(url|config-path|branch|path)\s+(\S+)|>\s*([^\s"]+)`)

// genLines reads the lines that regenerate the files of the package.
func genLines() (lines []genLine, err error) {
	files, err := filepath.Glob(filepath.Join(repoDir(), "*.go"))
	if err != nil {
		return nil, err
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		for _, l := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(l, "//go:generate ") || !strings.Contains(l, "generate.sh") {
				continue
			}
			g := genLine{branch: "master"}
			for _, m := range genOption.FindAllStringSubmatch(l, -1) {
				v := strings.Trim(m[2], `"'`)
				switch m[1] {
				case "url":
					g.url = v
				case "config-path":
					g.config = v
				case "branch":
					g.branch = v
				case "path":
					g.path = v
				default:
					g.out = filepath.Clean(m[3])
				}
			}
			b, err := os.ReadFile(filepath.Join(repoDir(), g.config))
			if err != nil {
				return nil, err
			}
			if err := json.Unmarshal(b, &g.cfg); err != nil {
				return nil, fmt.Errorf("%s: %w", g.config, err)
			}
			lines = append(lines, g)
		}
	}
	return lines, nil
}

// regenerateAll runs go generate in a copy of the repository, with local repositories in place of those it
// names: every file comes out with the names, the comment, the filter and the overrides of its config, and
// nothing else changes; the package still compiles.
func regenerateAll(w *W, _ regeneration) error {
	if err := scriptSetup(); err != nil {
		return fmt.Errorf("no repository to generate from: %w", err)
	}
	lines, err := genLines()
	if err != nil {
		return err
	}
	if len(lines) == 0 {
		return nil
	}
	dir, err := os.MkdirTemp(gits.dir, "copy")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	copyDir := filepath.Join(dir, "crossplane")
	if err := os.CopyFS(copyDir, noGit{os.DirFS(repoDir())}); err != nil {
		return nil
	}
	os.Chmod(filepath.Join(copyDir, "scripts/generate/generate.sh"), 0o755)

	// one repository for each url, with every branch asked of it; what a file defines names where it is
	repos := map[string]map[string]map[string]string{}
	add := func(url, branch, path string) {
		if repos[url] == nil {
			repos[url] = map[string]map[string]string{}
		}
		if repos[url][branch] == nil {
			repos[url][branch] = map[string]string{"r.c": "root@" + branch}
		}
		if path != "" {
			repos[url][branch][filepath.Join(path, "p.c")] = "path@" + branch
		}
	}
	env := []string{"TMPDIR=" + filepath.Join(dir, "tmp")}
	os.MkdirAll(filepath.Join(dir, "tmp"), 0o755)
	seen := map[string]string{}
	resolve := func(v, kind string) string {
		if !strings.HasPrefix(v, "$") {
			return v
		}
		name := strings.Trim(v[1:], "{}")
		if seen[name] == "" {
			seen[name] = kind + "-" + strings.ToLower(strings.ReplaceAll(name, "_", "-"))
			if kind == "url" {
				seen[name] = "https://private.example/" + seen[name] + ".git"
			}
			env = append(env, name+"="+seen[name])
		}
		return seen[name]
	}
	for i := range lines {
		lines[i].url = resolve(lines[i].url, "url")
		lines[i].branch = resolve(lines[i].branch, "branch")
		add(lines[i].url, lines[i].branch, lines[i].path)
	}
	// the directives that a config overrides or filters are defined too
	named := map[string]map[string]bool{}
	for _, l := range lines {
		if named[l.url] == nil {
			named[l.url] = map[string]bool{}
		}
		for _, n := range l.cfg.Filter {
			named[l.url][n] = true
		}
		for n := range l.cfg.Override {
			named[l.url][n] = true
		}
	}
	k, urls := 0, []string{}
	for url := range repos {
		urls = append(urls, url)
	}
	sort.Strings(urls)
	for _, url := range urls {
		local := filepath.Join(dir, fmt.Sprintf("remote%d", k))
		source := func(name string) string {
			s := scriptSource(name)
			for n := range named[url] {
				s += scriptSource(n)
			}
			return s
		}
		if _, has := repos[url]["master"]; !has {
			repos[url]["master"] = map[string]string{"r.c": "root@master"}
		}
		if err := makeRepo(local, repos[url], source); err != nil {
			return fmt.Errorf("no repository to generate from: %w", err)
		}
		env = append(env, fmt.Sprintf("GIT_CONFIG_KEY_%d=url.file://%s.insteadOf", k, local), fmt.Sprintf("GIT_CONFIG_VALUE_%d=%s", k, url))
		k++
	}
	env = append(env, fmt.Sprintf("GIT_CONFIG_COUNT=%d", k))
	before, err := treeOf(copyDir)
	if err != nil {
		return nil
	}
	cmd := exec.Command("go", "generate", ".")
	cmd.Dir = copyDir
	cmd.Env = gitEnv(env...)
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("go generate: %w\n%s", err, clip(string(b), 3000))
	}
	w.Steps(len(lines))
	for _, l := range lines {
		b, err := os.ReadFile(filepath.Join(copyDir, l.out))
		if err != nil {
			return fmt.Errorf("go generate does not write %s: %w", l.out, err)
		}
		g, err := readGenerated(string(b))
		if err != nil {
			return fmt.Errorf("%s: %w", l.out, err)
		}
		both := [][]string{{"ngxMainConf", "ngxConfTake1"}, {"ngxEventConf", "ngxConfNoArgs"}}
		want := defs{}
		where := "root@"
		times := 1
		if l.path == "" {
			for f := range repos[l.url][l.branch] {
				if f != "r.c" {
					want["path@"+l.branch] = both
					times = 2
				}
			}
		} else {
			where = "path@"
		}
		want[where+l.branch] = both
		for n := range named[l.url] {
			for i := 0; i < times; i++ {
				want[n] = append(want[n], both...)
			}
		}
		for n, ms := range l.cfg.Override {
			want[n] = ms
		}
		for _, n := range l.cfg.Filter {
			delete(want, n)
		}
		if err := differ(l.out+" after go generate", fmt.Sprintf("map %s func %s comment %q\n%s", l.cfg.DirectiveMapName, l.cfg.MatchFuncName, strings.TrimSpace(l.cfg.MatchFuncComment), want),
			fmt.Sprintf("map %s func %s comment %q\n%s", g.Map, g.Func, strings.TrimSpace(g.Above), g.Defs)); err != nil {
			return err
		}
		delete(before, l.out)
	}
	after, err := treeOf(copyDir)
	if err != nil {
		return nil
	}
	for f, text := range before {
		if after[f] != text {
			return fmt.Errorf("go generate changes %s", f)
		}
	}
	cmd = exec.Command("go", "build", "./...")
	cmd.Dir = copyDir
	cmd.Env = gitEnv(env...)
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("after go generate, the package does not compile: %w\n%s", err, clip(string(b), 3000))
	}
	w.Outcome("regenerated")
	w.State("regenerated")
	return nil
}

// asConfigured checks that a generated file in the repository is one that its config gives.
func asConfigured(w *W, r regeneration) error {
	b, err := os.ReadFile(filepath.Join(repoDir(), r.Line))
	if err != nil {
		return err
	}
	g, err := readGenerated(string(b))
	if err != nil {
		return fmt.Errorf("%s: %w", r.Line, err)
	}
	configs, err := filepath.Glob(filepath.Join(repoDir(), "scripts/generate/configs/*.json"))
	if err != nil {
		return err
	}
	for _, c := range configs {
		b, err := os.ReadFile(c)
		if err != nil {
			return err
		}
		var l genLine
		if err := json.Unmarshal(b, &l.cfg); err != nil {
			return fmt.Errorf("%s: %w", c, err)
		}
		if l.cfg.MatchFuncName != g.Func {
			continue
		}
		w.Outcome("as configured")
		w.State(r.Line)
		w.Steps(len(g.Defs))
		if l.cfg.DirectiveMapName != g.Map {
			return fmt.Errorf("the map is %s, and %s asks for %s", g.Map, c, l.cfg.DirectiveMapName)
		}
		for _, n := range l.cfg.Filter {
			if g.Defs[n] != nil {
				return fmt.Errorf("%s is there, and %s leaves it out", n, c)
			}
		}
		for n, ms := range l.cfg.Override {
			if err := differ("the masks of "+n, defs{n: ms}.String(), defs{n: g.Defs[n]}.String()); err != nil {
				return err
			}
		}
		return nil
	}
	w.Outcome("no config")
	return nil
}

func treeOf(dir string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		rel, _ := filepath.Rel(dir, p)
		m[rel] = string(b)
		return err
	})
	return m, err
}

// noGit is a directory without its .git and other hidden entries.
type noGit struct{ fs.FS }

func (n noGit) ReadDir(name string) ([]fs.DirEntry, error) {
	es, err := fs.ReadDir(n.FS, name)
	keep := es[:0]
	for _, e := range es {
		if !strings.HasPrefix(e.Name(), ".") && (e.IsDir() || e.Type().IsRegular()) {
			keep = append(keep, e)
		}
	}
	return keep, err
}

func haveGit() error {
	if _, err := exec.LookPath("git"); err != nil {
		return errors.New("no git")
	}
	_, err := exec.LookPath("bash")
	return err
}
