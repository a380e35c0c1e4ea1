package main

import (
	"bytes"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/nginxinc/nginx-go-crossplane/internal/generator"
)

// ---- the reference: what C source defines which directives ----

// cMasks are the masks of nginx's C sources, and what the package calls them.
var cMasks = map[string]string{
	"NGX_CONF_NOARGS": "ngxConfNoArgs", "NGX_CONF_TAKE1": "ngxConfTake1", "NGX_CONF_TAKE2": "ngxConfTake2", "NGX_CONF_TAKE3": "ngxConfTake3",
	"NGX_CONF_TAKE4": "ngxConfTake4", "NGX_CONF_TAKE5": "ngxConfTake5", "NGX_CONF_TAKE6": "ngxConfTake6", "NGX_CONF_TAKE7": "ngxConfTake7",
	"NGX_CONF_TAKE12": "ngxConfTake12", "NGX_CONF_TAKE13": "ngxConfTake13", "NGX_CONF_TAKE23": "ngxConfTake23",
	"NGX_CONF_TAKE123": "ngxConfTake123", "NGX_CONF_TAKE1234": "ngxConfTake1234",
	"NGX_CONF_BLOCK": "ngxConfBlock", "NGX_CONF_FLAG": "ngxConfFlag", "NGX_CONF_ANY": "ngxConfAny", "NGX_CONF_1MORE": "ngxConf1More", "NGX_CONF_2MORE": "ngxConf2More",
	"NGX_DIRECT_CONF": "ngxDirectConf", "NGX_MAIN_CONF": "ngxMainConf", "NGX_ANY_CONF": "ngxAnyConf", "NGX_EVENT_CONF": "ngxEventConf",
	"NGX_MAIL_MAIN_CONF": "ngxMailMainConf", "NGX_MAIL_SRV_CONF": "ngxMailSrvConf",
	"NGX_STREAM_MAIN_CONF": "ngxStreamMainConf", "NGX_STREAM_SRV_CONF": "ngxStreamSrvConf", "NGX_STREAM_UPS_CONF": "ngxStreamUpsConf",
	"NGX_HTTP_MAIN_CONF": "ngxHTTPMainConf", "NGX_HTTP_SRV_CONF": "ngxHTTPSrvConf", "NGX_HTTP_LOC_CONF": "ngxHTTPLocConf", "NGX_HTTP_UPS_CONF": "ngxHTTPUpsConf",
	"NGX_HTTP_SIF_CONF": "ngxHTTPSifConf", "NGX_HTTP_LIF_CONF": "ngxHTTPLifConf", "NGX_HTTP_LMT_CONF": "ngxHTTPLmtConf",
}

func cMaskNames() (names []string) {
	for n := range cMasks {
		names = append(names, n)
	}
	sort.Strings(names)
	return
}

// defs are the definitions of directives, each a list of masks.
type defs map[string][][]string

func (d defs) add(o defs) {
	for n, ms := range o {
		d[n] = append(d[n], ms...)
	}
}

func (d defs) String() string {
	var names []string
	for n := range d {
		names = append(names, n)
	}
	sort.Strings(names)
	s := ""
	for _, n := range names {
		s += fmt.Sprintf("%s %q\n", n, d[n])
	}
	return s
}

// cTokens reads C: identifiers, literals and other characters; without comments and directives of the preprocessor.
func cTokens(src string) (toks []string) {
	src = strings.ReplaceAll(src, "\r\n", "\n")
	bol := true
	for i := 0; i < len(src); {
		c := src[i]
		end := func(stop string) int { // after the next stop
			if j := strings.Index(src[i:], stop); j >= 0 {
				return i + j + len(stop)
			}
			return len(src)
		}
		switch {
		case c == '\n':
			bol = true
			i++
		case c == ' ' || c == '\t' || c == '\r' || c == '\f' || c == '\v':
			i++
		case c == '/' && strings.HasPrefix(src[i:], "//"):
			i = end("\n")
			bol = true
		case c == '/' && strings.HasPrefix(src[i:], "/*"):
			i += 2
			i = end("*/")
		case c == '#' && bol:
			i = end("\n")
		case c == '"' || c == '\'':
			bol = false
			j := i + 1
			for j < len(src) && src[j] != c && src[j] != '\n' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			j = min(j+1, len(src))
			toks = append(toks, src[i:j])
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9':
			bol = false
			j := i
			for j < len(src) && (src[j] == '_' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			toks = append(toks, src[i:j])
			i = j
		default:
			bol = false
			toks = append(toks, string(c))
			i++
		}
	}
	return
}

var errUnknownMask = errors.New("unknown mask")

// extractRef finds the entries of the arrays of commands, with the grammar of C.
func extractRef(src string) (defs, error) {
	out := defs{}
	t := cTokens(src)
	at := func(i int) string {
		if i < len(t) {
			return t[i]
		}
		return ""
	}
	for i := 0; i < len(t); i++ {
		if t[i] != "ngx_command_t" || at(i+2) != "[" {
			continue
		}
		j := i + 3
		for j < len(t) && t[j] != "]" {
			j++
		}
		if at(j+1) != "=" || at(j+2) != "{" {
			continue
		}
		// entries are at depth 2
		depth := 0
		for j += 2; j < len(t); j++ {
			if t[j] == "{" {
				depth++
				if depth == 2 && at(j+1) == "ngx_string" && at(j+2) == "(" && strings.HasPrefix(at(j+3), `"`) && at(j+4) == ")" && at(j+5) == "," {
					name, err := strconv.Unquote(t[j+3])
					if err != nil {
						return nil, err
					}
					var ms []string
					for j += 6; j < len(t) && t[j] != ","; j++ {
						if t[j] != "|" {
							m, ok := cMasks[t[j]]
							if !ok {
								return nil, errUnknownMask
							}
							ms = append(ms, m)
						}
					}
					out[name] = append(out[name], ms)
				}
			}
			if t[j] == "}" {
				if depth--; depth == 0 {
					break
				}
			}
		}
		i = j
	}
	return out, nil
}

// ---- what the generator wrote ----

type generated struct {
	Defs             defs
	Map, Func, Above string
}

func readGenerated(text string) (g generated, err error) {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", text, parser.ParseComments)
	if err != nil {
		return g, fmt.Errorf("what it writes is not Go: %w\n%s", err, text)
	}
	if f.Name.Name != "crossplane" {
		return g, fmt.Errorf("package %s", f.Name.Name)
	}
	g.Defs = defs{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if g.Func != "" {
				return g, errors.New("several functions")
			}
			g.Func = d.Name.Name
			g.Above = strings.TrimSuffix(d.Doc.Text(), "\n")
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, s := range d.Specs {
				s := s.(*ast.ValueSpec)
				if g.Map != "" || len(s.Names) != 1 {
					return g, errors.New("several variables")
				}
				g.Map = s.Names[0].Name
				m, ok := s.Values[0].(*ast.CompositeLit)
				if !ok {
					return g, errors.New("no map")
				}
				for _, e := range m.Elts {
					kv := e.(*ast.KeyValueExpr)
					name, err := strconv.Unquote(kv.Key.(*ast.BasicLit).Value)
					if err != nil {
						return g, err
					}
					if _, twice := g.Defs[name]; twice {
						return g, fmt.Errorf("%s twice", name)
					}
					list := [][]string{}
					for _, me := range kv.Value.(*ast.CompositeLit).Elts {
						ms, err := orOf(me)
						if err != nil {
							return g, err
						}
						list = append(list, ms)
					}
					g.Defs[name] = list
				}
			}
		}
	}
	return g, nil
}

func orOf(e ast.Expr) ([]string, error) {
	switch e := e.(type) {
	case *ast.Ident:
		return []string{e.Name}, nil
	case *ast.ParenExpr:
		return orOf(e.X)
	case *ast.BinaryExpr:
		if e.Op == token.OR {
			a, err := orOf(e.X)
			if err != nil {
				return nil, err
			}
			b, err := orOf(e.Y)
			return append(a, b...), err
		}
	}
	return nil, fmt.Errorf("mask %T", e)
}

// ---- cases ----

// A tree of sources, and how to generate from it.
type genCase struct {
	Files    map[string]string // a value of "->x" is a symbolic link to x, "/" a directory
	Path     string            // relative to the tree; "" is the tree itself
	Filter   []string
	Override map[string][][]string
}

// genWant is what a tree defines.
func (c genCase) want() (defs, error) {
	all := defs{}
	var paths []string
	for p := range c.Files {
		paths = append(paths, p)
	}
	sort.Slice(paths, func(i, j int) bool { // the order of a walk
		a, b := strings.Split(paths[i], "/"), strings.Split(paths[j], "/")
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	found := c.Path == ""
	for _, p := range paths {
		if c.Path != "" && p != c.Path && !strings.HasPrefix(p, c.Path+"/") {
			continue
		}
		found = true
		if text := c.Files[p]; (strings.HasSuffix(p, ".c") || strings.HasSuffix(p, ".cpp")) && text != "/" {
			for strings.HasPrefix(text, "->") {
				var ok bool
				if text, ok = c.Files[filepath.Join(filepath.Dir(p), text[2:])]; !ok {
					return nil, errors.New("dangling link")
				}
			}
			d, err := extractRef(text)
			if err != nil {
				return nil, err
			}
			all.add(d)
		}
	}
	if !found || len(all) == 0 {
		return nil, errors.New("nothing defined")
	}
	for _, n := range c.Filter {
		delete(all, n)
	}
	for n, ms := range c.Override {
		if _, ok := all[n]; ok {
			all[n] = ms
		}
	}
	return all, nil
}

var genDirs = sync.Pool{New: func() any {
	d, err := os.MkdirTemp("/dev/shm", "vhgen")
	if err != nil {
		d, _ = os.MkdirTemp("", "vhgen")
	}
	scratch.Lock()
	scratch.dirs = append(scratch.dirs, d)
	scratch.Unlock()
	return d
}}

func genOne(w *W, c genCase) error {
	dir := genDirs.Get().(string)
	defer genDirs.Put(dir)
	defer func() {
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			os.RemoveAll(filepath.Join(dir, e.Name()))
		}
	}()
	for p, text := range c.Files {
		full := filepath.Join(dir, p)
		if strings.Contains(p, "/") {
			os.MkdirAll(filepath.Dir(full), 0o755)
		}
		switch {
		case text == "/":
			os.MkdirAll(full, 0o755)
		case strings.HasPrefix(text, "->"):
			os.Symlink(text[2:], full)
		default:
			if err := os.WriteFile(full, []byte(text), 0o644); err != nil {
				return nil // no room: not the generator's fault
			}
		}
	}
	cfg := generator.GenerateConfig{DirectiveMapName: "theMap", MatchFuncName: "TheFunc", MatchFuncComment: "TheFunc matches"}
	if c.Filter != nil {
		cfg.Filter = generator.Filters{}
		for _, n := range c.Filter {
			cfg.Filter[n] = struct{}{}
		}
	}
	if c.Override != nil {
		cfg.Override = map[string][]generator.Mask{}
		for n, ms := range c.Override {
			for _, m := range ms {
				cfg.Override[n] = append(cfg.Override[n], append(generator.Mask{}, m...))
			}
		}
	}
	want, wantErr := c.want()
	var out bytes.Buffer
	err := generator.Generate(filepath.Join(dir, c.Path), &out, cfg)
	w.Steps(len(c.Files))
	if wantErr != nil {
		w.Outcome("error")
		if err == nil {
			return fmt.Errorf("want an error (%v), but it writes\n%s", wantErr, out.String())
		}
		if out.Len() > 0 {
			return fmt.Errorf("error %v, but it writes\n%s", err, out.String())
		}
		w.State("error " + wantErr.Error())
		return nil
	}
	if err != nil {
		return fmt.Errorf("error %v; want\n%s", err, want)
	}
	g, err := readGenerated(out.String())
	if err != nil {
		return err
	}
	w.Outcome(fmt.Sprintf("%d directives", len(want)))
	w.State(want.String())
	if g.Map != "theMap" || g.Func != "TheFunc" || g.Above != "TheFunc matches" {
		return fmt.Errorf("names are %q", []string{g.Map, g.Func, g.Above})
	}
	return differ("definitions", want.String(), g.Defs.String())
}

func (c genCase) String() string {
	var ps []string
	for p := range c.Files {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	s := fmt.Sprintf("path %q filter %q override %q", c.Path, c.Filter, c.Override)
	for _, p := range ps {
		s += fmt.Sprintf("\n--- %s\n%s", p, c.Files[p])
	}
	return s
}

func entry(name, mask string) string {
	return "    { ngx_string(\"" + name + "\"),\n      " + mask + ",\n      ngx_conf_set_slot,\n      NGX_HTTP_LOC_CONF_OFFSET,\n      offsetof(ngx_t, x),\n      NULL },\n\n"
}

func cArray(name string, entries ...string) string {
	return "static ngx_command_t  " + name + "[] = {\n\n" + strings.Join(entries, "") + "      ngx_null_command\n};\n\n"
}

// cFragments are pieces of a C source.
var cFragments = []string{
	cArray("a", entry("d1", "NGX_HTTP_MAIN_CONF|NGX_CONF_TAKE1")),
	cArray("b", entry("d2", "NGX_HTTP_LOC_CONF|NGX_HTTP_LIF_CONF\n                        |NGX_CONF_FLAG"), entry("d1", "NGX_MAIN_CONF|NGX_CONF_BLOCK|NGX_CONF_NOARGS")),
	cArray("none"),
	"ngx_command_t c[]={{ngx_string(\"d3\"),NGX_ANY_CONF|NGX_CONF_TAKE7,f,0,0,NULL},ngx_null_command};",
	cArray("d", "#if (NGX_X)\n", entry("d4", "NGX_CONF_ANY"), "#else\n", entry("d4", "NGX_CONF_1MORE"), "#endif\n"),
	cArray("e", "/* "+entry("no1", "NGX_CONF_ANY")+"*/", "// "+strings.ReplaceAll(entry("no2", "NGX_CONF_ANY"), "\n", " ")+"\n", entry("d5", "NGX_CONF_ANY /* | NGX_NO */ | // , x\n NGX_MAIN_CONF")),
	"/* " + cArray("no", entry("no3", "NGX_CONF_ANY")) + " */\n",
	"// ngx_command_t no[] = { { ngx_string(\"no4\"), NGX_CONF_ANY, 0 } };\n",
	"/* \" ' // */\n", "// \" ' /* \n", "// it's\r\n",
	"static char *s1 = \"/*\";\n", "static char *s2 = \"//\", c1 = '\"', c2 = '\\'';\n", "static char *s3 = \"\\\"/*\\\\\";\n",
	"static char *s4 = \"ngx_command_t no[] = { { ngx_string(\";\n", "static char *s5 = \"*/ };\";\n",
	"static ngx_str_t  n = ngx_string(\"no5\");\nstatic ngx_conf_enum_t  en[] = {\n    { ngx_string(\"no6\"), NGX_CONF_ANY, 0 },\n    { ngx_null_string, 0 }\n};\n",
	"extern ngx_command_t  ext[];\nstatic int f(ngx_command_t *cmd, void *p) { ngx_command_t  *c = cmd; if (c[0] = p) { return ';'; } }\n",
	cArray("g", "    { ngx_string(\"d6\"), NGX_UNKNOWN|NGX_CONF_ANY, 0, 0, 0, NULL },\n"),
	cArray("h", "    { ngx_string(\"d7\"), NGX_HTTP_UPS_CONF|NGX_CONF_TAKE12, f, 0, 0, &ngx_post },\n", "    { ngx_string(\"d8\"), NGX_CONF_TAKE1234 , f, 0, 0, \"};\" },\n"),
	"\r\n\r\n", " ",
}

func init() {
	register("C23", func(x *X) {
		n := 4
		if x.thorough {
			n = 5
		}
		idx := func(k int) (is []int) {
			for i := 0; i < k; i++ {
				is = append(is, i)
			}
			return
		}
		join := func(is []int) string {
			s := ""
			for _, i := range is {
				s += cFragments[i]
			}
			return s
		}
		Explore(x, fmt.Sprintf("every source of up to %d fragments", n), func(y func(genCase) bool) {
			seqs(idx(len(cFragments)), 0, n, func(is []int) bool {
				return y(genCase{Files: map[string]string{"m.c": join(is)}})
			})
		}, genOne)
		Explore(x, "every source of a few fragments, with other line endings", func(y func(genCase) bool) {
			k := 3
			if x.thorough {
				k = 4
			}
			seqs(idx(len(cFragments)), 0, k, func(is []int) bool {
				s := strings.ReplaceAll(join(is), "\r\n", "\n")
				return y(genCase{Files: map[string]string{"m.c": strings.ReplaceAll(s, "\n", "\r\n")}})
			})
		}, genOne)

		// white space and comments wherever C allows them
		toks := []string{"static", "ngx_command_t", "a", "[", "]", "=", "{",
			"{", "ngx_string", "(", `"d1"`, ")", ",", "NGX_MAIN_CONF", "|", "NGX_CONF_TAKE1", "|", "NGX_CONF_BLOCK", ",", "f", ",", "0", ",", "0", ",", "NULL", "}", ",",
			"{", "ngx_string", "(", `"d2"`, ")", ",", "NGX_EVENT_CONF", "|", "NGX_CONF_NOARGS", ",", "f", ",", "0", ",", "0", ",", "NULL", "}", ",",
			"ngx_null_command", "}", ";"}
		gaps := []string{"", " ", "\n", "\r\n", "\t", "\v\f", "\r", "\r\n\t", "/* , } ; \" */", "// ' | ngx_string(\"x\"),NGX_CONF_ANY,\n", " /**/ /***/ "}
		Explore(x, "every two gaps of a definition, with every kind of white space", func(y func(genCase) bool) {
			write := func(set map[int]string) string {
				s := ""
				for i, t := range toks {
					g, ok := set[i]
					if !ok && i > 0 {
						g = " "
					}
					s += g + t
				}
				return s + set[len(toks)]
			}
			for i := 0; i <= len(toks); i++ {
				for j := i; j <= len(toks); j++ {
					for _, g := range gaps {
						for _, h := range gaps {
							if i == j && g != h || g == "" && i < 3 && i > 0 || h == "" && j < 3 && j > 0 {
								continue
							}
							if !y(genCase{Files: map[string]string{"m.cpp": write(map[int]string{i: g, j: h})}}) {
								return
							}
						}
					}
				}
			}
			for _, g := range gaps[1:] { // all gaps at once
				set := map[int]string{}
				for i := 0; i <= len(toks); i++ {
					set[i] = g
				}
				if !y(genCase{Files: map[string]string{"m.cpp": write(set)}}) {
					return
				}
			}
			for _, size := range []string{"", "2", "N", "N + 1"} {
				if !y(genCase{Files: map[string]string{"m.c": strings.Replace(write(nil), "[ ]", "["+size+"]", 1)}}) {
					return
				}
			}
		}, genOne)

		Explore(x, "every mask, pair and triple of masks", func(y func(genCase) bool) {
			names := append(cMaskNames(), "NGX_UNKNOWN", "ngxConfFlag", "NGX_CONF_TAKE8")
			for _, a := range names {
				for _, b := range append([]string{""}, names...) {
					for _, c := range []string{"", "NGX_CONF_FLAG", "NGX_NO"} {
						m := strings.Trim(a+"|"+b+"|"+c, "|")
						m = strings.ReplaceAll(m, "||", "|")
						if !y(genCase{Files: map[string]string{"m.c": cArray("a", entry("d", m), entry("d", a))}}) {
							return
						}
					}
				}
			}
		}, genOne)

		// trees
		texts := []string{cArray("a", entry("d1", "NGX_CONF_TAKE1"), entry("d2", "NGX_CONF_TAKE2")), cArray("b", entry("d2", "NGX_CONF_FLAG")), "int x;\n", cArray("c", entry("d3", "NGX_UNKNOWN")), "/", "->a.c"}
		names := []string{"a.c", "b.cpp", "c.h", "d.cc", "e.c.bak", "cpp", ".c", "f.C", "s/g.c", "s/t.c/h.cpp", "s/u/v/i.c", "z.c"}
		Explore(x, "every tree of up to 3 files", func(y func(genCase) bool) {
			k := 2
			if x.thorough {
				k = 3
			}
			var rec func(from int, files map[string]string) bool
			rec = func(from int, files map[string]string) bool {
				if len(files) > 0 {
					paths := map[string]bool{"": true, "nonexistent": true, "nonexistent.c": true}
					for p := range files {
						paths[p] = true
						if d := filepath.Dir(p); d != "." {
							paths[d], paths["s"] = true, true
						}
					}
					var ps []string
					for p := range paths {
						ps = append(ps, p)
					}
					sort.Strings(ps)
					for _, p := range ps {
						if files[p] != "/" && strings.HasPrefix(files[p], "->") && files["a.c"] == "/" {
							continue
						}
						c := map[string]string{}
						for n, t := range files {
							c[n] = t
						}
						if !y(genCase{Files: c, Path: p}) {
							return false
						}
					}
				}
				if len(files) == k {
					return true
				}
				for i := from; i < len(names); i++ {
					for _, t := range texts {
						if strings.HasPrefix(t, "->") && (i == 0 || strings.Contains(names[i], "/") || files["a.c"] == "/") {
							continue
						}
						files[names[i]] = t
						if !rec(i+1, files) {
							return false
						}
						delete(files, names[i])
					}
				}
				return true
			}
			rec(0, map[string]string{})
		}, genOne)

		Explore(x, "names of files and directories", func(y func(genCase) bool) {
			one := cArray("a", entry("d1", "NGX_CONF_TAKE1"))
			two := cArray("b", entry("d2", "NGX_CONF_FLAG"))
			for _, stem := range []string{"", "m", "a.c", "a.h", "a b", "-x", "*", "\u00e9", "\xff", "A", "#a", "~", "ngx_http_core_module"} {
				for _, ext := range []string{"", ".", ".c", ".cpp", ".cc", ".cxx", ".c++", ".cppm", ".cp", ".C", ".CPP", ".Cpp", ".h", ".hpp", ".cs", ".css", ".csv", ".conf", ".c.in", ".cpp.in", ".c~", ".c.orig", ".cpp.c", ".c ", ".с", "c", "cpp", ".go", ".i", ".inc", ".m", ".mm", ".s", ".cu"} {
					if stem+ext == "" || stem+ext == "." || stem+ext == ".." {
						continue
					}
					if !y(genCase{Files: map[string]string{stem + ext: one, "k.c": two}}) || !y(genCase{Files: map[string]string{"s/" + stem + ext: one}}) || !y(genCase{Files: map[string]string{stem + ext: one, "k.c": two}, Path: stem + ext}) {
						return
					}
					if !y(genCase{Files: map[string]string{stem + ext + "/m.c": one, "k.c": two}}) || !y(genCase{Files: map[string]string{stem + ext + "/t/m.c": one, stem + ext + "/m.h": two}}) {
						return
					}
				}
			}
			for _, dir := range []string{".git", ".x", "_x", "test", "tests", "testdata", "vendor", "third_party", "node_modules", "build", "objs", "doc", "docs", "examples", "example", "include", "src", "auto", "contrib", "win32", "internal", "cmd", "...", "~", "CVS", "tmp", "fuzz", "bench", "nginx", "modules", "perl", "mock"} {
				for _, f := range []genCase{{Files: map[string]string{dir + "/m.c": one, "k.c": two}}, {Files: map[string]string{"s/" + dir + "/m.c": one}}, {Files: map[string]string{dir + "/t/m.cpp": one}, Path: dir}, {Files: map[string]string{dir + ".c": one, dir + "_test.c": two, "test_" + dir + ".c": one, dir + "-example.cpp": two}}} {
					if !y(f) {
						return
					}
				}
			}
		}, genOne)

		Explore(x, "a directive in several files, each with its own number of definitions", func(y func(genCase) bool) {
			k := 5
			if x.thorough {
				k = 6
			}
			seqs([]int{0, 1, 2, 3}, 1, k, func(ns []int) bool {
				for _, shape := range []string{"%d.c", "s%d/m.cpp", "m%d.c/x.c"} {
					c := genCase{Files: map[string]string{}}
					mask := 0
					for i, n := range ns {
						var es []string
						for j := 0; j < n; j++ {
							es = append(es, entry("d", cMaskNames()[mask/2%len(cMaskNames())]))
							mask++
						}
						c.Files[fmt.Sprintf(shape, i)] = cArray("a", append(es, entry("e", "NGX_CONF_ANY"))...)
					}
					if !y(c) {
						return false
					}
				}
				return true
			})
		}, genOne)

		Explore(x, "many directives, masks, definitions, files and lines", func(y func(genCase) bool) {
			rep := strings.Repeat
			for _, k := range sizes(140, 1100) {
				each := ""
				files := map[string]string{}
				names := cMaskNames()
				var masks []string
				for i := 0; i < k; i++ {
					each += entry(fmt.Sprintf("d%d", i), names[i%len(names)])
					if i < 300 {
						files[fmt.Sprintf("%sm%d.c", rep("s/", i%20), i)] = cArray("a", entry(fmt.Sprintf("d%d", i/2), names[i%len(names)]))
					}
					masks = append(masks, names[(i*7)%len(names)])
				}
				last := entry("last", "NGX_MAIN_CONF")
				for _, s := range []string{cArray("a", each, last), cArray("a", rep(entry("d", "NGX_CONF_ANY"), k), last), cArray("a", entry("d", strings.Join(masks, "|")), last), rep(cArray("a", entry("d", "NGX_CONF_FLAG")), k) + cArray("z", last),
					"/*" + rep("*", k) + rep("\n", k) + "*/" + cArray("a", last), "// " + rep("x ", k) + "\n" + cArray("a", last), rep("\n", k) + cArray("a", rep("\n", k)+last), cArray("a", entry(rep("n", k), "NGX_CONF_ANY"), last),
					"int f() " + rep("{", k) + rep("}", k) + cArray("a", last), "char *s = \"" + rep("\\\"/*", k) + "\";" + cArray("a", last), cArray("a", "{ ngx_string(\"d\")"+rep(" ", k)+","+rep(" ", k)+"NGX_CONF_ANY"+rep(" ", k)+", f, 0, 0, NULL },", last),
					rep("#include <x.h>\n", k) + cArray(rep("n", k), last), cArray("none") + rep("int x;\n", k) + cArray("a", last)} {
					if !y(genCase{Files: map[string]string{"m.c": s}}) {
						return
					}
				}
				if k > 300 {
					continue
				}
				if !y(genCase{Files: files}) || !y(genCase{Files: map[string]string{rep("s/", k%300) + "m.c": cArray("a", last)}}) {
					return
				}
				c := genCase{Files: map[string]string{"m.c": cArray("a", each, last)}, Filter: []string{}, Override: map[string][][]string{}}
				for i := 0; i < k; i++ {
					c.Filter = append(c.Filter, fmt.Sprintf("d%d", i))
					for j := 0; j <= i%5; j++ {
						c.Override[fmt.Sprintf("d%d", i)] = append(c.Override[fmt.Sprintf("d%d", i)], []string{"ngxConfAny"})
					}
				}
				o := c
				o.Filter = nil
				f := c
				f.Override = nil
				if !y(c) || !y(o) || !y(f) {
					return
				}
			}
		}, genOne)

		// filters and overrides
		Explore(x, "every filter and override of 3 directives", func(y func(genCase) bool) {
			ns := []string{"d1", "d2", "d3", "d9"}
			over := [][][]string{nil, {{"ngxMainConf"}}, {{"ngxConfExpr", "ngxMainConf"}, {"ngxConfAny"}}}
			for _, text := range []string{cArray("a", entry("d1", "NGX_CONF_ANY"), entry("d2", "NGX_CONF_TAKE1"), entry("d1", "NGX_CONF_FLAG"), entry("d3", "NGX_MAIN_CONF")), cArray("a", entry("d2", "NGX_CONF_ANY")), cArray("a")} {
				for f := -1; f < 1<<len(ns); f++ {
					for o := -1; o < 81; o++ {
						c := genCase{Files: map[string]string{"m.c": text, "s/n.c": cArray("x", entry("d2", "NGX_CONF_BLOCK"))}}
						if f >= 0 {
							c.Filter = []string{}
							for i, n := range ns {
								if f>>i&1 == 1 {
									c.Filter = append(c.Filter, n)
								}
							}
						}
						if o >= 0 {
							c.Override = map[string][][]string{}
							for i, k := 0, o; i < len(ns); i, k = i+1, k/3 {
								if ms := over[k%3]; ms != nil {
									c.Override[ns[i]] = ms
								}
							}
						}
						if !y(c) {
							return
						}
					}
				}
			}
		}, genOne)
		Explore(x, "filters and overrides of names that are alike", func(y func(genCase) bool) {
			ns := []string{"a", "A", "a_block", "a_b", "b", "_a", "ab", "a.b", "a b", "include", "a_by_lua_block", "a_by_lua", "a_by_lua_file", "aa", "a-b", "a_"}
			var es []string
			for _, n := range ns {
				es = append(es, entry(n, "NGX_CONF_TAKE1|NGX_MAIN_CONF"))
			}
			seqs(append(ns, "", "*", "a*", ".", "a|b", "^a"), 0, 2, func(f []string) bool {
				names := append([]string{}, f...)
				over := map[string][][]string{}
				for i, n := range names {
					over[n] = [][]string{{[]string{"ngxAnyConf", "ngxConfFlag"}[i]}}
				}
				files := map[string]string{"m.c": cArray("a", es...)}
				return y(genCase{Files: files, Filter: names}) && y(genCase{Files: files, Override: over}) && (len(names) < 2 || y(genCase{Files: files, Filter: names[:1], Override: over}))
			})
		}, genOne)
		removeScratch()
	}, "Entries name their directives with literals and list their masks with |, as all of nginx's do.")
}

var scratch struct {
	sync.Mutex
	dirs []string
}

func removeScratch() {
	scratch.Lock()
	defer scratch.Unlock()
	for _, d := range scratch.dirs {
		os.RemoveAll(d)
	}
	scratch.dirs = nil
}
