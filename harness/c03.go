package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"unicode"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

var luaNames = []string{
	"content_by_lua_block", "set_by_lua_block", "init_by_lua_block", "init_worker_by_lua_block", "exit_worker_by_lua_block",
	"server_rewrite_by_lua_block", "rewrite_by_lua_block", "access_by_lua_block", "header_filter_by_lua_block",
	"body_filter_by_lua_block", "log_by_lua_block", "balancer_by_lua_block", "ssl_client_hello_by_lua_block",
	"ssl_certificate_by_lua_block", "ssl_session_fetch_by_lua_block", "ssl_session_store_by_lua_block",
	"precontent_by_lua_block", "proxy_ssl_certificate_by_lua_block", "proxy_ssl_verify_by_lua_block",
}

// luaClose returns where the block that started before r ends: the index of its closing brace, or -1.
func luaClose(r []rune) int {
	long := func(i int) (level, next int) { // a long bracket that opens at i
		j := i + 1
		for j < len(r) && r[j] == '=' {
			j++
		}
		if j < len(r) && r[j] == '[' {
			return j - i - 1, j + 1
		}
		return -1, i
	}
	longEnd := func(level, i int) int { // the index after the long bracket's end
		end := append(append([]rune{']'}, []rune(strings.Repeat("=", level))...), ']')
		for ; i+len(end) <= len(r); i++ {
			if string(r[i:i+len(end)]) == string(end) {
				return i + len(end)
			}
		}
		return len(r)
	}
	depth := 1
	for i := 0; i < len(r); {
		switch c := r[i]; {
		case c == '-' && i+1 < len(r) && r[i+1] == '-':
			i += 2
			if i < len(r) && r[i] == '[' {
				if level, next := long(i); level >= 0 {
					i = longEnd(level, next)
					break
				}
			}
			for i < len(r) && r[i] != '\n' {
				i++
			}
		case c == '[':
			if level, next := long(i); level >= 0 {
				i = longEnd(level, next)
			} else {
				i++
			}
		case c == '"' || c == '\'':
			i++
			for i < len(r) && r[i] != c {
				if r[i] == '\\' {
					i++
				}
				i++
			}
			i++
		case c == '{':
			depth++
			i++
		case c == '}':
			depth--
			if depth == 0 {
				return i
			}
			i++
		default:
			i++
		}
	}
	return -1
}

func refLua(rest []rune, line int, name string) (out []tok, used int) {
	i := 0
	lineAt := func(n int) int { return line + strings.Count(string(rest[:n]), "\n") }
	space := func() {
		for i < len(rest) && unicode.IsSpace(rest[i]) {
			i++
		}
	}
	space()
	if name == "set_by_lua_block" {
		start := i
		for i < len(rest) && !unicode.IsSpace(rest[i]) && !(rest[i] == '{' && (i == start || rest[i-1] != '$')) {
			i++
		}
		if i >= len(rest) {
			return nil, i
		}
		if i == start {
			return []tok{{E: `unexpected "{"`, EL: lineAt(i)}}, i + 1
		}
		at := i
		if rest[i] != '{' {
			at++ // the blank is read
		} else {
			at++
		}
		out = append(out, tok{V: string(rest[start:i]), L: lineAt(at)})
		space()
	}
	if i >= len(rest) {
		return out, i
	}
	if rest[i] != '{' {
		return append(out, tok{E: `expected "{" to start lua block`, EL: lineAt(i + 1)}), i + 1
	}
	i++
	n := luaClose(rest[i:])
	if n < 0 {
		return out, len(rest)
	}
	l := lineAt(i + n + 1)
	return append(out, tok{V: string(rest[i : i+n]), L: l, Q: true}, tok{V: ";", L: l}), i + n + 1
}

var luaExt = func() map[string]refExt {
	m := map[string]refExt{}
	for _, n := range luaNames {
		m[n] = refLua
	}
	return m
}()

func luaLexOptions() crossplane.LexOptions {
	return crossplane.LexOptions{Lexers: []crossplane.RegisterLexer{(&crossplane.Lua{}).RegisterLexer()}}
}

func luaLexCase(w *W, s string) error {
	want := refLex(s, luaExt)
	got := realToks(crossplane.LexWithOptions(strings.NewReader(s), luaLexOptions()))
	w.Steps(len(want))
	w.StateHash(toksHash(want))
	w.Outcome(lexClass(want[:max(0, len(want)-1)]))
	return diffToks(want, got)
}

func lexStrings(g func(func(string) bool), frames ...string) func(func(string) bool) {
	return func(yield func(string) bool) {
		g(func(s string) bool {
			for _, f := range frames {
				if !yield(strings.Replace(f, "%s", s, 1)) {
					return false
				}
			}
			return true
		})
	}
}

// pieces of Lua that are whole by themselves and next to each other
var luaPieces = []string{
	"a = 1", " ", "\n", "\t", "\f\v", "\u00a0", "{}", "{ a }", `"}"`, `'{'`, `"\""`, `'\'{'`, `"\\"`, `"'"`, "--}\n", "-- it's \"\n", "--[[ }\n ]]", "--[==[ ]] }' ]==]", "[[}]]", "[[\n\"{]]", "[=[ ]] } ]=]",
	"t[a[1]]", "x=[[\\]]", "é\u00a0🙂", "# {}\n", "\r\n", "--[ }\n", "--[=x }\n", ";", "$x", "\\", "a==b", "[ [1] ]",
}

type luaCase struct {
	Name string
	Body string
}

// luaBody checks one body, by construction: no model of Lua is involved.
func luaBody(w *W, c luaCase) error {
	arg, sep := "", " "
	var want []string
	if c.Name == "set_by_lua_block" {
		arg = " $v"
		want = append(want, "$v")
	}
	want = append(want, c.Body)
	w.Steps(2)
	w.State(c.Body)
	w.Outcome(c.Name)
	if len(c.Body)%2 == 1 {
		sep = "\n\t"
	}
	for _, frame := range []struct{ before, after string }{{"", ""}, {"x { a b;\n", "\ny 'z';\n}\nq;\n"}, {"a; ", "}"}, {"{", ""}} {
		src := frame.before + c.Name + arg + sep + "{" + c.Body + "}" + frame.after
		fs := memFS{"/m": src}
		o := crossplane.ParseOptions{Open: fs.open, LexOptions: luaLexOptions(), ErrorOnUnknownDirectives: false}
		p, err := crossplane.Parse("/m", &o)
		if frame.before == "{" || frame.after == "}" {
			if err != nil || p.Status != "failed" || len(p.Errors) != 1 {
				return fmt.Errorf("%q: an error around the block is not reported once: %v", src, p)
			}
			continue
		}
		if err != nil || p.Status != "ok" {
			return fmt.Errorf("%q: does not parse: %v %v", src, err, dumpPayload(p))
		}
		ds := p.Config[0].Parsed
		if frame.before != "" {
			endLine := strings.Count(src[:len(src)-len(frame.after)], "\n") + 1
			if len(ds) != 2 || len(ds[0].Block) != 3 || ds[0].Block[0].Line != 1 || ds[0].Block[2].Directive != "y" || ds[0].Block[2].Line != endLine+1 || ds[1].Line != endLine+3 {
				return fmt.Errorf("%q: the rest of the file is affected: %s", src, dumpPayload(p))
			}
			ds = ds[0].Block[1:2]
		}
		if len(ds) != 1 || ds[0].Directive != c.Name || ds[0].Block != nil || !reflect.DeepEqual(ds[0].Args, want) {
			return fmt.Errorf("%q: got %s", src, dumpPayload(p))
		}
		var out bytes.Buffer
		bo := crossplane.BuildOptions{Builders: []crossplane.RegisterBuilder{(&crossplane.Lua{}).RegisterBuilder()}}
		if err := crossplane.Build(&out, p.Config[0], &bo); err != nil {
			return err
		}
		fs2 := memFS{"/m": out.String()}
		o.Open = fs2.open
		q, err := crossplane.Parse("/m", &o)
		if err != nil || dumpDirsNoLines(q.Config[0].Parsed) != dumpDirsNoLines(p.Config[0].Parsed) || q.Status != "ok" {
			return fmt.Errorf("%q is built as %q, which parses as %v %s", src, out.String(), err, dumpPayload(q))
		}
	}
	// every end before the closing brace is an error
	if len(c.Body) < 24 {
		src := "a; " + c.Name + arg + sep + "{" + c.Body
		for n := len("a; ") + 1; n <= len(src); n++ {
			fs := memFS{"/m": src[:n]}
			o := crossplane.ParseOptions{Open: fs.open, LexOptions: luaLexOptions()}
			p, err := crossplane.Parse("/m", &o)
			if err == nil && p.Status != "failed" {
				return fmt.Errorf("%q: not reported: %s", src[:n], dumpPayload(p))
			}
			o.StopParsingOnError = true
			if p, err := crossplane.Parse("/m", &o); err == nil {
				return fmt.Errorf("%q: not reported when stopping: %s", src[:n], dumpPayload(p))
			}
		}
	}
	return nil
}

func luaBodies(names []string, lo, hi int) func(func(luaCase) bool) {
	return func(yield func(luaCase) bool) {
		stringsOver(luaPieces, lo, hi)(func(s string) bool {
			for _, n := range names {
				if !yield(luaCase{n, s}) {
					return false
				}
			}
			return true
		})
	}
}

func luaParse(w *W, c parseCase) error {
	fs := memFS{"/d/main": c.Src}
	o := options(c.Opt)
	o.LexOptions = luaLexOptions()
	if c.Opt&oUnknown != 0 {
		o.DirectiveSources = []crossplane.MatchFunc{crossplane.DefaultDirectivesMatchFunc, crossplane.MatchLuaLatest}
	}
	want, got, _, _ := parseBoth(fs, "/d/main", o, luaExt)
	w.Steps(1)
	w.State(want)
	return differ("payloads differ", want, got)
}

var luaConf = []string{`http {
  init_by_lua_block { require "x" -- }
  }
  server {
    set_by_lua_block $res {
      local a = { [[}]], '}' } return "{\"" .. a[1]
    }
    location / { content_by_lua_block { ngx.say("it's") } allow all; }
    server_name content_by_lua_block;
  }
}
`}

func init() {
	register("C03", func(x *X) {
		crossplane.SetTokenChanCap(32)
		n, b1, b2 := 6, 2, 3
		if x.thorough {
			n, b1, b2 = 7, 3, 4
		}
		Explore(x, fmt.Sprintf("bodies of up to %d pieces, every directive", b1), luaBodies(luaNames, 0, b1), luaBody)
		Explore(x, fmt.Sprintf("bodies of up to %d pieces, two directives", b2), luaBodies(luaNames[:2], b2, b2), luaBody)
		lua := []string{"{", "}", `"`, "-", "[", "]", `\`, "\n", "'"}
		Explore(x, fmt.Sprintf("all bodies up to %d characters", n), lexStrings(stringsOver(lua, 0, n), "content_by_lua_block {%s} a;"), luaLexCase)
		Explore(x, fmt.Sprintf("all bodies up to %d characters around long brackets", n+2), lexStrings(stringsOver([]string{"[", "=", "]", "-", "}"}, 0, n+1), "content_by_lua_block {%s}\na;"), luaLexCase)
		Explore(x, fmt.Sprintf("all texts up to %d fragments after the directive", n-1), lexStrings(stringsOver([]string{"{", "}", " ", "\n", "$v", "x", ";", `"`, "#", "\r"}, 0, n-1), "set_by_lua_block%s a; b", "content_by_lua_block%s a;"), luaLexCase)
		Explore(x, fmt.Sprintf("every character up to %#x, everywhere", lastRune(x)), lexStrings(allRunes(lastRune(x), []string{"%", "a%", "-- %\n}{", "'%}'", "[[%}]]", "[%[ } ]%]"}), "content_by_lua_block {%s}\na;", "set_by_lua_block $a%s {}"), luaLexCase)
		Explore(x, "long and deep bodies", func(y func(luaCase) bool) {
			rep := strings.Repeat
			for _, k := range sizes(300, 5000) {
				var bodies []string
				for _, p := range luaPieces {
					if k <= 40 || k > 100 {
						bodies = append(bodies, rep(p, k))
					}
				}
				bodies = append(bodies, rep("{", k)+rep("}", k), rep("{ '}' ", k)+rep("}", k), "["+rep("=", k)+"["+"}"+"]"+rep("=", k)+"]", "--["+rep("=", k)+"["+"\n}"+"]"+rep("=", k)+"]",
					"["+rep("=", k)+"[ ]"+rep("=", k-1)+"]"+"}"+"]"+rep("=", k)+"]", `"`+rep(`\"`, k)+`}"`, rep("{{}", k)+rep("}", k), `'`+rep("}", k)+`'`, rep(`"{" `, k), "--"+rep("-", k)+"}\n", rep("]", k), rep("{\n", k)+rep("}\n", k))
				for _, b := range bodies {
					for _, n := range luaNames[:2] {
						if !y(luaCase{n, b}) {
							return
						}
					}
				}
			}
		}, luaBody)
		Explore(x, "configurations with Lua blocks", withOpts(tokSeqs([]string{"content_by_lua_block {}", "set_by_lua_block $a {'}'}", "set_by_lua_block", "init_by_lua_block", "{", "}", ";", "a", "http {", "server {", "#c\n", `"content_by_lua_block"`}, 0, n-2), 0, oUnknown|oComments), luaParse)
		Explore(x, "deviations of a realistic configuration", withOpts(deviations(x, append(luaConf, luaConfigs...), []string{"", "{", "}", " ", "\n", `"`, "'", `\`, "-", "[", "]", ";", "#"}), 0), luaParse)
	}, "Bodies are valid UTF-8, as all text this library reads.", "The line of a Lua token is that of its closing brace.")
}
