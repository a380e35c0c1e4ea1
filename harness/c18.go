package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// ---- the model of the JSON form: a generic tree ----

func jsDir(d *crossplane.Directive) any {
	if d == nil {
		return nil
	}
	m := map[string]any{"directive": d.Directive, "line": json.Number(strconv.Itoa(d.Line)), "args": jsStrings(d.Args)}
	if d.File != "" {
		m["file"] = d.File
	}
	if len(d.Includes) > 0 {
		var is []any
		for _, i := range d.Includes {
			is = append(is, json.Number(strconv.Itoa(i)))
		}
		m["includes"] = is
	}
	if d.Block != nil {
		m["block"] = jsDirs(d.Block)
	}
	if d.Comment != nil {
		m["comment"] = *d.Comment
	}
	if d.IsMapBlockParameter {
		m["mapBlockParameter"] = true
	}
	return m
}

func jsStrings(ss []string) any {
	if ss == nil {
		return nil
	}
	out := []any{}
	for _, s := range ss {
		out = append(out, s)
	}
	return out
}

func jsDirs(ds crossplane.Directives) any {
	if ds == nil {
		return nil
	}
	out := []any{}
	for _, d := range ds {
		out = append(out, jsDir(d))
	}
	return out
}

func jsLine(l *int) any {
	if l == nil {
		return nil
	}
	return json.Number(strconv.Itoa(*l))
}

func jsError(e error) any {
	if e == nil {
		return nil
	}
	return e.Error()
}

func jsPayload(p *crossplane.Payload) any {
	m := map[string]any{"status": p.Status, "errors": nil, "config": nil}
	if p.Errors != nil {
		errs := []any{}
		for _, e := range p.Errors {
			em := map[string]any{"file": e.File, "line": jsLine(e.Line), "error": jsError(e.Error)}
			if e.Callback != nil {
				em["callback"] = e.Callback
			}
			errs = append(errs, em)
		}
		m["errors"] = errs
	}
	if p.Config != nil {
		cfgs := []any{}
		for _, c := range p.Config {
			cm := map[string]any{"file": c.File, "status": c.Status, "errors": nil, "parsed": jsDirs(c.Parsed)}
			if c.Errors != nil {
				errs := []any{}
				for _, e := range c.Errors {
					errs = append(errs, map[string]any{"line": jsLine(e.Line), "error": jsError(e.Error)})
				}
				cm["errors"] = errs
			}
			cfgs = append(cfgs, cm)
		}
		m["config"] = cfgs
	}
	return m
}

// jsText writes a generic tree as JSON, in our own way: keys in reverse order, blanks, escapes where possible.
func jsText(v any) string {
	switch v := v.(type) {
	case map[string]any:
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Sort(sort.Reverse(sort.StringSlice(ks)))
		var parts []string
		for _, k := range ks {
			parts = append(parts, jsText(k)+" : "+jsText(v[k]))
		}
		return "{\n " + strings.Join(parts, " , ") + "\t}"
	case []any:
		var parts []string
		for _, e := range v {
			parts = append(parts, jsText(e))
		}
		return "[ " + strings.Join(parts, " ,") + " ]"
	case string:
		var b strings.Builder
		b.WriteByte('"')
		for _, r := range v {
			switch {
			case r >= 0x10000:
				r -= 0x10000
				fmt.Fprintf(&b, `\u%04x\u%04X`, 0xD800+r>>10, 0xDC00+r&0x3FF)
			case r == '/':
				b.WriteString(`\/`)
			case r < ' ' || r == '"' || r == '\\' || r >= 0x7f || r == 'a':
				fmt.Fprintf(&b, `\u%04x`, r)
			default:
				b.WriteRune(r)
			}
		}
		b.WriteByte('"')
		return b.String()
	case json.Number:
		return v.String()
	case bool:
		return strconv.FormatBool(v)
	}
	return "null"
}

func generic(b []byte) (any, error) {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, errors.New("more than one JSON value")
	}
	return v, nil
}

// sameJSON marshals v and compares it with the model.
func sameJSON(v any, want any) ([]byte, error) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, fmt.Errorf("can't be marshaled: %w", err)
	}
	got, err := generic(b)
	if err != nil {
		return nil, fmt.Errorf("%s: %w", b, err)
	}
	if !reflect.DeepEqual(got, want) {
		w, _ := json.Marshal(want)
		return nil, differ("JSON", string(w), string(b))
	}
	return b, nil
}

// keepEmpty: what JSON does not keep (an empty list that is omitted, and is nil afterwards) is taken away.
func withoutEmpty(ds crossplane.Directives) crossplane.Directives {
	if ds == nil {
		return nil
	}
	out := crossplane.Directives{}
	for _, d := range ds {
		if d == nil {
			out = append(out, nil)
			continue
		}
		c := *d
		if len(c.Includes) == 0 {
			c.Includes = nil
		}
		c.Block = withoutEmpty(c.Block)
		out = append(out, &c)
	}
	return out
}

func jsonTree(ds crossplane.Directives) error {
	for _, d := range ds {
		want := jsDir(d)
		b, err := sameJSON(d, want)
		if err != nil {
			return err
		}
		if b2, err := sameJSON(*d, want); err != nil || !bytes.Equal(b, b2) {
			return fmt.Errorf("a directive and a pointer to it are marshaled differently: %s %s %v", b, b2, err)
		}
		for _, text := range []string{string(b), jsText(want)} {
			var back crossplane.Directive
			if err := json.Unmarshal([]byte(text), &back); err != nil {
				return fmt.Errorf("%s: %w", text, err)
			}
			plain := withoutEmpty(crossplane.Directives{d})[0]
			if !reflect.DeepEqual(plain, &back) {
				return fmt.Errorf("%s reads back as something else: %s", text, differ("directive", dumpDirs(crossplane.Directives{plain}), dumpDirs(crossplane.Directives{&back})))
			}
			if !back.Equal(d) {
				return fmt.Errorf("%s reads back as a directive that is not equal", text)
			}
		}
	}
	return nil
}

func jsonPayload(p *crossplane.Payload) error {
	want := jsPayload(p)
	b, err := sameJSON(p, want)
	if err != nil {
		return err
	}
	if b2, err := sameJSON(*p, want); err != nil || !bytes.Equal(b, b2) {
		return fmt.Errorf("a payload and a pointer to it are marshaled differently: %s %s %v", b, b2, err)
	}
	if len(p.Errors) > 0 {
		return nil
	}
	for _, text := range []string{string(b), jsText(want)} {
		var back crossplane.Payload
		if err := json.Unmarshal([]byte(text), &back); err != nil {
			return fmt.Errorf("%s: %w", text, err)
		}
		plain := *p
		plain.Config = nil
		if p.Config != nil {
			plain.Config = []crossplane.Config{}
		}
		for _, c := range p.Config {
			c.Parsed = withoutEmpty(c.Parsed)
			plain.Config = append(plain.Config, c)
		}
		if !reflect.DeepEqual(plain, back) {
			return fmt.Errorf("%s reads back as something else: %s", text, differ("payload", dumpPayload(&plain), dumpPayload(&back)))
		}
		for i := range p.Config {
			for _, l := range layouts {
				t1, err1 := buildText(p.Config[i], l)
				t2, err2 := buildText(back.Config[i], l)
				if t1 != t2 || err1 != nil || err2 != nil {
					return differ("what is built", t1, t2)
				}
			}
		}
	}
	return nil
}

// ---- spaces ----

type shapeCase struct {
	Shape []int // one choice per field
	Inner []int // of a directive in its block
}

func shapeFields() []int { return []int{6, 2, 3, 2, 3, 3, 3, 2} }

// shaped makes a directive from one choice per field.
func shaped(c []int, inner *crossplane.Directive) *crossplane.Directive {
	empty, text := "", " a\n\"<&>\u2028"
	d := &crossplane.Directive{
		Directive: []string{"", "a", "#", "include", "if", "map"}[c[0]], Line: []int{0, 1 << 40}[c[1]],
		Args: [][]string{nil, {}, {"", "x y", "é\\"}}[c[2]], File: []string{"", "/f \"g\""}[c[3]],
		Includes: [][]int{nil, {}, {0, -1, 1 << 33}}[c[4]], Comment: []*string{nil, &empty, &text}[c[5]],
		IsMapBlockParameter: c[7] == 1,
	}
	switch c[6] {
	case 1:
		d.Block = crossplane.Directives{}
	case 2:
		d.Block = crossplane.Directives{inner, {Directive: "z"}}
	}
	return d
}

func shapes(yield func([]int) bool) {
	dims := shapeFields()
	c := make([]int, len(dims))
	for {
		if !yield(append([]int(nil), c...)) {
			return
		}
		i := len(c) - 1
		for ; i >= 0; i-- {
			c[i]++
			if c[i] < dims[i] {
				break
			}
			c[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func shapeOne(w *W, c shapeCase) error {
	d := shaped(c.Shape, shaped(c.Inner, &crossplane.Directive{Directive: "deep", Block: crossplane.Directives{}}))
	w.Steps(1)
	w.State(dumpDirs(crossplane.Directives{d}))
	ds := crossplane.Directives{d, {Directive: "next", Args: []string{}}}
	if err := jsonTree(ds); err != nil {
		return err
	}
	return jsonPayload(&crossplane.Payload{Status: "ok", Errors: []crossplane.PayloadError{}, Config: []crossplane.Config{
		{File: "m", Status: "ok", Errors: []crossplane.ConfigError{}, Parsed: ds}, {Parsed: nil}, {File: "\u2029", Parsed: crossplane.Directives{}},
	}})
}

func contentOne(w *W, s string) error {
	if !utf8.ValidString(s) {
		return nil
	}
	w.Steps(1)
	d := &crossplane.Directive{Directive: s, Line: 1, Args: []string{s, "", s + "x"}, File: s, Comment: &s, Block: crossplane.Directives{{Directive: "x" + s, Args: []string{}}}}
	if err := jsonTree(crossplane.Directives{d}); err != nil {
		return err
	}
	line := 3
	return jsonPayload(&crossplane.Payload{Status: s, Errors: []crossplane.PayloadError{{File: s, Line: &line, Error: &crossplane.ParseError{What: s, File: &s, Line: &line}, Callback: s}},
		Config: []crossplane.Config{{File: s, Status: s, Errors: []crossplane.ConfigError{{Line: nil, Error: &crossplane.ParseError{What: s}}}, Parsed: crossplane.Directives{d}}}})
}

// manyJSON checks payloads with n of everything.
func manyJSON(w *W, n int) error {
	w.Steps(n)
	flat := &crossplane.Payload{Status: "failed"}
	wide := &crossplane.Directive{Directive: "w", Line: n, Block: crossplane.Directives{}}
	deep := &crossplane.Directive{Directive: "d", Args: []string{}}
	for i := 0; i < n; i++ {
		line, name := i, fmt.Sprint("f", i)
		e := &crossplane.ParseError{What: "w", File: &name, Line: &line}
		flat.Errors = append(flat.Errors, crossplane.PayloadError{File: name, Line: &line, Error: e, Callback: name})
		flat.Config = append(flat.Config, crossplane.Config{File: name, Status: "ok", Parsed: crossplane.Directives{{Directive: name, Line: i, Args: []string{}}}})
		wide.Args = append(wide.Args, name)
		wide.Includes = append(wide.Includes, i)
		wide.Block = append(wide.Block, &crossplane.Directive{Directive: name, Line: i, Args: []string{name}})
		deep = &crossplane.Directive{Directive: "d", Line: i, Args: []string{name}, Block: crossplane.Directives{deep}}
	}
	ds := crossplane.Directives{wide}
	if n < 600 { // the JSON of a directive is made anew at every level above it
		ds = append(ds, deep)
	}
	flat.Config = append(flat.Config, crossplane.Config{File: "last", Status: "failed", Errors: []crossplane.ConfigError{{Line: flat.Errors[0].Line, Error: flat.Errors[0].Error}}, Parsed: ds})
	w.State(fmt.Sprint(n))
	if err := jsonPayload(flat); err != nil {
		return err
	}
	return jsonTree(ds)
}

// jsonParsed checks the payload of a parse.
func jsonParsed(w *W, c multiCase) error {
	o := options(c.Opt)
	o.Open, o.Glob = c.Files.open, c.Files.globText
	if c.Opt&oComments != 0 {
		o.ErrorCallback = func(err error) any { return "callback: " + err.Error() }
	}
	p, err := crossplane.Parse("/d/main", &o)
	if err != nil {
		return nil
	}
	w.Steps(1)
	w.State(dumpPayload(p))
	w.Outcome("status " + p.Status)
	if err := jsonPayload(p); err != nil {
		return err
	}
	for _, cfg := range p.Config {
		if err := jsonTree(cfg.Parsed); err != nil {
			return err
		}
	}
	return nil
}

func jsonFaults(w *W, c multiCase) error {
	points, err := faultRun(c)
	if err != nil {
		return nil // property C13
	}
	for _, pt := range points {
		fs := newFaultFS(c.Files, pt)
		o := options(c.Opt)
		o.Open, o.Glob = fs.Open, fs.Glob
		p, err := crossplane.Parse("/d/main", &o)
		if err != nil {
			continue
		}
		w.Steps(1)
		if err := jsonPayload(p); err != nil {
			return fmt.Errorf("with a %s: %w", pt, err)
		}
	}
	return nil
}

func init() {
	register("C18", func(x *X) {
		crossplane.SetTokenChanCap(32)
		n, k, hi := 3, 4, rune(0x3010)
		if x.thorough {
			n, k, hi = 4, 5, 0x10FFFF
		}
		Explore(x, "every combination of fields of a directive and of one in its block", func(y func(shapeCase) bool) {
			shapes(func(c []int) bool {
				ok := true
				shapes(func(in []int) bool {
					if c[6] != 2 {
						ok = y(shapeCase{c, in})
						return false
					}
					if !x.thorough && (c[1] != c[3] || in[1] != in[3] || in[7] != in[3] || max(c[0], in[0]) > 2 && c[0] != in[0]) {
						return true
					}
					ok = y(shapeCase{c, in})
					return ok
				})
				return ok
			})
		}, shapeOne)
		Explore(x, fmt.Sprintf("every text up to %d characters in every string", n), stringsOver([]string{"a", `"`, `\`, "/", "<", ">", "&", "\n", "\t", "\x00", "\x1f", "\x7f", "\u2028", "\u2029", "é", "🙂", "{", "}", ":", ",", "\ufffd", "u"}, 0, n), contentOne)
		Explore(x, fmt.Sprintf("every character up to %#x", hi), allRunes(hi, []string{"%", `\%`}), contentOne)
		Explore(x, "every directive name, and its statements", chain(listOf(allNames()...), inNames("% {}")), contentOne)
		Explore(x, "the payloads of statements of every name", func(y func(multiCase) bool) {
			withFiles(inNames(blockForms...), oComments|oSkipCtx|oSkipArgs, oSingle)(y)
		}, jsonParsed)
		Explore(x, "long texts", func(y func(string) bool) {
			for _, k := range append(sizes(140, 5000), 65536) {
				for _, s := range []string{"a", `"`, "<", "é", "\n", "\u2028", "a b"} {
					if !y(strings.Repeat(s, k)) {
						return
					}
				}
			}
		}, contentOne)
		Explore(x, "many errors, configs, directives and arguments", listOf(sizes(140, 1100)...), manyJSON)
		Explore(x, fmt.Sprintf("the payloads of all sequences of up to %d statements", k), func(y func(multiCase) bool) {
			toks := []string{"a;", `b "x" '';`, "#c\n", "x {", "}", "http { map a b {", "include f;", "include n*;", "if (a = b) {", "include nope;", "include [;", "listen;", "{"}
			withFiles(tokSeqs(toks, 0, k), oComments, oSingle, oCombine|oComments, oUnknown)(y)
		}, jsonParsed)
		Explore(x, "the payloads of parses with faults", func(y func(multiCase) bool) {
			withFiles(tokSeqs([]string{"a;", "include f;", "include *;", "x {", "}"}, 0, k), 0, oComments)(y)
		}, jsonFaults)
		Explore(x, "deviations of realistic configurations", func(y func(multiCase) bool) {
			withFiles(deviations(x, realConfigs, []string{"", ";", `"`, "}", "#"}), oSingle|oComments)(y)
			withFiles(deviations(x, corpus, corpusDeviants(x, []string{"", ";", `"`, "}", "#"}, "")), oSingle|oComments)(y)
		}, jsonParsed)
	}, "A payload with errors can be marshaled but not unmarshaled: an error is only its message.",
		"An empty list of includes is omitted like one that is missing, and Equal counts them the same.")
}
