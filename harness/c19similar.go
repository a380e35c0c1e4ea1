package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// ---- 4: calls with similar arguments ----

// similarTexts are texts that are easily taken for each other: they start, end or count alike, or differ in one character.
func similarTexts() (out []string) {
	seen := map[string]bool{}
	add := func(ss ...string) {
		for _, s := range ss {
			if !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
	}
	rep := strings.Repeat
	for _, n := range append([]int{0}, sizes(70, 1100)...) {
		add(rep("a", n), rep("a", n)+"b", "b"+rep("a", n), rep("a", n)+" "+rep("a", n), rep("a", n)+"x"+rep("b", n), rep("a", n)+rep("b", n), rep("a", n)+"y"+rep("b", n), rep("ab", n), rep("é", n), rep("a", n)+`"`)
	}
	for _, n := range []int{1, 2, 3, 8, 16, 33, 64, 100, 130, 260} { // one character of n differs
		base := rep("k", n)
		for i := 0; i < n; i += 1 + n/70 {
			for _, c := range []string{"j", " ", `"`, "'", ";", "{", "$", `\`, "#", "K", "\u212a", "\n"} {
				add(base[:i] + c + base[i+1:])
			}
		}
	}
	for _, words := range [][]string{{"on", "off", "On", "ON", "oN", " on", "on ", "on\x00"}, {"a", "A", "á", "a\u0301", "ａ", "а"}, {"ab", "ba"}, {"a b", "a  b", "a\tb", "a\u00a0b", "a\nb", "a\r\nb", "ab"}, {"$a", "${a}", "$ a", `\$a`}, {"1", "01", "1.0", "+1"}, {"/a", "/a/", "//a", "/./a", "/b/../a"},
		{"Aa", "BB"}, {"AaAa", "BBBB", "AaBB", "BBAa"}, {"costarring", "liquid"}, {"declinate", "macallums"}, {"plumless", "buckeroo"}, {"listen", "Listen", "list", "listening"}, {"if", "if ", `"if"`}, {"#", "#a", "# a"}} {
		add(words...)
	}
	return
}

// similarCalls are what is done with each of the texts.
var similarCalls = []struct {
	name string
	run  func(s string) string
}{
	{"Enquote", crossplane.Enquote},
	{"Build an argument", func(s string) string {
		return buildOne(&crossplane.Directive{Directive: "x", Args: []string{"k", s}}, 0)
	}},
	{"Build an argument with tabs", func(s string) string {
		return buildOne(&crossplane.Directive{Directive: "x", Args: []string{"k", s}, Block: crossplane.Directives{{Directive: "y"}}}, 1)
	}},
	{"Build a name", func(s string) string {
		return buildOne(&crossplane.Directive{Directive: s, Line: 3, Args: []string{"k"}}, 2)
	}},
	{"Build a comment", func(s string) string { return buildOne(&crossplane.Directive{Directive: "#", Comment: &s}, 0) }},
	{"Build an if", func(s string) string {
		return buildOne(&crossplane.Directive{Directive: "if", Args: []string{s}, Block: crossplane.Directives{}}, 0)
	}},
	{"Build a map parameter", func(s string) string {
		return buildOne(&crossplane.Directive{Directive: "if", Args: []string{s}, IsMapBlockParameter: true}, 0)
	}},
	{"String", func(s string) string { return (&crossplane.Directive{Directive: "x", Args: []string{s}}).String() }},
	{"JSON", func(s string) string {
		b, err := json.Marshal(crossplane.Config{File: s, Parsed: crossplane.Directives{{Directive: "x", Args: []string{s}}}})
		return fmt.Sprint(string(b), err)
	}},
	{"Lex", func(s string) string {
		out := ""
		for t := range crossplane.Lex(strings.NewReader(s)) {
			out += fmt.Sprintf("%q %d %v %v;", t.Value, t.Line, t.IsQuoted, t.Error)
		}
		return out
	}},
	{"Parse as a file", func(s string) string { return parseText("/m", s, crossplane.ParseOptions{}) }},
	{"Parse as a file, with comments", func(s string) string { return parseText("/m", s, crossplane.ParseOptions{ParseComments: true}) }},
	{"Parse as a file, unknown names are errors", func(s string) string {
		return parseText("/m", s, crossplane.ParseOptions{ErrorOnUnknownDirectives: true})
	}},
	{"Parse a flag", func(s string) string { return parseText("/m", "http { sendfile '"+s+"'; }", crossplane.ParseOptions{}) }},
	{"Parse a flag, not checked", func(s string) string {
		return parseText("/m", "http { sendfile '"+s+"'; }", crossplane.ParseOptions{SkipDirectiveArgsCheck: true})
	}},
	{"Parse a flag of another module", func(s string) string {
		return parseText("/m", "http { sendfile '"+s+"'; }", crossplane.ParseOptions{DirectiveSources: []crossplane.MatchFunc{func(n string) ([]uint, bool) { return []uint{1<<25 | 2}, n == "sendfile" }}})
	}},
	{"Parse a block", func(s string) string {
		return parseText("/m", "http { '"+s+"' x { listen 80; } }", crossplane.ParseOptions{})
	}},
	{"Parse a condition", func(s string) string {
		return parseText("/m", "http { server { if ("+s+") { set $a b; } } }", crossplane.ParseOptions{})
	}},
	{"Parse a file named", func(s string) string { return parseText("/"+s, "user;", crossplane.ParseOptions{}) }},
	{"Parse an include", func(s string) string {
		return parseText("/m", "include '"+s+"';", crossplane.ParseOptions{CombineConfigs: true})
	}},
	{"DefaultDirectivesMatchFunc", func(s string) string { return fmt.Sprint(crossplane.DefaultDirectivesMatchFunc(s)) }},
}

func buildOne(d *crossplane.Directive, opt int) string {
	var b strings.Builder
	o := crossplane.BuildOptions{Indent: opt * 2, Tabs: opt == 1, Header: opt == 2}
	err := crossplane.Build(&b, crossplane.Config{Parsed: crossplane.Directives{d, {Directive: "z", Line: 3, Args: []string{}}}}, &o)
	return fmt.Sprint(b.String(), err)
}

func parseText(path, text string, o crossplane.ParseOptions) string {
	o.Open = func(p string) (io.ReadCloser, error) {
		if p != path {
			text = "included '" + p + "';"
		}
		return io.NopCloser(strings.NewReader(text)), nil
	}
	o.Glob = func(p string) ([]string, error) { return []string{p, p + "/x"}, nil }
	p, err := crossplane.Parse(path, &o)
	return payloadText(p, err)
}

type similarCase struct{ Call, Text int }

func (c similarCase) String() string {
	return fmt.Sprintf("%s %q after many others", similarCalls[c.Call].name, clip(similarTexts()[c.Text], 300))
}

// similarOrders are the orders in which the calls are made, each in a process of its own: each two calls are made both ways round.
const similarOrders = 4

func similarOrder(order, calls, texts int, do func(call, text int)) {
	n := calls * texts
	for k := 0; k < n; k++ {
		i := k
		if order%2 == 1 {
			i = n - 1 - k
		}
		if order < 2 {
			do(i%calls, i/calls) // all calls with a text, then the next
		} else {
			do(i/texts, i%texts) // a call with all texts, then the next
		}
	}
}

// runSimilar writes the results of all calls, made in an order.
func runSimilar(order int) int {
	crossplane.SetTokenChanCap(64)
	texts := similarTexts()
	res := make([][]string, len(similarCalls))
	for i := range res {
		res[i] = make([]string, len(texts))
	}
	similarOrder(order, len(similarCalls), len(texts), func(c, t int) { res[c][t] = similarCalls[c].run(texts[t]) })
	if err := json.NewEncoder(os.Stdout).Encode(res); err != nil {
		return 1
	}
	return 0
}

var similar struct {
	sync.Once
	results [similarOrders][][]string
	err     error
}

func similarOne(w *W, c similarCase) error {
	similar.Do(func() {
		exe, err := os.Executable()
		if err != nil {
			similar.err = err
			return
		}
		var wg sync.WaitGroup
		var errs [similarOrders]error
		for i := range similar.results {
			wg.Add(1)
			go func() {
				defer wg.Done()
				out, err := exec.Command(exe, "similar", strconv.Itoa(i)).Output()
				if err == nil {
					err = json.Unmarshal(out, &similar.results[i])
				}
				errs[i] = err
			}()
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				similar.err = fmt.Errorf("the calls in a process of their own: %v", err)
			}
		}
	})
	if similar.err != nil {
		return similar.err
	}
	first := similar.results[0][c.Call][c.Text]
	w.Steps(similarOrders)
	w.State(first)
	for i := 1; i < similarOrders; i++ {
		if err := differ(fmt.Sprintf("the result depends on the calls before (orders 0 and %d)", i), first, similar.results[i][c.Call][c.Text]); err != nil {
			return err
		}
	}
	return nil
}
