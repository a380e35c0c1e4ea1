package main

import (
	"bytes"
	"fmt"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// A layoutCase is a config as a compact text and the options to build it with. In the text every
// statement is a letter, followed by "+" for each line it is below the statement before it, and by
// its block in parentheses: "a+e+(b#)".
type layoutCase struct {
	Body     string
	Indent   int
	Tabs     bool
	Header   bool
	Builders int
	Wide     int    // so many arguments of b
	Value    string // an argument and the comment of everything, and the name of e
}

var layoutStmts = map[byte]crossplane.Directive{
	'a': {Directive: "a"},
	'b': {Directive: "b", Args: []string{"x", "y z", "", "/;/"}},
	'#': {Directive: "#"},
	'h': {Directive: "#", Args: []string{"not", "a comment"}},
	'e': {Directive: "e", Block: crossplane.Directives{}},
	'f': {Directive: "loc ation", Args: []string{"~", `\.x$`}, Block: crossplane.Directives{}},
	'i': {Directive: "if", Args: []string{"$x", "=", "y z"}, Block: crossplane.Directives{}},
	'j': {Directive: "if", Args: []string{"x"}},
	'm': {Directive: "if", Args: []string{"(x", "y)"}, IsMapBlockParameter: true},
	't': {Directive: "ext", Args: []string{"text"}},
	'T': {Directive: "ext", Args: []string{"text"}, Block: crossplane.Directives{}},
	'u': {Directive: "my ext"},
	'n': {Directive: "include", Args: []string{"f"}, Includes: []int{0}},
	'k': {Directive: "k", File: "/f", Line: 7, Args: []string{}},
}

func layoutBody(s string, pos *int, line *int) crossplane.Directives {
	out := crossplane.Directives{}
	for *pos < len(s) && s[*pos] != ')' {
		d := layoutStmts[s[*pos]]
		*pos++
		for *pos < len(s) && s[*pos] == '+' {
			*line++
			*pos++
		}
		d.Line = *line
		if d.Directive == "#" && d.Args == nil {
			text := fmt.Sprintf(" c%d", *pos)
			d.Comment = &text
		}
		if *pos < len(s) && s[*pos] == '(' {
			*pos++
			d.Block = layoutBody(s, pos, line)
			*pos++
		}
		out = append(out, &d)
	}
	return out
}

type textBuilder struct{ pre, post string }

func (b textBuilder) Build(d *crossplane.Directive) string {
	return b.pre + d.Directive + " " + strings.Join(d.Args, "|") + fmt.Sprint(len(d.Block)) + b.post
}

type regBuilder struct {
	b     textBuilder
	names []string
}

var builderSets = [][]regBuilder{
	nil,
	{{textBuilder{"<", ">"}, []string{"ext", "my ext"}}},
	{{textBuilder{"1", ""}, []string{"ext"}}, {textBuilder{"2", ";\n"}, []string{"ext", "if"}}},
	{{textBuilder{"", ""}, []string{"e", "nothing"}}, {textBuilder{"\n", "\n\n"}, []string{"a", "b", "#", "loc ation"}}},
}

func (c layoutCase) builder(name string) (textBuilder, bool) {
	set := builderSets[c.Builders]
	for i := len(set) - 1; i >= 0; i-- { // the last one that is registered for a name counts
		for _, n := range set[i].names {
			if n == name {
				return set[i].b, true
			}
		}
	}
	return textBuilder{}, false
}

func (c layoutCase) options() *crossplane.BuildOptions {
	o := &crossplane.BuildOptions{Indent: c.Indent, Tabs: c.Tabs, Header: c.Header}
	for _, r := range builderSets[c.Builders] {
		o.Builders = append(o.Builders, crossplane.BuildWithBuilder(r.b, r.names...))
	}
	return o
}

// refBuild is the model of the layout: a list of lines. How a single word is quoted is property C15.
func (c layoutCase) refBuild(ds crossplane.Directives) string {
	unit := "    "
	switch {
	case c.Tabs:
		unit = "\t"
	case c.Indent != 0:
		unit = strings.Repeat(" ", c.Indent)
	}
	var lines []string
	var block func(ds crossplane.Directives, depth, at int)
	block = func(ds crossplane.Directives, depth, at int) {
		in := strings.Repeat(unit, depth)
		for _, d := range ds {
			if d.IsComment() && d.Line == at {
				lines[len(lines)-1] += " #" + *d.Comment
				continue
			}
			at = d.Line
			if b, ok := c.builder(d.Directive); ok {
				lines = append(lines, in+b.Build(d))
				continue
			}
			if d.IsComment() {
				lines = append(lines, in+"#"+*d.Comment)
				continue
			}
			head := in + crossplane.Enquote(d.Directive)
			if d.Directive == "if" && !d.IsMapBlockParameter {
				head += " ("
				for i, a := range d.Args {
					if i > 0 {
						head += " "
					}
					head += crossplane.Enquote(a)
				}
				head += ")"
			} else {
				for _, a := range d.Args {
					head += " " + crossplane.Enquote(a)
				}
			}
			if d.Block == nil {
				lines = append(lines, head+";")
				continue
			}
			lines = append(lines, head+" {")
			block(d.Block, depth+1, d.Line)
			lines = append(lines, in+"}")
		}
	}
	block(ds, 0, 0)
	text := strings.TrimSuffix(strings.Join(lines, "\n"), "\n")
	if c.Header {
		text = "# This config was built from JSON using NGINX crossplane.\n# If you encounter any bugs please report them here:\n# https://github.com/nginxinc/crossplane/issues\n\n" + text
	}
	return text
}

func (c layoutCase) setValues(ds crossplane.Directives) {
	for _, d := range ds {
		switch {
		case d.Comment != nil:
			d.Comment = &c.Value
		case d.Directive == "e":
			d.Directive = c.Value
		default:
			d.Args = []string{"x", c.Value, "y"}
		}
		c.setValues(d.Block)
	}
}

func layoutOne(w *W, c layoutCase) error {
	pos, line := 0, 1
	ds := layoutBody(c.Body, &pos, &line)
	if c.Wide > 0 {
		ds[0].Args = nil
		for i := 0; i < c.Wide; i++ {
			ds[0].Args = append(ds[0].Args, []string{"x", "", "y z", "$a", "w"}[i%5])
		}
	}
	if c.Value != "" {
		c.setValues(ds)
	}
	want := c.refBuild(ds)
	w.Steps(len(c.Body))
	w.State(want)
	w.Outcome(fmt.Sprintf("builders %d, tabs %v, header %v", c.Builders, c.Tabs, c.Header))
	o := c.options()
	for range 2 {
		var b bytes.Buffer
		if err := crossplane.Build(&b, crossplane.Config{File: "f", Parsed: ds}, o); err != nil {
			return err
		}
		if b.String() != want {
			return differ(fmt.Sprintf("layout of %s", c.Body), want, b.String())
		}
	}
	return nil
}

// layoutForests yields every forest of exactly n statements, with every statement on the line of the
// one before it or on the next line.
func layoutForests(n int, leaves, blocks string) []string {
	memo := make([][]string, n+1)
	memo[0] = []string{""}
	for k := 1; k <= n; k++ {
		for _, h := range leaves {
			for _, d := range []string{"", "+"} {
				for _, r := range memo[k-1] {
					memo[k] = append(memo[k], string(h)+d+r)
				}
			}
		}
		for _, h := range blocks {
			for _, d := range []string{"", "+"} {
				for j := 0; j < k; j++ {
					for _, in := range memo[j] {
						for _, r := range memo[k-1-j] {
							memo[k] = append(memo[k], string(h)+d+"("+in+")"+r)
						}
					}
				}
			}
		}
	}
	var all []string
	for _, m := range memo {
		all = append(all, m...)
	}
	return all
}

func layoutCases(bodies func() []string, opts []layoutCase) func(func(layoutCase) bool) {
	return func(yield func(layoutCase) bool) {
		for _, s := range bodies() {
			for _, o := range opts {
				o.Body = s
				if !yield(o) {
					return
				}
			}
		}
	}
}

func init() {
	register("C16", func(x *X) {
		n := 5
		if x.thorough {
			n = 6
		}
		var every []layoutCase
		for _, in := range []int{0, 1, 2, 4, 7} {
			for _, tabs := range []bool{false, true} {
				for _, h := range []bool{false, true} {
					for b := range builderSets {
						every = append(every, layoutCase{Indent: in, Tabs: tabs, Header: h, Builders: b})
					}
				}
			}
		}
		some := []layoutCase{{}, {Indent: 2, Builders: 1}, {Indent: 3, Tabs: true, Header: true, Builders: 2}}
		Explore(x, "all configs of up to 2 statements, every option", layoutCases(func() []string { return layoutForests(2, "ab#hjmtunk", "efiTm") }, every), layoutOne)
		Explore(x, fmt.Sprintf("all configs of up to %d statements", n-1), layoutCases(func() []string { return layoutForests(n-1, "ab#htu", "eiT") }, some), layoutOne)
		Explore(x, fmt.Sprintf("all configs of up to %d statements (small alphabet)", n), layoutCases(func() []string { return layoutForests(n, "a#t", "e") }, some), layoutOne)
		Explore(x, "comments and blocks, all lines", func(y func(layoutCase) bool) {
			layoutCases(func() []string { return layoutForests(n+1, "a#", "e")[:] }, some[:1])(y)
		}, layoutOne)
		Explore(x, "every depth around the prepared margins, every width", func(y func(layoutCase) bool) {
			for _, in := range []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 20, 25, 33, 34, 49, 50, 51, 99, 100, 101, 102, 150} {
				for _, tabs := range []bool{false, true} {
					for d := 0; d <= 130; d++ {
						if !y(layoutCase{Body: strings.Repeat("e+(", d) + "a#b+#+" + strings.Repeat(")", d), Indent: in, Tabs: tabs}) {
							return
						}
					}
				}
			}
		}, layoutOne)
		Explore(x, "values as people write them, with anything inserted or left out", func(y func(layoutCase) bool) {
			realishValues(x.thorough)(func(v string) bool {
				for i, o := range some {
					o.Body, o.Value = "b#+f+(i+(e+(#b+#+)a)#)e", v
					if i == len(v)%len(some) && v != "" && !y(o) {
						return false
					}
				}
				return true
			})
		}, layoutOne)
		Explore(x, fmt.Sprintf("every character up to %#x, everywhere", lastRune(x)), func(y func(layoutCase) bool) {
			allRunes(lastRune(x), []string{"%", "a%", "%a"})(func(v string) bool {
				o := some[len(v)%len(some)]
				o.Body, o.Value = "b#+f+(i+(e+(#b+#+)a)#)e", v
				return y(o)
			})
		}, layoutOne)
		Explore(x, "every directive name", func(y func(layoutCase) bool) {
			for _, v := range allNames() {
				for _, b := range []string{"e", "e#", "e+#+", "e(a)", "e(#)e", "e(e(e)e(a))e#", "e()f(e)b", "i(e)", "a#e()#e(e#)#"} {
					for _, o := range some {
						o.Body, o.Value = b, v
						if !y(o) {
							return
						}
					}
				}
			}
		}, layoutOne)
		Explore(x, "many statements, comments, lines and arguments", func(y func(layoutCase) bool) {
			rep := strings.Repeat
			for _, k := range sizes(140, 3000) {
				for i, b := range []string{rep("a", k), rep("a+", k), "a" + rep("#", k) + "b", "e(a" + rep("#", k) + ")", rep("#+", k), "a" + rep("+", k) + "#", "e" + rep("+", k) + "(#" + rep("+", k) + "#)", rep("e", k) + "#", rep("e(a)", k) + "#+#",
					rep("a+#", k), "e(" + rep("a#+", k) + ")" + "#", rep("e+(#a)", k), rep("t", k) + "#", "#" + rep("+", k) + "a", rep("i(b)#", k)} {
					o := some[i%len(some)]
					o.Body = b
					if !y(o) {
						return
					}
				}
				for _, b := range []string{"b#a", "f+(b#)#", "i(#)", "j#", "m"} {
					for _, o := range some {
						o.Body, o.Wide = b, k
						if !y(o) {
							return
						}
					}
				}
			}
		}, layoutOne)
	}, "How a single word is quoted is property C15; lines are positive; a parameter of a map-like block has no builder.")
}
