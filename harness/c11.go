package main

import (
	"fmt"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// combineCase is a payload made by hand: the bodies of its configs, in a small language:
// a leaf is "l", "(...)" a block, "[1,2]" a resolved include, "n" an include that was not resolved,
// "e" an include resolved to nothing, "d[1]" a directive with Includes that is no include, "#" a comment, "b" an include with a block.
type combineCase struct {
	Bodies []string
	Failed int // bit set of failed configs
	Status string
	Errs   []string // instead of Failed: for each config, its status and errors, each a letter
	Names  []string // of the configs, if they are not f0, f1 and so on
}

func buildBody(s string, pos *int, line *int, file string) crossplane.Directives {
	ds := crossplane.Directives{}
	for *pos < len(s) {
		c := s[*pos]
		*pos++
		*line++
		d := &crossplane.Directive{Directive: "leaf", Line: *line, Args: []string{file}, File: file}
		ints := func() []int {
			end := strings.IndexByte(s[*pos:], ']')
			var out []int
			for _, f := range strings.Split(s[*pos:*pos+end], ",") {
				n := 0
				_, _ = fmt.Sscanf(f, "%d", &n)
				out = append(out, n)
			}
			*pos += end + 1
			return out
		}
		switch c {
		case ')':
			return ds
		case '(':
			d.Directive = "block"
			d.Block = buildBody(s, pos, line, file)
		case '[':
			d.Directive = "include"
			d.Includes = ints()
		case 'n':
			d.Directive = "include"
		case 'e':
			d.Directive = "include"
			d.Includes = []int{}
		case 'd':
			*pos++
			d.Directive = "other"
			d.Includes = ints()
		case 'm':
			d.Directive, d.IsMapBlockParameter = "x", true
		case '#':
			t := "c"
			d = &crossplane.Directive{Directive: "#", Line: *line, Comment: &t, Args: []string{}}
		}
		ds = append(ds, d)
	}
	return ds
}

func (c combineCase) payload() *crossplane.Payload {
	p := &crossplane.Payload{Status: c.Status}
	for i, b := range c.Bodies {
		pos, line := 0, i*100
		name := fmt.Sprintf("f%d", i)
		cfg := crossplane.Config{File: name, Status: "ok", Parsed: buildBody(b, &pos, &line, name)}
		if i < len(c.Names) {
			cfg.File = c.Names[i]
		}
		if c.Failed&(1<<i) != 0 {
			l := i + 1
			e := &crossplane.ParseError{What: "bad " + name, File: &cfg.File, Line: &l}
			cfg.Status = "failed"
			cfg.Errors = []crossplane.ConfigError{{Line: &l, Error: e}}
			p.Errors = append(p.Errors, crossplane.PayloadError{File: name, Line: &l, Error: e, Callback: "cb"})
			p.Status = "failed"
		}
		if i < len(c.Errs) {
			cfg.Status, cfg.Errors = "ok", nil
			for _, e := range c.Errs[i] {
				l, err := i+1, error(errFault)
				ce := crossplane.ConfigError{Line: &l, Error: err}
				switch e {
				case 'F':
					cfg.Status = "failed"
					continue
				case 'O':
					cfg.Status = ""
					continue
				case 'n': // no line
					ce.Line = nil
				case 's': // line 0
					l = 0
				case 'p':
					ce.Error = &crossplane.ParseError{What: "w", File: &cfg.File, Line: &l}
				case 'z': // nothing
					ce = crossplane.ConfigError{}
				}
				cfg.Errors = append(cfg.Errors, ce)
				p.Errors = append(p.Errors, crossplane.PayloadError{File: name, Line: ce.Line, Error: ce.Error, Callback: i})
			}
		}
		p.Config = append(p.Config, cfg)
	}
	return p
}

// model of Combined on a hand-made payload
func refCombineReal(p *crossplane.Payload) (want string, bad bool) {
	if len(p.Config) == 0 {
		return dumpPayload(p), false
	}
	within := map[int]bool{0: true}
	var expand func(ds crossplane.Directives) crossplane.Directives
	expand = func(ds crossplane.Directives) crossplane.Directives {
		res := crossplane.Directives{}
		for _, d := range ds {
			c := *d
			if d.Block != nil {
				c.Block = expand(d.Block)
			}
			if d.Directive == "include" && d.Includes != nil {
				for _, i := range d.Includes {
					if i < 0 || i >= len(p.Config) || within[i] { // not there, or without end
						bad = true
						continue
					}
					within[i] = true
					res = append(res, expand(p.Config[i].Parsed)...)
					delete(within, i)
				}
				continue
			}
			res = append(res, &c)
		}
		return res
	}
	out := crossplane.Config{File: p.Config[0].File, Status: "ok"}
	for _, c := range p.Config {
		out.Errors = append(out.Errors, c.Errors...)
		if c.Status == "failed" {
			out.Status = "failed"
		}
	}
	out.Parsed = expand(p.Config[0].Parsed)
	q := crossplane.Payload{Status: p.Status, Errors: p.Errors, Config: []crossplane.Config{out}}
	if q.Status == "" {
		q.Status = "ok"
	}
	return dumpPayload(&q), bad
}

func combineOne(w *W, c combineCase) error {
	p := c.payload()
	before := dumpPayload(p)
	want, bad := refCombineReal(p)
	w.Steps(len(strings.Join(c.Bodies, "")))
	w.State(want)
	got, err := p.Combined()
	if after := dumpPayload(p); after != before {
		return differ("Combined changes the payload it is called on", before, after)
	}
	if bad {
		w.Outcome("bad index or cycle")
		if err == nil {
			return fmt.Errorf("an include index that does not exist, or a cycle, is not reported; got %s", dumpPayload(got))
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("Combined fails: %v", err)
	}
	w.Outcome("combined")
	if g := dumpPayload(got); g != want {
		return differ("combined payloads differ", want, g)
	}
	for i, e := range got.Errors {
		if e.Callback != p.Errors[i].Callback {
			return fmt.Errorf("the callback result of error %d is lost", i)
		}
	}
	// what comes out no longer refers to other configs, so combining again changes nothing
	again, err := got.Combined()
	if err != nil || dumpPayload(again) != want {
		return fmt.Errorf("combining a combined payload changes it: %v", err)
	}
	// the result is the caller's: changing it must not change what it was made from
	scribble(got.Config)
	if after := dumpPayload(p); after != before {
		return differ("the combined payload shares directives with the original", before, after)
	}
	return nil
}

func scribble(cs []crossplane.Config) {
	var walk func(ds crossplane.Directives)
	walk = func(ds crossplane.Directives) {
		for i, d := range ds {
			walk(d.Block)
			d.Directive = "scribbled"
			d.Line = -1
			d.Block = nil
			ds[i] = nil
		}
	}
	for i := range cs {
		walk(cs[i].Parsed)
	}
}

// manyCombined yields payloads with many configs, levels, directives and includes.
func manyCombined(yield func(combineCase) bool) {
	rep := strings.Repeat
	for _, n := range sizes(140, 600) {
		chained, star, ones := []string{"l[1]l"}, []string{""}, "[1"
		for i := 1; i <= n; i++ {
			chained = append(chained, fmt.Sprintf("(l[%d])", min(i+1, n+1)))
			star[0] += fmt.Sprintf("[%d]", n+1-i)
			star = append(star, "(l)e")
			ones += fmt.Sprintf(",%d", i%2+1)
		}
		chained = append(chained, "l")
		for f := 0; f < 8; f++ {
			for _, b := range [][]string{chained, star, {ones + "]", "l(n)", "e#"}, {rep("l", n) + "[1]" + rep("l", n), rep("(l)", n)}, {rep("(", n) + "[1]" + rep(")l", n), rep("(", n) + "l" + rep(")", n)},
				{rep("[1]", n), "[2]l", "l"}, {rep("([1]l", n) + rep(")", n), "l"}, append(star[:n:n], "[-1]"), {ones + fmt.Sprintf(",%d]", n), "l", "l"}} {
				if !yield(combineCase{b, f, []string{"", "ok"}[f%2], nil, nil}) {
					return
				}
			}
		}
	}
}

// combineCases yields payloads of k configs whose bodies have up to n items; config i only includes later ones.
func combineCases(k, n int) func(func(combineCase) bool) {
	return func(yield func(combineCase) bool) {
		bodies := make([][]string, k)
		for i := 0; i < k; i++ {
			items := []string{"l", "(l)", "()", "n", "e", "#", "m"}
			for j := i + 1; j < k; j++ {
				items = append(items, fmt.Sprintf("[%d]", j), fmt.Sprintf("(l[%d])", j))
			}
			if i == 0 && k > 2 {
				items = append(items, "[1,2]", "[2,1,2]", "((l[2])[1])", "d[1]")
			}
			if i < 2 {
				items = append(items, fmt.Sprintf("[%d]", k), "[-1]", fmt.Sprintf("(([%d]))", k+1))
			}
			m := n
			if i > 0 && i == k-1 {
				m = 1
			}
			seqs(items, 0, m, func(s []string) bool {
				bodies[i] = append(bodies[i], strings.Join(s, ""))
				return true
			})
		}
		cur := make([]string, k)
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == k {
				failed := 0
				st := "ok"
				switch h := len(strings.Join(cur, "")) % 4; h {
				case 1:
					failed = 1 << (k - 1)
				case 2:
					failed = 1
					st = ""
				case 3:
					st = ""
				}
				return yield(combineCase{append([]string{}, cur...), failed, st, nil, nil})
			}
			for _, b := range bodies[i] {
				cur[i] = b
				if !rec(i + 1) {
					return false
				}
			}
			return true
		}
		rec(0)
	}
}

// combineParsed compares Combined on a parsed payload with parsing for combining and with the model.
func combineParsed(w *W, c multiCase) error {
	w.Steps(3)
	want, got, _, gp := parseBoth(c.Files, "/d/main", options(c.Opt|oCombine), nil)
	w.State(want)
	if err := differ("combined payloads differ", want, got); err != nil {
		return err
	}
	_, _, wp, pp := parseBoth(c.Files, "/d/main", options(c.Opt&^oCombine), nil)
	if wp == nil || pp == nil {
		w.Outcome("hard error")
		return nil
	}
	before := dumpPayload(pp)
	comb, err := pp.Combined()
	if err != nil {
		return fmt.Errorf("Combined fails on a parsed payload: %v", err)
	}
	if after := dumpPayload(pp); after != before {
		return differ("Combined changes the payload it is called on", before, after)
	}
	w.Outcome(fmt.Sprintf("combined from %d files", len(pp.Config)))
	stripFiles(gp)
	if err := differ("Combined and CombineConfigs disagree", dumpPayload(gp), dumpPayload(comb)); err != nil {
		return err
	}
	return differ("Combined differs from the model", refCombine(wp).dump(), dumpPayload(comb))
}

func stripFiles(p *crossplane.Payload) {
	var walk func(ds crossplane.Directives)
	walk = func(ds crossplane.Directives) {
		for _, d := range ds {
			d.File = ""
			walk(d.Block)
		}
	}
	for i := range p.Config {
		walk(p.Config[i].Parsed)
	}
}

func init() {
	register("C11", func(x *X) {
		crossplane.SetTokenChanCap(16)
		Explore(x, "hand-made payloads of 1 config", combineCases(1, 4), combineOne)
		Explore(x, "hand-made payloads of 2 configs", combineCases(2, 2), combineOne)
		Explore(x, "hand-made payloads of 3 configs", combineCases(3, 2), combineOne)
		Explore(x, "hand-made payloads of 4 configs", combineCases(4, 1), combineOne)
		if x.thorough {
			Explore(x, "hand-made payloads of 2 configs, 3 items", combineCases(2, 3), combineOne)
			Explore(x, "hand-made payloads of 3 configs, 3 items", combineCases(3, 3), combineOne)
			Explore(x, "hand-made payloads of 4 configs, 2 items", combineCases(4, 2), combineOne)
		}
		Explore(x, "include graphs with contexts", chain(includeGraphs(2, 1, 1, 0), includeGraphs(1, 2, 1, oComments)), combineParsed)
		Explore(x, "all include graphs of 4 files with up to 2 includes each", pureGraphs(4, 2, 0), combineParsed)
		Explore(x, "two files with errors in either", mainAndInclude(errTokens, 1, 2, 0), combineParsed)
		if x.thorough {
			Explore(x, "include graphs with contexts, two items", includeGraphs(2, 2, 1, 0), combineParsed)
			Explore(x, "all include graphs of 3 files with up to 3 includes each", pureGraphs(3, 3, 0), combineParsed)
		}
		Explore(x, "hand-made payloads whose includes have several files, in every order and anywhere", func(y func(combineCase) bool) {
			for k := 3; k <= 5; k++ {
				var later []string
				for j := 1; j < k; j++ {
					later = append(later, fmt.Sprint(j))
				}
				seqs(later, 2, 3, func(s []string) bool {
					list := "[" + strings.Join(s, ",") + "]"
					for _, forms := range [][]string{{list}, {"(" + list + ")"}, {"[1]", list}, {"(l[1])", "l" + list}, {"[1]", "(" + list + ")"}, {"[1][2]", list, list}, {"[1,2]", "((" + list + "))l", "e"}, {"[2,1]", "", list + list}, {"(" + list + list + ")" + list}} {
						c := make([]string, k)
						for i := range c {
							c[i] = "l"
							if i < len(forms) {
								c[i] = forms[i]
							}
						}
						if !y(combineCase{c, 0, "ok", nil, nil}) {
							return false
						}
					}
					return true
				})
			}
		}, combineOne)
		Explore(x, "a file that is included in every two contexts", contextPairs, combineParsed)
		Explore(x, "many includes", manyIncludes(0), combineParsed)
		Explore(x, "many configs, levels and directives", manyCombined, combineOne)
		Explore(x, "hand-made payloads in which any config includes any", func(y func(combineCase) bool) {
			for k := 1; k <= 4; k++ {
				var bodies []string
				items := []string{"l"}
				for i := 0; i < k; i++ {
					items = append(items, fmt.Sprintf("[%d]", i), fmt.Sprintf("(%s[%d])", "l"[:i%2], i))
				}
				seqs(items, 0, []int{4, 3, 2, 1}[k-1], func(s []string) bool { bodies = append(bodies, strings.Join(s, "")); return true })
				if !seqs(bodies, k, k, func(b []string) bool { return y(combineCase{append([]string{}, b...), 0, "ok", nil, nil}) }) {
					return
				}
			}
			for _, n := range sizes(70, 600) { // a long way round, or twice the same way
				var round []string
				for i := 0; i < n; i++ {
					round = append(round, fmt.Sprintf("l([%d])", i+1))
				}
				for _, last := range []string{"l", "[0]", fmt.Sprintf("[%d]", n), fmt.Sprintf("([%d])", n/2)} {
					if !y(combineCase{append(round[:n:n], last), 0, "ok", nil, nil}) {
						return
					}
				}
			}
		}, combineOne)
		Explore(x, "hand-made payloads whose configs have names of every kind", func(y func(combineCase) bool) {
			for k := 1; k <= 3; k++ {
				seqs([]string{"", "a", "/a", "./a", "A", "b"}, k, k, func(names []string) bool {
					ok := true
					combineCases(k, 3-k+1)(func(c combineCase) bool {
						c.Names = append([]string(nil), names...)
						ok = y(c)
						return ok
					})
					return ok
				})
			}
		}, combineOne)
		Explore(x, "hand-made payloads with errors of every shape", func(y func(combineCase) bool) {
			var shapes []string
			seqs([]string{"n", "l", "s", "p", "z"}, 0, 2, func(s []string) bool {
				for _, st := range []string{"", "F", "O"} {
					shapes = append(shapes, st+strings.Join(s, ""))
				}
				return true
			})
			for _, st := range []string{"ok", "", "failed", "odd"} {
				for _, b := range [][]string{{"l[1]", "(l)"}, {"l", "l"}, {"([2])[1]", "#", "l"}, {"l", "", "[1]"}} {
					if !seqs(shapes, 1, 2, func(e []string) bool { return y(combineCase{b, 0, st, append([]string{}, e...), nil}) }) {
						return
					}
				}
			}
		}, combineOne)
		Explore(x, "empty payload", listOf(combineCase{}, combineCase{Status: "ok"}), combineOne)
	})
}
