package main

import (
	"fmt"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// refEqual is the model: agreement of all fields, where a nil and an empty list are the same.
func refEqual(a, b *crossplane.Directive) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if a.Directive != b.Directive || a.Line != b.Line || a.File != b.File || a.IsMapBlockParameter != b.IsMapBlockParameter ||
		(a.Comment == nil) != (b.Comment == nil) || a.Comment != nil && *a.Comment != *b.Comment ||
		len(a.Args) != len(b.Args) || len(a.Includes) != len(b.Includes) || len(a.Block) != len(b.Block) {
		return false
	}
	for i := range a.Args {
		if a.Args[i] != b.Args[i] {
			return false
		}
	}
	for i := range a.Includes {
		if a.Includes[i] != b.Includes[i] {
			return false
		}
	}
	for i := range a.Block {
		if !refEqual(a.Block[i], b.Block[i]) {
			return false
		}
	}
	return true
}

type rowCase struct {
	Row int
	set []*crossplane.Directive
	mk  func(i int) *crossplane.Directive
}

func (c rowCase) String() string {
	return fmt.Sprintf("%d: %s", c.Row, dumpDirs(crossplane.Directives{c.set[c.Row]}))
}

// equalRow compares one directive, freshly made, with every one of the set.
func equalRow(w *W, c rowCase) error {
	a := c.mk(c.Row)
	for j, b := range c.set {
		want := refEqual(a, b)
		if (c.Row == j) != want && want {
			w.Outcome("equal though not the same") // a nil and an empty list
		}
		if got := a.Equal(b); got != want {
			return fmt.Errorf("Equal(%s, %s) is %v", dumpDirs(crossplane.Directives{a}), dumpDirs(crossplane.Directives{b}), got)
		}
		if got := b.Equal(a); got != want {
			return fmt.Errorf("Equal(%s, %s) is %v", dumpDirs(crossplane.Directives{b}), dumpDirs(crossplane.Directives{a}), got)
		}
	}
	w.Steps(2 * len(c.set))
	w.State(dumpDirs(crossplane.Directives{a}))
	if a == nil {
		return nil
	}
	if !a.Equal(a) {
		return fmt.Errorf("not equal to itself")
	}
	if got := a.IsBlock(); got != (a.Block != nil) {
		return fmt.Errorf("IsBlock is %v", got)
	}
	if got := a.IsInclude(); got != (a.Directive == "include" && a.Includes != nil) {
		return fmt.Errorf("IsInclude is %v", got)
	}
	if got := a.IsComment(); got != (a.Directive == "#" && a.Comment != nil) {
		return fmt.Errorf("IsComment is %v", got)
	}
	text := a.Directive
	for _, arg := range a.Args {
		text += " " + arg
	}
	if len(a.Args) == 0 {
		text += " "
	}
	if len(a.Block) > 0 {
		text += " {...}"
	}
	if got := a.String(); strings.TrimSuffix(got, " ") != strings.TrimSuffix(text, " ") {
		return fmt.Errorf("String is %q", got)
	}
	return nil
}

func rows(mk func(i int) *crossplane.Directive, n int) func(func(rowCase) bool) {
	return func(yield func(rowCase) bool) {
		set := make([]*crossplane.Directive, n)
		for i := range set {
			set[i] = mk(i)
		}
		for i := range set {
			if !yield(rowCase{i, set, mk}) {
				return
			}
		}
	}
}

// directives of every combination of fields
func fieldDirective(i int) *crossplane.Directive {
	pick := func(n int) int {
		k := i % n
		i /= n
		return k
	}
	empty, text, text2 := "", "a", "a "
	d := &crossplane.Directive{
		Args:                [][]string{nil, {}, {""}, {"a"}, {"a", ""}, {"", "a"}, {"a", "a"}}[pick(7)],
		Directive:           []string{"", "a", "#", "include"}[pick(4)],
		Line:                []int{0, 1}[pick(2)],
		Includes:            [][]int{nil, {}, {0}, {1}, {0, 1}}[pick(5)],
		Comment:             []*string{nil, &empty, &text, &text2}[pick(4)],
		File:                []string{"", "a"}[pick(2)],
		IsMapBlockParameter: pick(2) == 1,
		Block:               []crossplane.Directives{nil, {}, {{}}, {nil}, {{Directive: "a"}}, {{Directive: "a"}, {}}}[pick(6)],
	}
	return d
}

const fieldDirectives = 7 * 4 * 2 * 5 * 4 * 2 * 2 * 6

// directives that differ in one field from another, by little
var similarDirectives = func() (out []func() *crossplane.Directive) {
	strs := []string{"", "a", "A", "b", "a ", " a", "aa", "ab", "ba", "a\n", "a/", "./a", "/a", "á", "a\u0301", "\u00e1", "\x00", "a\x00", `a"`, "'a'", `"a"`, "#", "# a", "include", "Include", "INCLUDE", "k", "\u212a"}
	add := func(f func() *crossplane.Directive) { out = append(out, f) }
	for _, s := range strs {
		add(func() *crossplane.Directive { return &crossplane.Directive{Directive: s} })
		add(func() *crossplane.Directive { return &crossplane.Directive{File: s} })
		add(func() *crossplane.Directive { return &crossplane.Directive{Directive: "#", Comment: &s} })
		add(func() *crossplane.Directive { return &crossplane.Directive{Directive: "x", Args: []string{s}} })
		add(func() *crossplane.Directive { return &crossplane.Directive{Directive: "x", Args: []string{s, "a"}} })
		add(func() *crossplane.Directive { return &crossplane.Directive{Directive: "x", Args: []string{"a", s}} })
		add(func() *crossplane.Directive {
			return &crossplane.Directive{Directive: "x", Block: crossplane.Directives{{Directive: s}}}
		})
	}
	for _, n := range []int{-1, 1, 2, 3, 255, 256, 257, 1 << 16, 1 << 31, 1 << 32, 1<<32 + 1, 1<<63 - 1} {
		add(func() *crossplane.Directive { return &crossplane.Directive{Line: n} })
		add(func() *crossplane.Directive { return &crossplane.Directive{Directive: "include", Includes: []int{n}} })
	}
	var args [][]string
	seqs([]string{"a", "b", "a b", ""}, 0, 3, func(l []string) bool { args = append(args, append([]string(nil), l...)); return true })
	for _, l := range args {
		add(func() *crossplane.Directive { return &crossplane.Directive{Directive: "y", Args: l} })
	}
	var nums [][]int
	seqs([]int{0, 1, 2}, 0, 4, func(l []int) bool { nums = append(nums, append([]int(nil), l...)); return true })
	for _, l := range nums {
		add(func() *crossplane.Directive { return &crossplane.Directive{Directive: "include", Includes: l} })
	}
	var kids [][]string
	seqs([]string{"a", "b", "-"}, 0, 4, func(l []string) bool { kids = append(kids, append([]string(nil), l...)); return true })
	for _, l := range kids {
		add(func() *crossplane.Directive {
			d := &crossplane.Directive{Directive: "z"}
			for _, n := range l {
				if n == "-" {
					d.Block = append(d.Block, nil)
				} else {
					d.Block = append(d.Block, &crossplane.Directive{Directive: n})
				}
			}
			return d
		})
	}
	return out
}()

// equalTree checks that a change of any single field anywhere in a tree is seen.
func equalTree(w *W, body string) error {
	mk := func() *crossplane.Directive {
		pos, line := 0, 1
		return &crossplane.Directive{Directive: "top", Block: layoutBody(body, &pos, &line)}
	}
	a, b := mk(), mk()
	if !a.Equal(b) || !b.Equal(a) {
		return fmt.Errorf("%s: two copies are not equal", dumpDirs(crossplane.Directives{a}))
	}
	w.State(body)
	var nodes []**crossplane.Directive
	var collect func(d **crossplane.Directive)
	collect = func(d **crossplane.Directive) {
		nodes = append(nodes, d)
		for i := range (*d).Block {
			collect(&(*d).Block[i])
		}
	}
	collect(&b)
	note := "other"
	for n, p := range nodes {
		orig := *p
		for m, change := range []func(d *crossplane.Directive){
			func(d *crossplane.Directive) { d.Directive += "x" },
			func(d *crossplane.Directive) { d.Line++ },
			func(d *crossplane.Directive) { d.Line = -d.Line - 1 },
			func(d *crossplane.Directive) { d.File += "x" },
			func(d *crossplane.Directive) { d.Args = append(append([]string(nil), d.Args...), "") },
			func(d *crossplane.Directive) {
				d.Args = append([]string(nil), d.Args...)
				if len(d.Args) == 0 {
					d.Args = []string{"x"}
				}
				d.Args[len(d.Args)-1] += "x"
			},
			func(d *crossplane.Directive) { d.Includes = append(append([]int(nil), d.Includes...), 0) },
			func(d *crossplane.Directive) {
				if d.Comment == nil {
					d.Comment = &note
				} else {
					d.Comment = nil
				}
			},
			func(d *crossplane.Directive) { d.Comment = &note },
			func(d *crossplane.Directive) { d.IsMapBlockParameter = !d.IsMapBlockParameter },
			func(d *crossplane.Directive) {
				d.Block = append(append(crossplane.Directives(nil), d.Block...), &crossplane.Directive{})
			},
			func(d *crossplane.Directive) {
				d.Block = append(append(crossplane.Directives(nil), d.Block...), nil)
			},
			func(d *crossplane.Directive) {
				if len(d.Block) > 1 {
					d.Block = append(crossplane.Directives{d.Block[len(d.Block)-1]}, d.Block[:len(d.Block)-1]...)
				}
			},
		} {
			c := *orig
			change(&c)
			*p = &c
			want := refEqual(a, b)
			if m != 12 && want {
				return fmt.Errorf("the model does not see change %d", m)
			}
			w.Steps(2)
			if a.Equal(b) != want || b.Equal(a) != want {
				return fmt.Errorf("change %d of statement %d of %s: Equal is %v", m, n, dumpDirs(crossplane.Directives{a}), !want)
			}
		}
		*p = orig
		if n > 0 {
			*p = nil
			if a.Equal(b) || b.Equal(a) {
				return fmt.Errorf("a missing statement is not seen")
			}
			*p = orig
		}
	}
	return nil
}

// equalLong compares directives with n of everything with those that differ in one place.
func equalLong(w *W, n int) error {
	mk := func() *crossplane.Directive {
		s := strings.Repeat("a", n)
		d := &crossplane.Directive{Directive: s, File: s, Comment: &s}
		for i := 0; i < n; i++ {
			d.Args = append(d.Args, fmt.Sprint(i))
			d.Includes = append(d.Includes, i)
			d.Block = append(d.Block, &crossplane.Directive{Directive: "k", Line: i})
		}
		return d
	}
	a := mk()
	b := mk()
	if !a.Equal(b) {
		return fmt.Errorf("two copies with %d of everything are not equal", n)
	}
	edit := func(s string, i int) string { return s[:i] + "b" + s[i+1:] }
	for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
		if i < 0 || i >= n {
			continue
		}
		for k, change := range []func(d *crossplane.Directive){
			func(d *crossplane.Directive) { d.Directive = edit(d.Directive, i) },
			func(d *crossplane.Directive) { d.File = edit(d.File, i) },
			func(d *crossplane.Directive) { s := edit(*d.Comment, i); d.Comment = &s },
			func(d *crossplane.Directive) { d.Args = append([]string(nil), d.Args...); d.Args[i] += "x" },
			func(d *crossplane.Directive) { d.Includes = append([]int(nil), d.Includes...); d.Includes[i]++ },
			func(d *crossplane.Directive) {
				d.Block = append(crossplane.Directives(nil), d.Block...)
				d.Block[i] = &crossplane.Directive{Directive: "k", Line: i, Args: []string{""}}
			},
			func(d *crossplane.Directive) { d.Args = append(d.Args[:i:i], d.Args[i+1:]...) },
			func(d *crossplane.Directive) { d.Includes = append(d.Includes[:i:i], d.Includes[i+1:]...) },
			func(d *crossplane.Directive) { d.Block = append(d.Block[:i:i], d.Block[i+1:]...) },
		} {
			c := *b
			change(&c)
			w.Steps(2)
			if a.Equal(&c) || c.Equal(a) {
				return fmt.Errorf("change %d at %d of %d is not seen", k, i, n)
			}
		}
	}
	w.State(fmt.Sprint("long ", n))
	return nil
}

func init() {
	register("C20", func(x *X) {
		stride, n := 1, 5
		if x.thorough {
			stride, n = 1, 6
		}
		var none *crossplane.Directive
		Explore(x, "all pairs of directives of every combination of fields", rows(func(i int) *crossplane.Directive {
			if i == 0 {
				return none
			}
			return fieldDirective((i - 1) * stride)
		}, 1+(fieldDirectives-1)/stride), equalRow)
		Explore(x, "all pairs of similar directives", rows(func(i int) *crossplane.Directive { return similarDirectives[i]() }, len(similarDirectives)), equalRow)
		var small []string
		for _, s := range layoutForests(3, "a#", "e") {
			if !strings.Contains(s, "+") {
				small = append(small, s)
			}
		}
		small = append(small, layoutForests(2, "ab#", "ef")...)
		Explore(x, "all pairs of trees", rows(func(i int) *crossplane.Directive {
			pos, line := 0, 1
			return &crossplane.Directive{Directive: "top", Block: layoutBody(small[i], &pos, &line)}
		}, len(small)), equalRow)
		Explore(x, fmt.Sprintf("every change of one field anywhere in a tree of up to %d statements", n), listOf(layoutForests(n, "ank", "e")...), equalTree)
		Explore(x, "deep and wide trees", func(y func(string) bool) {
			for _, d := range sizes(70, 140) {
				if !y(strings.Repeat("e(", d)+"a#"+strings.Repeat(")", d)) || !y(strings.Repeat("ab", d)) || !y(strings.Repeat("e(a)", d)) {
					return
				}
			}
		}, equalTree)
		Explore(x, "long lists and texts that differ in one place", listOf(sizes(140, 5000)...), equalLong)
	}, "Blocks and lists that are nil and empty count the same, so Equal does not see whether a directive without statements has a block.")
}
