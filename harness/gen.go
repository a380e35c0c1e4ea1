package main

import (
	"sort"
	"strings"
)

// Deterministic enumerations, simplest case first.

// seqs yields every sequence of lo..hi elements of the alphabet, shorter ones first. The slice is reused.
func seqs[T any](alphabet []T, lo, hi int, yield func([]T) bool) bool {
	for n := lo; n <= hi; n++ {
		idx := make([]int, n)
		s := make([]T, n)
		for i := range s {
			s[i] = alphabet[0]
		}
		for {
			if !yield(s) {
				return false
			}
			i := n - 1
			for ; i >= 0; i-- {
				idx[i]++
				if idx[i] < len(alphabet) {
					s[i] = alphabet[idx[i]]
					break
				}
				idx[i] = 0
				s[i] = alphabet[0]
			}
			if i < 0 {
				break
			}
		}
	}
	return true
}

// stringsOver yields every concatenation of lo..hi fragments.
func stringsOver(alphabet []string, lo, hi int) func(yield func(string) bool) {
	return func(yield func(string) bool) {
		var buf []byte
		seqs(alphabet, lo, hi, func(s []string) bool {
			buf = buf[:0]
			for _, f := range s {
				buf = append(buf, f...)
			}
			return yield(string(buf))
		})
	}
}

// chain yields the cases of several generators one after another.
func chain[C any](gens ...func(yield func(C) bool)) func(yield func(C) bool) {
	return func(yield func(C) bool) {
		ok := true
		for _, g := range gens {
			if !ok {
				return
			}
			g(func(c C) bool {
				ok = yield(c)
				return ok
			})
		}
	}
}

func listOf[C any](cs ...C) func(yield func(C) bool) {
	return func(yield func(C) bool) {
		for _, c := range cs {
			if !yield(c) {
				return
			}
		}
	}
}

// sizes are the numbers up to max at which a limit could lie: all the small ones, and those around powers of two and
// round numbers.
func sizes(small, max int) []int {
	in := map[int]bool{}
	for n := 1; n <= small; n++ {
		in[n] = true
	}
	for p := 2; p <= 1<<20; p *= 2 {
		for d := -1; d <= 1; d++ {
			in[p+d], in[p+p/2+d] = true, true
		}
	}
	for p := 10; p <= 1_000_000; p *= 10 {
		for _, k := range []int{1, 2, 5} {
			for d := -1; d <= 1; d++ {
				in[k*p+d] = true
			}
		}
	}
	var out []int
	for n := range in {
		if n >= 1 && n <= max {
			out = append(out, n)
		}
	}
	sort.Ints(out)
	return out
}

// upTo leaves out the texts that are too long.
func upTo(limit int, g func(func(string) bool)) func(func(string) bool) {
	return func(y func(string) bool) {
		g(func(s string) bool { return len(s) > limit || y(s) })
	}
}

// hugeInputs yields inputs of at least a power of two from a megabyte on, in few and in many tokens, with something at the end.
func hugeInputs(thorough bool) func(func(string) bool) {
	return func(yield func(string) bool) {
		top := 22
		if thorough {
			top = 24
		}
		rep := strings.Repeat
		for k := 20; k <= top; k++ {
			n := 1 << k
			for _, s := range []string{
				"a \"" + rep("x", n) + "\" c;\nlast d;", rep("# a comment that is as long as a line is in many files, and a bit more\n", n/72) + "last d;", "a " + rep("y", n) + ";\n last d;",
				"a b;" + rep(" \n", n/2) + "last d;", "#" + rep("é", n/2) + "\nlast d;", rep("server_name www.example.com example.com *.example.org;\n", n/55) + "last d;",
			} {
				if !yield(s) {
					return
				}
				if k == 22 && !thorough {
					break
				}
			}
		}
	}
}
