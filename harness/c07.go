package main

import (
	"fmt"
	"slices"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// goldenOf is what a match function has to report for a name.
func goldenOf(table, name string) ([]uint, bool) {
	if table == "Default" {
		for _, t := range []string{"Otel", "Njs", "NPlusLatest"} {
			if ms, ok := golden[t][name]; ok {
				return ms, true
			}
		}
		return nil, false
	}
	ms, ok := golden[table][name]
	return ms, ok
}

type matchCase struct{ Table, Name string }

func (c matchCase) String() string { return fmt.Sprintf("%s(%q)", c.Table, c.Name) }

func matchOne(w *W, c matchCase) error {
	want, known := goldenOf(c.Table, c.Name)
	w.Steps(1)
	if known {
		w.State(c.Table + " " + c.Name)
		w.Outcome(c.Table + " matches")
	} else {
		w.Outcome(c.Table + " does not match")
	}
	for i := 0; i < 2; i++ { // the same every time
		got, ok := matchers[c.Table](c.Name)
		if ok != known {
			return fmt.Errorf("matched is %v, should be %v", ok, known)
		}
		if !ok {
			if len(got) != 0 {
				return fmt.Errorf("masks %#x for a name that is not matched", got)
			}
			continue
		}
		a, b := slices.Clone(got), slices.Clone(want)
		slices.Sort(a)
		slices.Sort(b)
		if !slices.Equal(a, b) {
			return fmt.Errorf("masks %#x, should be %#x", got, want)
		}
		for _, m := range got {
			if m == 0 {
				return fmt.Errorf("a zero mask")
			}
		}
	}
	return nil
}

// An insertCase is every name that has one more, or another, character (or name) at a place.
type insertCase struct {
	Name string
	At   int
}

func (c insertCase) String() string { return fmt.Sprintf("%q, at %d", c.Name, c.At) }

// nearMisses yields names that are like the name.
func nearMisses(n string, yield func(string) bool) bool {
	out := []string{strings.ToUpper(n), strings.ToUpper(n[:1]) + n[1:], " " + n, n + " ", n + ";", `"` + n + `"`, n + "s", n + "_", "_" + n, n + n, n + "\x00", "$" + n, strings.ReplaceAll(n, "_", "-"), strings.ReplaceAll(n, "_", ""), n + "_block", n + "_hash_max_size"}
	for i := range n {
		out = append(out, n[:i]+n[i+1:], n[:i], n[i:], n[:i]+"x"+n[i+1:], n[:i]+n[i:i+1]+n[i:])
		if i > 0 {
			out = append(out, n[:i-1]+n[i:i+1]+n[i-1:i]+n[i+1:])
		}
	}
	for _, s := range out {
		if s != n && !yield(s) {
			return false
		}
	}
	return true
}

// Later releases keep the definitions of earlier ones, and Plus those of the open-source edition.
var keeps = [][2]string{
	{"R30", "R31"}, {"R31", "R33"}, {"R33", "R34"}, {"R34", "R35"}, {"R35", "R36"}, {"R36", "R37"}, {"R37", "NPlusLatest"},
	{"Oss124", "Oss126"}, {"Oss126", "OssLatest"}, {"Oss124", "R30"}, {"Oss126", "R33"}, {"OssLatest", "NPlusLatest"}, {"AppProtectWAFv4", "AppProtectWAFv5"},
	{"NPlusLatest", "Default"}, {"Njs", "Default"}, {"Otel", "Default"},
}

var keepExceptions = map[string]bool{
	"Oss124 R30 ssl": true, "Oss124 Oss126 ssl": true, // the ssl directive was removed in 1.25.1
	"OssLatest NPlusLatest proxy_ssl_alpn": true, // newer than the Plus release
}

type keepCase struct{ From, To, Name string }

func keepOne(w *W, c keepCase) error {
	w.Steps(1)
	old, ok := matchers[c.From](c.Name)
	if !ok {
		return nil
	}
	now, ok := matchers[c.To](c.Name)
	if keepExceptions[c.From+" "+c.To+" "+c.Name] {
		return nil
	}
	if !ok {
		return fmt.Errorf("not in %s any more", c.To)
	}
	w.Outcome(c.From + " to " + c.To)
	for _, m := range old {
		var ctx uint
		exact := false
		for _, n := range now {
			if n&0x3fff&m == m&0x3fff && n&(bBlock|bExpr) == m&(bBlock|bExpr) {
				ctx |= n & anyContext
				exact = exact || n == m
			}
		}
		if m&anyContext&^ctx != 0 || m&anyContext == 0 && !exact {
			return fmt.Errorf("masks %#x in %s, but only %#x in %s", old, c.From, now, c.To)
		}
	}
	return nil
}

func init() {
	register("C07", func(x *X) {
		crossplane.SetTokenChanCap(64)
		names := allNames()
		n := 3
		if x.thorough {
			n = 4
		}
		every := func(g func(func(string) bool)) func(func(matchCase) bool) {
			return func(y func(matchCase) bool) {
				g(func(s string) bool {
					for _, t := range matcherNames {
						if !y(matchCase{t, s}) {
							return false
						}
					}
					return true
				})
			}
		}
		Explore(x, "every directive of any table, in every table", every(listOf(names...)), matchOne)
		Explore(x, "a directive of one table is kept by the tables that follow", func(y func(keepCase) bool) {
			for _, k := range keeps {
				for _, n := range names {
					if !y(keepCase{k[0], k[1], n}) {
						return
					}
				}
			}
		}, keepOne)
		Explore(x, "names that are like a directive", every(func(y func(string) bool) {
			for _, n := range names {
				if !nearMisses(n, y) {
					return
				}
			}
		}), matchOne)
		chars := strings.Split("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.:;,/\\*$#@!?%&+=<>()[]{}|~^`'\" \t\r\n\x00\x7f\u00a0\u00e9\ufeff\u212a\u017f\u0131", "")
		Explore(x, "names with one more character, at every place, and names that are two", func(y func(insertCase) bool) {
			for _, n := range names {
				for i := 0; i <= len(n); i++ {
					if !y(insertCase{n, i}) {
						return
					}
				}
			}
		}, func(w *W, c insertCase) error {
			insert := chars
			if c.At == len(c.Name) {
				insert = append(append([]string{"_", ".", ":", "/", ">", "-"}, chars...), names...)
			}
			for _, s := range insert {
				for _, n := range []string{c.Name[:c.At] + s + c.Name[c.At:], c.Name[:c.At] + s + c.Name[min(len(c.Name), c.At+1):]} {
					for _, t := range matcherNames {
						_, known := goldenOf(t, n)
						if _, ok := matchers[t](n); ok != known {
							return fmt.Errorf("%s matches %q: %v, should be %v", t, n, ok, known)
						}
					}
				}
			}
			w.Steps(2 * len(insert))
			w.State(c.String())
			return nil
		})
		letters := strings.Split("abcdefghijklmnopqrstuvwxyz_0", "")
		Explore(x, fmt.Sprintf("all names up to %d letters", n), every(stringsOver(letters, 0, n)), matchOne)
	}, "The reference is a copy of the definitions, pinned at the reviewed commit; it agrees with every override and filter of scripts/generate/configs.",
		"Names are those of the pinned definitions, near misses of them, and all short names.")
}
