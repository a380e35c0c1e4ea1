package main

import (
	_ "embed"
	"sort"
	"strconv"
	"strings"
)

//go:embed golden.txt
var goldenText string

// golden is what each match function has to report: table -> directive -> masks.
var golden = func() map[string]map[string][]uint {
	out := map[string]map[string][]uint{}
	var cur map[string][]uint
	for _, l := range strings.Split(goldenText, "\n") {
		f := strings.Fields(l)
		switch {
		case len(f) == 0 || f[0][0] == '#':
		case f[0] == "table":
			cur = map[string][]uint{}
			out[f[1]] = cur
		default:
			var ms []uint
			for _, h := range f[1:] {
				m, err := strconv.ParseUint(h, 16, 64)
				if err != nil {
					panic(err)
				}
				ms = append(ms, uint(m))
			}
			cur[f[0]] = ms
		}
	}
	return out
}()

// allNames are all directives of all tables.
func allNames() []string {
	set := map[string]bool{}
	for _, t := range golden {
		for n := range t {
			set[n] = true
		}
	}
	var ns []string
	for n := range set {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}
