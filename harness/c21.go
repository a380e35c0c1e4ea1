package main

import (
	"fmt"
	"slices"
	"strings"
)

var mapHeads = []string{
	"map a b", "geo a", "geo a b", "charset_map koi8-r utf-8", "match m", "types", "split_clients a b", "geoip2 f", "otel_exporter",
}

var mapParams = []string{
	"a b;", "a;", "a b c;", "include f;", "include nope;", "if x;", "default (y);", "hostnames;", "volatile on;", "ranges;", "auto_reload 5m;", "proxy_recursive;", "location / {", "listen", ";", "{", "}", "#c\n", `"x" '';`, "map a b {", `"if" "{";`, "daemon maybe;", "geoip2 f {", "*", "~^a$ $1;",
}

// mapFrames puts the block of a map-like directive everywhere it can and cannot stand.
func mapFrames() (fs []string) {
	for _, h := range mapHeads {
		fs = append(fs, "http { "+h+" {\n%s\n} server { listen; } }\nz;")
	}
	return
}

func mapOpts(g func(func(string) bool), opts ...int) func(func(multiCase) bool) {
	return func(yield func(multiCase) bool) {
		g(func(s string) bool {
			for _, o := range opts {
				if !yield(multiCase{memFS{"/d/main": s, "/d/f": "in f;"}, o}) {
					return false
				}
			}
			return true
		})
	}
}

func init() {
	register("C21", func(x *X) {
		n, m := 3, 5
		if x.thorough {
			n, m = 4, 6
		}
		frames := mapFrames()
		Explore(x, fmt.Sprintf("every map-like block, all bodies of up to %d parameters", n), mapOpts(tokSeqs(mapParams, 0, n, frames...), 0), parseMulti)
		Explore(x, fmt.Sprintf("every map-like block, all bodies of up to %d parameters, every kind of option", n-1), mapOpts(tokSeqs(mapParams, 0, n-1, frames...), oComments, oUnknown, oSkipCtx|oSkipArgs, oIgnore, oIgnore|oUnknown|oComments, oSingle, oCombine, oSkipArgs|oUnknown), parseMulti)
		Explore(x, "every map-like block, stopping at the first error", mapOpts(tokSeqs(mapParams, 0, n-1, frames...), 0, oIgnore|oComments, oUnknown), stopBoth)
		Explore(x, fmt.Sprintf("all bodies of up to %d tokens", m), mapOpts(tokSeqs([]string{"a", "b", ";", "{", "}", "#c\n", "if", `"}"`, "hostnames", "include"}, 0, m, frames[0], frames[1], frames[4], frames[5], frames[7]), oComments), parseMulti)
		Explore(x, "every map-like block in every context", mapOpts(func(y func(string) bool) {
			for _, f := range contextFrames {
				for _, h := range append(append([]string{}, mapHeads...), "map", "map a", "types x", "geo", `"map" a b`, "match", "upstream u", "maps a b", "type") {
					for _, b := range []string{"", "a b;", "a;", "include f;", "a {} b c;", "if x; location / { }", "a b; c d e; f g", "hostnames; ranges; volatile;", "map a b { c d; }"} {
						for _, after := range []string{"", "if x;", "listen 80;"} {
							if !y(strings.Replace(f, "%s", h+" { "+b+" }\n"+after, 1)) {
								return
							}
						}
					}
				}
			}
		}, 0, oSkipCtx, oSkipCtx|oSkipArgs, oUnknown, oIgnore|oSkipCtx, oSkipCtx|oComments|oStop), parseMulti)
		Explore(x, "every map-like block at every depth", mapOpts(func(y func(string) bool) {
			for _, h := range mapHeads {
				for _, in := range []string{"a", "location /", "http", "if (x)", `"map" a b c`} {
					for _, k := range sizes(70, 600) {
						if !y(strings.Repeat(in+" { ", k) + h + " { include x; a b; if; server { a; } b; listen 1; } if; a b c { " + h + " { c d; " + strings.Repeat("}", k+2)) {
							return
						}
					}
				}
			}
		}, 0, oSkipCtx|oSkipArgs|oComments, oUnknown|oIgnore), parseMulti)
		Explore(x, "numbers of values", mapOpts(func(y func(string) bool) {
			for _, h := range mapHeads {
				for _, p := range append([]string{"x", "on", `""`}, "volatile", "hostnames", "ranges", "proxy_recursive", "proxy", "delete", "default", "auto_reload", "include", "if", "~*x") {
					for _, k := range append([]int{0}, sizes(34, 260)...) {
						if !y("http { " + h + " { " + p + strings.Repeat(" on", k) + "; k v; } }") {
							return
						}
					}
				}
			}
		}, 0, oSkipArgs, oStop), parseMulti)
		Explore(x, "names that are like those of special parameters", mapOpts(func(y func(string) bool) {
			for _, h := range mapHeads {
				for _, p := range []string{"ranges", "proxy_recursive", "volatile", "hostnames", "auto_reload", "include", "default", "delete", "proxy"} {
					ok := nearMisses(p, func(n string) bool {
						for _, q := range []string{n, `"` + n + `"`} {
							if strings.ContainsAny(n, `" ;`+"\x00") && q == n {
								continue
							}
							if !y("http { " + h + " { " + q + "; " + q + " a; " + q + " a b; " + q + " { } " + p + "; k v; } }") {
								return false
							}
						}
						return true
					})
					if !ok {
						return
					}
				}
			}
		}, 0), parseMulti)
		Explore(x, "names and values as people write them", mapOpts(func(y func(string) bool) {
			for _, h := range mapHeads {
				inTexts(slices.Values(realValues), "http { "+h+" { '%' a; \"%\"; k '%'; k \"%\" '%'; } } z;", "http { "+h+" { % a; k %; \\% %; #%\n%; %b c; } }\nz;")(func(s string) bool {
					if !y(s) {
						y = func(string) bool { return false }
					}
					return true
				})
			}
		}, 0, oComments|oUnknown|oIgnore), parseMulti)
		Explore(x, "many parameters, blocks and comments", mapOpts(func(y func(string) bool) {
			rep := strings.Repeat
			for _, h := range mapHeads {
				for _, k := range sizes(140, 600) {
					for _, b := range []string{rep("a b;\n", k) + "c", rep("include f;\n", k) + "if;", rep("a b {\n", k) + rep("}\n", k) + "c d;", rep("volatile; ", k) + "c", rep("a b c;\n", k), rep("#c\n", k) + "a b;", "a" + rep(" #c\n", k) + "b;", rep("a", k) + " b; c;", "a " + rep("b", k) + "; listen"} {
						if !y("http { " + h + " {\n" + b + ";\n} server { listen; } }\nz;") {
							return
						}
					}
					if !y("http { " + rep(h+" { a b; if; }\n", k) + "if; server { listen; } }") {
						return
					}
				}
			}
		}, oComments, oUnknown|oIgnore), parseMulti)
	}, "Which directives are map-like, their special parameters and the number of values they take are those the library documents.")
}
