package main

import (
	"fmt"
	"sort"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// contextFrames are all contexts, known and unknown: what to write around a statement to put it there.
var contextFrames = []string{
	"%s", "events {%s}", "mail {%s}", "mail {server {%s}}", "stream {%s}", "stream {server {%s}}", "stream {upstream u {%s}}",
	"http {%s}", "http {server {%s}}", "http {location / {%s}}", "http {server {location / {%s}}}", "http {server {location / {location /a {%s}}}}", "http {upstream u {%s}}",
	"http {server {if (a) {%s}}}", "http {server {location / {if (a) {%s}}}}", "http {server {location / {limit_except GET {%s}}}}",
	"http {server {if (a) {location / {%s}}}}",
	"mgmt {%s}", "http {oidc_provider p {%s}}",
	// unknown contexts
	"x {%s}", "http {x {%s}}", "location / {%s}", "server {%s}", "stream {location / {%s}}", "mail {location / {if (a) {%s}}}", "http {http {%s}}", "http {if (a) {%s}}", "main {%s}",
}

var argLists = []string{
	"", " a", " a b", " a b c", " a b c d", " a b c d e", " a b c d e f", " a b c d e f g", " a b c d e f g h", " a b c d e f g h i", " a b c d e f g h i j k l m n o p q r s t",
	" on", " OFF", " oN", ` "on"`, " on off", ` ""`, " onn", ` "o"`, " (a)", " (a", " ( a )", " ()", " ( )", " (a) b", " a (b)", ` (a b")")`, ` "(a" "b)"`,
}

var endings = []string{";", "{}", "{z;}", ""}

// statements writes the directive with every argument list and ending, in the frames.
func statements(name string, frames, args, ends []string) string {
	var b strings.Builder
	for _, f := range frames {
		before, after, _ := strings.Cut(f, "%s")
		for _, a := range args {
			for _, e := range ends {
				if e == "" && f == "%s" {
					continue
				}
				b.WriteString(before)
				b.WriteString(name)
				b.WriteString(a)
				b.WriteString(e)
				b.WriteString(after)
				b.WriteString("\n")
			}
		}
	}
	return b.String()
}

type sourceCase struct {
	Masks [][]uint // per source; a nil list does not match
	Opt   int
	Src   string
}

func (c sourceCase) String() string {
	s := "masks"
	for _, ms := range c.Masks {
		s += fmt.Sprintf(" %#x", ms)
	}
	return fmt.Sprintf("%s options %s: %q", s, optName(c.Opt), clip(c.Src, 600))
}

// notFound is the first mask of a source that does not know the directive, but returns masks.
const notFound = ^uint(0)

// oddSources yields sources that return masks for what they don't know, or none for what they do.
func oddSources(yield func(sourceCase) bool) {
	src := statements("d", contextFrames[:4], []string{"", " a", " on", " a b"}, endings)
	sources := [][]uint{nil, {}, {notFound}, {notFound, 1<<18 | bNoArgs}, {notFound, 1<<18 | 1<<25 | bAny, 1<<18 | bAny | bBlock}, {notFound, notFound}, {1<<18 | bNoArgs}, {1<<25 | bNoArgs<<1 | bBlock}, {0}, {bAny}}
	for _, o := range []int{0, oUnknown, oSkipArgs, oStop, oSkipCtx} {
		if !seqs(sources, 1, 3, func(s [][]uint) bool {
			known, masks := false, 0
			for _, ms := range s {
				if ms != nil && (len(ms) == 0 || ms[0] != notFound) {
					known, masks = true, masks+len(ms)
				}
			}
			if o&oSkipCtx != 0 && known && masks == 0 {
				return true // no kind of error applies
			}
			return yield(sourceCase{append([][]uint(nil), s...), o, src})
		}) {
			return
		}
	}
}

func sourceRun(w *W, c sourceCase) error {
	o := options(c.Opt)
	for _, ms := range c.Masks {
		o.DirectiveSources = append(o.DirectiveSources, func(name string) ([]uint, bool) {
			if name == "d" && len(ms) > 0 && ms[0] == notFound {
				return append([]uint{}, ms[1:]...), false
			}
			if name == "d" && ms != nil {
				return append([]uint{}, ms...), true
			}
			return nil, false
		})
	}
	fs := memFS{"/m": c.Src}
	want, got, wp, _ := parseBoth(fs, "/m", o, nil)
	w.Steps(strings.Count(c.Src, "\n"))
	w.State(want)
	if wp != nil {
		for _, e := range wp.Errs {
			w.Outcome(strings.Map(func(r rune) rune {
				if r >= '0' && r <= '9' {
					return -1
				}
				return r
			}, e.What))
		}
	}
	return differ("payloads differ", want, got)
}

// anyContext is every context bit.
const anyContext = uint(0x1fffe0000) | 1<<16

func arityMasks(step uint, opts ...int) func(func(sourceCase) bool) {
	src := statements("d", []string{"%s", "http {%s}"}, argLists, endings)
	return func(yield func(sourceCase) bool) {
		for bits := uint(0); bits < 4096; bits += step {
			// 8 arities, block, expression, flag, any, 1 or more, 2 or more
			arity := bits&0xff | bits>>8<<10
			for _, form := range []uint{0, bBlock, bExpr, bBlock | bExpr} {
				for _, o := range opts {
					if !yield(sourceCase{[][]uint{{arity | form | 1<<18}}, o, src}) {
						return
					}
				}
			}
		}
	}
}

func contextMasks(yield func(sourceCase) bool) {
	src := statements("d", contextFrames, []string{"", " a", " on"}, endings)
	for _, o := range []int{0, oSkipCtx, oSkipArgs, oSkipCtx | oSkipArgs, oUnknown, oSkipCtx | oUnknown, oComments | oStop} {
		for _, form := range []uint{bNoArgs, bNoArgs | bBlock, bFlag, bNoArgs << 1} {
			for b := 15; b <= 33; b++ {
				for c := b; c <= 33; c++ {
					if !yield(sourceCase{[][]uint{{1<<b | 1<<c | form}}, o, src}) || !yield(sourceCase{[][]uint{{anyContext&^(1<<b|1<<c) | form}}, o, src}) {
						return
					}
				}
			}
		}
	}
}

// severalMasks yields lists of masks, and every way to divide them among sources.
func severalMasks(yield func(sourceCase) bool) {
	reps := []uint{
		1<<18 | bNoArgs, 1<<18 | bNoArgs<<1, 1<<18 | bNoArgs<<2 | bBlock, 1<<25 | bNoArgs<<1, 1<<25 | bNoArgs | bBlock, 1<<18 | bFlag, 1<<18 | b1More, 1<<25 | 1<<18 | b2More | bBlock, 1<<18 | bAny | bBlock, 1 << 18,
		1<<18 | bExpr | bBlock | b1More, 1<<26 | bAny, 1<<25 | bFlag | bNoArgs<<3,
	}
	src := statements("d", []string{"%s", "http {%s}", "http {server {%s}}"}, []string{"", " a", " on", " a b", " a b c", " (a b)"}, endings)
	for _, o := range []int{0, oUnknown, oSkipCtx, oSkipArgs, oStop | oSkipCtx} {
		each := func(ms []uint) bool {
			for split := 0; split < 1<<max(0, len(ms)-1); split++ {
				srcs := [][]uint{nil}
				for i, m := range ms {
					if i > 0 && split&(1<<(i-1)) != 0 {
						srcs = append(srcs, nil)
					}
					srcs[len(srcs)-1] = append(srcs[len(srcs)-1], m)
				}
				if !yield(sourceCase{srcs, o, src}) {
					return false
				}
				if len(ms) == 1 && !(yield(sourceCase{[][]uint{nil, srcs[0]}, o, src}) && yield(sourceCase{[][]uint{srcs[0], nil, nil}, o, src})) {
					return false
				}
			}
			return true
		}
		if !seqs(reps, 0, 3, each) || o&^oUnknown == 0 && !seqs(reps[:6], 4, 4, each) {
			return
		}
	}
}

// oddBlocks yields blocks, nested in each other, whose names look like several when they are joined, or like none.
func oddBlocks(yield func(sourceCase) bool) {
	names := []string{"http", "server", "location", "events", "if", "http>server", "http>server>if", "server>if", "stream>upstream", ">", "http>", ">http", "main", `""`, `"http>location"`, `http\>server`, `"http server"`, `"http\"server"`, `["http"`, "http/server", "http,server", "http.server"}
	var frames []string
	add := func(s []string) bool {
		f := "%s"
		for i := len(s) - 1; i >= 0; i-- {
			f = s[i] + " {" + f + "}"
		}
		frames = append(frames, f)
		return true
	}
	seqs(names, 1, 3, add)
	seqs([]string{"http", "server", "location /", "if (a)", "x", "stream", "limit_except GET", "upstream u"}, 4, 5, add)
	for _, n := range sizes(70, 300) {
		for _, s := range []string{"x ", "location / ", "http ", "server ", "if (a) "} {
			mid := strings.Split(strings.TrimSuffix(strings.Repeat(s+",", n), ","), ",")
			for _, in := range []string{"location /", "server", "if (a)", "x"} {
				add(append(append([]string{"http"}, mid...), in))
				add(append(append([]string{"stream"}, mid...), in))
			}
		}
	}
	for len(frames) > 0 {
		n := min(len(frames), 120)
		src := statements("d", frames[:n], []string{" a"}, []string{";", "{}"})
		frames = frames[n:]
		for b := 16; b <= 32; b++ {
			for _, o := range []int{0, oUnknown, oSkipCtx} {
				if b > 16 && o != 0 {
					continue
				}
				if !yield(sourceCase{[][]uint{{1<<b | bNoArgs<<1}}, o, src}) {
					return
				}
			}
		}
	}
}

// manyMasks yields many arguments, many masks and many sources.
func manyMasks(yield func(sourceCase) bool) {
	rep := strings.Repeat
	for _, n := range append([]int{0}, sizes(140, 1100)...) {
		args := []string{rep(" a", n), rep(" on", n), " (" + rep(" a", n) + " )", " " + rep("a", n), rep(` ""`, n), rep(" a\n#c\n", n)}
		src := statements("d", []string{"%s", "http { %s }"}, args, endings)
		for _, m := range []uint{bAny, b1More, b2More, bNoArgs, bNoArgs << 1, bNoArgs << 2, bNoArgs << 6, bNoArgs << 7, 0xff, bFlag, bFlag | 0xff, bAny | bBlock, b2More | bBlock, b1More | bExpr | bBlock, 0xff | bExpr, b2More | bFlag} {
			for _, o := range []int{0, oSkipCtx} {
				if !yield(sourceCase{[][]uint{{1<<18 | m}}, o, src}) {
					return
				}
			}
		}
		both := []uint{bNoArgs << 1, b1More, b2More, bAny, 0xff, bFlag, b1More | bBlock, bAny | bBlock}
		for i, m1 := range both {
			for j, m2 := range both {
				o := (i + j + n) % 3 / 2 * oSkipCtx
				if !yield(sourceCase{[][]uint{{1<<18 | m1, 1<<25 | bNoArgs, 1<<18 | m2}}, o, src}) || !yield(sourceCase{[][]uint{{1<<18 | bNoArgs<<3}, {1<<18 | m1}, {1<<18 | m2}}, o, src}) {
					return
				}
			}
		}
		if n == 0 || n > 300 {
			continue
		}
		src = statements("d", []string{"%s", "http { %s }"}, []string{"", " a", " a b", " on"}, endings)
		wrong := []uint{1<<25 | bNoArgs<<1, 1<<18 | bNoArgs<<2 | bBlock, 1<<18 | bNoArgs<<7}
		for _, w := range wrong {
			for _, pos := range []int{0, n / 2, n - 1, n} {
				var one []uint
				var several [][]uint
				for i := 0; i < n; i++ {
					m := w
					if i == pos {
						m = 1<<18 | bNoArgs
					}
					one, several = append(one, m), append(several, []uint{m})
				}
				if !yield(sourceCase{[][]uint{one}, 0, src}) || !yield(sourceCase{several, 0, src}) || !yield(sourceCase{append(make([][]uint, n), []uint{w}), oUnknown, src}) {
					return
				}
			}
		}
	}
}

// matchers are the shipped match functions.
var matchers = map[string]crossplane.MatchFunc{
	"Default": crossplane.DefaultDirectivesMatchFunc, "AppProtectWAFv4": crossplane.MatchAppProtectWAFv4, "AppProtectWAFv5": crossplane.MatchAppProtectWAFv5,
	"Geoip2": crossplane.MatchGeoip2Latest, "HeadersMore": crossplane.MatchHeadersMoreLatest, "Lua": crossplane.MatchLuaLatest, "Njs": crossplane.MatchNjsLatest,
	"R30": crossplane.MatchNginxPlusR30, "R31": crossplane.MatchNginxPlusR31, "R33": crossplane.MatchNginxPlusR33, "R34": crossplane.MatchNginxPlusR34,
	"R35": crossplane.MatchNginxPlusR35, "R36": crossplane.MatchNginxPlusR36, "R37": crossplane.MatchNginxPlusR37, "NPlusLatest": crossplane.MatchNginxPlusLatest,
	"Oss124": crossplane.MatchOss124, "Oss126": crossplane.MatchOss126, "OssLatest": crossplane.MatchOssLatest, "Otel": crossplane.MatchOtelLatest,
}

var matcherNames = func() (ns []string) {
	for n := range matchers {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return
}()

type shippedCase struct {
	Table string // "" is no source at all
	Name  string
	Opt   int
}

func (c shippedCase) String() string {
	return fmt.Sprintf("%s in table %q, options %s", c.Name, c.Table, optName(c.Opt))
}

var shippedArgs = []string{"", " a", " a b", " a b c", " a b c d", " a b c d e f g h", " on", " (a b)"}

func shippedRun(w *W, c shippedCase) error {
	o := options(c.Opt)
	if c.Table != "" {
		for _, t := range strings.Split(c.Table, "+") {
			o.DirectiveSources = append(o.DirectiveSources, matchers[t])
		}
	}
	fs := memFS{"/d/m": statements(c.Name, contextFrames, shippedArgs, []string{";", "{}", ""})}
	want, got, wp, _ := parseBoth(fs, "/d/m", o, nil)
	w.Steps(len(contextFrames) * len(shippedArgs) * 3)
	w.State(want)
	if wp != nil {
		w.Outcome(fmt.Sprintf("%d of %d statements rejected", len(wp.Errs), len(contextFrames)*len(shippedArgs)*3))
	}
	return differ("payloads differ", want, got)
}

func init() {
	register("C06", func(x *X) {
		crossplane.SetTokenChanCap(64)
		tables := []string{"", "OssLatest+Lua+HeadersMore", "R37+Otel"}
		step := uint(1)
		opts := []int{0, oUnknown | oSkipCtx}
		shipped := []int{0}
		if x.thorough {
			opts = append(opts, oSkipArgs, oStop, oSkipCtx|oComments)
			tables = append(append(tables, matcherNames...), "R30+Oss124", "Lua+Njs+Geoip2", "Otel+Default")
			shipped = append(shipped, oUnknown, oSkipCtx, oSkipArgs)
		}
		Explore(x, "every combination of arity bits", arityMasks(step, opts...), sourceRun)
		Explore(x, "every context and every pair of context bits", contextMasks, sourceRun)
		Explore(x, "up to three masks, over one or more sources", severalMasks, sourceRun)
		Explore(x, "all nestings of blocks, also with names that join to those of nginx, or are empty", oddBlocks, sourceRun)
		Explore(x, "sources with masks for what they do not know, or none for what they do", oddSources, sourceRun)
		Explore(x, "many arguments, masks and sources", manyMasks, sourceRun)
		names := allNames()
		Explore(x, "every shipped directive in every context", func(y func(shippedCase) bool) {
			for _, o := range shipped {
				for _, t := range tables {
					for _, n := range names {
						if !y(shippedCase{t, n, o}) {
							return
						}
					}
				}
			}
		}, shippedRun)
	}, "The masks are those the match functions report; C07 decides whether these are right.", "A match function reports at least one mask when it matches, as documented.")
}
