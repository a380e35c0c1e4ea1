package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// A delivery is a way to hand over an input: the sizes of the reads, and how it ends.
type delivery struct {
	src   string
	cuts  uint64 // bit i: a read ends after byte i+1
	empty bool   // empty reads in between
	last  bool   // the end comes together with the last bytes
	fault error  // the end; nil means EOF
	pos   int
	gap   bool
	reads int
	after bool // read again after the end
	ended bool
}

func (d *delivery) Read(p []byte) (int, error) {
	d.reads++
	end := d.fault
	if end == nil {
		end = io.EOF
	}
	if d.ended {
		d.after = true
	}
	if d.empty && !d.gap {
		d.gap = true
		return 0, nil
	}
	d.gap = false
	if d.pos == len(d.src) {
		d.ended = true
		return 0, end
	}
	n := 0
	for n < len(p) && d.pos < len(d.src) {
		p[n] = d.src[d.pos]
		n++
		d.pos++
		if d.pos <= 64 && d.cuts&(1<<(d.pos-1)) != 0 {
			break
		}
	}
	if d.last && d.pos == len(d.src) {
		d.ended = true
		return n, end
	}
	return n, nil
}

func (d *delivery) Close() error { return nil }

var deliverySrcs = []string{
	"", "a;", "a b;\n", "é\u00a0🙂;", "a{b c;}d;", `"é\"🙂";`, "a\r\nb\\\r\n c;", "#é\n\r\na;", `a 'x\'y`, "${é}x $y;", "a {;", "}", "a { b", "a\\\\ \\", "a \xff\xe9\xf0\x9f;", "\xf0\x9f\x99", "\u2028 x;\u2028",
	"if (a = '{') {}", "http{map a b{x y;}}", "a # b\nc; d \"e\n\" f;\n",
}

type deliveryCase struct {
	Src   string
	Cuts  uint64
	Mode  int // bit 0: empty reads, bit 1: end with data
	Cap   int
	Fault int // -1: none; else the offset of the fault
	Kind  int // which error it is, in errKinds
}

func (c deliveryCase) String() string {
	return fmt.Sprintf("%q cuts=%b mode=%d channel=%d fault=%d (%v)", clip(c.Src, 200), c.Cuts, c.Mode, c.Cap, c.Fault, errKinds[c.Kind])
}

var errFault = errors.New("injected fault")

func (c deliveryCase) reader() *delivery {
	d := &delivery{src: c.Src, cuts: c.Cuts, empty: c.Mode&1 != 0, last: c.Mode&2 != 0}
	if c.Fault >= 0 {
		d.src, d.fault = c.Src[:c.Fault], errKinds[c.Kind]
	}
	return d
}

// tokens is the model: a fault after some bytes is those bytes, then the error.
func (c deliveryCase) tokens() []tok { return c.tokensExt(nil) }

func (c deliveryCase) tokensExt(ext map[string]refExt) []tok {
	if c.Fault < 0 {
		return refLex(c.Src, ext)
	}
	return faultToks(c.Src[:c.Fault], errKinds[c.Kind], ext)
}

func faultToks(src string, fault error, ext map[string]refExt) []tok {
	toks := refLex(src, ext)
	if n := len(toks); n > 0 && toks[n-1].isErr() {
		if !toks[n-1].Prem {
			return toks // lexing ended before the fault
		}
		toks = toks[:n-1]
	}
	return append(toks, errTok(fault, strings.Count(src, "\n")+1))
}

func runDelivery(w *W, c deliveryCase) error {
	want := c.tokens()
	fault := errKinds[c.Kind]
	faulty := c.Fault >= 0 && want[len(want)-1].E == fault.Error()
	if faulty {
		want[len(want)-1].Prem = errors.Is(fault, crossplane.ErrPrematureLexEnd)
	}
	d := c.reader()
	got, last := realToksLast(crossplane.Lex(d))
	w.Steps(d.reads)
	w.StateHash(toksHash(want))
	w.Outcome(map[bool]string{true: "fault", false: "delivered"}[c.Fault >= 0])
	if d.after {
		return fmt.Errorf("the reader is read again after it ended")
	}
	if err := diffToks(want, got); err != nil {
		return err
	}
	if faulty && !sameErr(last, fault) {
		return fmt.Errorf("the error of the reader is lost: %v", last)
	}
	return nil
}

func parseDelivery(w *W, c deliveryCase) error {
	text := func(string) (string, error) { return c.Src, nil }
	glob := func(string) ([]string, error) { return []string{"/m", "/n"}, nil }
	for _, po := range []int{oComments | oSkipCtx | oSkipArgs, oStop, oUnknown} {
		o := options(po)
		o.Glob = glob
		wp, we := refParseToks("/m", &o, text, glob, func(_, _ string) []tok { return c.tokens() })
		var ds []*delivery
		o.Open = func(string) (io.ReadCloser, error) {
			d := c.reader()
			ds = append(ds, d)
			return d, nil
		}
		p, err := crossplane.Parse("/m", &o)
		want, got := "", ""
		if we != nil {
			want = "error " + we.dump()
		} else {
			want = wp.dump()
		}
		if err != nil {
			got = "error " + dumpErr(err)
		} else {
			got = dumpPayload(p)
		}
		w.Steps(1)
		w.State(want)
		if err := differ("options "+optName(po), want, got); err != nil {
			return err
		}
		if fault := errKinds[c.Kind]; c.Fault >= 0 && c.tokens()[len(c.tokens())-1].E == fault.Error() {
			if err == nil && p.Status != "failed" {
				return fmt.Errorf("a read error, but the parse succeeds: %s", got)
			}
			if po == oUnknown && err == nil {
				found := false
				for _, e := range p.Errors {
					found = found || sameErr(e.Error, fault)
				}
				if !found {
					return fmt.Errorf("the cause of the failure is lost: %s", got)
				}
			}
		}
	}
	return nil
}

// allCuts yields every way to split sources of up to n bytes into reads, and every offset as the place of a fault.
func allCuts(srcs []string, n int, capacity int, faults bool) func(func(deliveryCase) bool) {
	return func(yield func(deliveryCase) bool) {
		for _, s := range srcs {
			if len(s) > n {
				continue
			}
			for cuts := uint64(0); cuts < 1<<max(0, len(s)-1); cuts++ {
				for mode := 0; mode < 4; mode++ {
					if !yield(deliveryCase{s, cuts, mode, capacity, -1, 0}) {
						return
					}
				}
			}
			if !faults {
				continue
			}
			for f := 0; f <= len(s); f++ {
				for cuts := uint64(0); cuts < 1<<max(0, f-1); cuts++ {
					for mode := 0; mode < 4; mode++ {
						if !yield(deliveryCase{s, cuts, mode, capacity, f, 0}) {
							return
						}
					}
				}
			}
		}
	}
}

// faultEverywhere yields a fault at every offset, delivered at once, byte by byte and by twos.
func faultEverywhere(srcs []string, capacity int) func(func(deliveryCase) bool) {
	return func(yield func(deliveryCase) bool) {
		for _, s := range srcs {
			for f := -1; f <= len(s); f++ {
				for _, cuts := range []uint64{0, 1<<64 - 1, 0xaaaaaaaaaaaaaaaa} {
					for mode := 0; mode < 4; mode++ {
						if !yield(deliveryCase{s, cuts, mode, capacity, f, 0}) {
							return
						}
					}
				}
			}
		}
	}
}

// ---- the readers that programs use: all with more methods than Read ----

// allMethods has what a file, a buffer and a connection have.
type allMethods struct {
	*bytes.Reader
}

func (a allMethods) Read(p []byte) (int, error)         { return a.Reader.Read(p) }
func (a allMethods) WriteTo(w io.Writer) (int64, error) { return a.Reader.WriteTo(w) }
func (a allMethods) ReadByte() (byte, error)            { return a.Reader.ReadByte() }
func (a allMethods) UnreadByte() error                  { return a.Reader.UnreadByte() }
func (a allMethods) ReadRune() (rune, int, error)       { return a.Reader.ReadRune() }
func (a allMethods) UnreadRune() error                  { return a.Reader.UnreadRune() }
func (a allMethods) Len() int                           { return a.Reader.Len() }
func (a allMethods) Name() string                       { return "/etc/passwd" }
func (a allMethods) String() string                     { return "x;" }
func (a allMethods) Close() error                       { return nil }

var readerKinds = []struct {
	name string
	make func(s string, skip int) (io.Reader, error) // a reader that is at skip in s
}{
	{"strings.Reader", func(s string, k int) (io.Reader, error) {
		r := strings.NewReader(s)
		_, err := r.Seek(int64(k), 0)
		return r, err
	}},
	{"bytes.Reader", func(s string, k int) (io.Reader, error) {
		r := bytes.NewReader([]byte(s))
		_, err := io.CopyN(io.Discard, r, int64(k))
		return r, err
	}},
	{"bytes.Buffer", func(s string, k int) (io.Reader, error) { r := bytes.NewBufferString(s); r.Next(k); return r, nil }},
	{"bufio.Reader", func(s string, k int) (io.Reader, error) {
		r := bufio.NewReaderSize(strings.NewReader(s), 16)
		_, err := r.Discard(k)
		return r, err
	}},
	{"os.File", func(s string, k int) (io.Reader, error) {
		f, err := os.CreateTemp("", "vhreader")
		if err != nil {
			return nil, err
		}
		_ = os.Remove(f.Name())
		_, _ = f.WriteString(s)
		_, err = f.Seek(int64(k), 0)
		return f, err
	}},
	{"io.SectionReader", func(s string, k int) (io.Reader, error) {
		return io.NewSectionReader(strings.NewReader(s+"more;"), int64(k), int64(len(s)-k)), nil
	}},
	{"io.LimitedReader", func(s string, k int) (io.Reader, error) {
		r := strings.NewReader(s + "more;")
		_, err := r.Seek(int64(k), 0)
		return io.LimitReader(r, int64(len(s)-k)), err
	}},
	{"io.MultiReader", func(s string, k int) (io.Reader, error) {
		return io.MultiReader(strings.NewReader(s[k:k+(len(s)-k)/2]), strings.NewReader(""), strings.NewReader(s[k+(len(s)-k)/2:])), nil
	}},
	{"io.TeeReader", func(s string, k int) (io.Reader, error) {
		r := strings.NewReader(s)
		_, err := r.Seek(int64(k), 0)
		return io.TeeReader(r, io.Discard), err
	}},
	{"io.Pipe", func(s string, k int) (io.Reader, error) {
		r, w := io.Pipe()
		go func() { _, _ = io.WriteString(w, s[k:]); w.Close() }()
		return r, nil
	}},
	{"every method", func(s string, k int) (io.Reader, error) {
		r := bytes.NewReader([]byte(s))
		_, err := r.Seek(int64(k), 0)
		return allMethods{r}, err
	}},
}

type readerCase struct {
	Src  string
	Skip int
	Kind int
}

func (c readerCase) String() string {
	return fmt.Sprintf("%s at %d of %q", readerKinds[c.Kind].name, c.Skip, clip(c.Src, 200))
}

func readerOne(w *W, c readerCase) error {
	k := readerKinds[c.Kind]
	text := c.Src[c.Skip:]
	want := refLex(text, nil)
	w.Steps(1)
	w.Outcome(k.name)
	w.StateHash(toksHash(want))
	r, err := k.make(c.Src, c.Skip)
	if err != nil {
		return nil // no room for a file
	}
	got := realToks(crossplane.Lex(r))
	if cl, ok := r.(io.Closer); ok {
		_ = cl.Close()
	}
	if err := diffToks(want, got); err != nil {
		return err
	}
	o := options(oComments | oSkipCtx | oSkipArgs)
	glob := func(string) ([]string, error) { return []string{"/m", "/n"}, nil }
	o.Glob = glob
	wp, we := refParse("/m", &o, func(string) (string, error) { return text, nil }, glob, nil)
	o.Open = func(string) (io.ReadCloser, error) {
		r, err := k.make(c.Src, c.Skip)
		if rc, ok := r.(io.ReadCloser); ok {
			return rc, err
		}
		return io.NopCloser(r), err
	}
	p, err := crossplane.Parse("/m", &o)
	wantText, gotText := "", ""
	if we != nil {
		wantText = "error " + we.dump()
	} else {
		wantText = wp.dump()
	}
	if err != nil {
		gotText = "error " + dumpErr(err)
	} else {
		gotText = dumpPayload(p)
	}
	return differ("payloads differ", wantText, gotText)
}

// ---- schedules: every interleaving of the reads of the lexer and the receives of its consumer ----

type schedule struct {
	Src    string
	Chunk  int
	Cap    int
	Fault  bool
	Parsed bool
}

func (s schedule) String() string { return fmt.Sprintf("%+v", struct{ schedule }{s}.schedule.plain()) }
func (s schedule) plain() string {
	return fmt.Sprintf("%q read by %d through a channel of %d, fault %v", s.Src, s.Chunk, s.Cap, s.Fault)
}

// gate lets a goroutine go on one step at a time.
type gate struct {
	waiting bool
	step    chan struct{}
}

func newGate() *gate { return &gate{step: make(chan struct{})} }
func (g *gate) pass() {
	g.waiting = true
	<-g.step
}

type gatedReader struct {
	g     *gate
	src   string
	chunk int
	fault error
}

func (r *gatedReader) Read(p []byte) (int, error) {
	r.g.pass()
	if r.src == "" {
		if r.fault != nil {
			return 0, r.fault
		}
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), r.chunk)], r.src)
	r.src = r.src[n:]
	return n, nil
}

// interleave runs body(choose) once for every sequence of choices. choose(n) picks one of n.
func interleave(body func(choose func(n int) int) error) (runs int, err error) {
	var path, width []int
	for {
		depth := 0
		err = body(func(n int) int {
			if depth == len(path) {
				path, width = append(path, 0), append(width, n)
			}
			if width[depth] != n {
				panic(fmt.Sprintf("schedule is not deterministic: %d choices, were %d", n, width[depth]))
			}
			depth++
			return path[depth-1]
		})
		runs++
		if err != nil {
			return runs, fmt.Errorf("schedule %v: %w", path, err)
		}
		path, width = path[:depth], width[:depth]
		i := depth - 1
		for ; i >= 0; i-- {
			if path[i]+1 < width[i] {
				path[i]++
				path, width = path[:i+1], width[:i+1]
				break
			}
		}
		if i < 0 {
			return runs, nil
		}
	}
}

func runSchedules(w *W, s schedule) error {
	want := refLex(s.Src, nil)
	if s.Fault {
		want = faultToks(s.Src, errFault, nil)
	}
	n, err := interleave(func(choose func(int) int) error {
		return bubble(func() error {
			crossplane.SetTokenChanCap(s.Cap)
			rg, cg := newGate(), newGate()
			rd := &gatedReader{g: rg, src: s.Src, chunk: s.Chunk}
			if s.Fault {
				rd.fault = errFault
			}
			var got []tok
			done := make(chan struct{})
			ch := crossplane.Lex(rd)
			go func() {
				defer close(done)
				one := make(chan crossplane.NgxToken, 1)
				for {
					cg.pass()
					t, ok := <-ch
					if !ok {
						return
					}
					one <- t
					close(one)
					got = append(got, realToks(one)...)
					one = make(chan crossplane.NgxToken, 1)
				}
			}()
			for {
				synctestWait()
				select {
				case <-done:
					return diffToks(want, got)
				default:
				}
				var ready []*gate
				for _, g := range []*gate{rg, cg} {
					if g.waiting {
						ready = append(ready, g)
					}
				}
				if len(ready) == 0 {
					return fmt.Errorf("the lexer and its consumer wait for each other; tokens so far: %v", got)
				}
				g := ready[0]
				if len(ready) > 1 {
					g = ready[choose(2)]
				}
				w.Steps(1)
				g.waiting = false
				g.step <- struct{}{}
			}
		})
	})
	w.StateHash(toksHash(want))
	w.Outcome(fmt.Sprintf("channel of %d", s.Cap))
	w.outcomes["schedules"] += int64(n)
	return err
}

func init() {
	register("C04", func(x *X) {
		crossplane.SetTokenChanCap(32)
		n := 15
		chunk := 2
		if x.thorough {
			n, chunk = 19, 1
		}
		Explore(x, fmt.Sprintf("every split of inputs of up to %d bytes into reads, every fault", n), allCuts(deliverySrcs, n, 32, true), runDelivery)
		Explore(x, "every split, parsed", allCuts(deliverySrcs, n-3, 32, true), parseDelivery)
		for _, capacity := range []int{0, 1, 2, 3, 2048} {
			crossplane.SetTokenChanCap(capacity)
			Explore(x, fmt.Sprintf("every split of short inputs, token channel of %d", capacity), allCuts(deliverySrcs, 8, capacity, true), runDelivery)
			bases := realConfigs
			if x.thorough || capacity == 0 {
				bases = allConfigs
			}
			Explore(x, fmt.Sprintf("a fault at every offset of realistic files, token channel of %d", capacity), faultEverywhere(bases, capacity), parseDelivery)
		}
		crossplane.SetTokenChanCap(64)
		Explore(x, "every text up to 5 characters, a fault at its end", func(y func(deliveryCase) bool) {
			stringsOver(lexCore, 0, 5)(func(s string) bool { return y(deliveryCase{s, 0, 0, 64, len(s), 0}) })
		}, runDelivery)
		Explore(x, "a fault of every kind at every offset", func(y func(deliveryCase) bool) {
			for kind := range errKinds {
				for _, s := range append([]string{"a b {c;\n} d", "http {\n listen 1;\n server { a b\n }", "map a b { c d; include x; } # e"}, deliverySrcs...) {
					for f := 0; f <= len(s); f++ {
						for mode := 0; mode < 4; mode++ {
							if !y(deliveryCase{s, 0, mode, 64, f, kind}) {
								return
							}
						}
					}
				}
			}
		}, func(w *W, c deliveryCase) error {
			if err := runDelivery(w, c); err != nil {
				return err
			}
			return parseDelivery(w, c)
		})
		Explore(x, "every kind of reader, from every offset", func(y func(readerCase) bool) {
			for kind := range readerKinds {
				for _, s := range append(append([]string{}, allConfigs...), deliverySrcs...) {
					for skip := 0; skip <= len(s); skip++ {
						if (skip < 40 || skip%97 == 0) && !y(readerCase{s, skip, kind}) {
							return
						}
					}
				}
			}
		}, readerOne)
		long := []string{strings.Repeat("é", 3000) + ";", strings.Repeat("a b;\n", 1500), strings.Repeat(" ", 4093) + "🙂 x;" + strings.Repeat("\n", 5000) + "y;", `"` + strings.Repeat(`\"é`, 2000) + `";`}
		Explore(x, "long inputs, a fault around the sizes of the buffers", func(y func(deliveryCase) bool) {
			for _, s := range long {
				for _, f := range []int{-1, 1, 2, 3, 4, 100, 2047, 2048, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 4099, 5000, len(s)} {
					for _, cuts := range []uint64{0, 1, 6, 1<<64 - 1} {
						for mode := 0; mode < 4; mode++ {
							if f <= len(s) && !y(deliveryCase{s, cuts, mode, 64, f, 0}) {
								return
							}
						}
					}
				}
			}
		}, func(w *W, c deliveryCase) error {
			if err := runDelivery(w, c); err != nil {
				return err
			}
			return parseDelivery(w, c)
		})
		Explore(x, "inputs of megabytes", func(y func(deliveryCase) bool) {
			hugeInputs(x.thorough)(func(s string) bool {
				for _, mode := range []int{0, 2} {
					for _, f := range []int{-1, len(s)} {
						if !y(deliveryCase{s, 0, mode, 64, f, 0}) {
							return false
						}
					}
				}
				return true
			})
		}, func(w *W, c deliveryCase) error {
			if err := runDelivery(w, c); err != nil {
				return err
			}
			return parseDelivery(w, c)
		})
		ExploreSeq(x, "every interleaving of the lexer's reads and its consumer's receives", func(y func(schedule) bool) {
			for _, s := range []string{"", "a;", "a b;", "é{}", "a;;", "a {", `"b";c`, "}", "a {b c;}\n#d\ne;", "x \"y z\" '';"} {
				for _, c := range []int{0, 1, 2, 3} {
					for _, k := range []int{chunk, 3} {
						for _, f := range []bool{false, true} {
							if !y(schedule{Src: s, Chunk: k, Cap: c, Fault: f}) {
								return
							}
						}
					}
				}
			}
		}, runSchedules)
		crossplane.SetTokenChanCap(crossplane.TokenChanCap)
	}, "A reader returns no more than a few empty reads in a row (bufio gives up after 100).", "The capacity of the channel is set with SetTokenChanCap, as the library's tests do.")
}
