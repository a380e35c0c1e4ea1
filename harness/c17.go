package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"
	"unicode"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// ---- BuildFiles: every sequence of paths against a model of the disk ----

type filesCase struct {
	Files   []string // ABS stands for a directory outside the target
	Dir     string
	Variant int
}

// what is built: by position, so that every config has its own text
func diskConfigs(c filesCase, base string) ([]crossplane.Config, *crossplane.BuildOptions) {
	note := " trailing blank \t\u00a0"
	var cs []crossplane.Config
	for i, f := range c.Files {
		cs = append(cs, crossplane.Config{File: strings.Replace(f, "ABS", base+"/abs", 1), Status: "ok", Parsed: crossplane.Directives{
			{Directive: "file", Line: 1, Args: []string{fmt.Sprint(i)}, Block: crossplane.Directives{{Directive: "x", Line: 2}}},
			{Directive: "#", Line: 3, Comment: &note},
		}})
		for k := 10; k < c.Variant && i == 0; k++ { // a longer file
			cs[i].Parsed[0].Block = append(cs[i].Parsed[0].Block, &crossplane.Directive{Directive: "y", Line: 2})
		}
		if (i+c.Variant)%3 == 1 {
			cs[i].Parsed = cs[i].Parsed[:1]
		}
		if (i+c.Variant)%7 == 2 {
			cs[i].Parsed = nil
		}
	}
	return cs, &crossplane.BuildOptions{Header: c.Variant%2 == 1, Tabs: c.Variant == 2}
}

// a modelled disk: path to "d" (a directory), "f" + contents, or "l" (a link to /dev/full)
type disk map[string]string

func (d disk) mkdirAll(p string) bool {
	if p == "/" {
		return true
	}
	switch n, ok := d[p]; {
	case ok && n == "d":
		return true
	case ok:
		return false
	}
	if !d.mkdirAll(path.Dir(p)) {
		return false
	}
	d[p] = "d"
	return true
}

func (d disk) write(p, text string) bool {
	if n, ok := d[p]; ok && n[0] != 'f' {
		return false
	}
	if len(p) > 1 && p[len(p)-1] == '/' {
		return false
	}
	d[p] = "f" + text
	return true
}

func (d disk) String() string {
	var ks []string
	for k := range d {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%s = %q\n", k, d[k])
	}
	return s
}

func readDisk(base string) disk {
	d := disk{}
	_ = filepath.WalkDir(base, func(p string, e os.DirEntry, err error) error {
		if err != nil {
			d[p] = err.Error()
			return nil
		}
		info, _ := e.Info()
		switch {
		case e.IsDir():
			d[p] = "d"
			if info.Mode().Perm()&0o700 != 0o700 {
				d[p] = "d" + info.Mode().String()
			}
		case e.Type()&os.ModeSymlink != 0:
			d[p] = "l"
		default:
			b, _ := os.ReadFile(p)
			d[p] = "f" + string(b)
			if info.Mode().Perm()&0o600 != 0o600 {
				d[p] += info.Mode().String()
			}
		}
		return nil
	})
	return d
}

func openFiles() int {
	es, _ := os.ReadDir("/proc/self/fd")
	return len(es)
}

func prepareDisk(base string) error {
	for _, d := range []string{"/out/isdir", "/cwd/isdir"} {
		if err := os.MkdirAll(base+d, 0o755); err != nil {
			return err
		}
	}
	for _, t := range []string{"/out", "/cwd"} {
		_ = os.WriteFile(base+t+"/old", []byte("old contents, longer than what is written instead: "+strings.Repeat("x", 300)), 0o644)
		_ = os.WriteFile(base+t+"/bad", []byte("a file"), 0o644)
		_ = os.WriteFile(base+t+"/other", []byte("not to be touched"), 0o644)
		_ = os.Symlink("/dev/full", base+t+"/full")
	}
	return nil
}

func diskOne(w *W, c filesCase) error {
	base, err := os.MkdirTemp("", "vhdisk")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(base)
	if err := prepareDisk(base); err != nil {
		return nil
	}
	if err := os.Chdir(base + "/cwd"); err != nil {
		return nil
	}
	defer func() { _ = os.Chdir("/") }()

	model := readDisk(base)
	dir := strings.Replace(c.Dir, "OUT", base+"/out", 1)
	target := dir
	if !filepath.IsAbs(dir) {
		target = path.Join(base+"/cwd", dir)
	}
	configs, o := diskConfigs(c, base)
	failed := false
	for _, cfg := range configs {
		p := cfg.File
		if !path.IsAbs(p) {
			p = path.Join(target, p)
		}
		w.Steps(1)
		var b bytes.Buffer
		if err := crossplane.Build(&b, cfg, o); err != nil {
			return err
		}
		if !model.mkdirAll(path.Dir(p)) || !model.write(p, strings.TrimRightFunc(b.String(), unicode.IsSpace)+"\n") {
			failed = true
			break
		}
	}
	before := openFiles()
	err = crossplane.BuildFiles(crossplane.Payload{Status: "ok", Config: configs}, dir, o)
	after := openFiles()
	w.Outcome(fmt.Sprintf("failed %v", failed))
	w.State(strings.ReplaceAll(model.String(), base, ""))
	if failed != (err != nil) {
		return fmt.Errorf("BuildFiles returns %v; the model fails: %v", err, failed)
	}
	if after != before {
		return fmt.Errorf("%d files are left open", after-before)
	}
	return differ("disk", model.String(), readDisk(base).String())
}

// a priorCase has files there already, of contents that are related to what is to be written.
type priorCase struct {
	Bodies []string // layout texts, see c16.go
	Prior  []int    // in priors
	Header bool
	Age    int // of the prior files in hours
	Mode   os.FileMode
}

var priors = []struct {
	name string
	f    func(string) (string, bool)
}{
	{"none", func(s string) (string, bool) { return "", false }},
	{"the same", func(s string) (string, bool) { return s, true }},
	{"of the same size, another first byte", func(s string) (string, bool) { return "X" + s[1:], true }},
	{"of the same size, another byte in the middle", func(s string) (string, bool) { return s[:len(s)/2] + "~" + s[len(s)/2+1:], true }},
	{"of the same size, another last byte", func(s string) (string, bool) { return s[:len(s)-1] + " ", true }},
	{"of the same size, all else", func(s string) (string, bool) { return strings.Repeat("x", len(s)), true }},
	{"without the line end", func(s string) (string, bool) { return s[:len(s)-1], true }},
	{"without the last line", func(s string) (string, bool) { return s[:strings.LastIndexByte(s[:len(s)-1], '\n')+1], true }},
	{"without the first line", func(s string) (string, bool) { return s[strings.IndexByte(s, '\n')+1:], true }},
	{"with one more line", func(s string) (string, bool) { return s + "a;\n", true }},
	{"with one more line end", func(s string) (string, bool) { return s + "\n", true }},
	{"with a line before it", func(s string) (string, bool) { return "a;\n" + s, true }},
	{"with blanks", func(s string) (string, bool) { return strings.ReplaceAll(s, "\n", " \n"), true }},
	{"with carriage returns", func(s string) (string, bool) { return strings.ReplaceAll(s, "\n", "\r\n"), true }},
	{"in upper case", func(s string) (string, bool) { return strings.ToUpper(s), true }},
	{"twice", func(s string) (string, bool) { return s + s, true }},
	{"half", func(s string) (string, bool) { return s[:len(s)/2], true }},
	{"empty", func(s string) (string, bool) { return "", true }},
	{"with a comment only", func(s string) (string, bool) { return "# DO NOT EDIT\n", true }},
}

func priorOne(w *W, c priorCase) error {
	base, err := os.MkdirTemp("", "vhdisk")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(base)
	o := &crossplane.BuildOptions{Header: c.Header}
	p := crossplane.Payload{Status: "ok"}
	want := disk{base: "d"}
	for i, s := range c.Bodies {
		pos, line := 0, 1
		cfg := crossplane.Config{File: fmt.Sprintf("f%d", i), Parsed: layoutBody(s, &pos, &line)}
		p.Config = append(p.Config, cfg)
		text := strings.TrimRightFunc(layoutCase{Body: s, Header: c.Header}.refBuild(cfg.Parsed), unicode.IsSpace) + "\n"
		file := base + "/" + cfg.File
		want[file] = "f" + text
		if old, ok := priors[c.Prior[i]].f(text); ok {
			if os.WriteFile(file, []byte(old), c.Mode) != nil {
				return nil
			}
			at := time.Now().Add(-time.Duration(c.Age) * time.Hour)
			_ = os.Chtimes(file, at, at)
		}
		w.Outcome("a file before: " + priors[c.Prior[i]].name)
	}
	w.Steps(len(c.Bodies))
	if err := crossplane.BuildFiles(p, base, o); err != nil {
		return err
	}
	return differ("disk", want.String(), readDisk(base).String())
}

func priorCases(yield func(priorCase) bool) {
	for _, bodies := range [][]string{{"a"}, {"b+#+"}, {"e(a+b+e(e(#+a)))"}, {""}, {"#"}, {"a", "b"}, {"a", "a", "e(b)"}} {
		var prior []int
		for i := range priors {
			prior = append(prior, i)
		}
		if !seqs(prior, len(bodies), len(bodies), func(ps []int) bool {
			for _, h := range []bool{false, true} {
				for _, age := range []int{0, 1000, -1000} {
					for _, m := range []os.FileMode{0o644, 0o755, 0o600} {
						if len(bodies) > 2 && (age != 0 || m != 0o644) {
							continue
						}
						if !yield(priorCase{bodies, append([]int(nil), ps...), h, age, m}) {
							return false
						}
					}
				}
			}
			return true
		}) {
			return
		}
	}
}

func diskCases(n int, paths []string, dirs []string, variants int) func(func(filesCase) bool) {
	return func(yield func(filesCase) bool) {
		for _, d := range dirs {
			for v := 0; v < variants; v++ {
				if !seqs(paths, 0, n, func(fs []string) bool {
					return yield(filesCase{append([]string(nil), fs...), d, v})
				}) {
					return
				}
			}
		}
	}
}

// ---- BuildInto: every failure of the creator ----

type intoCase struct {
	Bodies []string // layout texts, see c16.go
	Fault  []string
	Header bool
	Kind   int // which error the failures are, in errKinds; the first: each its own
}

type faultCreator struct {
	faults map[string]error
	log    []string
	texts  []string
	opened int
	closed int
	writes int
}

type faultWriter struct {
	c  *faultCreator
	no int
	ok bool
}

func (f *faultCreator) fail(what string) error {
	f.log = append(f.log, what)
	return f.faults[what]
}

func (f *faultCreator) Create(name string) (io.WriteCloser, error) {
	if f.opened != f.closed {
		f.log = append(f.log, "created before the last one was closed")
	}
	no := len(f.texts)
	if err := f.fail(fmt.Sprintf("create %d", no)); err != nil {
		f.texts = append(f.texts, name+":none")
		return nil, err
	}
	f.opened++
	f.texts = append(f.texts, name+":")
	return &faultWriter{f, no, true}, nil
}

func (f *faultCreator) Reset() { f.log = append(f.log, "reset") }

func (w *faultWriter) Write(b []byte) (int, error) {
	if !w.ok {
		w.c.log = append(w.c.log, "write after close")
	}
	n := w.c.writes
	w.c.writes++
	if err := w.c.faults[fmt.Sprintf("write %d", n)]; err != nil {
		w.c.log = append(w.c.log, fmt.Sprintf("write fails in %d", w.no))
		return len(b) / 2, err
	}
	w.c.texts[w.no] += string(b)
	return len(b), nil
}

func (w *faultWriter) Close() error {
	if !w.ok {
		w.c.log = append(w.c.log, "closed twice")
	}
	w.ok = false
	w.c.closed++
	return w.c.fail(fmt.Sprintf("close %d", w.no))
}

func intoOne(w *W, c intoCase) error {
	fc := &faultCreator{faults: map[string]error{}}
	for _, f := range c.Fault {
		fc.faults[f] = errors.New(f)
		if c.Kind > 0 {
			fc.faults[f] = errKinds[c.Kind]
		}
	}
	o := &crossplane.BuildOptions{Header: c.Header}
	p := &crossplane.Payload{Status: "ok"}
	var texts []string
	for i, s := range c.Bodies {
		pos, line := 0, 1
		cfg := crossplane.Config{File: fmt.Sprintf("f%d", i%2), Parsed: layoutBody(s, &pos, &line)}
		p.Config = append(p.Config, cfg)
		texts = append(texts, layoutCase{Body: s, Header: c.Header}.refBuild(cfg.Parsed))
	}
	err := crossplane.BuildInto(p, fc, o)

	// the model: each config is created, written and closed before the next one
	log := strings.Join(fc.log, ", ")
	w.Outcome(fmt.Sprintf("fault %v", len(c.Fault) > 0))
	w.Steps(len(fc.log))
	var want []string
	var wantErr error
	for i := range c.Bodies {
		what := fmt.Sprintf("create %d", i)
		want = append(want, what)
		if wantErr = fc.faults[what]; wantErr != nil {
			break
		}
		if e := writeFault(fc, i); e != nil {
			wantErr = e
			want = append(want, fmt.Sprintf("write fails in %d", i), fmt.Sprintf("close %d", i))
			break
		}
		what = fmt.Sprintf("close %d", i)
		want = append(want, what)
		if wantErr = fc.faults[what]; wantErr != nil {
			break
		}
		if exp := fmt.Sprintf("f%d:", i%2) + texts[i]; fc.texts[i] != exp {
			return differ("what is written", exp, fc.texts[i])
		}
	}
	w.State(log)
	if wantErr != nil && !sameErr(err, wantErr) || wantErr == nil && err != nil {
		return fmt.Errorf("BuildInto returns %v instead of %v (%s)", err, wantErr, log)
	}
	return differ("calls", strings.Join(want, ", "), log)
}

// writeFault returns the failure of a write to the i-th file, if there was one.
func writeFault(fc *faultCreator, i int) error {
	for _, l := range fc.log {
		if l == fmt.Sprintf("write fails in %d", i) {
			for k, e := range fc.faults {
				if strings.HasPrefix(k, "write") {
					return e
				}
			}
		}
	}
	return nil
}

// intoCases yields every payload with no fault, every single one, and every pair of one write and one other.
func intoCases(n int) func(func(intoCase) bool) {
	return func(yield func(intoCase) bool) {
		seqs([]string{"", "a", "a#+#", "e+(b)t", "e(e()i(a))"}, 0, n, func(s []string) bool {
			bodies := append([]string(nil), s...)
			for _, h := range []bool{false, true} {
				var others, writes []string
				for i := range bodies {
					others = append(others, fmt.Sprintf("create %d", i), fmt.Sprintf("close %d", i))
					writes = append(writes, fmt.Sprintf("write %d", 2*i), fmt.Sprintf("write %d", 2*i+1))
				}
				if !yield(intoCase{bodies, nil, h, 0}) {
					return false
				}
				for _, f := range append(others, writes...) {
					if !yield(intoCase{bodies, []string{f}, h, 0}) {
						return false
					}
				}
				for _, f := range others {
					for _, g := range writes {
						if !yield(intoCase{bodies, []string{f, g}, h, 0}) {
							return false
						}
					}
				}
			}
			return true
		})
	}
}

type stringsCase struct{ Files []string }

// stringsOne builds into strings: every config is one of them, with its name, in order, ended by a newline.
func stringsOne(w *W, c stringsCase) error {
	sc := &crossplane.StringsCreator{}
	configs, o := diskConfigs(filesCase{Files: c.Files}, "")
	for round := 0; round < 2; round++ {
		if err := crossplane.BuildInto(&crossplane.Payload{Config: configs}, sc, o); err != nil {
			return err
		}
		if len(sc.Files) != (round+1)*len(configs) {
			return fmt.Errorf("%d files, not %d", len(sc.Files), (round+1)*len(configs))
		}
		for i, f := range sc.Files {
			var b bytes.Buffer
			cfg := configs[i%len(configs)]
			if err := crossplane.Build(&b, cfg, o); err != nil {
				return err
			}
			if f.Name != cfg.File || f.String() != b.String()+"\n" {
				return fmt.Errorf("file %d is %q %q", i, f.Name, f.String())
			}
		}
	}
	w.Steps(len(c.Files))
	sc.Reset()
	if len(sc.Files) != 0 {
		return errors.New("files are left after Reset")
	}
	return nil
}

func init() {
	register("C17", func(x *X) {
		n, m := 2, 4
		if x.thorough {
			n, m = 3, 5
		}
		paths := []string{"m", "s/n", "s/t/o", "s/../m", "./m", "ABS/p", "ABS/s/q", "", "bad/x", "isdir", "full", "old", "a b/c d", "é"}
		ExploreSeq(x, fmt.Sprintf("BuildFiles: every sequence of up to %d paths, every directory", n), diskCases(n, paths, []string{"OUT", "", "rel", "OUT/new/dir", ".", "OUT/"}, 3), diskOne)
		ExploreSeq(x, fmt.Sprintf("BuildFiles: every sequence of up to %d paths", n+1), diskCases(n+1, []string{"m", "s/n", "old", "full", "s", "isdir/x", "ABS/p"}, []string{"OUT"}, 2), diskOne)
		ExploreSeq(x, "BuildFiles: names of every kind", func(y func(filesCase) bool) {
			stringsOver([]string{"a", ".", "~", " ", "*", `\`, "$", "-", "é", "#", "%", ":", "A", "'", `"`, "\n", "!", "[", "{", "@", "+", ",", ";", "&", "|", "(", "=", "_", "0", "\x7f"}, 1, 2)(func(s string) bool {
				if s == ".." || s == "." {
					return true
				}
				return y(filesCase{[]string{s}, "OUT", 0}) && y(filesCase{[]string{"m", s + "/x", "s/" + s}, "rel", 1})
			})
			for _, v := range []string{"~/a", "~root/a", "$HOME/a", "${HOME}", "a.conf~", ".a.swp", "a.conf.d/b", "-rf", "a//b", "s/./n", "s//../m", "a\tb", "C:\\a", "file:a", "%2e%2e/a", "nginx.conf", "conf.d/default.conf", "NUL", "con", "a.", "a ", " a", "...", "..a", "a..", "s/..a/b", "ABS/~", "ABS/.a", "ABS/a b"} {
				for _, d := range []string{"OUT", "", "rel", "OUT/~", "OUT/a b", "~", "OUT/.a", "OUT/s/../t"} {
					for k := 0; k < 2; k++ {
						if !y(filesCase{[]string{v}, d, k}) || !y(filesCase{[]string{"m", v, v + "x"}, d, k}) {
							return
						}
					}
				}
			}
		}, diskOne)
		ExploreSeq(x, "BuildFiles: many files, deep paths and long texts", func(y func(filesCase) bool) {
			for _, k := range sizes(70, 600) {
				var fs, same []string
				for i := 0; i < k; i++ {
					fs = append(fs, fmt.Sprintf("d%d/f%d", i%3, i))
					same = append(same, []string{"m", "old"}[i%2])
				}
				if !y(filesCase{fs, "OUT", 0}) || !y(filesCase{append(fs, "isdir", "never"), "OUT", 1}) || !y(filesCase{same, "rel", 2}) || !y(filesCase{[]string{strings.Repeat("p/", k%300) + "f", "old"}, "OUT", 0}) ||
					!y(filesCase{[]string{strings.Repeat("n", min(k, 255))}, "OUT", 0}) {
					return
				}
			}
			for _, k := range append(sizes(140, 70000), 819, 820) {
				if !y(filesCase{[]string{"old", "m"}, "OUT", 10 + k}) {
					return
				}
			}
		}, diskOne)
		Explore(x, "BuildFiles: files that are there already, with contents like those to be written", priorCases, priorOne)
		Explore(x, fmt.Sprintf("BuildFiles: every history of up to %d builds and edits", n+2), buildHistories(n+2), buildHistoryOne)
		Explore(x, "BuildInto: every failure of the creator", intoCases(m), intoOne)
		Explore(x, "BuildInto: every kind of failure of the creator", func(y func(intoCase) bool) {
			intoCases(min(m, 3))(func(c intoCase) bool {
				for c.Kind = 1; len(c.Fault) == 1 && c.Kind < len(errKinds); c.Kind++ {
					if !y(c) {
						return false
					}
				}
				return true
			})
		}, intoOne)
		Explore(x, "BuildInto: many configs and long texts", func(y func(intoCase) bool) {
			rep := strings.Repeat
			for _, k := range sizes(140, 1100) {
				bodies := strings.Split(rep("a,", k-1)+"a#", ",")
				for _, f := range [][]string{nil, {fmt.Sprintf("create %d", k-1)}, {fmt.Sprintf("close %d", k-1)}, {fmt.Sprintf("close %d", k/2)}} {
					if !y(intoCase{bodies, f, k%2 == 0, 0}) {
						return
					}
				}
				for _, b := range []string{rep("a+", k), rep("e+(", k) + rep(")", k), "a" + rep("#", k)} {
					if !y(intoCase{[]string{b, "a"}, nil, false, 0}) || !y(intoCase{[]string{"a", b}, nil, true, 0}) || !y(intoCase{[]string{b, "a"}, []string{"close 0"}, true, 0}) {
						return
					}
				}
			}
		}, intoOne)
		Explore(x, "BuildInto: strings", func(y func(stringsCase) bool) {
			seqs([]string{"a", "/b", "", "a b"}, 0, m, func(s []string) bool { return y(stringsCase{append([]string(nil), s...)}) })
		}, stringsOne)
	}, "A write that stores less than it was given reports an error, as io.Writer requires.",
		"The failures of a real disk that are explored: a file in place of a directory, a directory in place of a file, no space left.")
}
