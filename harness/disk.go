package main

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"
	"unicode"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// Histories on a real disk: what others do to the files between the calls is seen by the calls that follow, and by no call before.

// A diskEdit changes what is below root. The main file is root/now/main, and root/now is a link.
type diskEdit struct {
	name string
	do   func(root string)
}

func put(file, text string) diskEdit {
	return diskEdit{fmt.Sprintf("write %s %q", file, text), func(root string) { _ = os.WriteFile(root+"/"+file, []byte(text), 0o644) }}
}

func swap(to string) diskEdit {
	return diskEdit{"now is " + to, func(root string) { _ = os.Remove(root + "/now"); _ = os.Symlink(to, root+"/now") }}
}

func drop(file string) diskEdit {
	return diskEdit{"remove " + file, func(root string) { _ = os.RemoveAll(root + "/" + file) }}
}

// parseEdits: files of the same size, files that come and go, another main file, links, and another release.
var parseEdits = []diskEdit{
	{"nothing", func(string) {}},
	put("r1/a.x", "aa 1;\n"), put("r1/a.x", "aa 2;\n"), put("r1/a.x", "bb { listen; }\nuser;"), drop("r1/a.x"),
	put("r1/b.x", "aa 1;\n"), drop("r1/b.x"),
	put("r1/main", "include *.x;\nhttp { include a.x; }"), put("r1/main", "include a.x;\nhttp { include *.x }"), put("r1/main", "include r1.x;"),
	swap("r1"), swap("r2"),
	{"b.x is a link to a.x", func(root string) { _ = os.Remove(root + "/r1/b.x"); _ = os.Symlink("a.x", root+"/r1/b.x") }},
}

type diskHistory struct {
	Edits []int
	Opts  []int // a parse with each of them after every edit
}

func (h diskHistory) String() string {
	var ns []string
	for _, i := range h.Edits {
		ns = append(ns, parseEdits[i].name)
	}
	for _, o := range h.Opts {
		ns = append(ns, "options "+optName(o))
	}
	return strings.Join(ns, "; ")
}

func parseHistory(w *W, h diskHistory) error {
	root, err := os.MkdirTemp("", "vhhist")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(root)
	_ = os.MkdirAll(root+"/r1", 0o755)
	_ = os.MkdirAll(root+"/r2", 0o755)
	for _, e := range []diskEdit{parseEdits[7], parseEdits[1], put("r2/main", "include *.x;\nhttp { include a.x; }"), put("r2/a.x", "aa 3;\n"), put("r2/c.x", "cc 1;\n"), swap("r1")} {
		e.do(root)
	}
	main := root + "/now/main"
	open := func(p string) (string, error) {
		f, err := os.Open(p)
		if err != nil {
			return "", err
		}
		f.Close()
		b, err := os.ReadFile(p)
		return string(b), err
	}
	type kept struct {
		p    *crossplane.Payload
		text string
	}
	var all []kept
	for i, e := range append([]int{0}, h.Edits...) {
		parseEdits[e].do(root)
		for _, opt := range h.Opts {
			o := options(opt)
			wp, we := refParse(main, &o, open, filepath.Glob, nil)
			want := ""
			if we != nil {
				want = "error " + we.dump()
			} else {
				want = wp.dump()
			}
			got := ""
			gp, err := crossplane.Parse(main, &o)
			if err != nil {
				got = "error " + dumpErr(err)
			} else {
				got = dumpPayload(gp)
				all = append(all, kept{gp, got})
			}
			w.Steps(1)
			w.State(strings.ReplaceAll(want, root, "R"))
			w.Outcome(fmt.Sprintf("error=%v", we != nil))
			if err := differ(fmt.Sprintf("payload of the parse after edit %d (%s)", i, parseEdits[e].name), want, got); err != nil {
				return err
			}
		}
	}
	for i, k := range all {
		if err := differ(fmt.Sprintf("payload %d, after all the parses", i), k.text, dumpPayload(k.p)); err != nil {
			return err
		}
	}
	return nil
}

func diskHistories(n int, opts ...int) func(func(diskHistory) bool) {
	return func(yield func(diskHistory) bool) {
		var all []int
		for i := range parseEdits[1:] {
			all = append(all, i+1)
		}
		seqs(all, 1, n, func(es []int) bool { return yield(diskHistory{append([]int(nil), es...), opts}) })
	}
}

// ---- histories of BuildFiles ----

// A buildStep builds files, or does something else to the disk.
type buildStep struct {
	name  string
	files map[string]string // path to the word that is in the file
	order []string
	dir   string
	do    func(root string)
}

var buildSteps = []buildStep{
	{name: "build m, s/n", order: []string{"m", "s/n"}, files: map[string]string{"m": "aa", "s/n": "bb"}, dir: "out"},
	{name: "build m, s/n, other text of the same size", order: []string{"m", "s/n"}, files: map[string]string{"m": "ab", "s/n": "ba"}, dir: "out"},
	{name: "build s/n, shorter, and s/t/u", order: []string{"s/n", "s/t/u"}, files: map[string]string{"s/n": "b", "s/t/u": "cc"}, dir: "out"},
	{name: "build m below s", order: []string{"n"}, files: map[string]string{"n": "dddd"}, dir: "out/s"},
	{name: "build nothing", dir: "out"},
	{name: "build m and fail", order: []string{"m", "m/x", "never"}, files: map[string]string{"m": "ee", "m/x": "x", "never": "x"}, dir: "out"},
	{name: "remove s", do: func(root string) { _ = os.RemoveAll(root + "/out/s") }},
	{name: "remove out", do: func(root string) { _ = os.RemoveAll(root + "/out") }},
	{name: "write m", do: func(root string) {
		_ = os.MkdirAll(root+"/out", 0o755)
		_ = os.WriteFile(root+"/out/m", []byte("by hand, and longer than anything else\n"), 0o644)
	}},
	{name: "s is a file", do: func(root string) {
		_ = os.RemoveAll(root + "/out/s")
		_ = os.MkdirAll(root+"/out", 0o755)
		_ = os.WriteFile(root+"/out/s", []byte("a file"), 0o644)
	}},
	{name: "m is a directory", do: func(root string) { _ = os.RemoveAll(root + "/out/m"); _ = os.MkdirAll(root+"/out/m/q", 0o755) }},
}

type buildHistory struct{ Steps []int }

func (h buildHistory) String() string {
	var ns []string
	for _, i := range h.Steps {
		ns = append(ns, buildSteps[i].name)
	}
	return strings.Join(ns, "; ")
}

func buildHistoryOne(w *W, h buildHistory) error {
	root, err := os.MkdirTemp("", "vhhist")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(root)
	o := &crossplane.BuildOptions{}
	for n, i := range h.Steps {
		s := buildSteps[i]
		w.Steps(1)
		if s.do != nil {
			s.do(root)
			continue
		}
		model := readDisk(root)
		var p crossplane.Payload
		failed := false
		for _, f := range s.order {
			cfg := crossplane.Config{File: f, Parsed: crossplane.Directives{{Directive: s.files[f], Line: 1, Args: []string{}}}}
			p.Config = append(p.Config, cfg)
			if failed {
				continue
			}
			var b bytes.Buffer
			if err := crossplane.Build(&b, cfg, o); err != nil {
				return err
			}
			full := path.Join(root, s.dir, f)
			failed = !model.mkdirAll(path.Dir(full)) || !model.write(full, strings.TrimRightFunc(b.String(), unicode.IsSpace)+"\n")
		}
		err := crossplane.BuildFiles(p, root+"/"+s.dir, o)
		w.Outcome(fmt.Sprintf("failed %v", failed))
		if failed != (err != nil) {
			return fmt.Errorf("step %d (%s): BuildFiles returns %v; the model fails: %v", n, s.name, err, failed)
		}
		w.State(strings.ReplaceAll(model.String(), root, "R"))
		if err := differ(fmt.Sprintf("disk after step %d (%s)", n, s.name), model.String(), readDisk(root).String()); err != nil {
			return err
		}
	}
	return nil
}

func buildHistories(n int) func(func(buildHistory) bool) {
	return func(yield func(buildHistory) bool) {
		var all []int
		for i := range buildSteps {
			all = append(all, i)
		}
		seqs(all, 1, n, func(ss []int) bool { return yield(buildHistory{append([]int(nil), ss...)}) })
	}
}
