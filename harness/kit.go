package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/maphash"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// A check decides one property by exhaustive exploration: it declares spaces (finite, deterministic,
// simplest case first) and, for each case, compares the real code with the reference model.
type check struct {
	id     string
	run    func(x *X)
	assume []string
}

const workers = 8

// X is one run of one check.
type X struct {
	id       string
	tier     string
	thorough bool
	deadline time.Time
	start    time.Time

	only      *caseID // replay mode: run only this case
	onlyErr   error
	onlyCase  string
	onlyFound bool

	spaceNo  int
	spaces   []spaceStat
	trans    int64
	execs    int64
	states   stateSet
	outcomes map[string]int64
	samples  []string
	truncted bool
	viol     *violation
	slots    []byte // shared with the supervisor: what each worker is running
	notes    []string
	mu       sync.Mutex
}

type caseID struct {
	Space int    `json:"space"`
	Index int64  `json:"index"`
	Name  string `json:"name"`
}

type spaceStat struct {
	Name     string  `json:"name"`
	Cases    int64   `json:"cases"`
	Secs     float64 `json:"secs"`
	Complete bool    `json:"complete"`
}

type violation struct {
	id   caseID
	desc string
	err  error
}

// W is what one worker counts while it runs cases; merged into X at the end of each space.
type W struct {
	x        *X
	trans    int64
	outcomes map[string]int64
	hash     maphash.Hash
}

// Steps counts n transitions of the model.
func (w *W) Steps(n int) { w.trans += int64(n) }

// State counts a state of the model, by its canonical form.
func (w *W) State(s string) { w.x.states.add(hashString(s)) }

// StateHash is State for a precomputed hash.
func (w *W) StateHash(h uint64) { w.x.states.add(h) }

// Outcome counts a class of observed outcomes.
func (w *W) Outcome(s string) { w.outcomes[s]++ }

var seed = maphash.MakeSeed()

func hashString(s string) uint64 { return maphash.String(seed, s) }

const stateShards = 64
const maxStates = 24_000_000

type stateSet struct {
	shards [stateShards]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
	n atomic.Int64
}

func (s *stateSet) add(h uint64) {
	sh := &s.shards[h%stateShards]
	sh.Lock()
	if sh.m == nil {
		sh.m = map[uint64]struct{}{}
	}
	if _, ok := sh.m[h]; !ok && s.n.Load() < maxStates {
		sh.m[h] = struct{}{}
		s.n.Add(1)
	}
	sh.Unlock()
}

// Expired reports whether the run used up its time.
func (x *X) Expired() bool { return time.Now().After(x.deadline) }

// Note records a remark for the evidence.
func (x *X) Note(format string, a ...any) { x.notes = append(x.notes, fmt.Sprintf(format, a...)) }

func (x *X) setSlot(worker int, space int, index int64) {
	if x.slots != nil {
		binary.LittleEndian.PutUint64(x.slots[worker*16:], uint64(space)+1)
		binary.LittleEndian.PutUint64(x.slots[worker*16+8:], uint64(index))
	}
}

type beat struct {
	at  atomic.Int64 // when the current case began, unix nanoseconds; 0 when idle
	cur atomic.Int64
}

const hangAfter = 60 * time.Second

// Explore runs every case of gen. The cases are independent of each other.
func Explore[C any](x *X, name string, gen func(yield func(C) bool), run func(w *W, c C) error) {
	explore(x, name, workers, gen, run)
}

// ExploreSeq is Explore in a single worker, for cases that observe process-wide state.
func ExploreSeq[C any](x *X, name string, gen func(yield func(C) bool), run func(w *W, c C) error) {
	explore(x, name, 1, gen, run)
}

func explore[C any](x *X, name string, nw int, gen func(yield func(C) bool), run func(w *W, c C) error) {
	each := gen
	gen = func(yield func(C) bool) { // a generator made of several may go on after it was told to stop
		stopped := false
		each(func(c C) bool {
			stopped = stopped || !yield(c)
			return !stopped
		})
	}
	space := x.spaceNo
	x.spaceNo++
	if x.only != nil {
		if x.only.Space != space {
			return
		}
		var i int64
		gen(func(c C) bool {
			if i == x.only.Index {
				x.onlyFound = true
				x.onlyCase = describe(c)
				if f := os.Getenv("VH_CASEFILE"); f != "" {
					_ = os.WriteFile(f, []byte(x.onlyCase), 0o644)
				}
				w := &W{x: x, outcomes: map[string]int64{}}
				x.onlyErr = guarded(func() error { return run(w, c) })
				return false
			}
			i++
			return true
		})
		return
	}
	if x.viol != nil || x.Expired() {
		if x.Expired() {
			x.truncted = true
			x.spaces = append(x.spaces, spaceStat{Name: name})
		}
		return
	}

	type batch struct {
		base int64
		cs   []C
	}
	ch := make(chan batch, nw*2)
	var stop atomic.Bool
	began := time.Now()
	var best struct {
		sync.Mutex
		v *violation
	}
	var total atomic.Int64
	var wg sync.WaitGroup
	beats := make([]beat, nw)
	done := make(chan struct{})
	go func() { // a case that never ends is reported by the supervisor
		t := time.NewTicker(time.Second)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
				for i := range beats {
					if at := beats[i].at.Load(); at != 0 && time.Since(time.Unix(0, at)) > hangAfter {
						for j := range beats { // only the hanging case is suspect
							if j != i {
								x.setSlot(j, -1, 0)
							}
						}
						fmt.Fprintf(os.Stderr, "case %d of space %d (%s) does not end\n", beats[i].cur.Load(), space, name)
						os.Exit(exitHang)
					}
				}
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 20<<30 {
					fmt.Fprintln(os.Stderr, "out of memory")
					os.Exit(exitHang)
				}
			}
		}
	}()
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			w := &W{x: x, outcomes: map[string]int64{}}
			for b := range ch {
				if stop.Load() {
					continue
				}
				for i, c := range b.cs {
					idx := b.base + int64(i)
					x.setSlot(k, space, idx)
					beats[k].cur.Store(idx)
					beats[k].at.Store(time.Now().UnixNano())
					err := guarded(func() error { return run(w, c) })
					beats[k].at.Store(0)
					total.Add(1)
					if err != nil {
						best.Lock()
						if best.v == nil || idx < best.v.id.Index {
							best.v = &violation{caseID{space, idx, name}, describe(c), err}
						}
						best.Unlock()
						stop.Store(true)
						break
					}
				}
			}
			x.setSlot(k, -1, 0)
			x.mu.Lock()
			x.trans += w.trans
			for o, n := range w.outcomes {
				x.outcomes[o] += n
			}
			x.mu.Unlock()
		}(k)
	}
	size := 1
	if nw > 1 {
		size = 64
	}
	b := batch{}
	var n int64
	complete := true
	var sampled []string
	gen(func(c C) bool {
		b.cs = append(b.cs, c)
		if n == 0 || n == 1 || n == 100 || n == 10007 || n == 1000003 {
			sampled = append(sampled, fmt.Sprintf("%s[%d]: %s", name, n, clip(describe(c), 300)))
		}
		n++
		if len(b.cs) >= size || n < 64 {
			ch <- b
			b = batch{base: n}
			if stop.Load() || x.Expired() {
				complete = false
				return false
			}
		}
		return true
	})
	if len(b.cs) > 0 {
		ch <- b
	}
	close(ch)
	wg.Wait()
	close(done)
	x.execs += total.Load()
	x.spaces = append(x.spaces, spaceStat{name, total.Load(), time.Since(began).Seconds(), complete && !stop.Load()})
	if !complete && best.v == nil {
		x.truncted = true
	}
	if len(sampled) > 3 {
		sampled = sampled[:3]
	}
	x.samples = append(x.samples, sampled...)
	if best.v != nil {
		x.viol = best.v
		// the same case must fail every time before it is believed
		fails := 0
		saved := *x.viol
		for r := 0; r < 5; r++ {
			y := &X{id: x.id, tier: x.tier, thorough: x.thorough, deadline: x.deadline, start: x.start, only: &saved.id, outcomes: map[string]int64{}}
			y.spaceNo = space
			explore(y, name, 1, gen, run)
			if y.onlyErr != nil {
				fails++
			}
		}
		if fails < 3 {
			x.Note("space %s: case %d failed once and only %d of 5 times when repeated; not believed: %v", name, saved.id.Index, fails, saved.err)
			fmt.Fprintf(os.Stderr, "unreproducible: %v\n", saved.err)
			x.viol = nil
			x.truncted = true
		}
	}
}

func guarded(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, clip(string(debug.Stack()), 3000))
		}
	}()
	return f()
}

func describe(c any) string {
	if s, ok := c.(string); ok {
		return strconv.Quote(s)
	}
	if s, ok := c.(fmt.Stringer); ok {
		return s.String()
	}
	b, err := json.Marshal(c)
	if err != nil {
		return fmt.Sprintf("%+v", c)
	}
	return string(b)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

const (
	exitOK        = 0
	exitViolation = 1
	exitHang      = 4
)

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

func (x *X) finding() (string, bool) {
	var kf struct {
		Open []struct {
			Property, Space, Case, What string
		} `json:"open"`
	}
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if err != nil || json.Unmarshal(b, &kf) != nil {
		return "", false
	}
	for _, f := range kf.Open {
		if f.Property == x.id && x.viol != nil && f.Space == x.viol.id.Name && f.Case == x.viol.desc {
			return f.What, true
		}
	}
	return "", false
}

func (x *X) evidence(violations int) {
	states := x.states.n.Load()
	if states == 0 {
		states = x.execs
	}
	seedv, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	outs := map[string]int64{}
	keys := make([]string, 0, len(x.outcomes))
	for k := range x.outcomes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for i, k := range keys {
		if i < 60 {
			outs[clip(k, 120)] = x.outcomes[k]
		}
	}
	samples := x.samples
	if len(samples) > 24 {
		samples = samples[:24]
	}
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	tr := x.trans
	if tr == 0 {
		tr = x.execs
	}
	ev := map[string]any{
		"property": x.id, "tier": x.tier, "seed": seedv, "level": "model_checking",
		"wall_s": time.Since(x.start).Seconds(), "violations": violations,
		"assumptions": assumptionsOf(x.id),
		"coverage": map[string]any{
			"states": states, "transitions": tr, "traces_validated_against_impl": x.execs,
			"exhaustive": !x.truncted && violations == 0, "spaces": x.spaces, "samples": samples,
			"distinct_outcome_classes": len(x.outcomes), "outcomes": outs, "notes": x.notes,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	f := filepath.Join(verifDir, "evidence", x.id+".json")
	if x.tier == "thorough" {
		_ = os.WriteFile(filepath.Join(verifDir, "evidence", x.id+".thorough.json"), append(b, '\n'), 0o644)
	}
	_ = os.WriteFile(f, append(b, '\n'), 0o644)
}

func newX(id, tier string) *X {
	x := &X{id: id, tier: tier, thorough: tier == "thorough", start: time.Now(), outcomes: map[string]int64{}}
	limit := 240 * time.Second
	if x.thorough {
		limit = 780 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("VH_LIMIT")); err == nil {
		limit = time.Duration(s) * time.Second
	}
	x.deadline = x.start.Add(limit)
	return x
}

// child explores; it may crash or hang with the code under test.
func child(id, tier, slotFile string) int {
	c := checks[id]
	x := newX(id, tier)
	if slotFile != "" {
		f, err := os.OpenFile(slotFile, os.O_RDWR, 0)
		if err == nil {
			x.slots, _ = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			f.Close()
		}
	}
	if p := os.Getenv("VH_PROF"); p != "" {
		f, _ := os.Create(p)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	c.run(x)
	if x.viol != nil {
		if what, ok := x.finding(); ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
			x.evidence(0)
			return exitOK
		}
		x.evidence(1)
		report(id, tier, x.viol.id, x.viol.desc, x.viol.err.Error())
		return exitViolation
	}
	x.evidence(0)
	fmt.Printf("OK property=%s tier=%s executions=%d states=%d transitions=%d exhaustive=%v wall=%.1fs\n",
		id, tier, x.execs, x.states.n.Load(), x.trans, !x.truncted, time.Since(x.start).Seconds())
	for _, s := range x.spaces {
		fmt.Printf("  space %-32s cases=%d complete=%v %.1fs\n", s.Name, s.Cases, s.Complete, s.Secs)
	}
	if os.Getenv("VH_OUTCOMES") != "" {
		b, _ := json.MarshalIndent(x.outcomes, "", " ")
		fmt.Println(string(b))
	}
	return exitOK
}

func report(id, tier string, cid caseID, desc, msg string) {
	dir := filepath.Join(verifDir, "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", id, cid.Space, cid.Index))
	b, _ := json.MarshalIndent(map[string]any{
		"property": id, "tier": tier, "space": cid.Space, "index": cid.Index, "name": cid.Name,
		"case": desc, "error": msg, "replay": "bash /verif/check.sh replay " + path,
	}, "", " ")
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
	fmt.Printf("case %s[%d]: %s\n%s\n", cid.Name, cid.Index, clip(desc, 2000), clip(msg, 4000))
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
}

func replayOne(id, tier string, cid caseID) int {
	x := newX(id, tier)
	x.only = &cid
	checks[id].run(x)
	if !x.onlyFound {
		fmt.Println("no such case")
		return exitOK
	}
	fmt.Printf("case: %s\n", clip(x.onlyCase, 4000))
	if x.onlyErr != nil {
		fmt.Printf("FAILS: %v\n", x.onlyErr)
		return exitViolation
	}
	fmt.Println("holds")
	return exitOK
}

// supervise runs the exploration in a child process, and attributes a crash or hang to a case.
func supervise(id, tier string) int {
	for attempt := 0; ; attempt++ {
		tmp, err := os.MkdirTemp("", "vh")
		if err != nil {
			fmt.Println(err)
			return exitOK
		}
		slotFile := filepath.Join(tmp, "slots")
		_ = os.WriteFile(slotFile, make([]byte, 4096), 0o644)
		code, out := spawn(20*time.Minute, nil, "child", id, tier, slotFile)
		if code == exitOK || code == exitViolation {
			os.RemoveAll(tmp)
			return code
		}
		slots, _ := os.ReadFile(slotFile)
		for k := 0; k < workers && len(slots) == 4096; k++ {
			sp := binary.LittleEndian.Uint64(slots[k*16:])
			if sp == 0 {
				continue
			}
			cid := caseID{Space: int(sp - 1), Index: int64(binary.LittleEndian.Uint64(slots[k*16+8:])), Name: "crash"}
			if cid.Space < 0 {
				continue
			}
			cf := filepath.Join(tmp, "case")
			limit := hangAfter
			c2, out2 := spawn(limit, []string{"VH_CASEFILE=" + cf}, "one", id, tier, strconv.Itoa(cid.Space), strconv.FormatInt(cid.Index, 10))
			if c2 != exitOK {
				desc, _ := os.ReadFile(cf)
				what := "the code under test crashes"
				if c2 == -1 {
					what = "the code under test does not return"
				}
				crashEvidence(id, tier)
				report(id, tier, cid, string(desc), what+"\n"+clip(out2, 3000))
				os.RemoveAll(tmp)
				return exitViolation
			}
		}
		os.RemoveAll(tmp)
		if attempt == 1 {
			crashEvidence(id, tier)
			report(id, tier, caseID{Space: -1, Name: "whole run"}, "whole run", "the exploration crashes every time, though no single case does\n"+clip(out, 3000))
			return exitViolation
		}
	}
}

func crashEvidence(id, tier string) {
	x := newX(id, tier)
	x.truncted = true
	x.execs = 1
	x.evidence(1)
}

// spawn runs this program again; -1 means it was killed for not ending in time.
func spawn(limit time.Duration, env []string, args ...string) (int, string) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), env...)
	cmd.Stdout = os.Stdout
	var errBuf tailBuffer
	cmd.Stderr = &errBuf
	if err := cmd.Start(); err != nil {
		return exitOK, err.Error()
	}
	t := time.AfterFunc(limit, func() { _ = cmd.Process.Kill() })
	err := cmd.Wait()
	fired := !t.Stop()
	var ee *exec.ExitError
	switch {
	case err == nil:
		os.Stderr.WriteString(errBuf.String())
		return 0, errBuf.String()
	case errors.As(err, &ee) && ee.Exited():
		os.Stderr.WriteString(clip(errBuf.String(), 3000))
		return ee.ExitCode(), errBuf.String()
	case fired:
		return -1, "killed after " + limit.String() + "\n" + errBuf.String()
	}
	return -2, err.Error() + "\n" + errBuf.String()
}

type tailBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuffer) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func main() {
	debug.SetGCPercent(800)
	args := os.Args[1:]
	if len(args) == 0 {
		ids := make([]string, 0)
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println("usage: vh run ID [quick|thorough] | replay FILE; checks:", strings.Join(ids, " "))
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	switch args[0] {
	case "run":
		if len(args) > 2 {
			tier = args[2]
		}
		os.Exit(supervise(args[1], tier))
	case "child":
		os.Exit(child(args[1], args[2], args[3]))
	case "direct":
		os.Exit(child(args[1], tier, ""))
	case "one":
		sp, _ := strconv.Atoi(args[3])
		ix, _ := strconv.ParseInt(args[4], 10, 64)
		os.Exit(replayOne(args[1], args[2], caseID{Space: sp, Index: ix}))
	case "alone", "race", "similar":
		i, _ := strconv.Atoi(args[1])
		if args[0] == "similar" {
			os.Exit(runSimilar(i))
		}
		if args[0] == "race" {
			os.Exit(runRace(i))
		}
		os.Exit(runAlone(i))
	case "replay":
		b, err := os.ReadFile(args[1])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var r struct {
			Property, Tier, Name string
			Space                int
			Index                int64
		}
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if r.Space < 0 {
			os.Exit(supervise(r.Property, r.Tier))
		}
		os.Exit(replayOne(r.Property, r.Tier, caseID{Space: r.Space, Index: r.Index}))
	}
}
