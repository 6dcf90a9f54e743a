// Command orch builds the simulator against /repo, searches seeds for a
// violation of one property, minimises what it finds and writes evidence.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/prog"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+f+"\n", a...)
	os.Exit(2)
}

type env struct {
	root  string // /verif
	dir   string // scratch
	plain string
	race  string
	bi    buildInfo
}

func (e *env) close() {
	if e.dir != "" && strings.HasPrefix(e.dir, filepath.Join(e.root, ".work")+"/") && os.Getenv("VERIF_KEEP") == "" {
		os.RemoveAll(e.dir)
	}
}

func newEnv(name string) *env {
	exe, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = filepath.Dir(filepath.Dir(exe))
	}
	dir := filepath.Join(root, ".work", fmt.Sprintf("%s-%d", name, os.Getpid()))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		die("%v", err)
	}
	return &env{root: root, dir: dir}
}

func (e *env) build(race bool) {
	bin, bi, err := build(e.root, e.dir, race)
	if err != nil {
		e.close()
		die("build: %v", err)
	}
	e.bi = bi
	if race {
		e.race = bin
	} else {
		e.plain = bin
	}
}

func workerEnv(extra ...string) []string {
	env := goEnv()
	return append(append(env, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single"), extra...)
}

func raceEnv(logPath string, extra ...string) []string {
	env := goEnv()
	return append(append(env, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single", "GORACE=halt_on_error=0 exitcode=0 log_path="+logPath), extra...)
}

// outcome of one worker batch
type batchOut struct {
	sum   *prog.Summary
	dead  bool // the process ended without a summary
	hung  bool
	stale int64 // index being run when it died
	seed  uint64
	tail  string
}

func tailOf(b []byte) string {
	s := string(b)
	if len(s) > 6000 {
		s = s[:3000] + "\n...\n" + s[len(s)-3000:]
	}
	return s
}

const hangAfter = 60 * time.Second

// runBatch runs one worker process over its share of the seeds.
func (e *env) runBatch(bin string, race bool, id int, prop string, base uint64, from, step, count int64, wall int, quit <-chan struct{}) *batchOut {
	pf := filepath.Join(e.dir, fmt.Sprintf("progress-%d-%v", id, race))
	os.Remove(pf)
	cmd := exec.Command(bin, "run", prop, strconv.FormatUint(base, 10), fmt.Sprint(from), fmt.Sprint(step), fmt.Sprint(count), fmt.Sprint(wall))
	ev := workerEnv("VERIF_PROGRESS=" + pf)
	if race {
		ev = raceEnv(filepath.Join(e.dir, "racelog"), "VERIF_PROGRESS="+pf)
	}
	cmd.Env = ev
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		die("worker: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, lastAt := "", time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	out := &batchOut{}
	readProgress := func() string {
		b, _ := os.ReadFile(pf)
		return string(b)
	}
	for {
		select {
		case err := <-done:
			var sum prog.Summary
			if err == nil && json.Unmarshal(so.Bytes(), &sum) == nil {
				out.sum = &sum
				return out
			}
			if !out.hung {
				out.dead = true
			}
			out.tail = tailOf(se.Bytes())
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
				die("worker: %s", out.tail)
			}
			fmt.Sscanf(readProgress(), "%d %d", &out.stale, &out.seed)
			return out
		case <-quit:
			cmd.Process.Kill()
			<-done
			return nil
		case <-tick.C:
			if p := readProgress(); p != last {
				last, lastAt = p, time.Now()
			} else if time.Since(lastAt) > hangAfter {
				out.hung = true
				cmd.Process.Kill()
			}
		}
	}
}

type plan struct {
	runs int64
	wall int
}

// raceShare: properties with a second pass under the race detector.
var raceProps = map[string]bool{"P06": true, "P18": true, "P19": true}

func planFor(prop, tier string) (p, race plan) {
	n, ok := quickRuns[prop]
	if !ok {
		die("unknown property %s", prop)
	}
	p = plan{n, 90}
	race = plan{raceQuickRuns, 60}
	if tier == "thorough" {
		p = plan{n * 40, 540}
		race = plan{raceQuickRuns * 30, 240}
	}
	if v := os.Getenv("VERIF_RUNS"); v != "" {
		p.runs, _ = strconv.ParseInt(v, 10, 64)
		race.runs = p.runs / 20
	}
	return
}

type totals struct {
	prog.Summary
	hashes, inter, states map[uint64]struct{}
}

func newTotals() *totals {
	t := &totals{hashes: map[uint64]struct{}{}, inter: map[uint64]struct{}{}, states: map[uint64]struct{}{}}
	t.Ops, t.Faults, t.Probes, t.Oracles, t.MaxTicks = map[string]int64{}, map[string]int64{}, map[string]int64{}, map[string]int64{}, map[string]int64{}
	return t
}

func (t *totals) add(s *prog.Summary) {
	t.Runs += s.Runs
	t.Nontrivial += s.Nontrivial
	t.Steps += s.Steps
	t.Switches += s.Switches
	t.Preempts += s.Preempts
	for _, x := range s.Hashes {
		t.hashes[x] = struct{}{}
	}
	for _, x := range s.Inter {
		t.inter[x] = struct{}{}
	}
	for _, x := range s.States {
		t.states[x] = struct{}{}
	}
	sum := func(a, b map[string]int64) {
		for k, v := range b {
			a[k] += v
		}
	}
	sum(t.Ops, s.Ops)
	sum(t.Faults, s.Faults)
	sum(t.Probes, s.Probes)
	sum(t.Oracles, s.Oracles)
	for k, v := range s.MaxTicks {
		if v > t.MaxTicks[k] {
			t.MaxTicks[k] = v
		}
	}
	if len(t.Samples) < 6 && len(s.Samples) > 0 {
		t.Samples = append(t.Samples, s.Samples[0])
	}
}

// found is a violation to minimise.
type found struct {
	race  bool
	index int64
	prog  *prog.Program
	class string
	msg   string
}

// search runs all workers of one pass.
func (e *env) search(prop string, base uint64, pl plan, race bool, tot *totals) *found {
	bin := e.plain
	if race {
		bin = e.race
	}
	const nw = 8
	quit := make(chan struct{})
	var once sync.Once
	outs := make([]*batchOut, nw)
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			n := pl.runs / nw
			o := e.runBatch(bin, race, w, prop, base, int64(w), nw, n, pl.wall, quit)
			outs[w] = o
			if o != nil && (o.sum == nil || o.sum.Result != nil) {
				once.Do(func() { time.AfterFunc(1500*time.Millisecond, func() { close(quit) }) })
			}
		}(w)
	}
	wg.Wait()
	var best *found
	for w, o := range outs {
		if o == nil {
			continue
		}
		var f *found
		if o.sum != nil {
			tot.add(o.sum)
			if r := o.sum.Result; r != nil {
				if r.Err != "" {
					e.close()
					die("simulator: %s (seed %d)", r.Err, r.Prog.Seed)
				}
				f = &found{race: race, index: int64(w) + nw*(o.sum.Runs-1), prog: r.Prog, class: r.Class, msg: r.Msg}
			}
		} else {
			f = &found{race: race, index: o.stale, class: "fatal", msg: o.tail}
			if o.hung {
				f.class = "hang"
				f.msg = fmt.Sprintf("no progress for %v\n%s", hangAfter, o.tail)
			}
			cmd := exec.Command(bin, "gen", prop, strconv.FormatUint(base, 10), fmt.Sprint(o.stale))
			cmd.Env = workerEnv()
			b, err := cmd.Output()
			p := &prog.Program{}
			if err != nil || json.Unmarshal(b, p) != nil {
				e.close()
				die("worker died and its run cannot be regenerated: %s", o.tail)
			}
			p.Race = race
			f.prog = p
			// must reproduce in a fresh process, else the machinery is at fault
			r := e.fresh(p, 100*time.Second)
			if !r.Violation {
				e.close()
				die("worker died (run %d seed %d) but a fresh run of that seed did not: %s", o.stale, o.seed, o.tail)
			}
			f.class, f.msg = r.Class, r.Msg
			if r.Prog != nil {
				f.prog = r.Prog
			}
		}
		if f != nil && (best == nil || f.index < best.index) {
			best = f
		}
	}
	return best
}

// fresh executes one program in a new process.
func (e *env) fresh(p *prog.Program, limit time.Duration) *prog.Result {
	f, err := os.CreateTemp(e.dir, "prog-*.json")
	if err != nil {
		die("%v", err)
	}
	name := f.Name()
	json.NewEncoder(f).Encode(p)
	f.Close()
	defer os.Remove(name)
	return e.replayFile(name, p.Race, limit)
}

func (e *env) replayFile(name string, race bool, limit time.Duration) *prog.Result {
	bin := e.plain
	ev := workerEnv()
	if race {
		bin = e.race
		ev = raceEnv(filepath.Join(e.dir, "racelog"))
	}
	cmd := exec.Command(bin, "replay", name)
	cmd.Env = ev
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		r := &prog.Result{}
		if err == nil && json.Unmarshal(so.Bytes(), r) == nil {
			return r
		}
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
			die("worker: %s", tailOf(se.Bytes()))
		}
		return &prog.Result{Violation: true, Class: "fatal", Msg: firstLines(se.String(), 14), Hash: "fatal"}
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return &prog.Result{Violation: true, Class: "hang", Msg: fmt.Sprintf("no result within %v of real time", limit), Hash: "hang"}
	}
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// server is a worker answering programs one by one.
type server struct {
	e   *env
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
}

func (s *server) stop() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *server) exec(p *prog.Program, limit time.Duration) *prog.Result {
	if p.Race {
		return s.e.fresh(p, limit)
	}
	if s.cmd == nil {
		cmd := exec.Command(s.e.plain, "serve")
		cmd.Env = workerEnv()
		i, _ := cmd.StdinPipe()
		o, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			die("%v", err)
		}
		s.cmd, s.in, s.out = cmd, bufio.NewWriter(i), bufio.NewReaderSize(o, 1<<20)
	}
	b, _ := json.Marshal(p)
	s.in.Write(append(b, '\n'))
	s.in.Flush()
	type ans struct {
		r  *prog.Result
		ok bool
	}
	ch := make(chan ans, 1)
	out := s.out
	go func() {
		line, err := out.ReadBytes('\n')
		r := &prog.Result{}
		if err != nil || json.Unmarshal(line, r) != nil {
			ch <- ans{nil, false}
			return
		}
		ch <- ans{r, true}
	}()
	select {
	case a := <-ch:
		if a.ok {
			return a.r
		}
		s.stop()
		return &prog.Result{Violation: true, Class: "fatal", Hash: "fatal"}
	case <-time.After(limit):
		s.stop()
		return &prog.Result{Violation: true, Class: "hang", Hash: "hang"}
	}
}

func main() {
	if len(os.Args) < 2 {
		die("usage: orch check PROP TIER | replay FILE | selftest | build")
	}
	switch os.Args[1] {
	case "check":
		if len(os.Args) != 4 {
			die("usage: orch check PROP quick|thorough")
		}
		os.Exit(check(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "selftest":
		os.Exit(selftest(os.Args[2:]))
	case "build": // keep a worker binary for development
		e := newEnv("dev")
		e.build(false)
		fmt.Println(e.plain)
	case "buildrace":
		e := newEnv("dev")
		e.build(true)
		fmt.Println(e.race)
	default:
		die("unknown command %s", os.Args[1])
	}
}

func baseSeed() uint64 {
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			return uint64(v) & (1<<62 - 1)
		}
		return prog.HashStr(s) & (1<<62 - 1)
	}
	return 1
}

// known reads the recorded findings of a property: lines
// "finding: property=<id> class=<class> match=<substring of the message>".
func (e *env) known(prop string) (lines []string, match []func(f *found) bool) {
	b, err := os.ReadFile(filepath.Join(e.root, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+prop+" ")
		i := strings.Index(rest, " match=")
		if !strings.HasPrefix(rest, "class=") || i < 0 {
			die("known_findings.txt: bad line %q", l)
		}
		class, m := rest[6:i], rest[i+7:]
		lines = append(lines, l)
		match = append(match, func(f *found) bool { return f.class == class && strings.Contains(f.msg, m) })
	}
	return
}

func check(prop, tier string) int {
	start := time.Now()
	if tier != "quick" && tier != "thorough" {
		die("tier must be quick or thorough")
	}
	base := baseSeed()
	pl, rpl := planFor(prop, tier)
	e := newEnv(prop)
	defer e.close()
	race := raceProps[prop]
	if race {
		e.build(true)
	}
	e.build(false)
	known, _ := e.known(prop)
	for _, k := range known {
		fmt.Println("KNOWN-FINDING:", strings.TrimPrefix(k, "finding: "))
	}
	buildS := time.Since(start).Seconds()
	tot, rtot := newTotals(), newTotals()
	t0 := time.Now()
	f := e.search(prop, base, pl, false, tot)
	searchS := time.Since(t0).Seconds()
	raceS := 0.0
	if f == nil && race {
		t0 = time.Now()
		f = e.search(prop, base, rpl, true, rtot)
		raceS = time.Since(t0).Seconds()
	}
	det := e.detSample(prop, base)
	code := 0
	var vio map[string]any
	if f != nil {
		code = 1
		path, rf := e.minimise(prop, f, base)
		fmt.Printf("violated: class=%s seed=%d (run %d of base seed %d)\n%s\n", rf.Class, rf.Seed, f.index, base, rf.Message)
		fmt.Printf("minimised from %d to %d operations\n", rf.OrigOps, rf.MinOps)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		vio = map[string]any{"class": rf.Class, "message": rf.Message, "seed": rf.Seed, "replay": path}
	}
	e.evidence(prop, tier, base, tot, rtot, race, searchS, raceS, buildS, det, vio, time.Since(start).Seconds())
	if code == 0 {
		fmt.Printf("ok property=%s tier=%s runs=%d race_runs=%d distinct=%d steps=%d wall=%.1fs\n", prop, tier, tot.Runs, rtot.Runs, len(tot.hashes), tot.Steps, time.Since(start).Seconds())
	}
	return code
}

// detSample runs the same seeds in two fresh processes and compares the
// hash of everything observed.
func (e *env) detSample(prop string, base uint64) map[string]any {
	const n = 60
	var wg sync.WaitGroup
	var o [2]*batchOut
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o[i] = e.runBatch(e.plain, false, 100+i, prop, base, 0, 1, n, 60, nil)
		}(i)
	}
	wg.Wait()
	if o[0] == nil || o[1] == nil || o[0].sum == nil || o[1].sum == nil {
		return map[string]any{"runs": 0, "note": "a worker died"}
	}
	return map[string]any{"runs_executed_twice": o[0].sum.Runs, "identical": o[0].sum.LogHash == o[1].sum.LogHash && o[0].sum.Runs == o[1].sum.Runs}
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var rf prog.ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil || rf.Program == nil {
		die("not a replay file: %v", err)
	}
	e := newEnv("replay")
	defer e.close()
	e.build(rf.Program.Race)
	r := e.replayFile(file, rf.Program.Race, 100*time.Second)
	if r.Err != "" {
		die("simulator: %s", r.Err)
	}
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	if !r.Violation {
		fmt.Println("no violation on this tree")
		return 0
	}
	fmt.Printf("class=%s %s\n", r.Class, r.Msg)
	fmt.Printf("trace hash %s, recorded %s: identical=%v\n", r.Hash, rf.TraceHash, r.Hash == rf.TraceHash)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
	return 1
}

// selftest: every property's runs, executed twice in different processes and
// under load, must produce identical observation hashes.
func selftest(args []string) int {
	n := int64(300)
	if len(args) > 0 {
		n, _ = strconv.ParseInt(args[0], 10, 64)
	}
	e := newEnv("selftest")
	defer e.close()
	e.build(false)
	var props []string
	for p := range quickRuns {
		props = append(props, p)
	}
	sort.Strings(props)
	bad := 0
	for _, p := range props {
		var wg sync.WaitGroup
		o := make([]*batchOut, 6)
		for i := range o {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				o[i] = e.runBatch(e.plain, false, i, p, baseSeed(), 0, 1, n, 300, nil)
			}(i)
		}
		wg.Wait()
		hs := map[string]int{}
		for _, x := range o {
			if x == nil || x.sum == nil {
				hs["dead"]++
			} else {
				hs[fmt.Sprintf("%s/%d", x.sum.LogHash, x.sum.Runs)]++
			}
		}
		ok := len(hs) == 1 && hs["dead"] == 0
		fmt.Printf("selftest %s: %d runs x %d processes: identical=%v %v\n", p, n, len(o), ok, hs)
		if !ok {
			bad++
		}
	}
	if bad > 0 {
		return 1
	}
	return 0
}
