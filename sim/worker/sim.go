package main

import (
	"fmt"
	"runtime/debug"
	"strings"
	_ "unsafe"

	"verifsim/prog"

	"github.com/cloudprivacylabs/lpg/v2"
	vsync "github.com/cloudprivacylabs/lpg/v2/zzverifsync"
)

//go:linkname verifSetMapRand runtime.verifSetMapRand
func verifSetMapRand(v uint64)

type stopRun struct{}
type skipOp struct{}
type tickOverrun struct{}

// injected is the panic value of a simulated callback failure.
type injected struct{ n int }

// injErr is the error value of a simulated callback or device failure.
type injErr struct{ what string }

func (e *injErr) Error() string { return "injected: " + e.what }

type client struct {
	id     int
	s      *Sim
	resume chan struct{}
	work   chan *prog.Op
	o      *opx // operation in progress
	st     *stats
	ended  chan struct{}
}

// lockState is the reader/writer lock callers put around one graph.
type lockState struct {
	r int
	w bool
	// words the race detector knows the lock by
	rsync, wsync [8]byte
}

// Sim is one simulated execution.
type Sim struct {
	p       *prog.Program
	cfg     prog.Cfg
	clients []*client
	cur     *client
	sched   chan int // scheduler wake-up: 0 = yielded, 1 = done
	nextOp  int
	parked  []*client
	pick    int // choice made by the yielding/finished operation; -1 = default
	locks   []lockState
	stop    bool
	viol    *prog.Result
	err     string
	hash    uint64
	inter   uint64
	now     int64
	verbose bool
	trace   []string
	st      *stats
	rec     map[int][]int
	w       *world
	noticks int
	peak    int // largest number of live elements seen
	nevents int
}

// opx is an operation being executed.
type opx struct {
	s        *Sim
	op       *prog.Op
	c        *client
	def      *opDef
	k        int // tape index
	rec      []int
	ticks    int64
	budget   int64
	budgetAt int64 // step at which budget was set
	gap      int64
	seam     uint64
	overrun  bool
	reads    []int
	writes   []int
	quiet    int   // >0: no preemption (model bookkeeping only)
	inj      int   // injected panics so far
	alarmAt  int64 // library step at which alarm is called; 0: none
	alarm    func()
}

var cur *Sim

func libTick() {
	s := cur
	if s == nil || s.cur == nil || s.noticks > 0 {
		return
	}
	o := s.cur.o
	if o == nil {
		return
	}
	o.ticks++
	s.now++
	if s.stop {
		panic(stopRun{})
	}
	if o.alarmAt > 0 && o.ticks >= o.alarmAt {
		o.alarmAt = 0
		o.alarm()
	}
	if o.ticks > o.budget {
		o.overrun = true
		panic(tickOverrun{})
	}
	if o.gap > 0 && o.quiet == 0 {
		o.gap--
		if o.gap == 0 {
			o.c.st.Preempts++
			o.switchAway(1+o.choose("who", 8), "tick")
			o.newGap()
		}
	}
}

// libBlock is called when the library has to wait for a lock: another client
// runs first.
func libBlock() {
	s := cur
	if s == nil || s.cur == nil || s.cur.o == nil {
		panic("waits for a lock that nobody can release")
	}
	o := s.cur.o
	if s.stop {
		panic(stopRun{})
	}
	o.ticks += 100
	if o.ticks > o.budget {
		o.overrun = true
		panic(tickOverrun{})
	}
	if len(s.options(o.c)) == 0 {
		panic("deadlock: waits for a lock and no other client can run")
	}
	o.probe("waited-for-a-library-lock")
	o.switchAway(1+o.choose("who", 8), "lock")
}

func init() {
	lpg.VerifHook = libTick
	vsync.Tick = libTick
	vsync.Block = libBlock
}

func (o *opx) newGap() {
	o.gap = int64(o.choose("gap", 400))
	if o.gap > 200 { // mostly short, sometimes long
		o.gap = (o.gap - 200) * (o.gap - 200) / 4
	}
}

func (o *opx) reseed() {
	o.seam++
	verifSetMapRand(prog.Mix(o.s.cfg.MapSeed, uint64(o.op.ID), o.seam) | 1)
}

// choose returns a value in [0,n). 0 is the default (no switch, no fault).
func (o *opx) choose(class string, n int) int {
	if n <= 1 {
		return 0
	}
	k := o.k
	o.k++
	v := 0
	if o.s.p.Replay {
		if k < len(o.op.Tape) {
			v = o.op.Tape[k] % n
			if v < 0 {
				v = 0
			}
		}
	} else {
		h := prog.Mix(o.s.p.Seed, uint64(o.op.ID)+1, uint64(k)+1, 77)
		if int(h%1000) < o.s.cfg.P[class] {
			v = 1 + int((h>>20)%uint64(n-1))
		}
	}
	if v != 0 {
		for len(o.rec) < k {
			o.rec = append(o.rec, 0)
		}
		o.rec = append(o.rec[:k], v)
	}
	return v
}

// yield is a voluntary scheduling point.
func (o *opx) yield(site string) {
	if o.s.stop {
		panic(stopRun{})
	}
	if o.quiet > 0 {
		return
	}
	d := o.choose("yield", 8)
	if d != 0 {
		o.switchAway(d, site)
	}
}

func (s *Sim) options(self *client) []int {
	// -1: start the next operation; >=0: index into parked
	var opt []int
	if s.canStartNext(self) {
		opt = append(opt, -1)
	}
	for i, p := range s.parked {
		if p != self {
			opt = append(opt, i)
		}
	}
	return opt
}

func (s *Sim) canStartNext(self *client) bool {
	if s.nextOp >= len(s.p.Ops) {
		return false
	}
	op := &s.p.Ops[s.nextOp]
	c := s.clients[op.C%len(s.clients)]
	if c.o != nil {
		return false
	}
	r, w := s.needs(op)
	return s.lockFree(r, w)
}

func (s *Sim) lockFree(r, w []int) bool {
	for _, x := range w {
		if s.locks[x].w || s.locks[x].r > 0 {
			return false
		}
	}
	for _, x := range r {
		if s.locks[x].w {
			return false
		}
	}
	return true
}

func (o *opx) switchAway(d int, site string) {
	s := o.s
	if s.stop {
		panic(stopRun{})
	}
	opt := s.options(o.c)
	if len(opt) == 0 {
		return
	}
	s.pick = opt[(d-1)%len(opt)]
	o.c.st.Switches++
	s.ev("switch", uint64(o.op.ID), uint64(int64(s.pick)+2), prog.HashStr(site))
	s.inter = prog.Mix(s.inter, prog.HashStr(o.op.K), prog.HashStr(site), uint64(s.pick+2))
	if s.verbose {
		s.log("  switch away from op %d (%s) at %s", o.op.ID, o.op.K, site)
	}
	s.parked = append(s.parked, o.c)
	if s.pick >= 0 {
		// index stays valid: the yielder was appended at the end
	}
	raceOff()
	s.sched <- 0
	<-o.c.resume
	raceOn()
	if s.stop {
		panic(stopRun{})
	}
	if s.verbose {
		s.log("  resume op %d (%s)", o.op.ID, o.op.K)
	}
	o.reseed()
}

func (s *Sim) ev(kind string, xs ...uint64) {
	h := prog.Mix(s.hash, prog.HashStr(kind))
	for _, x := range xs {
		h = prog.Mix(h, x)
	}
	s.hash = h
	s.nevents++
}

func (s *Sim) log(f string, a ...any) {
	if s.verbose && len(s.trace) < 4000 {
		s.noticks++
		s.trace = append(s.trace, fmt.Sprintf("[t=%d] ", s.now)+fmt.Sprintf(f, a...))
		s.noticks--
	}
}

// note records an observable outcome in the trace hash (and log).
func (o *opx) note(f string, a ...any) {
	o.s.noticks++
	m := fmt.Sprintf(f, a...)
	o.s.noticks--
	o.s.ev("note", prog.HashStr(m))
	if o.s.verbose {
		o.s.log("  op %d: %s", o.op.ID, m)
	}
}

func (o *opx) fault(kind string) {
	o.c.st.Faults[kind]++
	o.s.ev("fault", prog.HashStr(kind))
	o.s.log("  op %d: FAULT %s", o.op.ID, kind)
}
func (o *opx) probe(kind string)  { o.c.st.Probes[kind]++ }
func (o *opx) oracle(kind string) { o.c.st.Oracles[kind]++ }

// fail records the violation and stops the run.
func (o *opx) fail(class, f string, a ...any) {
	s := o.s
	if s.viol == nil && s.err == "" {
		s.noticks++
		msg := fmt.Sprintf(f, a...)
		s.noticks--
		s.viol = &prog.Result{Violation: true, Class: class, Msg: fmt.Sprintf("op %d %s: %s", o.op.ID, o.op.K, msg), Op: o.op.ID}
		s.log("VIOLATION %s: %s", class, s.viol.Msg)
	}
	s.stop = true
	panic(stopRun{})
}

// setBudget allows n further steps before an operation counts as stuck.
func (o *opx) setBudget(n int64) {
	o.noteBudget()
	o.budgetAt = o.ticks
	o.budget = o.ticks + n
}

// noteBudget records how much of its step budget the operation used.
func (o *opx) noteBudget() {
	if o.budget > o.budgetAt {
		k := "% of step budget: " + o.op.K
		if pc := (o.ticks - o.budgetAt) * 100 / (o.budget - o.budgetAt); pc > o.c.st.MaxTicks[k] {
			o.c.st.MaxTicks[k] = pc
		}
	}
}

func (o *opx) skip() { panic(skipOp{}) }

// try runs f and reports whether an injected panic came out of it.
func (o *opx) try(f func()) (inj bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(injected); ok {
				inj = true
				return
			}
			panic(r)
		}
	}()
	f()
	return false
}

func (s *Sim) runOp(c *client, op *prog.Op) {
	o := c.o
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case stopRun:
			case skipOp:
				c.st.Skipped++
				s.log("  op %d skipped", op.ID)
			case tickOverrun:
				o.noFail("hang", fmt.Sprintf("no result after %d simulated steps (budget %d)", o.ticks, o.budget))
			case injected:
				s.err = fmt.Sprintf("engine: injected panic escaped op %d %s", op.ID, op.K)
				s.stop = true
			default:
				st := string(debug.Stack())
				o.noFail("panic", fmt.Sprintf("panic: %v\n%s", x, trimStack(st)))
			}
		}
		if o.overrun && s.viol == nil && s.err == "" {
			o.noFail("hang", fmt.Sprintf("no result after %d simulated steps (budget %d)", o.ticks, o.budget))
		}
		o.noteBudget()
		if m := c.st.MaxTicks[op.K]; o.ticks > m {
			c.st.MaxTicks[op.K] = o.ticks
		}
	}()
	if s.verbose {
		s.log("op %d client %d %s %v", op.ID, op.C, op.K, op.A)
	}
	s.ev("op", uint64(op.ID), prog.HashStr(op.K))
	c.st.Ops[op.K]++
	o.reseed()
	o.newGap()
	o.def.exec(o)
	s.ev("end", uint64(op.ID))
}

func (o *opx) noFail(class, msg string) {
	s := o.s
	if s.viol == nil && s.err == "" {
		s.viol = &prog.Result{Violation: true, Class: class, Msg: fmt.Sprintf("op %d %s: %s", o.op.ID, o.op.K, msg), Op: o.op.ID}
		s.log("VIOLATION %s: %s", class, s.viol.Msg)
	}
	s.stop = true
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if i := strings.Index(l, " +0x"); i >= 0 {
			l = l[:i]
		}
		if strings.HasPrefix(l, "\t") && strings.Contains(l, ".go:") && !strings.Contains(l, "/src/runtime/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

func (c *client) loop() {
	for {
		raceOff()
		op, ok := <-c.work
		raceOn()
		if !ok {
			close(c.ended) // orders everything this client did before the end of the run
			return
		}
		c.s.raceLock(c.o)
		c.s.runOp(c, op)
		c.s.raceUnlock(c.o)
		raceOff()
		c.s.sched <- 1
		raceOn()
	}
}

func (s *Sim) needs(op *prog.Op) (r, w []int) {
	d := opDefs[op.K]
	if d == nil {
		panic("unknown op " + op.K)
	}
	if d.needs == nil {
		return nil, nil
	}
	return d.needs(s, op)
}

func (s *Sim) start(op *prog.Op) {
	c := s.clients[op.C%len(s.clients)]
	r, w := s.needs(op)
	for _, x := range r {
		s.locks[x].r++
	}
	for _, x := range w {
		s.locks[x].w = true
	}
	c.o = &opx{s: s, op: op, c: c, def: opDefs[op.K], reads: r, writes: w, budget: s.w.auditBudget()}
	s.cur = c
	raceOff()
	c.work <- op
	raceOn()
}

// run executes the whole program.
func (s *Sim) run() {
	cur = s
	defer func() { cur = nil; verifSetMapRand(1) }()
	for i := 0; i < s.cfg.Clients; i++ {
		c := &client{id: i, s: s, resume: make(chan struct{}), work: make(chan *prog.Op), st: newStats(), ended: make(chan struct{})}
		s.clients = append(s.clients, c)
		go c.loop()
	}
	defer func() {
		for _, c := range s.clients {
			close(c.work)
			<-c.ended
			s.st.merge(c.st)
		}
	}()
	resume := func(i int) {
		c := s.parked[i]
		s.parked = append(s.parked[:i:i], s.parked[i+1:]...)
		s.cur = c
		raceOff()
		c.resume <- struct{}{}
		raceOn()
	}
	for {
		// decide
		if s.stop {
			if len(s.parked) == 0 {
				return
			}
			resume(len(s.parked) - 1)
		} else if s.pick != -1000 {
			p := s.pick
			s.pick = -1000
			if p == -1 {
				s.nextOp++
				s.start(&s.p.Ops[s.nextOp-1])
			} else {
				resume(p)
			}
		} else if len(s.parked) > 0 {
			resume(len(s.parked) - 1)
		} else if s.nextOp < len(s.p.Ops) {
			s.nextOp++
			s.start(&s.p.Ops[s.nextOp-1])
		} else {
			return
		}
		raceOff()
		ended := <-s.sched == 1
		raceOn()
		if ended {
			c := s.cur
			o := c.o
			for _, x := range o.reads {
				s.locks[x].r--
			}
			for _, x := range o.writes {
				s.locks[x].w = false
			}
			s.pick = -1000
			if !s.stop {
				c.o = nil
				if len(s.parked) > 0 {
					opt := s.options(c)
					d := o.choose("done", 8)
					if d > 0 && len(opt) > 0 {
						s.pick = opt[(d-1)%len(opt)]
						s.inter = prog.Mix(s.inter, 5, prog.HashStr(o.op.K), uint64(s.pick+2))
					}
				}
			}
			s.rec[o.op.ID] = o.rec
			c.o = nil
		}
	}
}

func newSim(p *prog.Program, st *stats, verbose bool) *Sim {
	s := &Sim{p: p, cfg: p.Cfg, sched: make(chan int), pick: -1000, st: st, rec: map[int][]int{}, verbose: verbose, hash: 1, inter: 1}
	if s.cfg.Clients < 1 {
		s.cfg.Clients = 1
	}
	if s.cfg.Graphs < 1 {
		s.cfg.Graphs = 1
	}
	s.locks = make([]lockState, s.cfg.Graphs)
	s.parked = make([]*client, 0, 16)
	return s
}

// execute runs a program and returns the result with recorded tapes on failure.
func execute(p *prog.Program, st *stats, verbose bool) (*prog.Result, *Sim) {
	s := newSim(p, st, verbose)
	verifSetMapRand(prog.Mix(p.Cfg.MapSeed, 12345) | 1)
	s.w = newWorld(s)
	s.run()
	if msg := raceReports(); msg != "" && s.viol == nil && s.err == "" {
		s.viol = &prog.Result{Violation: true, Class: "race", Msg: msg, Op: -1}
		s.log("VIOLATION race")
	}
	res := s.viol
	if res == nil {
		res = &prog.Result{}
	}
	res.Err = s.err
	res.Hash = fmt.Sprintf("%016x", s.hash)
	res.Steps = s.now
	if res.Violation {
		cp := *p
		cp.Replay = true
		cp.Ops = nil
		for _, op := range p.Ops {
			op.Tape = s.rec[op.ID]
			cp.Ops = append(cp.Ops, op)
		}
		res.Prog = &cp
	}
	res.Trace = s.trace
	return res, s
}

type stats struct {
	Ops, Faults, Probes, Oracles, MaxTicks map[string]int64
	Preempts, Switches, Skipped            int64
	states                                 map[uint64]struct{}
}

func (st *stats) merge(x *stats) {
	for _, p := range [][2]map[string]int64{{st.Ops, x.Ops}, {st.Faults, x.Faults}, {st.Probes, x.Probes}, {st.Oracles, x.Oracles}} {
		for k, v := range p[1] {
			p[0][k] += v
		}
	}
	for k, v := range x.MaxTicks {
		if v > st.MaxTicks[k] {
			st.MaxTicks[k] = v
		}
	}
	st.Preempts += x.Preempts
	st.Switches += x.Switches
	st.Skipped += x.Skipped
}

func newStats() *stats {
	return &stats{Ops: map[string]int64{}, Faults: map[string]int64{}, Probes: map[string]int64{}, Oracles: map[string]int64{}, MaxTicks: map[string]int64{}}
}
