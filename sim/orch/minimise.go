package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"verifsim/prog"
)

type minimiser struct {
	e     *env
	s     *server
	class string
	until time.Time
	tries int
	limit time.Duration
}

func clone(p *prog.Program) *prog.Program {
	b, _ := json.Marshal(p)
	q := &prog.Program{}
	json.Unmarshal(b, q)
	return q
}

// fails reports whether the candidate still shows the violation and returns
// the program with the choices it actually consumed.
func (m *minimiser) fails(p *prog.Program) (*prog.Program, bool) {
	if time.Now().After(m.until) {
		return nil, false
	}
	m.tries++
	r := m.s.exec(p, m.limit)
	if r.Err != "" || !r.Violation || r.Class != m.class {
		return nil, false
	}
	return p, true
}

func (m *minimiser) reduce(p *prog.Program) *prog.Program {
	try := func(q *prog.Program) bool {
		if g, ok := m.fails(q); ok {
			p = g
			return true
		}
		return false
	}
	for round := 0; round < 4; round++ {
		before, _ := json.Marshal(p)
		// drop operations, large chunks first
		for size := (len(p.Ops) + 1) / 2; size >= 1; size /= 2 {
			for i := 0; i < len(p.Ops); {
				q := clone(p)
				j := i + size
				if j > len(q.Ops) {
					j = len(q.Ops)
				}
				q.Ops = append(q.Ops[:i:i], q.Ops[j:]...)
				if len(q.Ops) == 0 || !try(q) {
					i += size
				}
			}
		}
		// drop choices: whole tapes, tails, single entries
		for i := range p.Ops {
			if len(p.Ops[i].Tape) == 0 {
				continue
			}
			q := clone(p)
			q.Ops[i].Tape = nil
			if try(q) {
				continue
			}
			for n := len(p.Ops[i].Tape) / 2; n >= 1; n /= 2 {
				for len(p.Ops[i].Tape) > n {
					q := clone(p)
					q.Ops[i].Tape = q.Ops[i].Tape[:len(q.Ops[i].Tape)-n]
					if !try(q) {
						break
					}
				}
			}
			for k := range p.Ops[i].Tape {
				if k >= len(p.Ops[i].Tape) || p.Ops[i].Tape[k] == 0 {
					continue
				}
				q := clone(p)
				q.Ops[i].Tape[k] = 0
				if !try(q) && p.Ops[i].Tape[k] > 1 {
					q := clone(p)
					q.Ops[i].Tape[k] = 1
					try(q)
				}
			}
		}
		// one client
		for i := range p.Ops {
			if p.Ops[i].C != 0 {
				q := clone(p)
				q.Ops[i].C = 0
				try(q)
			}
		}
		// smaller arguments
		for i := range p.Ops {
			for k := range p.Ops[i].A {
				if p.Ops[i].A[k] == 0 {
					continue
				}
				q := clone(p)
				q.Ops[i].A[k] = 0
				if try(q) {
					continue
				}
				for _, v := range []int{1, 2, 3, 4, 8} {
					if p.Ops[i].A[k] > v {
						q := clone(p)
						q.Ops[i].A[k] = v
						if try(q) {
							break
						}
					}
				}
			}
		}
		// smaller configuration
		for _, f := range []func(c *prog.Cfg) bool{
			func(c *prog.Cfg) bool { r := c.MapSeed != 1; c.MapSeed = 1; return r },
			func(c *prog.Cfg) bool { r := c.Clients > 1; c.Clients = 1; return r },
			func(c *prog.Cfg) bool { r := c.Graphs > 1; c.Graphs--; return r },
			func(c *prog.Cfg) bool { r := c.Labels > 1; c.Labels--; return r },
			func(c *prog.Cfg) bool { r := c.ELabels > 1; c.ELabels--; return r },
			func(c *prog.Cfg) bool { r := c.Vals > 1; c.Vals--; return r },
		} {
			for {
				q := clone(p)
				if !f(&q.Cfg) || !try(q) {
					break
				}
			}
		}
		if after, _ := json.Marshal(p); string(after) == string(before) || time.Now().After(m.until) {
			break
		}
	}
	return p
}

// minimise shrinks the violating run, confirms it in fresh processes and
// writes the replay file.
func (e *env) minimise(prop string, f *found, base uint64) (string, *prog.ReplayFile) {
	limit := 20 * time.Second
	if f.class == "hang" {
		limit = 10 * time.Second
	}
	m := &minimiser{e: e, s: &server{e: e}, class: f.class, until: time.Now().Add(45 * time.Second), limit: limit}
	defer m.s.stop()
	p := f.prog
	orig := len(p.Ops)
	// without recorded tapes (a run that killed its process) the choices
	// follow from the seed
	if _, ok := m.fails(p); ok {
		p = m.reduce(p)
	}
	res := e.fresh(p, 100*time.Second)
	again := e.fresh(p, 100*time.Second)
	if !res.Violation || res.Class != f.class || res.Hash != again.Hash {
		// fall back to the run as found
		p = f.prog
		res = e.fresh(p, 100*time.Second)
	}
	if !res.Violation {
		res.Class, res.Msg = f.class, f.msg+"\n(not reproduced in a fresh process)"
	}
	msg := res.Msg
	if msg == "" {
		msg = f.msg
	}
	rf := &prog.ReplayFile{Property: prop, Class: res.Class, Message: msg, Seed: p.Seed, Program: p, OrigOps: orig, MinOps: len(p.Ops), TraceHash: res.Hash, Trace: res.Trace,
		HowToReplay: "bash /verif/check.sh replay <this file>"}
	dir := filepath.Join(e.root, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, p.Seed))
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die("%v", err)
	}
	return path, rf
}
