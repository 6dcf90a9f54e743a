package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"time"

	"verifsim/prog"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "worker: "+f+"\n", a...)
	os.Exit(3)
}

func atoi(s string) int64 {
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		fatal("bad number %q", s)
	}
	return v
}

func keys(m map[uint64]struct{}) []uint64 {
	out := make([]uint64, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	return out
}

func capMax(m map[uint64]struct{}, v uint64) {
	if len(m) < 400000 {
		m[v] = struct{}{}
	}
}

func runSeed(base uint64, i int64) uint64 { return prog.Mix(base, uint64(i), 4242) }

// usage:
//
//	worker run PROP BASESEED FROM STEP COUNT WALLSECONDS
//	worker replay FILE            (one program or replay file; prints the Result)
//	worker serve                  (one program per input line, one Result per output line)
//	worker gen PROP BASESEED INDEX
func main() {
	if len(os.Args) < 2 {
		fatal("no command")
	}
	debug.SetGCPercent(400)
	if f := os.Getenv("VERIF_CPUPROFILE"); f != "" { // development only
		w, err := os.Create(f)
		if err != nil {
			fatal("%v", err)
		}
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	enc := json.NewEncoder(out)
	switch os.Args[1] {
	case "run":
		if len(os.Args) != 8 {
			fatal("run: wrong arguments")
		}
		p := os.Args[2]
		base := uint64(atoi(os.Args[3]))
		from, step, count := atoi(os.Args[4]), atoi(os.Args[5]), atoi(os.Args[6])
		wall := time.Duration(atoi(os.Args[7])) * time.Second
		enc.Encode(batch(p, base, from, step, count, wall))
	case "gen":
		enc.Encode(generate(os.Args[2], runSeed(uint64(atoi(os.Args[3])), atoi(os.Args[4]))))
	case "replay":
		data, err := os.ReadFile(os.Args[2])
		if err != nil {
			fatal("%v", err)
		}
		var rf prog.ReplayFile
		var p *prog.Program
		if json.Unmarshal(data, &rf) == nil && rf.Program != nil {
			p = rf.Program
		} else {
			p = &prog.Program{}
			if err := json.Unmarshal(data, p); err != nil {
				fatal("%v", err)
			}
		}
		enc.Encode(one(p, true))
	case "serve":
		in := bufio.NewReaderSize(os.Stdin, 1<<20)
		for {
			line, err := in.ReadBytes('\n')
			if err != nil {
				return
			}
			p := &prog.Program{}
			if err := json.Unmarshal(line, p); err != nil {
				fatal("%v", err)
			}
			r := one(p, false)
			r.Trace = nil
			enc.Encode(r)
			out.Flush()
		}
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

func one(p *prog.Program, verbose bool) *prog.Result {
	st := newStats()
	raceSettle()
	r, _ := execute(p, st, verbose)
	return r
}

func batch(p string, base uint64, from, step, count int64, wall time.Duration) *prog.Summary {
	st := newStats()
	st.states = map[uint64]struct{}{}
	hashes, inter := map[uint64]struct{}{}, map[uint64]struct{}{}
	sum := &prog.Summary{}
	start := time.Now()
	logHash := uint64(1)
	for i := int64(0); i < count; i++ {
		if i%16 == 0 && time.Since(start) > wall {
			break
		}
		seed := runSeed(base, from+i*step)
		pr := generate(p, seed)
		progressNote(from+i*step, seed)
		if raceBuild && i%8 == 0 {
			raceSettle()
		}
		pr.Race = raceBuild
		r, s := execute(pr, st, false)
		sum.Runs++
		sum.Steps += s.now
		if nontrivial(s) {
			sum.Nontrivial++
			capMax(hashes, s.hash)
		}
		capMax(inter, s.inter)
		if len(sum.Samples) < 4 && nontrivial(s) {
			sum.Samples = append(sum.Samples, sample(pr, s))
		}
		logHash = prog.Mix(logHash, prog.HashStr(r.Hash))
		if r.Err != "" || r.Violation {
			if r.Prog == nil {
				r.Prog = pr
			}
			sum.Result = r
			break
		}
	}
	sum.Wall = time.Since(start).Seconds()
	sum.Hashes, sum.Inter, sum.States = keys(hashes), keys(inter), keys(st.states)
	sum.Switches, sum.Preempts = st.Switches, st.Preempts
	sum.Ops, sum.Faults, sum.Probes, sum.Oracles, sum.MaxTicks = st.Ops, st.Faults, st.Probes, st.Oracles, st.MaxTicks
	sum.LogHash = fmt.Sprintf("%016x", logHash)
	return sum
}

// nontrivial: the graphs held at least one edge or two nodes at the end of
// the run or at some reached state, and at least one oracle was evaluated.
func nontrivial(s *Sim) bool {
	return s.peak >= 3 && s.nevents > 8
}

func sample(p *prog.Program, s *Sim) string {
	ks := ""
	for i, op := range p.Ops {
		if i > 14 {
			ks += " ..."
			break
		}
		ks += fmt.Sprintf(" %d:%s", op.C, op.K)
	}
	return fmt.Sprintf("seed %d: %d graphs, %d clients, %d ops, %d steps, %d events:%s", p.Seed, p.Cfg.Graphs, p.Cfg.Clients, len(p.Ops), s.now, s.nevents, ks)
}

var progressFile *os.File

// progressNote lets the orchestrator name the run a dead worker was in.
func progressNote(i int64, seed uint64) {
	if progressFile == nil {
		n := os.Getenv("VERIF_PROGRESS")
		if n == "" {
			return
		}
		f, err := os.Create(n)
		if err != nil {
			fatal("%v", err)
		}
		progressFile = f
	}
	progressFile.WriteAt([]byte(fmt.Sprintf("%020d %020d\n", i, seed)), 0)
}
