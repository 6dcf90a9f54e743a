package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
)

// quickRuns is the number of simulated runs of a quick check.
var quickRuns = map[string]int64{
	"P01": 200000, "P02": 150000, "P03": 280000, "P04": 600000, "P05": 1200000, "P06": 30000, "P07": 40000, "P08": 140000,
	"P09": 130000, "P10": 200000, "P11": 44000, "P12": 800000, "P13": 140000, "P14": 140000, "P15": 700000, "P16": 44000, "P18": 700000, "P19": 900000, "P20": 12000, "P21": 22000,
}

const raceQuickRuns = 8000

var faultNotes = []string{
	"message loss, partitions, clock skew and node restarts have no counterpart: lpg is an in-process library without network, timers or storage of its own; the caller's streams, disk, context and callbacks are where faults enter",
}

func (e *env) evidence(prop, tier string, base uint64, t, rt *totals, race bool, searchS, raceS, buildS float64, det map[string]any, vio map[string]any, wall float64) {
	perHour := func(n int64, s float64) int64 {
		if s <= 0 {
			return 0
		}
		return int64(float64(n) / s * 3600)
	}
	samples := []any{}
	for _, s := range t.Samples {
		samples = append(samples, s)
	}
	if len(samples) == 0 {
		samples = append(samples, fmt.Sprintf("base seed %d; run seeds are Mix(base, i, 4242)", base))
	}
	cov := map[string]any{
		"evaluations":         t.Runs + rt.Runs,
		"distinct_nontrivial": len(t.hashes),
		"rule":                "one evaluation = one simulated run: a program of client operations and every scheduling, fault and map-order choice derived from one seed. Non-trivial: the model held at least 3 live elements at some point and more than 8 events were recorded. Distinct: different hash over all operations, scheduling decisions, faults and observed results",
		"samples":             samples,
		"runs_per_hour":       perHour(t.Runs, searchS),
		"seeds_per_hour":      perHour(t.Runs, searchS),
		"search_wall_s":       round(searchS),
		"build_wall_s":        round(buildS),
		"simulated_time_steps": map[string]any{
			"total": t.Steps, "unit": "ticks: one per function entry or loop iteration executed inside lpg; the simulated clock (deadlines, budgets) is this counter",
		},
		"context_switches":         t.Switches,
		"preemptions_inside_lpg":   t.Preempts,
		"distinct_interleavings":   map[string]any{"count": len(t.inter), "measure": "hash of the sequence (operation kind, yield site, who runs next) of all scheduling decisions of a run"},
		"distinct_model_states":    map[string]any{"count": len(t.states), "measure": "hash of the reference model of every graph after each operation (labels, properties, adjacency), capped at 400000 per worker"},
		"operations":               t.Ops,
		"faults_injected":          t.Faults,
		"probes":                   t.Probes,
		"oracle_evaluations":       t.Oracles,
		"max_ticks_per_operation":  t.MaxTicks,
		"determinism_sample":       det,
		"instrumented_files":       e.bi.Files,
		"instrumentation_points":   e.bi.Ticks,
		"components_real":          []string{"all of /repo's non-test sources (rebuilt from the working tree, with a tick inserted at function entries and loop iterations)", "github.com/emirpasic/gods (a copy with ticks, in place of the module)", "encoding/json", "Go maps and the Go allocator"},
		"components_simulated":     []string{"callers and their scheduling", "preemption points", "Go map iteration order (runtime random word)", "io.Reader and io.Writer devices", "disk with synced/unsynced bytes", "context and deadline", "every caller-supplied callback"},
		"fault_kinds_not_relevant": faultNotes,
	}
	if race {
		cov["race_detector_pass"] = map[string]any{
			"runs": rt.Runs, "runs_per_hour": perHour(rt.Runs, raceS), "distinct_schedules": len(rt.inter), "operations": rt.Ops, "steps": rt.Steps, "probes": rt.Probes,
			"what": "same programs, readers in real goroutines without happens-before edges between them; the seeded scheduler decides who runs, the Go race detector judges every memory access",
		}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": int64(base), "level": "exploration", "coverage": cov, "wall_s": round(wall), "violations": 0,
		"assumptions": []string{
			"the reference model and naive re-implementations in /verif/sim/worker are right",
			"what is not explored by the seeds of this run is not covered",
			"graphs are small (mostly up to 7 nodes and 12 edges, now and then up to 25 nodes and 33 edges)",
		},
	}
	if vio != nil {
		ev["violations"] = 1
		cov["violation"] = vio
	}
	os.MkdirAll(filepath.Join(e.root, "evidence"), 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(e.root, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

func round(f float64) float64 { return float64(int64(f*1000)) / 1000 }
