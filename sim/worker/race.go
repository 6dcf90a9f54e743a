//go:build race

package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"unsafe"
)

// In this build the code under test and its dependencies are compiled with
// the race detector, the simulator itself is not (see orch/build.go). Which
// client runs is still decided by the simulator alone, but its handoffs are
// hidden from the detector: the only order the detector sees between clients
// is that of the reader/writer locks callers hold around each graph.

const raceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// as in sync.RWMutex
func (s *Sim) raceLock(o *opx) {
	for _, g := range o.reads {
		runtime.RaceAcquire(unsafe.Pointer(&s.locks[g].wsync))
	}
	for _, g := range o.writes {
		runtime.RaceAcquire(unsafe.Pointer(&s.locks[g].wsync))
		runtime.RaceAcquire(unsafe.Pointer(&s.locks[g].rsync))
	}
}

func (s *Sim) raceUnlock(o *opx) {
	for _, g := range o.reads {
		runtime.RaceReleaseMerge(unsafe.Pointer(&s.locks[g].rsync))
	}
	for _, g := range o.writes {
		runtime.RaceRelease(unsafe.Pointer(&s.locks[g].wsync))
	}
}

var (
	raceSeen   int
	raceOffset int
)

// raceSettle keeps the collector out of the runs, so that addresses repeat.
func raceSettle() {
	debug.SetGCPercent(-1)
	runtime.GC()
}

// raceReports returns the data races reported since the last call that the
// code under test takes part in.
func raceReports() string {
	n := runtime.RaceErrors()
	if n == raceSeen {
		return ""
	}
	raceSeen = n
	path := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			path = fmt.Sprintf("%s.%d", f[len("log_path="):], os.Getpid())
		}
	}
	data, err := os.ReadFile(path)
	if err != nil {
		return "the race detector reported a data race: " + err.Error()
	}
	text := string(data[raceOffset:])
	raceOffset = len(data)
	for _, r := range strings.Split(text, "==================\n") {
		if strings.Contains(r, "DATA RACE") && raceInvolves(r) {
			return raceShort(r)
		}
	}
	return ""
}

// raceInvolves: one of the two accesses is made by the code under test, that
// is, its innermost frame outside the standard library is not the simulator's.
//
// Stacks need care. Only instrumented functions push frames, a panic recovered
// inside the library leaves the frames of the functions it unwound behind, and
// the runtime's map functions report their own caller: when one of them calls
// another, the function that used the map is missing and the frame that
// follows can be a leftover. Such an access is attributed to nobody; the other
// side of a race on a map is a write, which always has its caller.
func raceInvolves(r string) bool {
	hit := false
	for _, sec := range strings.Split(r, "\n\n") {
		lines := strings.Split(sec, "\n")
		for len(lines) > 0 && (lines[0] == "" || strings.HasPrefix(lines[0], "WARNING")) {
			lines = lines[1:]
		}
		if len(lines) == 0 || !(strings.Contains(lines[0], "ead at 0x") || strings.Contains(lines[0], "rite at 0x")) {
			continue
		}
		var frames []string
		for _, l := range lines[1:] {
			if strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "      ") {
				frames = append(frames, strings.TrimSpace(l))
			}
		}
		rt := 0
		for rt < len(frames) && strings.HasPrefix(frames[rt], "runtime.") {
			rt++
		}
		if rt > 1 {
			continue
		}
		for _, fn := range frames {
			if strings.HasPrefix(fn, "main.") {
				break
			}
			if strings.Contains(fn, "/lpg/") || strings.Contains(fn, "/gods/") {
				hit = true
				break
			}
		}
	}
	return hit
}

// raceShort keeps the stacks and drops what differs between processes.
func raceShort(r string) string {
	var out []string
	for _, l := range strings.Split(r, "\n") {
		if strings.HasPrefix(l, "Goroutine ") {
			break
		}
		if i := strings.Index(l, " at 0x"); i >= 0 {
			l = strings.TrimSpace(l[:i])
		}
		if i := strings.Index(l, " +0x"); i >= 0 {
			l = l[:i]
		}
		if strings.TrimSpace(l) != "" {
			out = append(out, l)
		}
		if len(out) > 40 {
			break
		}
	}
	return "data race between concurrent callers\n" + strings.Join(out, "\n")
}
