package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// repoDir is the tree under test. VERIF_REPO is for developing the machinery
// (planted bugs in scratch copies); registered checks do not set it.
func repoDir() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

// instrument inserts `verifTick();` at every function entry and loop
// iteration of one source file, on the line it applies to, so that positions
// in panics stay those of the original file.
func instrument(name string, src []byte) ([]byte, int, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	var at []int
	body := func(b *ast.BlockStmt) {
		if b != nil {
			at = append(at, fs.PositionFor(b.Lbrace, false).Offset+1)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			body(x.Body)
		case *ast.FuncLit:
			body(x.Body)
		case *ast.ForStmt:
			body(x.Body)
		case *ast.RangeStmt:
			body(x.Body)
		case *ast.LabeledStmt:
			switch x.Stmt.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			default:
				at = append(at, fs.PositionFor(x.Colon, false).Offset+1)
			}
		}
		return true
	})
	type ins struct {
		at, skip int
		text     string
	}
	var edits []ins
	for _, p := range at {
		edits = append(edits, ins{p, 0, "verifTick();"})
	}
	for _, im := range f.Imports {
		if im.Path.Value != `"sync"` {
			continue
		}
		text := fmt.Sprintf("%q", modPath+"/"+syncDir)
		if im.Name == nil {
			text = "sync " + text
		}
		edits = append(edits, ins{fs.PositionFor(im.Path.Pos(), false).Offset, len(im.Path.Value), text})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var out bytes.Buffer
	last := 0
	for _, e := range edits {
		out.Write(src[last:e.at])
		out.WriteString(e.text)
		last = e.at + e.skip
	}
	out.Write(src[last:])
	return out.Bytes(), len(at), nil
}

// syncDir holds the stand-in for package sync that code under test is built
// with: the same primitives, except that a caller that would have to wait
// hands over to the simulator's scheduler instead of blocking its thread.
const syncDir = "zzverifsync"

const syncSrc = `package sync

import real "sync"

// Block gives other clients a turn; set by the simulator.
var Block func()

// Tick is called at every step of the libraries the code under test uses.
var Tick func()

func block() {
	if Block == nil {
		panic("verifsync: nobody to wait for")
	}
	Block()
}

type (
	Locker    = real.Locker
	Map       = real.Map
	Pool      = real.Pool
	WaitGroup = real.WaitGroup
	Cond      = real.Cond
)

func NewCond(l Locker) *Cond { return real.NewCond(l) }

type Mutex struct{ m real.Mutex }

func (m *Mutex) Lock() {
	for !m.m.TryLock() {
		block()
	}
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

type RWMutex struct{ m real.RWMutex }

func (m *RWMutex) Lock() {
	for !m.m.TryLock() {
		block()
	}
}
func (m *RWMutex) RLock() {
	for !m.m.TryRLock() {
		block()
	}
}
func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	return func() { once.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var once Once
	var v T
	return func() T {
		once.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var once Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		once.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}
`

const hookSrc = `package %s

// VerifHook is called at every function entry and loop iteration.
var VerifHook func()

func verifTick() {
	if VerifHook != nil {
		VerifHook()
	}
}
`

const raceHookSrc = `package %s

// VerifHook is called at every function entry and loop iteration.
var VerifHook func()

//go:norace
func verifTick() {
	if VerifHook != nil {
		VerifHook()
	}
}
`

const modPath = "github.com/cloudprivacylabs/lpg/v2"

const poolSrc = `package sync

type Pool struct {
	noCopy noCopy
	New    func() any
}

func (p *Pool) Put(x any) {}

func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
`

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOEXPERIMENT", "GOTOOLCHAIN", "GOPROXY", "GOMAXPROCS", "GODEBUG", "GORACE", "GOWORK", "CGO_ENABLED", "GOSUMDB":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOEXPERIMENT=norandomizedheapbase64", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off")
}

type buildInfo struct {
	Files int
	Ticks int
}

const depPath = "github.com/emirpasic/gods"

const depHookSrc = `package %s

import verif %q

//go:norace
func verifTick() {
	if verif.Tick != nil {
		verif.Tick()
	}
}
`

// instrumentDeps makes a copy of the third-party containers lpg is built on,
// with ticks, and returns the module directive that puts it in their place.
func instrumentDeps(sub string) (string, int, error) {
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", depPath)
	cmd.Dir = repoDir()
	cmd.Env = goEnv()
	out, err := cmd.Output()
	root := strings.TrimSpace(string(out))
	if err != nil || root == "" {
		return "", 0, nil // lpg does not use it
	}
	to := filepath.Join(sub, "dep")
	ticks, pkgs := 0, map[string]bool{}
	err = filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if d.IsDir() {
			if rel == "examples" || rel == "testutils" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		if rel != "go.mod" && (!strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go")) {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if rel != "go.mod" {
			f, err := parser.ParseFile(token.NewFileSet(), p, src, parser.PackageClauseOnly)
			if err != nil {
				return err
			}
			var n int
			if src, n, err = instrument(p, src); err != nil {
				return err
			}
			ticks += n
			if dir := filepath.Dir(rel); !pkgs[dir] {
				pkgs[dir] = true
				hook := fmt.Sprintf(depHookSrc, f.Name.Name, modPath+"/"+syncDir)
				if err := os.WriteFile(filepath.Join(to, dir, "zz_verifsim_hook.go"), []byte(hook), 0o644); err != nil {
					return err
				}
			}
		}
		return os.WriteFile(filepath.Join(to, rel), src, 0o644)
	})
	return "\nreplace " + depPath + " => " + to + "\n", ticks, err
}

// build compiles the worker against the instrumented repository.
func build(root, dir string, race bool) (string, buildInfo, error) {
	var bi buildInfo
	repo := repoDir()
	sub := filepath.Join(dir, "plain")
	if race {
		sub = filepath.Join(dir, "race")
	}
	if err := os.MkdirAll(sub, 0o755); err != nil {
		return "", bi, err
	}
	overlay := map[string]string{}
	pkg := "lpg"
	ents, err := os.ReadDir(repo)
	if err != nil {
		return "", bi, err
	}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(repo, n))
		if err != nil {
			return "", bi, err
		}
		out, ticks, err := instrument(n, src)
		if err != nil {
			return "", bi, fmt.Errorf("instrumenting %s: %w", n, err)
		}
		f, _ := parser.ParseFile(token.NewFileSet(), n, src, parser.PackageClauseOnly)
		if f != nil && f.Name.Name != "main" {
			pkg = f.Name.Name
		}
		dst := filepath.Join(sub, n)
		if err := os.WriteFile(dst, out, 0o644); err != nil {
			return "", bi, err
		}
		overlay[filepath.Join(repo, n)] = dst
		bi.Files++
		bi.Ticks += ticks
	}
	hook := filepath.Join(sub, "zz_verifsim_hook.go")
	hs := hookSrc
	if race {
		hs = raceHookSrc
	}
	if err := os.WriteFile(hook, []byte(fmt.Sprintf(hs, pkg)), 0o644); err != nil {
		return "", bi, err
	}
	overlay[filepath.Join(repo, "zz_verifsim_hook.go")] = hook

	sf := filepath.Join(sub, "sync.go")
	if err := os.WriteFile(sf, []byte(syncSrc), 0o644); err != nil {
		return "", bi, err
	}
	overlay[filepath.Join(repo, syncDir, "sync.go")] = sf

	// the runtime's source of map randomness
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Env = goEnv()
	gr, err := cmd.Output()
	if err != nil {
		return "", bi, fmt.Errorf("go env GOROOT: %w", err)
	}
	rnd := filepath.Join(strings.TrimSpace(string(gr)), "src", "runtime", "rand.go")
	src, err := os.ReadFile(rnd)
	if err != nil {
		return "", bi, err
	}
	const fn = "func maps_rand() uint64 {\n"
	if strings.Count(string(src), fn) != 1 {
		return "", bi, fmt.Errorf("%s: maps_rand not found", rnd)
	}
	s := strings.Replace(string(src), fn, fn+"\tif v := verifMapRand; v != 0 {\n\t\treturn v\n\t}\n", 1)
	s += "\nvar verifMapRand uint64 = 0x5bd1e9955bd1e995\n\n//go:linkname verifSetMapRand\nfunc verifSetMapRand(v uint64) { verifMapRand = v }\n"
	rdst := filepath.Join(sub, "runtime_rand.go")
	if err := os.WriteFile(rdst, []byte(s), 0o644); err != nil {
		return "", bi, err
	}
	overlay[rnd] = rdst

	depReplace, n, err := instrumentDeps(sub)
	if err != nil {
		return "", bi, err
	}
	bi.Ticks += n

	if race {
		// A pool that never reuses an object: pooled objects would order
		// clients that the callers did not order.
		pf := filepath.Join(strings.TrimSpace(string(gr)), "src", "sync", "pool.go")
		pdst := filepath.Join(sub, "sync_pool.go")
		if err := os.WriteFile(pdst, []byte(poolSrc), 0o644); err != nil {
			return "", bi, err
		}
		overlay[pf] = pdst
	}

	oj, _ := json.Marshal(map[string]any{"Replace": overlay})
	of := filepath.Join(sub, "overlay.json")
	if err := os.WriteFile(of, oj, 0o644); err != nil {
		return "", bi, err
	}
	// private copies of the module files
	sim := filepath.Join(root, "sim")
	gm, err := os.ReadFile(filepath.Join(sim, "go.mod"))
	if err != nil {
		return "", bi, err
	}
	gm = bytes.Replace(gm, []byte("=> /repo"), []byte("=> "+repo), 1)
	gm = append(gm, depReplace...)
	mf := filepath.Join(sub, "sim.mod")
	if err := os.WriteFile(mf, gm, 0o644); err != nil {
		return "", bi, err
	}
	gsum, _ := os.ReadFile(filepath.Join(sim, "go.sum"))
	rsum, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err := os.WriteFile(filepath.Join(sub, "sim.sum"), append(append([]byte{}, gsum...), rsum...), 0o644); err != nil {
		return "", bi, err
	}
	bin := filepath.Join(sub, "worker")
	args := []string{"build", "-overlay", of, "-modfile", mf, "-ldflags=-checklinkname=0", "-o", bin}
	if race {
		// The simulator's own memory accesses are not the detector's business;
		// the code under test is instrumented without exception (no inlining
		// into the simulator).
		args = append(args, "-race", "-gcflags=verifsim/...=-race=false", "-gcflags="+modPath+"=-l")
	}
	args = append(args, "./worker")
	cmd = exec.Command("go", args...)
	cmd.Dir = sim
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", bi, fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, out)
	}
	return bin, bi, nil
}
