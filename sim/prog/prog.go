// Package prog defines the replayable program format shared by the worker and
// the orchestrator.
package prog

// Op is one operation of a simulated client.
type Op struct {
	ID   int    `json:"id"`
	C    int    `json:"c"` // client
	K    string `json:"k"` // kind
	A    []int  `json:"a"` // arguments, resolved against the live state
	Tape []int  `json:"t,omitempty"`
}

// Cfg holds the per-run configuration (swarm parameters).
type Cfg struct {
	Graphs  int            `json:"graphs"`
	Clients int            `json:"clients"`
	MaxN    int            `json:"maxn"`
	MaxE    int            `json:"maxe"`
	Labels  int            `json:"labels"`  // size of node label pool
	ELabels int            `json:"elabels"` // size of edge label pool
	Vals    int            `json:"vals"`    // value pool size per class
	MapSeed uint64         `json:"mapseed"`
	P       map[string]int `json:"p,omitempty"` // per-mille probability per choice class
	F       map[string]int `json:"f,omitempty"` // flags
}

// Program is one complete simulated run.
type Program struct {
	Prop   string `json:"prop"`
	Seed   uint64 `json:"seed"`
	Cfg    Cfg    `json:"cfg"`
	Ops    []Op   `json:"ops"`
	Replay bool   `json:"replay"` // choices come from tapes only
	Race   bool   `json:"race,omitempty"`
}

// Result of executing one program.
type Result struct {
	Violation bool           `json:"violation"`
	Class     string         `json:"class,omitempty"`
	Msg       string         `json:"msg,omitempty"`
	Op        int            `json:"op,omitempty"`
	Hash      string         `json:"hash"`
	Prog      *Program       `json:"prog,omitempty"` // with recorded tapes
	Trace     []string       `json:"trace,omitempty"`
	Err       string         `json:"err,omitempty"`
	Steps     int64          `json:"steps,omitempty"`
	Faults    map[string]int `json:"faults,omitempty"`
	Probes    map[string]int `json:"probes,omitempty"`
}

// ReplayFile is what a violation is reported with.
type ReplayFile struct {
	Property    string   `json:"property"`
	Class       string   `json:"class"`
	Message     string   `json:"message"`
	Seed        uint64   `json:"seed"`
	Program     *Program `json:"program"`
	OrigOps     int      `json:"original_ops"`
	MinOps      int      `json:"minimised_ops"`
	TraceHash   string   `json:"trace_hash"`
	Trace       []string `json:"trace"`
	HowToReplay string   `json:"how_to_replay"`
}

// Summary is what a worker reports for a batch of runs.
type Summary struct {
	Runs       int64            `json:"runs"`
	Nontrivial int64            `json:"nontrivial"`
	Hashes     []uint64         `json:"hashes,omitempty"` // distinct non-trivial trace hashes
	Inter      []uint64         `json:"inter,omitempty"`  // distinct interleaving hashes
	States     []uint64         `json:"states,omitempty"` // distinct model states
	Steps      int64            `json:"steps"`            // simulated time: ticks
	Switches   int64            `json:"switches"`
	Preempts   int64            `json:"preempts"`
	Ops        map[string]int64 `json:"ops"`
	Faults     map[string]int64 `json:"faults"`
	Probes     map[string]int64 `json:"probes"`
	Oracles    map[string]int64 `json:"oracles"`
	MaxTicks   map[string]int64 `json:"max_ticks"`
	Samples    []string         `json:"samples,omitempty"`
	Wall       float64          `json:"wall"`
	Result     *Result          `json:"result,omitempty"` // first violation
	LogHash    string           `json:"log_hash,omitempty"`
}

// Mix is splitmix64 over several words.
func Mix(xs ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, x := range xs {
		h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
		h += 0x9e3779b97f4a7c15
		h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9
		h = (h ^ (h >> 27)) * 0x94d049bb133111eb
		h ^= h >> 31
	}
	return h
}

// HashStr is FNV-1a.
func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Rng is a small deterministic generator.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) P(permille int) bool { return r.N(1000) < permille }
