package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	"verifsim/prog"

	"github.com/cloudprivacylabs/lpg/v2"
)

// NV wraps a native value (lpg.WithNativeValue).
type NV struct{ V any }

func (n NV) GetNativeValue() any { return n.V }

// PNV is the pointer flavour.
type PNV struct{ V any }

func (n *PNV) GetNativeValue() any { return n.V }

func (n NV) MarshalJSON() ([]byte, error)   { return json.Marshal(n.V) }
func (n *PNV) MarshalJSON() ([]byte, error) { return json.Marshal(n.V) }

// MNode / MEdge / MGraph are the reference model.
type MNode struct {
	h      *lpg.Node
	g      *MGraph
	id     int
	labels []string // sorted
	props  map[string]any
	uid    int // harness identity, never reused
}

type MEdge struct {
	h        *lpg.Edge
	id       int
	from, to *MNode
	label    string
	props    map[string]any
	uid      int
}

type MGraph struct {
	g      *lpg.Graph
	slot   int
	nodes  []*MNode
	edges  []*MEdge
	nodeIx map[string]lpg.IndexType
	edgeIx map[string]lpg.IndexType
	byN    map[*lpg.Node]*MNode
	byE    map[*lpg.Edge]*MEdge
	// caller maintained structures
	nm     *lpg.NodeMap
	nmMem  []*MNode
	ns     *lpg.NodeSet
	nsMem  []*MNode
	es     *lpg.EdgeSet
	esMem  []*MEdge
	nsDead []*lpg.Node // removed nodes, must not be in any view
}

type world struct {
	s        *Sim
	gs       []*MGraph
	uid      int
	curJobs  [4]*opx // cursor operations in progress (not a map: see race.go)
	nlab     []string
	elab     []string
	disk     *disk
	curs     []*simCursor
	own      []owned // per client
	boxPaths [ownSlots]*ownPath
	boxSets  [ownSlots]*ownSet
	shared   [8]*sharedArgs // per graph
}

// labelSet makes a set of labels, for none the zero set if zero.
func labelSet(zero bool, ls []string) lpg.StringSet {
	if zero && len(ls) == 0 {
		return lpg.StringSet{}
	}
	return lpg.NewStringSet(ls...)
}

func newMGraph(slot int) *MGraph {
	return wrapGraph(lpg.NewGraph(), slot)
}

func wrapGraph(g *lpg.Graph, slot int) *MGraph {
	return &MGraph{g: g, slot: slot, nodeIx: map[string]lpg.IndexType{}, edgeIx: map[string]lpg.IndexType{}, byN: map[*lpg.Node]*MNode{}, byE: map[*lpg.Edge]*MEdge{},
		nm: lpg.NewNodeMap(), ns: lpg.NewNodeSet(), es: lpg.NewEdgeSet()}
}

// label pools; which one a run uses is part of its configuration
var labelPools = [][]string{
	{"A", "B", "C", "D", "E", "F"},
	{"", "A", "AB", "A,B", "B", "A:B"},
	{"\u00e9", "e\u0301", "A\x00", "A", "\u65e5\u672c", "a b"},
	{"\"", "a\"b", "a\\", "\n", "a\"];}", "<a&b>"},
	manyLabels("L"), // many labels, many on one node
}
var elabelPools = [][]string{
	{"x", "y", "", "z", "w", "v"},
	{"xy", "x", "y", "x,y", "", "X"},
	{"\u00e9", "e\u0301", "x\x00", "x", "\u65e5\u672c", " x"},
	{"\"", "x\"y", "x\\", "\n", "x\"];}\n", "\\\\\"<&>\\\\"},
	manyLabels("e"),
}

func manyLabels(p string) (out []string) {
	for i := 0; i < 20; i++ {
		out = append(out, fmt.Sprint(p, i))
	}
	return
}

// combos selects the label sets to ask for: all of a small pool; of a large
// one none, each alone, some pairs, some large ones, and those given.
func combos(pool []string, x int, given [][]string) (out [][]string) {
	if len(pool) <= 7 {
		for bits := 0; bits < 1<<len(pool); bits++ {
			out = append(out, subset(pool, bits))
		}
		return
	}
	out = append(out, nil, pool)
	for i := range pool {
		out = append(out, pool[i:i+1])
	}
	for i := 0; i < 16; i++ {
		h := prog.Mix(uint64(x), uint64(i))
		b := int(h % (1 << len(pool)))
		out = append(out, subset(pool, 1<<((h>>32)%uint64(len(pool)))|1<<((h>>40)%uint64(len(pool)))))
		if i < 8 {
			out = append(out, subset(pool, b), subset(pool, b&int(h>>24)))
		}
	}
	for i := 0; i < len(given) && i < 12; i++ {
		ls := given[(x+i*7)%len(given)]
		out = append(out, ls)
		if len(ls) > 1 {
			k := (x / 3) % len(ls)
			out = append(out, append(append([]string{}, ls[:k]...), ls[k+1:]...))
		}
	}
	return
}

// joinLabels makes one comparable string of a label list.
func joinLabels(ls []string) string { return strings.Join(ls, "\x1f") }

func newWorld(s *Sim) *world {
	w := &world{s: s, own: make([]owned, s.cfg.Clients)}
	for i := 0; i < s.cfg.Graphs; i++ {
		w.gs = append(w.gs, newMGraph(i))
	}
	ls := s.cfg.F["labset"] % len(labelPools)
	nl := s.cfg.Labels
	if nl < 1 || nl > len(labelPools[ls]) {
		nl = len(labelPools[ls])
	}
	ne := s.cfg.ELabels
	if ne < 1 || ne > len(elabelPools[ls]) {
		ne = len(elabelPools[ls])
	}
	w.nlab = labelPools[ls][:nl]
	w.elab = elabelPools[ls][:ne]
	return w
}

func (w *world) nextUID() int { w.uid++; return w.uid }

func (mg *MGraph) addNode(h *lpg.Node, labels []string, props map[string]any, uid int) *MNode {
	n := &MNode{h: h, g: mg, id: h.GetID(), labels: normLabels(labels), props: copyProps(props), uid: uid}
	mg.nodes = append(mg.nodes, n)
	mg.byN[h] = n
	return n
}

func (mg *MGraph) addEdge(h *lpg.Edge, from, to *MNode, label string, props map[string]any, uid int) *MEdge {
	e := &MEdge{h: h, id: h.GetID(), from: from, to: to, label: label, props: copyProps(props), uid: uid}
	mg.edges = append(mg.edges, e)
	mg.byE[h] = e
	return e
}

func (mg *MGraph) delEdge(e *MEdge) {
	for i, x := range mg.edges {
		if x == e {
			mg.edges = append(mg.edges[:i:i], mg.edges[i+1:]...)
			break
		}
	}
	delete(mg.byE, e.h)
}

func (mg *MGraph) delNode(n *MNode) {
	for i, x := range mg.nodes {
		if x == n {
			mg.nodes = append(mg.nodes[:i:i], mg.nodes[i+1:]...)
			break
		}
	}
	delete(mg.byN, n.h)
}

func (mg *MGraph) detach(n *MNode) {
	var keep []*MEdge
	for _, e := range mg.edges {
		if e.from == n || e.to == n {
			delete(mg.byE, e.h)
		} else {
			keep = append(keep, e)
		}
	}
	mg.edges = keep
}

func normLabels(in []string) []string {
	m := map[string]bool{}
	for _, x := range in {
		m[x] = true
	}
	out := make([]string, 0, len(m))
	for x := range m {
		out = append(out, x)
	}
	sort.Strings(out)
	return out
}

func copyProps(p map[string]any) map[string]any {
	out := make(map[string]any, len(p))
	for k, v := range p {
		out[k] = v
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func has(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func hasAll(ss, want []string) bool {
	for _, x := range want {
		if !has(ss, x) {
			return false
		}
	}
	return true
}

func subset(pool []string, bits int) []string {
	var out []string
	for i, x := range pool {
		if bits&(1<<i) != 0 {
			out = append(out, x)
		}
	}
	return out
}

// ---- values ----

// property keys and their value classes
var nodeKeys = []string{"pi", "ps", "pl", "pn", "pm", "px", "pz"}

// exotic is added to the size of the value pool in runs that use extreme
// values: the limits of int, strings and lists that look alike when printed,
// composed and decomposed characters.
const exotic = 1000

func plainVal(key string, x int, pool int) any {
	if key == "pz" { // any type at all; most of these cannot be compared, not even with themselves
		return []any{1.5, "a", nil, map[string]any{"a": 1}, []any{1, "a"}, true, 1, []float64{1.5}, math.NaN(),
			[]string{"a"}, []any{1.5}, [2]int{1, 2}, []any{nil}, int64(1), []any{[]int{1}, "a"}, []int{1}, []any{"a", 2.5}, -1}[x%18]
	}
	if pool < 1 {
		pool = 3
	}
	if pool >= exotic {
		pool -= exotic
		i := x % pool % 6
		switch key {
		case "pi":
			return []int{math.MaxInt, math.MinInt, 0, 1<<53 + 1, 1 << 53, -1}[i]
		case "ps":
			return []string{"a\x00b", "\u00e9", "e\u0301", "A", strings.Repeat("long", 80), "1"}[i]
		case "pl":
			l := [][]string{{""}, {}, {"a,b"}, {"a", "b"}, {"", ""}, {"[a b]"}}[i]
			if (x/pool)%2 == 1 {
				out := make([]any, len(l))
				for i, s := range l {
					out[i] = s
				}
				return out
			}
			return append([]string{}, l...)
		case "pn":
			l := [][]int{{0}, {0, 0}, {-1}, {math.MaxInt, math.MinInt}, {1, 2, 3}, {}}[i]
			if (x/pool)%2 == 1 {
				out := make([]any, len(l))
				for i, s := range l {
					out[i] = s
				}
				return out
			}
			return append([]int{}, l...)
		case "pm":
			return []any{-1, "-1", "", 0, "0", math.MaxInt}[i]
		}
		// px has no extreme values
	}
	i := x % pool
	switch key {
	case "pi":
		return i - 1
	case "ps":
		if i >= 6 {
			return fmt.Sprint("s", i)
		}
		return []string{"", "a", "b", "ab", "ba", "c"}[i%6]
	case "pl":
		l := [][]string{{}, {"a"}, {"a", "b"}, {"b"}, {"a", "a"}, {"ab"}}[i%6]
		if (x/pool)%2 == 1 {
			out := make([]any, len(l))
			for i, s := range l {
				out[i] = s
			}
			return out
		}
		return append([]string{}, l...)
	case "pn":
		l := [][]int{{}, {1}, {1, 2}, {2}, {1, 1}, {12}}[i%6]
		if (x/pool)%2 == 1 {
			out := make([]any, len(l))
			for i, s := range l {
				out[i] = s
			}
			return out
		}
		return append([]int{}, l...)
	case "pm":
		return []any{0, "0", 1, "1", "", -1}[i%6]
	case "px": // lists of lists, in equal forms
		l := [][][]string{{{"a"}}, {{"a"}, {"b"}}, {{"a", "b"}}, {}, {{}}, {{"a"}, {}}}[i%6]
		out := []any{}
		for j, e := range l {
			switch f := x / pool; {
			case f%2 == 0:
				out = append(out, append([]string{}, e...))
			case f%3 == 0:
				out = append(out, NV{append([]string{}, e...)})
			default:
				in := []any{}
				for k, s := range e {
					if (j+k+f)%4 == 0 {
						in = append(in, NV{s})
					} else {
						in = append(in, s)
					}
				}
				out = append(out, in)
			}
		}
		return out
	}
	return fmt.Sprint("v", i)
}

func genVal(key string, x int, pool int) any {
	if x < 0 {
		x = -x
	}
	v := plainVal(key, x, pool)
	switch (x / 16) % 8 {
	case 1:
		return NV{v}
	case 2:
		return &PNV{v}
	case 3:
		return NV{NV{v}}
	}
	return v
}

func native(v any) any {
	for {
		n, ok := v.(lpg.WithNativeValue)
		if !ok {
			return v
		}
		v = n.GetNativeValue()
	}
}

// valEq is the reference notion of "property equals query value".
func valEq(a, b any) bool {
	a, b = native(a), native(b)
	la, okA := asList(a)
	lb, okB := asList(b)
	if okA != okB {
		return false
	}
	if okA {
		_, sa := a.([]string)
		_, ia := a.([]int)
		_, sb := b.([]string)
		_, ib := b.([]int)
		if (sa && ib) || (ia && sb) {
			return false
		}
		if len(la) != len(lb) {
			return false
		}
		for i := range la {
			if !valEq(la[i], lb[i]) {
				return false
			}
		}
		return true
	}
	switch x := a.(type) {
	case int:
		y, ok := b.(int)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	}
	return false
}

func asList(a any) ([]any, bool) {
	switch x := a.(type) {
	case []string:
		out := make([]any, len(x))
		for i := range x {
			out[i] = x[i]
		}
		return out, true
	case []int:
		out := make([]any, len(x))
		for i := range x {
			out[i] = x[i]
		}
		return out, true
	case []any:
		return x, true
	}
	return nil, false
}

// canon renders a value with its dynamic type.
func canon(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case NV:
		return "NV(" + canon(x.V) + ")"
	case *PNV:
		return fmt.Sprintf("PNV(%s)", canon(x.V))
	case []any:
		s := make([]string, len(x))
		for i := range x {
			s[i] = canon(x[i])
		}
		return "[any " + strings.Join(s, ",") + "]"
	case []string:
		return fmt.Sprintf("[str %q]", x)
	case []int:
		return fmt.Sprintf("[int %v]", x)
	case string:
		return fmt.Sprintf("%q", x)
	case map[string]any:
		s := []string{}
		for _, k := range sortedKeys(x) {
			s = append(s, fmt.Sprintf("%q:%s", k, canon(x[k])))
		}
		return "{" + strings.Join(s, ",") + "}"
	}
	return fmt.Sprintf("%T:%v", v, v)
}

func canonProps(p map[string]any) string {
	s := make([]string, 0, len(p))
	for _, k := range sortedKeys(p) {
		s = append(s, fmt.Sprintf("%q=%s", k, canon(p[k])))
	}
	return strings.Join(s, " ")
}

// modelHash summarises a model graph (order-insensitive in identity).
func (mg *MGraph) modelHash() uint64 {
	h := uint64(len(mg.nodes))
	ix := map[*MNode]int{}
	for i, n := range mg.nodes {
		ix[n] = i
		h = prog.Mix(h, prog.HashStr(joinLabels(n.labels)), hashProps(n.props))
	}
	for _, e := range mg.edges {
		h = prog.Mix(h, uint64(ix[e.from]), uint64(ix[e.to]), prog.HashStr(e.label), hashProps(e.props))
	}
	return h
}

func (n *MNode) String() string {
	if n == nil {
		return "<nil>"
	}
	return fmt.Sprintf("node#%d(%s {%s})", n.uid, strings.Join(n.labels, ":"), canonProps(n.props))
}
func (e *MEdge) String() string {
	if e == nil {
		return "<nil>"
	}
	return fmt.Sprintf("edge#%d(%d-[%s {%s}]->%d)", e.uid, e.from.uid, e.label, canonProps(e.props), e.to.uid)
}

func (mg *MGraph) dump() string {
	var sb strings.Builder
	for _, n := range mg.nodes {
		fmt.Fprintln(&sb, "   ", n)
	}
	for _, e := range mg.edges {
		fmt.Fprintln(&sb, "   ", e)
	}
	for _, k := range sortedKeys(mg.nodeIx) {
		fmt.Fprintln(&sb, "    node index", k, mg.nodeIx[k])
	}
	for _, k := range sortedKeys(mg.edgeIx) {
		fmt.Fprintln(&sb, "    edge index", k, mg.edgeIx[k])
	}
	return sb.String()
}

// lazy is a description rendered only when something is wrong.
type lazy struct {
	f string
	a []any
}

func lz(f string, a ...any) *lazy { return &lazy{f, a} }
func (l *lazy) String() string    { return fmt.Sprintf(l.f, l.a...) }

type pmap map[string]any

func (p pmap) String() string { return canonProps(p) }

func hashVal(v any) uint64 {
	switch x := v.(type) {
	case NV:
		return prog.Mix(1, hashVal(x.V))
	case *PNV:
		return prog.Mix(2, hashVal(x.V))
	case []any:
		h := uint64(3)
		for _, e := range x {
			h = prog.Mix(h, hashVal(e))
		}
		return h
	case []string:
		h := uint64(4)
		for _, e := range x {
			h = prog.Mix(h, prog.HashStr(e))
		}
		return h
	case []int:
		h := uint64(5)
		for _, e := range x {
			h = prog.Mix(h, uint64(e))
		}
		return h
	case string:
		return prog.Mix(6, prog.HashStr(x))
	case int:
		return prog.Mix(7, uint64(x))
	}
	return prog.HashStr(canon(v))
}

func hashProps(p map[string]any) uint64 {
	h := uint64(len(p))
	for k, v := range p {
		h += prog.Mix(prog.HashStr(k), hashVal(v)) // order does not matter
	}
	return h
}

// ---- reading iterators ----

// limit is more than any iterator can deliver. It counts all graphs, because
// an operation may read elements that are not yet in the model of their graph.
func (o *opx) limit(mg *MGraph) int { return 4*o.s.w.size() + 64 }

func (w *world) size() (n int) {
	for _, g := range w.gs {
		n += len(g.nodes) + len(g.edges)
	}
	return n
}

// drainN reads a node iterator to the end, checking the iterator contract.
func (o *opx) drainN(mg *MGraph, itr lpg.NodeIterator, what any) []*lpg.Node {
	hint := itr.MaxSize()
	lim := o.limit(mg)
	var out []*lpg.Node
	for itr.Next() {
		n := itr.Node()
		if v, ok := itr.Value().(*lpg.Node); !ok || v != n {
			o.fail("iterator", "%s: Value() and Node() disagree", what)
		}
		out = append(out, n)
		if len(out) > lim {
			o.fail("iterator", "%s delivered more than %d nodes from a graph of %d", what, lim, len(mg.nodes))
		}
	}
	if o.s.p.Prop == "P05" {
		o.hintCheck(hint, len(out), what)
	}
	return out
}

func (o *opx) hintCheck(hint, n int, what any) {
	if hint < -1 {
		o.fail("hint", "%s: MaxSize() = %d is neither a size nor -1", what, hint)
	}
	if hint >= 0 && n > hint {
		o.fail("hint", "%s: MaxSize() = %d but %d elements delivered", what, hint, n)
	}
}

func (o *opx) drainE(mg *MGraph, itr lpg.EdgeIterator, what any) []*lpg.Edge {
	hint := itr.MaxSize()
	lim := o.limit(mg)
	var out []*lpg.Edge
	for itr.Next() {
		n := itr.Edge()
		if v, ok := itr.Value().(*lpg.Edge); !ok || v != n {
			o.fail("iterator", "%s: Value() and Edge() disagree", what)
		}
		out = append(out, n)
		if len(out) > lim {
			o.fail("iterator", "%s delivered more than %d edges from a graph of %d", what, lim, len(mg.edges))
		}
	}
	if o.s.p.Prop == "P05" {
		o.hintCheck(hint, len(out), what)
	}
	return out
}

func (o *opx) nodesEq(mg *MGraph, class string, what any, got []*lpg.Node, want []*MNode) {
	cnt := map[*lpg.Node]int{}
	for _, h := range got {
		cnt[h]++
		if h == nil {
			o.fail(class, "%s delivered a nil node", what)
		}
		if cnt[h] > 1 {
			o.fail(class, "%s delivered %s more than once", what, mg.nname(h))
		}
	}
	for _, n := range want {
		if cnt[n.h] == 0 {
			o.fail(class, "%s misses %s (got %s, want %s)", what, n, mg.nnames(got), fmt.Sprint(want))
		}
	}
	if len(got) != len(want) {
		for _, h := range got {
			found := false
			for _, n := range want {
				if n.h == h {
					found = true
				}
			}
			if !found {
				o.fail(class, "%s delivered %s which does not belong (want %s)", what, mg.nname(h), fmt.Sprint(want))
			}
		}
	}
}

// edgesEq compares as multisets (want may list an edge twice).
func (o *opx) edgesEq(mg *MGraph, class string, what any, got []*lpg.Edge, want []*MEdge) {
	cnt := map[*lpg.Edge]int{}
	for _, h := range got {
		if h == nil {
			o.fail(class, "%s delivered a nil edge", what)
		}
		cnt[h]++
	}
	for _, e := range want {
		cnt[e.h]--
	}
	for _, e := range want {
		if cnt[e.h] < 0 {
			o.fail(class, "%s misses %s (got %s)", what, e, mg.enames(got))
		}
		if cnt[e.h] > 0 {
			o.fail(class, "%s delivered %s %d time(s) too many", what, e, cnt[e.h])
		}
	}
	if len(got) != len(want) {
		for _, h := range got {
			if cnt[h] > 0 {
				o.fail(class, "%s delivered %s which does not belong", what, mg.ename(h))
			}
		}
	}
}

func (mg *MGraph) nname(h *lpg.Node) string {
	if n := mg.byN[h]; n != nil {
		return n.String()
	}
	return "a node that is not live in the graph"
}
func (mg *MGraph) ename(h *lpg.Edge) string {
	if n := mg.byE[h]; n != nil {
		return n.String()
	}
	return "an edge that is not live in the graph"
}
func (mg *MGraph) nnames(hs []*lpg.Node) string {
	s := []string{}
	for _, h := range hs {
		s = append(s, mg.nname(h))
	}
	return "[" + strings.Join(s, " ") + "]"
}
func (mg *MGraph) enames(hs []*lpg.Edge) string {
	s := []string{}
	for _, h := range hs {
		s = append(s, mg.ename(h))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func (mg *MGraph) selEdges(f func(*MEdge) bool) []*MEdge {
	var out []*MEdge
	for _, e := range mg.edges {
		if f(e) {
			out = append(out, e)
		}
	}
	return out
}
func (mg *MGraph) selNodes(f func(*MNode) bool) []*MNode {
	var out []*MNode
	for _, n := range mg.nodes {
		if f(n) {
			out = append(out, n)
		}
	}
	return out
}

// incident returns the expected adjacency of n in direction dir.
func (mg *MGraph) incident(n *MNode, dir lpg.EdgeDir, f func(*MEdge) bool) []*MEdge {
	var out []*MEdge
	if dir != lpg.OutgoingEdge {
		for _, e := range mg.edges {
			if e.to == n && (f == nil || f(e)) {
				out = append(out, e)
			}
		}
	}
	if dir != lpg.IncomingEdge {
		for _, e := range mg.edges {
			if e.from == n && (f == nil || f(e)) {
				out = append(out, e)
			}
		}
	}
	return out
}

var dirs = []lpg.EdgeDir{lpg.IncomingEdge, lpg.AnyEdge, lpg.OutgoingEdge}

func dirName(d lpg.EdgeDir) string {
	switch d {
	case lpg.IncomingEdge:
		return "in"
	case lpg.OutgoingEdge:
		return "out"
	}
	return "any"
}

// ---- audits ----

// auditStruct: P01.
func (o *opx) auditStruct(mg *MGraph, x int) {
	o.oracle("structure")
	g := mg.g
	const cl = "structure"
	if g.NumNodes() != len(mg.nodes) {
		o.fail(cl, "NumNodes() = %d, %d nodes are live", g.NumNodes(), len(mg.nodes))
	}
	if g.NumEdges() != len(mg.edges) {
		o.fail(cl, "NumEdges() = %d, %d edges are live", g.NumEdges(), len(mg.edges))
	}
	o.nodesEq(mg, cl, "GetNodes()", o.drainN(mg, g.GetNodes(), "GetNodes()"), mg.nodes)
	o.edgesEq(mg, cl, "GetEdges()", o.drainE(mg, g.GetEdges(), "GetEdges()"), mg.edges)
	for _, e := range mg.edges {
		if e.h.GetFrom() != e.from.h || e.h.GetTo() != e.to.h {
			o.fail(cl, "endpoints of %s changed", e)
		}
		if e.h.GetLabel() != e.label {
			o.fail(cl, "label of %s is %q", e, e.h.GetLabel())
		}
		if e.h.GetGraph() != g {
			o.fail(cl, "owner of %s changed", e)
		}
	}
	var fe []*lpg.Node
	done := lpg.ForEachNode(g, func(n *lpg.Node) bool { fe = append(fe, n); return len(fe) < o.limit(mg) })
	o.nodesEq(mg, cl, "ForEachNode", fe, mg.nodes)
	if !done {
		o.fail(cl, "ForEachNode was not declined and returns false")
	}
	if len(mg.nodes) > 0 {
		k, n := 0, 1+x%len(mg.nodes)
		if done = lpg.ForEachNode(g, func(*lpg.Node) bool { k++; return k != n }); done || k != n {
			o.fail(cl, "ForEachNode was declined at node %d and went to node %d, returning %v", n, k, done)
		}
	}
	labels := append([]string{"absent"}, o.s.w.elab...)
	ein, eout := map[*MNode][]*MEdge{}, map[*MNode][]*MEdge{}
	for _, e := range mg.edges {
		ein[e.to] = append(ein[e.to], e)
		eout[e.from] = append(eout[e.from], e)
	}
	incident := func(n *MNode, d lpg.EdgeDir, f func(*MEdge) bool) (out []*MEdge) {
		for i, l := range [2][]*MEdge{ein[n], eout[n]} {
			if i == 0 && d == lpg.OutgoingEdge || i == 1 && d == lpg.IncomingEdge {
				continue
			}
			for _, e := range l {
				if f == nil || f(e) {
					out = append(out, e)
				}
			}
		}
		return
	}
	neighbours := func(l []*MEdge, label string, far func(*MEdge) *MNode) (out []*MNode) {
		seen := map[*MNode]bool{}
		for _, e := range l {
			if m := far(e); e.label == label && !seen[m] {
				seen[m] = true
				out = append(out, m)
			}
		}
		return
	}
	nodes := mg.nodes
	if len(nodes) > 40 { // some of them, and the best connected one
		hub := nodes[0]
		for _, n := range nodes {
			if len(ein[n])+len(eout[n]) > len(ein[hub])+len(eout[hub]) {
				hub = n
			}
		}
		nodes = []*MNode{hub, mg.nodes[0], mg.nodes[len(mg.nodes)-1]}
		for i := 0; i < 24; i++ {
			nodes = append(nodes, mg.nodes[prog.Mix(uint64(x), uint64(i), 3)%uint64(len(mg.nodes))])
		}
		for _, n := range mg.nodes {
			if n.h.GetGraph() != g {
				o.fail(cl, "owner of %s changed", n)
			}
			for _, d := range dirs {
				w := lz("GetEdges(%s) of %s", dirName(d), n)
				o.edgesEq(mg, cl, w, o.drainE(mg, n.h.GetEdges(d), w), incident(n, d, nil))
			}
		}
	}
	for i, n := range nodes {
		if n.h.GetGraph() != g {
			o.fail(cl, "owner of %s changed", n)
		}
		for _, d := range dirs {
			w := lz("GetEdges(%s) of %s", dirName(d), n)
			o.edgesEq(mg, cl, w, o.drainE(mg, n.h.GetEdges(d), w), incident(n, d, nil))
			for _, l := range labels {
				l := l
				w := lz("GetEdgesWithLabel(%s,%q) of %s", dirName(d), l, n)
				o.edgesEq(mg, cl, w, o.drainE(mg, n.h.GetEdgesWithLabel(d, l), w), incident(n, d, func(e *MEdge) bool { return e.label == l }))
			}
			for k := 0; k < 3; k++ {
				bits := (x + i*5 + k*7) % (1 << len(labels))
				ls := subset(labels, bits)
				w := lz("GetEdgesWithAnyLabel(%s,%q) of %s", dirName(d), ls, n)
				o.edgesEq(mg, cl, w, o.drainE(mg, n.h.GetEdgesWithAnyLabel(d, labelSet(x%2 == 0, ls)), w),
					incident(n, d, func(e *MEdge) bool { return len(ls) == 0 || has(ls, e.label) }))
			}
		}
		for _, m := range nodes {
			w := lz("EdgesBetweenNodes(%s,%s)", n, m)
			o.edgesEq(mg, cl, w, lpg.EdgesBetweenNodes(n.h, m.h), incident(n, lpg.OutgoingEdge, func(e *MEdge) bool { return e.to == m }))
		}
		for _, l := range labels {
			w := lz("NextNodesWith(%s,%q)", n, l)
			o.nodesEq(mg, cl, w, lpg.NextNodesWith(n.h, l), neighbours(eout[n], l, func(e *MEdge) *MNode { return e.to }))
			w = lz("PrevNodesWith(%s,%q)", n, l)
			o.nodesEq(mg, cl, w, lpg.PrevNodesWith(n.h, l), neighbours(ein[n], l, func(e *MEdge) *MNode { return e.from }))
		}
	}
	src := mg.selNodes(func(n *MNode) bool { return len(ein[n]) == 0 })
	snk := mg.selNodes(func(n *MNode) bool { return len(eout[n]) == 0 })
	o.nodesEq(mg, cl, "Sources()", lpg.Sources(g), src)
	o.nodesEq(mg, cl, "Sinks()", lpg.Sinks(g), snk)
	o.nodesEq(mg, cl, "SourcesItr()", o.drainN(mg, lpg.SourcesItr(g), "SourcesItr()"), src)
	o.nodesEq(mg, cl, "SinksItr()", o.drainN(mg, lpg.SinksItr(g), "SinksItr()"), snk)
	o.nodesEq(mg, cl, "TargetNodes(GetEdges())", lpg.TargetNodes(g.GetEdges()), mg.selNodes(func(n *MNode) bool { return len(ein[n]) > 0 }))
	o.nodesEq(mg, cl, "SourceNodes(GetEdges())", lpg.SourceNodes(g.GetEdges()), mg.selNodes(func(n *MNode) bool { return len(eout[n]) > 0 }))
}

// auditLabels: P02.
func (o *opx) auditLabels(mg *MGraph) {
	o.oracle("labels")
	const cl = "labels"
	g := mg.g
	pool := append([]string{"absent"}, o.s.w.nlab...)
	for _, n := range mg.nodes {
		ls := n.h.GetLabels()
		if got := joinLabels(ls.SortedSlice()); got != joinLabels(n.labels) {
			o.fail(cl, "labels of %s are reported as [%s]", n, got)
		}
		for _, l := range pool {
			if n.h.HasLabel(l) != has(n.labels, l) {
				o.fail(cl, "HasLabel(%q) of %s = %v", l, n, n.h.HasLabel(l))
			}
		}
	}
	var nls [][]string
	for _, n := range mg.nodes {
		nls = append(nls, n.labels)
	}
	lim := 1 << 30
	if len(mg.nodes) > 40 {
		lim = 60
	}
	for i, ls := range combos(pool, len(mg.nodes)*31+len(mg.edges), nls) {
		if len(ls) > 2 && ls[0] == "absent" && len(pool) <= 7 {
			continue // "absent" with a few combinations only
		}
		if i > lim {
			break
		}
		want := mg.selNodes(func(n *MNode) bool { return hasAll(n.labels, ls) })
		set := lpg.NewStringSet(ls...)
		w := lz("GetNodesWithAllLabels(%q)", ls)
		o.nodesEq(mg, cl, w, o.drainN(mg, g.GetNodesWithAllLabels(set), w), want)
		w = lz("FindNodes(%q)", ls)
		o.nodesEq(mg, cl, w, o.drainN(mg, g.FindNodes(set, nil), w), want)
	}
	epool := append([]string{"absent"}, o.s.w.elab...)
	for i, ls := range combos(epool, len(mg.nodes)*17+len(mg.edges), nil) {
		if i > lim {
			break
		}
		want := mg.selEdges(func(e *MEdge) bool { return has(ls, e.label) })
		set := lpg.NewStringSet(ls...)
		w := lz("GetEdgesWithAnyLabel(%q)", ls)
		o.edgesEq(mg, cl, w, o.drainE(mg, g.GetEdgesWithAnyLabel(set), w), want)
		if len(ls) == 0 {
			want = mg.edges
		}
		w = lz("FindEdges(%q)", ls)
		o.edgesEq(mg, cl, w, o.drainE(mg, g.FindEdges(set, nil), w), want)
	}
	for _, e := range mg.edges {
		if e.h.GetLabel() != e.label {
			o.fail(cl, "label of %s is %q", e, e.h.GetLabel())
		}
	}
}

// auditNodeMap checks the caller maintained label index.
func (o *opx) auditNodeMap(mg *MGraph) {
	o.oracle("nodemap")
	const cl = "nodemap"
	if mg.nm.IsEmpty() != (len(mg.nmMem) == 0) {
		o.fail(cl, "NodeMap.IsEmpty() = %v with %d nodes in it", mg.nm.IsEmpty(), len(mg.nmMem))
	}
	o.nodesEq(mg, cl, "NodeMap.Iterator()", o.drainN(mg, mg.nm.Iterator(), "NodeMap.Iterator()"), mg.nmMem)
	var nls [][]string
	for _, n := range mg.nmMem {
		nls = append(nls, n.labels)
	}
	for _, ls := range combos(o.s.w.nlab, len(mg.nmMem)*31+len(mg.edges), nls) {
		var want []*MNode
		for _, n := range mg.nmMem {
			if hasAll(n.labels, ls) {
				want = append(want, n)
			}
		}
		w := lz("NodeMap.IteratorAllLabels(%q)", ls)
		o.nodesEq(mg, cl, w, o.drainN(mg, mg.nm.IteratorAllLabels(labelSet(len(mg.nodes)%2 == 0, ls)), w), want)
	}
	if o.drainN(mg, mg.nm.IteratorAllLabels(lpg.NewStringSet("absent")), "NodeMap.IteratorAllLabels(absent)") != nil {
		o.fail(cl, "NodeMap.IteratorAllLabels(absent) delivers nodes")
	}
}

// auditProps: values read back.
func (o *opx) auditProps(mg *MGraph) {
	o.oracle("props")
	const cl = "props"
	check := func(name string, want map[string]any, get func(string) (any, bool), each func(func(string, any) bool) bool) {
		for _, k := range append([]string{"nokey", "uid"}, nodeKeys...) {
			v, ok := get(k)
			wv, wok := want[k]
			if ok != wok || (ok && canon(v) != canon(wv)) {
				o.fail(cl, "GetProperty(%q) of %s = %s,%v", k, name, canon(v), ok)
			}
		}
		got := map[string]any{}
		n := 0
		if !each(func(k string, v any) bool { got[k] = v; n++; return n <= len(want)+8 }) {
			o.fail(cl, "ForEachProperty of %s = false without being stopped", name)
		}
		if n != len(want) || canonProps(got) != canonProps(want) {
			o.fail(cl, "ForEachProperty of %s delivers {%s}", name, canonProps(got))
		}
		if len(want) > 0 {
			n = 0
			if each(func(k string, v any) bool { n++; return false }) || n != 1 {
				o.fail(cl, "ForEachProperty of %s did not stop when asked", name)
			}
		}
	}
	for _, n := range mg.nodes {
		check(n.String(), n.props, n.h.GetProperty, n.h.ForEachProperty)
	}
	for _, e := range mg.edges {
		check(e.String(), e.props, e.h.GetProperty, e.h.ForEachProperty)
	}
}

// auditIndex: P03.
func (o *opx) auditIndex(mg *MGraph, x int) {
	o.oracle("index")
	const cl = "index"
	g := mg.g
	keys := append([]string{"nokey", "uid"}, nodeKeys...)
	for _, k := range keys {
		k := k
		w := lz("GetNodesWithProperty(%q)", k)
		o.nodesEq(mg, cl, w, o.drainN(mg, g.GetNodesWithProperty(k), w), mg.selNodes(func(n *MNode) bool { _, ok := n.props[k]; return ok }))
		w = lz("GetEdgesWithProperty(%q)", k)
		o.edgesEq(mg, cl, w, o.drainE(mg, g.GetEdgesWithProperty(k), w), mg.selEdges(func(e *MEdge) bool { _, ok := e.props[k]; return ok }))
	}
	// queries: one per key over the value pool, plus combined ones
	for ki, k := range nodeKeys {
		vals, first := o.s.cfg.Vals%exotic+1, 0
		most := vals // or some of them
		if o.s.p.Prop != "P03" {
			most = 2
		} else if len(mg.nodes)+len(mg.edges) > 80 {
			most = 6
		}
		if vals > most {
			first = (x/5 + ki) % (vals - most + 1)
			vals = first + most
		}
		for i := first; i < vals; i++ {
			q := map[string]any{k: genVal(k, i+16*((x+i+ki)%8), o.s.cfg.Vals)}
			o.findCheck(mg, subset(o.s.w.nlab, (x+i)%(1<<len(o.s.w.nlab))*((x/3+i)%2)), subset(o.s.w.elab, (x/7+i)%(1<<len(o.s.w.elab))*((x/5+i)%2)), q)
		}
	}
	for i := 0; i < 4; i++ {
		y := int(prog.Mix(uint64(x), uint64(i)) % (1 << 40))
		q := map[string]any{}
		for j, k := range nodeKeys {
			if y&(1<<j) != 0 {
				q[k] = genVal(k, (y>>8)%1024+j*13, o.s.cfg.Vals)
			}
		}
		if y&(1<<35) != 0 { // a value of another type must simply not match
			k := nodeKeys[(y>>20)%len(nodeKeys)]
			alt := []any{"a", 1, []string{"a"}, []int{1}, 1.5, true, []any{1, "a"}, NV{"a"}, NV{[]int{1}}, nil, NV{nil}, map[string]any{}}
			q[k] = alt[(y>>24)%len(alt)]
		}
		if y&(1<<36) != 0 && y&(1<<30) != 0 {
			q["nokey"] = 1
		}
		o.findCheck(mg, subset(o.s.w.nlab, y>>28), subset(o.s.w.elab, y>>32), q)
	}
	// queries made from what an element has
	y := int(prog.Mix(uint64(x), 99) % (1 << 40))
	if len(mg.nodes) > 0 {
		n := mg.nodes[y%len(mg.nodes)]
		o.findCheck(mg, pickSome(n.labels, y>>12), subset(o.s.w.elab, y>>32), lift(n.props, y>>20))
	}
	if len(mg.edges) > 0 {
		e := mg.edges[y%len(mg.edges)]
		o.findCheck(mg, nil, []string{e.label}, lift(e.props, y>>20))
		if ls := subset(o.s.w.elab, y>>30); len(ls) > 0 {
			if !has(ls, e.label) {
				ls = append(ls, e.label)
			}
			o.findCheck(mg, nil, ls, lift(e.props, y>>25))
		}
	}
}

// pickSome returns some of the strings.
func pickSome(ls []string, bits int) (out []string) {
	ls = append([]string{}, ls...)
	sort.Strings(ls)
	for j, l := range ls {
		if bits>>(j%10)&1 == 0 {
			out = append(out, l)
		}
	}
	return
}

func matchProps(props, q map[string]any) bool {
	for k, v := range q {
		pv, ok := props[k]
		if !ok || !valEq(v, pv) {
			return false
		}
	}
	return true
}

func (o *opx) findCheck(mg *MGraph, nl, el []string, q map[string]any) {
	const cl = "index"
	w := lz("FindNodes(%q,{%s})", nl, pmap(q))
	want := mg.selNodes(func(n *MNode) bool { return hasAll(n.labels, nl) && matchProps(n.props, q) })
	o.nodesEq(mg, cl, w, o.drainN(mg, mg.g.FindNodes(labelSet(len(mg.edges)%2 == 0, nl), q), w), want)
	if len(want) > 0 {
		o.probe("find-nodes-nonempty")
	}
	w = lz("FindEdges(%q,{%s})", el, pmap(q))
	wantE := mg.selEdges(func(e *MEdge) bool { return (len(el) == 0 || has(el, e.label)) && matchProps(e.props, q) })
	o.edgesEq(mg, cl, w, o.drainE(mg, mg.g.FindEdges(labelSet(len(mg.nodes)%2 == 0, el), q), w), wantE)
	if len(wantE) > 0 {
		o.probe("find-edges-nonempty")
	}
}

// auditIdent: P04.
func (o *opx) auditIdent(mg *MGraph) {
	o.oracle("identity")
	const cl = "identity"
	seen := map[int]*MNode{}
	for _, n := range mg.nodes {
		if n.h.GetID() != n.id {
			o.fail(cl, "identifier of %s changed from %d to %d", n, n.id, n.h.GetID())
		}
		if m := seen[n.id]; m != nil {
			o.fail(cl, "%s and %s share identifier %d", n, m, n.id)
		}
		seen[n.id] = n
		if n.h.GetGraph() != mg.g {
			o.fail(cl, "owner of %s changed", n)
		}
	}
	seenE := map[int]*MEdge{}
	for _, e := range mg.edges {
		if e.h.GetID() != e.id {
			o.fail(cl, "identifier of %s changed from %d to %d", e, e.id, e.h.GetID())
		}
		if m := seenE[e.id]; m != nil {
			o.fail(cl, "%s and %s share identifier %d", e, m, e.id)
		}
		seenE[e.id] = e
		if e.h.GetGraph() != mg.g || e.h.GetFrom() != e.from.h || e.h.GetTo() != e.to.h {
			o.fail(cl, "owner or endpoints of %s changed", e)
		}
	}
}

func (o *opx) auditSets(mg *MGraph) {
	o.oracle("sets")
	const cl = "sets"
	if mg.ns.Len() != len(mg.nsMem) {
		o.fail(cl, "NodeSet.Len() = %d, want %d", mg.ns.Len(), len(mg.nsMem))
	}
	in := map[*lpg.Node]bool{}
	for _, n := range mg.nsMem {
		in[n.h] = true
		if !mg.ns.Has(n.h) {
			o.fail(cl, "NodeSet.Has(%s) = false", n)
		}
	}
	for _, n := range mg.nodes {
		if mg.ns.Has(n.h) != in[n.h] {
			o.fail(cl, "NodeSet.Has(%s) = %v", n, mg.ns.Has(n.h))
		}
	}
	o.nodesEq(mg, cl, "NodeSet.Slice()", mg.ns.Slice(), mg.nsMem)
	o.nodesEq(mg, cl, "NodeSet.Iterator()", o.drainN(mg, mg.ns.Iterator(), "NodeSet.Iterator()"), mg.nsMem)
	if mg.es.Len() != len(mg.esMem) {
		o.fail(cl, "EdgeSet.Len() = %d, want %d", mg.es.Len(), len(mg.esMem))
	}
	o.edgesEq(mg, cl, "EdgeSet.Slice()", mg.es.Slice(), mg.esMem)
	o.edgesEq(mg, cl, "EdgeSet.Iterator()", o.drainE(mg, mg.es.Iterator(), "EdgeSet.Iterator()"), mg.esMem)
}

func (o *opx) auditFull(mg *MGraph, x int) {
	o.auditStruct(mg, x)
	o.auditLabels(mg)
	o.auditProps(mg)
	o.auditIdent(mg)
	o.auditIndex(mg, x)
}

// snapshotHandles verifies that the model's elements are exactly what the
// graph enumerates, adopting elements the model does not know about. It is
// used after operations that may have added only part of something.
func (o *opx) absorb(mg *MGraph, class string) (nn []*MNode, ne []*MEdge) {
	ns := o.drainN(mg, mg.g.GetNodes(), "GetNodes()")
	es := o.drainE(mg, mg.g.GetEdges(), "GetEdges()")
	seenN := map[*lpg.Node]bool{}
	for _, h := range ns {
		if h == nil || seenN[h] {
			o.fail(class, "GetNodes() delivers a node twice or nil")
		}
		seenN[h] = true
		if mg.byN[h] == nil {
			p := map[string]any{}
			h.ForEachProperty(func(k string, v any) bool { p[k] = v; return true })
			ls := h.GetLabels()
			nn = append(nn, mg.addNode(h, ls.Slice(), p, o.s.w.nextUID()))
		}
	}
	seenE := map[*lpg.Edge]bool{}
	for _, h := range es {
		if h == nil || seenE[h] {
			o.fail(class, "GetEdges() delivers an edge twice or nil")
		}
		seenE[h] = true
		if mg.byE[h] == nil {
			p := map[string]any{}
			h.ForEachProperty(func(k string, v any) bool { p[k] = v; return true })
			f, t := mg.byN[h.GetFrom()], mg.byN[h.GetTo()]
			if f == nil || t == nil {
				o.fail(class, "GetEdges() delivers an edge whose endpoint is not a live node")
			}
			ne = append(ne, mg.addEdge(h, f, t, h.GetLabel(), p, o.s.w.nextUID()))
		}
	}
	return
}
