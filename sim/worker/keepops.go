package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"runtime/debug"
	"slices"
	"unsafe"
	"weak"

	"verifsim/prog"

	"github.com/cloudprivacylabs/lpg/v2"
)

// ---- P21: what was removed or dropped is let go ----
//
// A graph of bounded size goes through a long history: elements come and go,
// values and labels are replaced, results and copies are dropped, iterators
// are abandoned, callbacks panic and sinks fail. Weak references tell what of
// all that is still reachable once the history is over and nothing but the
// graph itself is held.

type blob struct{ b [64]byte }

type watch struct {
	nodes  []weak.Pointer[lpg.Node]
	edges  []weak.Pointer[lpg.Edge]
	vals   []weak.Pointer[blob]
	strs   []weak.Pointer[byte]
	graphs []weak.Pointer[lpg.Graph]
	args   []func() bool // arguments, results and what callbacks hold
}

func watchArg[T any](w *watch, p *T) *T {
	x := weak.Make(p)
	w.args = append(w.args, func() bool { return x.Value() != nil })
	return p
}

func (w *watch) str(s string)       { w.strs = append(w.strs, weak.Make(unsafe.StringData(s))) }
func (w *watch) graph(g *lpg.Graph) { w.graphs = append(w.graphs, weak.Make(g)) }

func left[T any](ps []weak.Pointer[T]) (n int) {
	for _, p := range ps {
		if p.Value() != nil {
			n++
		}
	}
	return
}

const (
	edgeQueue = 100 + iota // edges are added and the oldest ones removed
	nodeQueue
)

type keeper struct {
	o     *opx
	r     *prog.Rng
	w     *watch
	g     *lpg.Graph
	hub   *lpg.Node
	nodes []*lpg.Node
	edges []*lpg.Edge
	n     int
	peak  int
	focus int // the kind of update most updates are, if any
	style int // what labels look like
	order int // of strings made one after the other
	hold  int // one out of how many removed elements the caller holds on to
	pats  []lpg.Pattern
	json  lpg.JSON
	cur   lpg.Cursor
	set   *lpg.NodeSet
	eset  *lpg.EdgeSet
	heldN []*lpg.Node // removed elements the caller still holds
	heldE []*lpg.Edge

	ix  int
	ixs []func(*lpg.Graph)
}

// tag makes a string of its own, on the heap and not among the tiny objects.
func (k *keeper) tag(p string) string {
	k.n++
	n := uint64(k.n)
	switch k.order {
	case 1:
		n = 1e12 - n
	case 2:
		n = n * 0x9E3779B97F4A7C15 % 1e12
	}
	return string([]byte(fmt.Sprintf("%s-%024d%012d", p, n, k.n)))
}

func (k *keeper) props(unique bool) map[string]any {
	p := map[string]any{}
	if k.r.N(3) > 0 {
		p["v"] = &blob{}
	}
	if k.r.N(3) > 0 {
		p["ik"] = k.tag("i")
	}
	if k.r.N(3) > 0 {
		p["c"] = k.r.N(3)
	}
	if unique && k.r.N(4) == 0 {
		p[k.tag("key")] = k.tag("val")
	}
	return p
}

func (k *keeper) gone(x interface {
	ForEachProperty(func(string, any) bool) bool
}) {
	x.ForEachProperty(func(key string, v any) bool {
		k.goneValue(v)
		if len(key) > 8 {
			k.w.str(key)
		}
		return true
	})
}

func (k *keeper) goneValue(v any) {
	switch x := v.(type) {
	case *blob:
		k.w.vals = append(k.w.vals, weak.Make(x))
	case string:
		if len(x) > 8 {
			k.w.str(x)
		}
	}
}

func (k *keeper) goneLabels(s lpg.StringSet) {
	for _, l := range s.Slice() {
		if len(l) > 8 {
			k.w.str(l)
		}
	}
}

func (k *keeper) goneEdge(e *lpg.Edge) {
	k.gone(e)
	if len(e.GetLabel()) > 8 {
		k.w.str(e.GetLabel())
	}
	k.w.edges = append(k.w.edges, weak.Make(e))
}

func (k *keeper) labels() []string {
	ls := []string{}
	if k.style == 1 { // one or none
		if k.r.N(2) == 0 {
			ls = append(ls, k.tag("l"))
		}
		return ls
	}
	if k.style == 2 {
		for i := k.r.N(4); i > 0; i-- {
			ls = append(ls, k.tag("l"))
		}
	}
	if k.r.N(3) > 0 {
		ls = append(ls, "T")
	}
	if k.r.N(3) == 0 {
		ls = append(ls, "U")
	}
	if k.r.N(3) == 0 {
		ls = append(ls, k.tag("l"))
	}
	return ls
}

func (k *keeper) elabel() string {
	x := k.r.N(3)
	if k.focus == edgeQueue && k.style > 0 {
		x = 1
	}
	switch x {
	case 0:
		return k.tag("e")
	case 1:
		return "x"
	}
	return "y"
}

func (k *keeper) node() *lpg.Node {
	if len(k.nodes) == 0 {
		return k.hub
	}
	return k.nodes[k.r.N(len(k.nodes))]
}

func (k *keeper) dropEdge(i int) {
	k.goneEdge(k.edges[i])
	k.edges = slices.Delete(k.edges, i, i+1)
}

func (k *keeper) dropNode(i int) *lpg.Node {
	n := k.nodes[i]
	k.set.Remove(n)
	for j := len(k.edges) - 1; j >= 0; j-- {
		if e := k.edges[j]; e.GetFrom() == n || e.GetTo() == n {
			k.eset.Remove(e)
			k.dropEdge(j)
		}
	}
	k.gone(n)
	k.goneLabels(n.GetLabels())
	k.w.nodes = append(k.w.nodes, weak.Make(n))
	k.nodes = slices.Delete(k.nodes, i, i+1)
	return n
}

func (k *keeper) update() {
	r := k.r
	x := r.N(16)
	if k.focus >= 0 && r.N(4) > 0 {
		x = k.focus
		switch {
		case x == edgeQueue:
			if x = 6; len(k.edges) > 7 {
				x = 8
			}
		case x == nodeQueue:
			if x = 0; len(k.nodes) > 5 {
				x = 11
			}
		}
	}
	old := func(n int) int { // which one goes
		if k.focus >= edgeQueue && r.N(8) > 0 {
			return 0
		}
		return r.N(n)
	}
	switch {
	// no more than 8 nodes: what visits a larger map of nodes in Go's order
	// would depend on their addresses
	case x < 5 && len(k.nodes) < 7 || len(k.nodes) < 2:
		n := k.g.NewNode(k.labels(), k.props(true))
		k.nodes = append(k.nodes, n)
		if r.N(3) == 0 {
			k.set.Add(n)
		}
	case x < 7 && len(k.edges) < 12:
		a, b := k.node(), k.node()
		switch r.N(5) {
		case 0:
			a = k.hub
		case 1:
			b = k.hub
		}
		var e *lpg.Edge
		if r.N(4) == 0 {
			e = k.g.FastNewEdge(a, b, k.elabel(), k.props(true))
		} else {
			e = k.g.NewEdge(a, b, k.elabel(), k.props(true))
		}
		k.edges = append(k.edges, e)
		if r.N(3) == 0 {
			k.eset.Add(e)
		}
	case x < 9 && len(k.edges) > 0:
		i := old(len(k.edges))
		e := k.edges[i]
		k.dropEdge(i)
		k.eset.Remove(e)
		e.Remove()
		if len(k.heldE) < 2 && r.N(k.hold) == 0 {
			k.heldE = append(k.heldE, e)
			k.o.probe("held-edge")
		}
	case x < 12:
		n := k.dropNode(old(len(k.nodes)))
		if r.N(8) == 0 {
			n.Detach()
		}
		n.DetachAndRemove()
		if len(k.heldN) < 2 && r.N(k.hold) == 0 {
			k.heldN = append(k.heldN, n)
			k.o.probe("held-node")
		}
	case x == 12:
		n := k.node()
		k.goneLabels(n.GetLabels())
		n.SetLabels(lpg.NewStringSet(k.labels()...))
	case x == 13 && len(k.edges) > 0:
		e := k.edges[r.N(len(k.edges))]
		if l := e.GetLabel(); len(l) > 8 {
			k.w.str(l)
		}
		e.SetLabel(k.elabel())
	default: // properties
		var x interface {
			GetProperty(string) (any, bool)
			SetProperty(string, any)
			RemoveProperty(string)
		} = k.node()
		if len(k.edges) > 0 && r.N(2) == 0 {
			x = k.edges[r.N(len(k.edges))]
		}
		key := []string{"ik", "ik", "v", "c"}[r.N(4)]
		if v, ok := x.GetProperty(key); ok {
			k.goneValue(v)
		}
		if r.N(3) == 0 {
			x.RemoveProperty(key)
		} else {
			var v any = r.N(3)
			switch key {
			case "ik":
				v = k.tag("i")
			case "v":
				v = &blob{}
			}
			x.SetProperty(key, v)
		}
	}
	if x := len(k.nodes) + len(k.edges) + 1; x > k.peak {
		k.peak = x
	}
}

// some takes a few elements from an iterator and forgets it.
func (k *keeper) some(it lpg.Iterator) {
	for i := k.r.N(4) - 1; i != 0 && it.Next(); i-- {
		it.Value()
	}
}

// faulty runs f, whose callbacks may panic.
func (k *keeper) faulty(f func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(injected); !ok {
				panic(e)
			}
		}
	}()
	f()
}

type shortSink struct {
	n int
	blob
}

func (s *shortSink) Write(p []byte) (int, error) {
	if s.n -= len(p); s.n < 0 {
		return 0, errors.New("sink is full")
	}
	return len(p), nil
}

func (k *keeper) read(g *lpg.Graph) {
	r, o := k.r, k.o
	set := lpg.NewStringSet
	q := k.tag("q")
	k.w.str(q)
	switch r.N(18) {
	case 0:
		k.some(g.GetNodesWithAllLabels(set("T", []string{"U", q}[r.N(2)])))
	case 1:
		k.some(g.GetEdgesWithAnyLabel(set("x", q)))
	case 2:
		k.some(g.FindNodes(set([]string{"T", q}[r.N(2)]), map[string]any{"c": r.N(3)}))
		k.some(g.FindNodes(set(), map[string]any{"ik": q}))
	case 3:
		k.some(g.FindEdges(set([]string{"x", q}[r.N(2)]), map[string]any{"c": r.N(3)}))
		k.some(g.FindEdges(set(), map[string]any{"ik": q}))
	case 4:
		k.some(g.GetNodesWithProperty([]string{"ik", "v", q}[r.N(3)]))
		k.some(g.GetEdgesWithProperty([]string{"ik", "v", q}[r.N(3)]))
	case 5:
		n := k.node()
		d := lpg.EdgeDir(r.N(3) - 1)
		k.some(n.GetEdges(d))
		k.some(n.GetEdgesWithLabel(d, []string{"x", q}[r.N(2)]))
		k.some(n.GetEdgesWithAnyLabel(d, set("x", q)))
		lpg.EdgesBetweenNodes(n, k.node())
	case 6:
		k.some(g.GetNodes())
		k.some(g.GetEdges())
		lpg.Sources(g)
		k.some(lpg.SinksItr(g))
	case 7, 8:
		p := k.pats[r.N(len(k.pats))]
		sym := map[string]*lpg.PatternSymbol{}
		if r.N(2) == 0 {
			s := watchArg(k.w, &lpg.PatternSymbol{})
			s.AddNode(k.node())
			s.AddNode(k.node())
			sym["s"] = s
		}
		acc, err := p.FindPaths(g, sym)
		if err != nil {
			o.fail("keep", "%v", err)
		}
		for i := 0; i < len(acc.Paths) && i < 4; i++ {
			watchArg(k.w, acc.Paths[i])
		}
	case 9:
		if _, err := (lpg.Pattern{{Labels: set("T", q), Properties: map[string]any{"ik": q}}, {Min: 0, Max: 2}, {}}).FindNodes(g, nil); err != nil {
			o.fail("keep", "%v", err)
		}
	case 10:
		k.cur.Set(k.node())
		k.cur.StartPath()
		for i := r.N(4); i > 0; i-- {
			if it := k.cur.Forward(); it.Next() {
				k.cur.PushToPath(it.Edge())
			}
		}
		watchArg(k.w, k.cur.GetPath().Clone())
		k.cur.PopFromPath()
		k.cur.Set(k.hub)
		k.cur.StartPath()
	case 11:
		k.faulty(func() {
			n := k.node()
			n0, b := 0, watchArg(k.w, &blob{})
			lpg.CollectAllPaths(g, n, n.GetEdges(lpg.OutgoingEdge), func(*lpg.Edge) bool { b.b[0]++; o.maybePanic("keep"); return true }, lpg.OutgoingEdge, 1, 3, func(p *lpg.Path) bool {
				n0++
				b.b[1]++
				watchArg(k.w, p)
				o.maybePanic("keep")
				return n0 < 6
			})
		})
	case 12:
		k.faulty(func() {
			b := watchArg(k.w, &blob{})
			lpg.ForEachNode(g, func(*lpg.Node) bool { b.b[0]++; o.maybePanic("keep"); return r.N(8) > 0 })
		})
	case 13:
		if k.json.Encode(g, watchArg(k.w, &shortSink{n: r.N(900)})) != nil {
			o.fault("sink-full")
		}
		if (lpg.DOTRenderer{}).Render(g, q, watchArg(k.w, &shortSink{n: r.N(900)})) != nil {
			o.fault("sink-full")
		}
	case 14:
		ctx, cancel := context.WithCancel(context.Background())
		calls, stop, cb := 0, 1+r.N(36), watchArg(k.w, &blob{})
		if r.N(2) == 0 {
			cancel()
		}
		lpg.CheckIsomorphism(ctx, g, k.g, func(a, b *lpg.Node) bool {
			cb.b[0]++
			if calls++; calls == stop {
				cancel()
			}
			return true
		}, func(a, b *lpg.Edge) bool { return a.GetLabel() == b.GetLabel() })
		cancel()
	case 15:
		nm := lpg.NewNodeMap()
		for it := g.GetNodes(); it.Next(); {
			nm.Add(it.Node())
		}
		k.some(nm.Iterator())
	case 16:
		a, b := lpg.NewStringSet(q, "T"), lpg.NewStringSet("T")
		b.AddSet(a)
		b.Remove(q)
		a.Clone()
		b.String()
		a.MarshalJSON()
	case 17:
		p := watchArg(k.w, lpg.PathFromNode(k.node()))
		if it := p.Last().GetEdges(lpg.OutgoingEdge); it.Next() {
			p.Append(lpg.NewPathElementsFromEdges([]*lpg.Edge{it.Edge()})...)
			p.Clone().AppendPath(lpg.PathFromNode(p.Last()))
			p.RemoveLast()
		}
	}
}

// side makes a graph, uses it for a while and drops it.
func (k *keeper) side() {
	r, o := k.r, k.o
	g := lpg.NewGraph()
	k.w.graph(g)
	if r.N(2) == 0 {
		g.AddNodePropertyIndex("ik", lpg.IndexType(r.N(2)))
		g.AddEdgePropertyIndex("ik", lpg.IndexType(r.N(2)))
	}
	how := r.N(5)
	shared := how < 2 // a copy shares values and strings with its source
	switch how {
	case 0:
		k.faulty(func() {
			b := watchArg(k.w, &blob{})
			lpg.CopyGraph(k.g, g, func(_ string, v any) any { b.b[0]++; o.maybePanic("keep"); return v })
		})
	case 1:
		lpg.CopySubgraph(k.node(), g, func(_ string, v any) any { return v }, map[*lpg.Node]*lpg.Node{})
	case 2, 3:
		var b bytes.Buffer
		if err := k.json.Encode(k.g, &b); err != nil {
			o.fail("keep", "%v", err)
		}
		d := b.Bytes()
		watchArg(k.w, &d[0])
		cut := r.N(3) == 0
		if cut {
			d = d[:r.N(len(d)+1)]
			o.fault("truncated")
		}
		if err := k.json.Decode(g, json.NewDecoder(bytes.NewReader(d))); err != nil && !cut {
			o.fail("keep", "%v", err)
		}
	case 4:
		a := g.NewNode([]string{"T", k.tag("l")}, k.props(true))
		b := g.NewNode([]string{"U"}, k.props(true))
		g.NewEdge(a, b, k.elabel(), k.props(true))
		if r.N(2) == 0 {
			b.DetachAndRemove()
		}
	}
	for i := r.N(4); i > 0; i-- {
		k.read(g)
	}
	for it := g.GetNodes(); it.Next(); {
		n := it.Node()
		if r.N(2) == 0 {
			n.SetProperty("ik", k.tag("i"))
		}
		if !shared {
			k.gone(n)
			k.goneLabels(n.GetLabels())
		}
		k.w.nodes = append(k.w.nodes, weak.Make(n))
	}
	for it := g.GetEdges(); it.Next(); {
		if !shared {
			k.goneEdge(it.Edge())
		}
	}
}

func (k *keeper) index(nodes bool, key string, t lpg.IndexType) {
	f := func(g *lpg.Graph) {
		if nodes {
			g.AddNodePropertyIndex(key, t)
		} else {
			g.AddEdgePropertyIndex(key, t)
		}
	}
	f(k.g)
	k.ixs = append(k.ixs, f)
}

//go:noinline
func (k *keeper) churn(rounds int) {
	for i := 0; i < rounds; i++ {
		k.update()
		switch x := k.r.N(40); {
		case x < 8:
			k.read(k.g)
		case x == 8:
			k.side()
		case x == 9 && k.ix < 4:
			k.ix++
			k.index(k.r.N(2) == 0, []string{"ik", "c"}[k.r.N(2)], lpg.IndexType(k.r.N(2)))
		}
		if i%8 == 7 {
			k.o.setBudget(400000)
			k.o.yield("churn")
		}
	}
}

// weigh measures the memory of the graph and of a copy of it, without the
// strings and values they share. Nothing else runs meanwhile.
func (k *keeper) weigh() (own, fresh int64) {
	k.o.setBudget(400000)
	k.o.quiet++
	g := lpg.NewGraph()
	for _, p := range k.ixs {
		p(g)
	}
	lpg.CopyGraph(k.g, g, func(_ string, v any) any { return v })
	alloc := func() int64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	m0 := alloc()
	runtime.KeepAlive(g)
	g = nil
	m1 := alloc()
	runtime.KeepAlive(k.g)
	k.g, k.hub, k.nodes, k.edges, k.heldN, k.heldE, k.set, k.eset = nil, nil, nil, nil, nil, nil, nil, nil
	m2 := alloc()
	k.o.quiet--
	return m1 - m2, m0 - m1
}

func init() {
	reg("churn", nil, func(o *opx) {
		debug.SetGCPercent(-1) // collections happen where the run has them
		r := prog.NewRng(prog.Mix(uint64(o.a(1)), uint64(o.a(2))))
		k := &keeper{o: o, r: r, w: &watch{}, g: lpg.NewGraph(), set: lpg.NewNodeSet(), eset: lpg.NewEdgeSet()}
		k.focus = []int{-1, 8, 11, 12, 13, 14, edgeQueue, nodeQueue}[r.N(8)]
		k.style, k.order, k.hold = r.N(4), r.N(3), []int{12, 1 << 30}[r.N(2)]
		if r.N(2) == 0 {
			k.index(true, "ik", lpg.IndexType(r.N(2)))
			k.index(false, "ik", lpg.IndexType(r.N(2)))
		}
		k.hub = k.g.NewNode([]string{"hub", "T"}, nil)
		k.json.MarshalEdgesSeparately = r.N(2) == 0
		set := lpg.NewStringSet
		k.pats = []lpg.Pattern{
			{{Labels: set("T")}, {Min: 1, Max: 1}, {}},
			{{Name: "s"}, {Min: 1, Max: 2, Labels: set("x", "y")}, {Labels: set("U")}},
			{{}, {Min: 1, Max: 1, Labels: set("x"), Name: "e", ToLeft: true}, {Name: "s"}},
			{{Properties: map[string]any{"c": 1}}, {Min: 0, Max: 2, Undirected: true}, {Name: "t"}},
		}
		n := 400 + r.N(400)*(1+r.N(3))
		if r.N(12) == 0 {
			n *= 10
			o.probe("long-history")
		}
		k.churn(n)
		k.cur = lpg.Cursor{}
		o.oracle("keep")
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
		check := func(what string, n, of, lim int) {
			if v := int64(n) * 100 / int64(lim); v > o.c.st.MaxTicks["% of allowed: "+what] {
				o.c.st.MaxTicks["% of allowed: "+what] = v
			}
			if n > lim {
				o.fail("keep", "of %d %s, more than %d are still reachable from a graph of at most %d elements", of, what, lim, k.peak)
			}
			o.note("%s %d", what, of)
		}
		lim := k.peak + 8
		slim := lim
		if len(k.heldN)+len(k.heldE) > 0 { // with the strings of the ends of the edges
			slim += 60
		}
		check("removed nodes", left(k.w.nodes), len(k.w.nodes), lim)
		check("removed edges", left(k.w.edges), len(k.w.edges), lim)
		check("replaced values", left(k.w.vals), len(k.w.vals), lim)
		check("replaced labels, keys and strings", left(k.w.strs), len(k.w.strs), slim)
		na := 0
		for _, f := range k.w.args {
			if f() {
				na++
			}
		}
		check("arguments and results", na, len(k.w.args), 8)
		check("dropped graphs", left(k.w.graphs), len(k.w.graphs), 2)
		if k.peak > o.s.peak {
			o.s.peak = k.peak
		}
		w, peak := k.w, k.peak
		own, fresh := k.weigh()
		if lim := 2*fresh + int64(peak)*1500 + 12000; own > lim {
			o.fail("keep", "a graph of at most %d elements that went through %d removals takes more than twice the memory of a copy of it", peak, len(w.nodes)+len(w.edges))
		} else if v := own * 100 / lim; v > o.c.st.MaxTicks["% of allowed: memory"] {
			o.c.st.MaxTicks["% of allowed: memory"] = v
		}
		runtime.KeepAlive(w)
	})
}
