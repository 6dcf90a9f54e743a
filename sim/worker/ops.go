package main

import (
	"fmt"

	"verifsim/prog"

	"github.com/cloudprivacylabs/lpg/v2"
)

type opDef struct {
	needs func(s *Sim, op *prog.Op) (r, w []int)
	exec  func(o *opx)
}

var opDefs = map[string]*opDef{}

func wr0(s *Sim, op *prog.Op) (r, w []int) { return nil, []int{op.A[0] % s.cfg.Graphs} }
func rd0(s *Sim, op *prog.Op) (r, w []int) { return []int{op.A[0] % s.cfg.Graphs}, nil }

// source read, other graph written (or one graph written when they coincide)
func rd0wr1(s *Sim, op *prog.Op) (r, w []int) {
	a, b := op.A[0]%s.cfg.Graphs, op.A[1]%s.cfg.Graphs
	if a == b {
		return nil, []int{a}
	}
	return []int{a}, []int{b}
}
func rd0rd1(s *Sim, op *prog.Op) (r, w []int) {
	a, b := op.A[0]%s.cfg.Graphs, op.A[1]%s.cfg.Graphs
	if a == b {
		return []int{a}, nil
	}
	return []int{a, b}, nil
}
func wr0wr1(s *Sim, op *prog.Op) (r, w []int) {
	a, b := op.A[0]%s.cfg.Graphs, op.A[1]%s.cfg.Graphs
	if a == b {
		return nil, []int{a}
	}
	return nil, []int{a, b}
}

func (o *opx) g0() *MGraph { return o.s.w.gs[o.op.A[0]%o.s.cfg.Graphs] }
func (o *opx) g1() *MGraph { return o.s.w.gs[o.op.A[1]%o.s.cfg.Graphs] }
func (o *opx) a(i int) int { return o.op.A[i] }
func (o *opx) node(mg *MGraph, x int) *MNode {
	if len(mg.nodes) == 0 {
		o.skip()
	}
	return mg.nodes[x%len(mg.nodes)]
}
func (o *opx) edge(mg *MGraph, x int) *MEdge {
	if len(mg.edges) == 0 {
		o.skip()
	}
	return mg.edges[x%len(mg.edges)]
}

// relax gives the checks that follow an operation ample room.
func (o *opx) relax() { o.setBudget(o.s.w.auditBudget()) }
func (w *world) auditBudget() int64 {
	t := int64(w.size() + 10)
	return 400000 + 50*t*t*t
}

// post runs the audits of the property under check after a mutation.
func (o *opx) post(mg *MGraph) {
	x := o.a(7)
	if o.s.cfg.F["huge"] != 0 {
		if x%(len(mg.nodes)+len(mg.edges)+1) > 2 {
			return
		}
		o.probe("huge-graph-audit")
		x /= 128
	}
	switch o.s.p.Prop {
	case "P01":
		o.auditStruct(mg, x)
	case "P02":
		o.auditLabels(mg)
		o.auditNodeMap(mg)
	case "P03":
		if x%3 == 0 {
			o.auditIndex(mg, x)
			o.auditProps(mg)
		}
	case "P04":
		o.quiet++
		for _, g := range o.s.w.gs {
			if g == mg || !o.s.locks[g.slot].w {
				o.auditIdent(g)
			}
		}
		o.quiet--
		o.auditSets(mg)
	case "P11":
		if x%4 == 0 {
			o.auditFull(mg, x)
		}
		if x%4 == 1 { // an update of one graph is not visible in another
			o.quiet++
			for _, g := range o.s.w.gs {
				if !o.s.locks[g.slot].w {
					o.auditFull(g, x)
				}
			}
			o.quiet--
		}
	case "P16":
		if x%4 == 0 {
			o.auditFull(mg, x)
		}
	}
	o.s.w.noteState(o.s, mg)
}

func (o *opx) genProps(x int, pool int) map[string]any {
	p := map[string]any{}
	for j, k := range nodeKeys {
		a, b := (x>>j)&1 == 1, (x>>(j+len(nodeKeys)))&1 == 1
		if a && b || (a || b) && o.s.cfg.F["dense"] != 0 {
			p[k] = genVal(k, x/7+j*31, pool)
		}
	}
	if o.s.cfg.F["jsonprops"] != 0 {
		return o.genJSONProps(x)
	}
	if o.s.cfg.F["noprops"] != 0 {
		return map[string]any{}
	}
	return p
}

func reg(k string, needs func(*Sim, *prog.Op) ([]int, []int), exec func(*opx)) {
	opDefs[k] = &opDef{needs: needs, exec: exec}
}

// carriesUID says whether the next element gets a "uid" property: all, some or
// none do, depending on the run.
func (o *opx) carriesUID() bool {
	switch o.s.cfg.F["uid"] {
	case 1:
		return true
	case 2:
		return prog.Mix(uint64(o.s.w.uid), 77)%5 < 3
	}
	return false
}

func (o *opx) newNode(mg *MGraph, labels []string, props map[string]any, mode int) *MNode {
	var h *lpg.Node
	if o.carriesUID() {
		props["uid"] = fmt.Sprintf("u%d", o.s.w.uid+1)
	}
	switch mode % 4 {
	case 0, 1:
		var lp []string
		lp = append(lp, labels...)
		pp := copyProps(props)
		h = mg.g.NewNode(lp, pp)
		// the caller's own slice and map are not the node's
		for i := range lp {
			lp[i] = "zz"
		}
		for k := range pp {
			delete(pp, k)
		}
	case 2:
		ls := lpg.NewStringSet(labels...)
		h = mg.g.FastNewNode(ls, copyProps(props))
		ls.Add("zz")
		ls.Remove("A")
	case 3:
		var ls lpg.StringSet // zero set
		if len(labels) > 0 {
			ls.Add(labels...)
		}
		pp := copyProps(props)
		if len(pp) == 0 {
			pp = nil
		}
		h = mg.g.FastNewNode(ls, pp)
	}
	if h == nil {
		o.fail("result", "NewNode returned nil")
	}
	return mg.addNode(h, labels, props, o.s.w.nextUID())
}

func (o *opx) newEdge(mg *MGraph, f, t *MNode, label string, props map[string]any, mode int) *MEdge {
	var h *lpg.Edge
	if o.carriesUID() {
		props["uid"] = fmt.Sprintf("u%d", o.s.w.uid+1)
	}
	pp := copyProps(props)
	if mode%2 == 0 {
		h = mg.g.NewEdge(f.h, t.h, label, pp)
		for k := range pp {
			delete(pp, k)
		}
	} else {
		if len(pp) == 0 && mode%4 == 1 {
			pp = nil
		}
		h = mg.g.FastNewEdge(f.h, t.h, label, pp)
	}
	if h == nil {
		o.fail("result", "NewEdge returned nil")
	}
	return mg.addEdge(h, f, t, label, props, o.s.w.nextUID())
}

func (mg *MGraph) dropNodeFromSets(n *MNode) {
	if mg.inNM(n) {
		mg.nm.Remove(n.h)
		for i, x := range mg.nmMem {
			if x == n {
				mg.nmMem = append(mg.nmMem[:i:i], mg.nmMem[i+1:]...)
				break
			}
		}
	}
}
func (mg *MGraph) inNM(n *MNode) bool {
	for _, x := range mg.nmMem {
		if x == n {
			return true
		}
	}
	return false
}

func init() {
	reg("newNode", wr0, func(o *opx) {
		mg := o.g0()
		if len(mg.nodes) >= o.s.cfg.MaxN {
			o.skip()
		}
		bits := o.a(2)
		if o.a(5)%5 == 0 {
			bits = 0
		}
		o.newNode(mg, subset(o.s.w.nlab, bits), o.genProps(o.a(3), o.s.cfg.Vals), o.a(4))
		o.post(mg)
	})
	reg("newEdge", wr0, func(o *opx) {
		mg := o.g0()
		if len(mg.edges) >= o.s.cfg.MaxE {
			o.skip()
		}
		f := o.node(mg, o.a(2))
		t := o.node(mg, o.a(3))
		kind := o.a(6) % 8
		switch o.s.cfg.F["shape"] { // shape of the graphs of this run
		case 1: // multigraph
			if kind > 2 && kind < 7 {
				kind = 1
			}
		case 2: // loops
			if kind > 4 {
				kind = 0
			}
		case 3: // one hub
			if kind > 3 && len(mg.nodes) > 0 {
				if kind%2 == 0 {
					f = mg.nodes[0]
				} else {
					t = mg.nodes[0]
				}
			}
		case 4: // chains and rings in creation order
			if kind > 2 {
				for i, n := range mg.nodes {
					if n == f {
						t = mg.nodes[(i+1)%len(mg.nodes)]
					}
				}
			}
		}
		switch kind {
		case 0:
			t = f // self loop
		case 1, 2:
			if len(mg.edges) > 0 { // parallel edge
				e := o.edge(mg, o.a(3))
				f, t = e.from, e.to
			}
		}
		if f == t {
			o.probe("self-loop")
		}
		o.newEdge(mg, f, t, o.s.w.elab[o.a(4)%len(o.s.w.elab)], o.genProps(o.a(5), o.s.cfg.Vals), o.a(6)/8)
		o.post(mg)
	})
	reg("setLabels", wr0, func(o *opx) {
		mg := o.g0()
		n := o.node(mg, o.a(2))
		bits := o.a(3)
		if o.a(5)%4 == 0 {
			bits = 0
		}
		want := subset(o.s.w.nlab, bits)
		var set lpg.StringSet
		switch o.a(4) % 3 {
		case 0:
			set = labelSet(o.a(6)%8 < 4, want)
		case 1: // derived from the current labels
			set = n.h.GetLabels()
			set.Add(want...)
			want = normLabels(append(append([]string{}, n.labels...), want...))
		case 2:
			set = n.h.GetLabels()
			set.Remove(want...)
			var keep []string
			for _, l := range n.labels {
				if !has(want, l) {
					keep = append(keep, l)
				}
			}
			want = keep
		}
		if len(want) == 0 && len(n.labels) > 0 {
			o.probe("relabel-to-empty")
		}
		if mg.inNM(n) {
			mg.nm.Replace(n.h, n.h.GetLabels(), set)
		}
		n.h.SetLabels(set)
		n.labels = normLabels(want)
		// what the caller does to its set afterwards is its own business
		switch o.a(6) % 4 {
		case 0:
			set.Add("zz")
		case 1:
			set.Remove(o.s.w.nlab...)
		case 2:
			out := n.h.GetLabels()
			out.Add("zz")
			out.Remove("A")
			set.AddSet(lpg.NewStringSet("B", "zz"))
		}
		o.post(mg)
	})
	reg("setEdgeLabel", wr0, func(o *opx) {
		mg := o.g0()
		e := o.edge(mg, o.a(2))
		l := o.s.w.elab[o.a(3)%len(o.s.w.elab)]
		e.h.SetLabel(l)
		e.label = l
		o.post(mg)
	})
	reg("removeEdge", wr0, func(o *opx) {
		mg := o.g0()
		e := o.edge(mg, o.pickEnd(o.a(2), o.a(3), len(mg.edges)))
		e.h.Remove()
		mg.delEdge(e)
		o.post(mg)
	})
	reg("detach", wr0, func(o *opx) {
		mg := o.g0()
		n := o.node(mg, o.a(2))
		n.h.Detach()
		mg.detach(n)
		o.post(mg)
	})
	reg("removeNode", wr0, func(o *opx) {
		mg := o.g0()
		n := o.node(mg, o.pickEnd(o.a(2), o.a(3), len(mg.nodes)))
		if n == mg.nodes[len(mg.nodes)-1] {
			o.probe("remove-last-node")
		}
		mg.dropNodeFromSets(n)
		n.h.DetachAndRemove()
		mg.detach(n)
		mg.delNode(n)
		o.post(mg)
	})
	reg("setNodeProp", wr0, func(o *opx) {
		mg := o.g0()
		n := o.node(mg, o.a(2))
		k := nodeKeys[o.a(3)%len(nodeKeys)]
		v := o.propVal(k, o.a(4))
		n.h.SetProperty(k, v)
		n.props[k] = v
		o.post(mg)
	})
	reg("removeNodeProp", wr0, func(o *opx) {
		mg := o.g0()
		n := o.node(mg, o.a(2))
		k := nodeKeys[o.a(3)%len(nodeKeys)]
		if ks := sortedKeys(n.props); len(ks) > 0 && o.a(4)%4 != 0 {
			k = ks[o.a(3)%len(ks)]
		}
		if k == "uid" {
			o.skip()
		}
		n.h.RemoveProperty(k)
		delete(n.props, k)
		o.post(mg)
	})
	reg("setEdgeProp", wr0, func(o *opx) {
		mg := o.g0()
		e := o.edge(mg, o.a(2))
		k := nodeKeys[o.a(3)%len(nodeKeys)]
		v := o.propVal(k, o.a(4))
		e.h.SetProperty(k, v)
		e.props[k] = v
		o.post(mg)
	})
	reg("removeEdgeProp", wr0, func(o *opx) {
		mg := o.g0()
		e := o.edge(mg, o.a(2))
		k := nodeKeys[o.a(3)%len(nodeKeys)]
		if ks := sortedKeys(e.props); len(ks) > 0 && o.a(4)%4 != 0 {
			k = ks[o.a(3)%len(ks)]
		}
		if k == "uid" {
			o.skip()
		}
		e.h.RemoveProperty(k)
		delete(e.props, k)
		o.post(mg)
	})
	reg("addNodeIndex", wr0, func(o *opx) {
		mg := o.g0()
		k, it := o.ixChoice()
		if _, ok := mg.nodeIx[k]; !ok {
			mg.nodeIx[k] = it
			if len(mg.nodes) > 0 {
				o.probe("late-node-index")
			}
		}
		mg.g.AddNodePropertyIndex(k, it)
		o.post(mg)
	})
	reg("addEdgeIndex", wr0, func(o *opx) {
		mg := o.g0()
		k, it := o.ixChoice()
		if _, ok := mg.edgeIx[k]; !ok {
			mg.edgeIx[k] = it
			if len(mg.edges) > 0 {
				o.probe("late-edge-index")
			}
		}
		mg.g.AddEdgePropertyIndex(k, it)
		o.post(mg)
	})
	reg("crossEdge", wr0wr1, func(o *opx) {
		a, b := o.g0(), o.g1()
		if a == b {
			o.skip()
		}
		f, t := o.node(a, o.a(2)), o.node(b, o.a(3))
		tg := a
		switch o.a(4) % 4 {
		case 1:
			tg = b
		case 2: // both ends foreign
			tg = b
			f, t = o.node(a, o.a(2)), o.node(a, o.a(3))
		}
		refused := func() (r bool) {
			defer func() {
				if x := recover(); x != nil {
					switch x.(type) {
					case stopRun, tickOverrun:
						panic(x)
					}
					r = true
				}
			}()
			var src *MEdge
			if es := append(append([]*MEdge{}, a.edges...), b.edges...); len(es) > 0 {
				src = es[o.a(6)%len(es)]
			}
			same := func(_ string, v any) any { return v }
			label, props := o.s.w.elab[o.a(6)/4%len(o.s.w.elab)], map[string]any{"pi": 1}
			if o.a(6)%3 == 0 {
				props = nil
			}
			switch x := o.a(5) % 5; {
			case x == 2 && src != nil:
				lpg.CloneEdge(f.h, t.h, src.h, tg.g, same)
			case x == 3 && src != nil && src.from != src.to:
				lpg.CopyEdge(src.h, tg.g, same, map[*lpg.Node]*lpg.Node{src.from.h: f.h, src.to.h: t.h})
			case x%2 == 0:
				tg.g.NewEdge(f.h, t.h, label, props)
			default:
				tg.g.FastNewEdge(f.h, t.h, label, props)
			}
			return false
		}()
		if !refused {
			o.fail("cross-graph", "an edge between nodes of different graphs was accepted")
		}
		o.probe("cross-graph-refused")
		for _, g := range []*MGraph{a, b} {
			o.auditStruct(g, o.a(7))
			o.auditIdent(g)
			o.auditIndex(g, o.a(7))
		}
	})
	// caller maintained structures
	reg("nmAdd", wr0, func(o *opx) {
		mg := o.g0()
		n := o.node(mg, o.a(2))
		if !mg.inNM(n) {
			mg.nmMem = append(mg.nmMem, n)
		}
		mg.nm.Add(n.h)
		o.post(mg)
	})
	reg("nmRemove", wr0, func(o *opx) {
		mg := o.g0()
		n := o.node(mg, o.a(2))
		if !mg.inNM(n) {
			mg.nm.Remove(n.h) // not a member: nothing happens
		} else {
			mg.dropNodeFromSets(n)
		}
		o.post(mg)
	})
	reg("nsAdd", wr0, func(o *opx) {
		mg := o.g0()
		n := o.node(mg, o.a(2))
		mg.ns.Add(n.h)
		found := false
		for _, x := range mg.nsMem {
			found = found || x == n
		}
		if !found {
			mg.nsMem = append(mg.nsMem, n)
		}
		o.post(mg)
	})
	reg("nsRemove", wr0, func(o *opx) {
		mg := o.g0()
		var n *MNode
		if len(mg.nsMem) > 0 && o.a(3)%4 != 0 {
			n = mg.nsMem[o.a(2)%len(mg.nsMem)]
		} else {
			n = o.node(mg, o.a(2))
		}
		mg.ns.Remove(n.h)
		for i, x := range mg.nsMem {
			if x == n {
				mg.nsMem = append(mg.nsMem[:i:i], mg.nsMem[i+1:]...)
				break
			}
		}
		o.post(mg)
	})
	reg("esAdd", wr0, func(o *opx) {
		mg := o.g0()
		e := o.edge(mg, o.a(2))
		mg.es.Add(e.h)
		found := false
		for _, x := range mg.esMem {
			found = found || x == e
		}
		if !found {
			mg.esMem = append(mg.esMem, e)
		}
		o.post(mg)
	})
	reg("esRemove", wr0, func(o *opx) {
		mg := o.g0()
		var e *MEdge
		if len(mg.esMem) > 0 && o.a(3)%4 != 0 {
			e = mg.esMem[o.a(2)%len(mg.esMem)]
		} else {
			e = o.edge(mg, o.a(2))
		}
		mg.es.Remove(e.h)
		for i, x := range mg.esMem {
			if x == e {
				mg.esMem = append(mg.esMem[:i:i], mg.esMem[i+1:]...)
				break
			}
		}
		o.post(mg)
	})
	// reading operations
	reg("audit", rd0, func(o *opx) {
		mg := o.g0()
		x := o.a(7)
		switch o.s.p.Prop {
		case "P01":
			o.auditStruct(mg, x)
		case "P02":
			o.auditLabels(mg)
			o.auditNodeMap(mg)
		case "P03":
			o.auditIndex(mg, x)
			o.auditProps(mg)
		case "P04":
			o.auditIdent(mg)
			o.auditSets(mg)
		default:
			o.auditFull(mg, x)
		}
	})
}

// pickEnd biases the choice of an element towards the first and last one.
func (o *opx) pickEnd(x, bias, n int) int {
	if n == 0 {
		return 0
	}
	switch bias % 5 {
	case 0:
		return n - 1
	case 1:
		return 0
	}
	return x
}

func (o *opx) propVal(k string, x int) any {
	if o.s.cfg.F["jsonprops"] != 0 {
		return o.jsonVal(k, x)
	}
	return genVal(k, x, o.s.cfg.Vals)
}

func (o *opx) ixChoice() (string, lpg.IndexType) {
	k := nodeKeys[o.a(3)%len(nodeKeys)]
	it := lpg.BtreeIndex
	if o.a(4)%2 == 0 {
		it = lpg.HashIndex
	}
	if o.s.cfg.F["jsonprops"] != 0 {
		return jsonIxKeys[o.a(3)%len(jsonIxKeys)], it
	}
	return k, it
}

func (w *world) noteState(s *Sim, mg *MGraph) {
	if n := len(mg.nodes) + len(mg.edges); n > s.peak {
		s.peak = n
	}
	if s.st.states != nil && !raceBuild {
		if len(s.st.states) < 200000 {
			s.st.states[mg.modelHash()] = struct{}{}
		}
	}
}
