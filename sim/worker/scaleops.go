package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"

	"verifsim/prog"

	"github.com/cloudprivacylabs/lpg/v2"
)

// ---- P20: work of lookups and updates against the size of the graph ----
//
// Simulated time is the measure: the steps the library executes. The same
// lookups and updates are timed twice, before and after the graph has grown
// by elements they have nothing to do with.

type scaler struct {
	o                *opx
	g                *lpg.Graph
	r                *prog.Rng
	fill             []*lpg.Node
	fillE            []*lpg.Edge
	t                []*lpg.Node // the nodes asked about
	hub              *lpg.Node
	nt               []string // labels of the nodes asked about
	n, b             int
	ixs              int
	skip             int64
	nodesIx, edgesIx bool
}

func (sc *scaler) filler() {
	g, r, o := sc.g, sc.r, sc.o
	sc.n++
	if len(sc.fill) > 3 && r.N(4) == 0 { // elements that leave nothing behind
		n := sc.fill[r.N(len(sc.fill))]
		a := g.NewNode([]string{fmt.Sprint("O", sc.n), "T"}, map[string]any{"tk": 10 + sc.n, "ik": fmt.Sprint("o", sc.n)})
		e := g.NewEdge(sc.hub, n, fmt.Sprint("o", sc.n), map[string]any{"tk": 10 + sc.n, "ik": fmt.Sprint("o", sc.n)})
		if r.N(2) == 0 {
			a.RemoveProperty("tk")
			a.RemoveProperty("ik")
			a.SetLabels(lpg.NewStringSet())
			e.RemoveProperty("tk")
			e.RemoveProperty("ik")
			e.SetLabel(fmt.Sprint("p", sc.n))
		}
		e.Remove()
		a.DetachAndRemove()
		return
	}
	switch x := r.N(20); {
	case x < 8 || len(sc.fill) < 3:
		var ls []string
		switch r.N(4) {
		case 0:
		case 1:
			ls = []string{fmt.Sprint("L", sc.n), fmt.Sprint("LL", sc.n)}
		default:
			ls = []string{"F"}
			if r.N(2) == 0 {
				ls = append(ls, "G")
			}
		}
		p := map[string]any{}
		if r.N(3) > 0 {
			p["ik"] = fmt.Sprint("w", sc.n)
		}
		if r.N(3) > 0 {
			p["c"], p["c1"], p["c2"] = r.N(2), r.N(3), r.N(3)
		}
		if r.N(3) > 0 {
			p["fk"] = 1
		}
		sc.fill = append(sc.fill, g.NewNode(ls, p))
	case x < 17:
		a, b := sc.fill[r.N(len(sc.fill))], sc.fill[r.N(len(sc.fill))]
		switch r.N(4) {
		case 0:
			a = sc.hub
		case 1:
			b = sc.hub
		}
		l := "f"
		if r.N(6) == 0 {
			l = fmt.Sprint("l", sc.n)
		}
		p := map[string]any{}
		if r.N(3) > 0 {
			p["ik"] = fmt.Sprint("w", sc.n)
		}
		if r.N(3) > 0 {
			p["fk"] = 1
		}
		sc.fillE = append(sc.fillE, g.NewEdge(a, b, l, p))
	case x == 17: // elements come and go
		if len(sc.fillE) > 0 {
			i := r.N(len(sc.fillE))
			sc.fillE[i].Remove()
			sc.fillE = append(sc.fillE[:i], sc.fillE[i+1:]...)
		}
	case x == 18:
		n := sc.fill[r.N(len(sc.fill))]
		n.SetLabels(lpg.NewStringSet("F", fmt.Sprint("M", sc.n%7)))
	default:
		n := sc.fill[r.N(len(sc.fill))]
		n.SetProperty("ik", fmt.Sprint("x", sc.n))
	}
	if sc.n%32 == 0 {
		o.setBudget(400000)
	}
}

// burst adds elements that live together for a while, some of them at the
// nodes asked about, and takes all of them away again
func (sc *scaler) burst() {
	g, r := sc.g, sc.r
	type pair struct {
		n *lpg.Node
		e *lpg.Edge
	}
	var ps []pair
	for i := 20 + r.N(30); i > 0; i-- {
		sc.b++
		k := fmt.Sprint("b", sc.b)
		pr := func() map[string]any {
			return map[string]any{"tk": []any{-10 - 2*sc.b, k}[r.N(2)], "ik": k}
		}
		n := g.NewNode([]string{k, "T"}, pr())
		x := sc.hub
		if r.N(2) == 0 {
			x = sc.t[r.N(len(sc.t))]
		}
		from, to := x, n
		if r.N(2) == 0 {
			from, to = n, x
		}
		ps = append(ps, pair{n, g.NewEdge(from, to, k, pr())})
	}
	how := r.N(3)
	for i := range ps {
		if how > 0 {
			j := i + r.N(len(ps)-i)
			ps[i], ps[j] = ps[j], ps[i]
		}
		p, k1 := ps[i], sc.b-i
		switch how {
		case 0:
			p.e.Remove()
		case 1:
			p.e.SetLabel(fmt.Sprint("c", k1))
			p.e.RemoveProperty("tk")
			p.n.SetProperty("tk", -11-2*k1)
		}
		p.n.DetachAndRemove()
	}
	sc.o.probe("burst")
	sc.o.setBudget(400000)
}

// a named piece of work; it returns how many results there were
type scaleJob struct {
	name string
	run  func() int
}

// whole-graph work: it may grow in proportion to the graph
func (sc *scaler) bulk() []scaleJob {
	g := sc.g
	rd := func(err error) {
		if err != nil {
			sc.o.fail("scale", "%v", err)
		}
	}
	return []scaleJob{
		{"GetNodes, GetEdges", func() int { return countN(g.GetNodes()) + countE(g.GetEdges()) }},
		{"GetNodesWithAllLabels()", func() int { return countN(g.GetNodesWithAllLabels(lpg.StringSet{})) }},
		{"GetNodesWithProperty(unindexed), GetEdgesWithProperty(unindexed)", func() int {
			countN(g.GetNodesWithProperty("c"))
			countE(g.GetEdgesWithProperty("c"))
			return 0
		}},
		{"FindEdges(unindexed)", func() int { countE(g.FindEdges(lpg.NewStringSet(), map[string]any{"c": 1})); return 0 }},
		{"Sources, Sinks", func() int { countN(lpg.SourcesItr(g)); lpg.Sinks(g); return 0 }},
		{"FindNodes(unindexed)", func() int { countN(g.FindNodes(lpg.StringSet{}, map[string]any{"c": 1})); return 0 }},
		{"ForEachNode", func() int { lpg.ForEachNode(g, func(*lpg.Node) bool { return true }); return 0 }},
		{"Encode", func() int { rd(lpg.JSON{}.Encode(g, io.Discard)); return 0 }},
		{"Decode", func() int {
			var b bytes.Buffer
			t0 := sc.o.ticks
			rd(lpg.JSON{}.Encode(g, &b))
			sc.skip += sc.o.ticks - t0
			rd(lpg.JSON{}.Decode(lpg.NewGraph(), json.NewDecoder(&b)))
			return 0
		}},
		{"CopyGraph", func() int {
			lpg.CopyGraph(g, lpg.NewGraph(), func(_ string, v any) any { return v })
			return 0
		}},
		{"AddNodePropertyIndex", func() int { // a property no other job uses
			sc.ixs++
			g.AddNodePropertyIndex([]string{"c1", "c2"}[sc.ixs%2], lpg.IndexType(sc.r.N(2)))
			return 0
		}},
		{"DOT", func() int { rd(lpg.DOTRenderer{}.Render(g, "g", io.Discard)); return 0 }},
	}
}

func countN(it lpg.NodeIterator) (n int) {
	for it.Next() {
		it.Node()
		n++
	}
	return
}

func countE(it lpg.EdgeIterator) (n int) {
	for it.Next() {
		it.Edge()
		n++
	}
	return
}

func (sc *scaler) jobs() []scaleJob {
	g, t := sc.g, sc.t
	set := lpg.NewStringSet
	props := func(k string, v any) map[string]any { return map[string]any{k: v} }
	js := []scaleJob{
		{"GetNodesWithAllLabels(T)", func() int { return countN(g.GetNodesWithAllLabels(set("T"))) }},
		{"GetNodesWithAllLabels(T,U)", func() int { return countN(g.GetNodesWithAllLabels(set("T", "U"))) }},
		{"GetNodesWithAllLabels(T,F)", func() int { return countN(g.GetNodesWithAllLabels(set("T", "F"))) }},
		{"GetNodesWithAllLabels(absent)", func() int { return countN(g.GetNodesWithAllLabels(set("F", "absent"))) }},
		{"FindNodes(T)", func() int { return countN(g.FindNodes(set("T"), nil)) }},
		{"FindNodes(T,c)", func() int { return countN(g.FindNodes(set("T"), props("c", 1))) }},
		{"GetEdgesWithAnyLabel(te)", func() int { return countE(g.GetEdgesWithAnyLabel(set("te"))) }},
		{"GetEdgesWithAnyLabel(te,ue)", func() int { return countE(g.GetEdgesWithAnyLabel(set("te", "ue", "absent"))) }},
		{"FindEdges(te)", func() int { return countE(g.FindEdges(set("te"), nil)) }},
		{"FindEdges(te,c)", func() int { return countE(g.FindEdges(set("te"), props("c", 1))) }},
		{"hub.GetEdgesWithLabel(te)", func() int {
			return countE(sc.hub.GetEdgesWithLabel(lpg.OutgoingEdge, "te")) + countE(sc.hub.GetEdgesWithLabel(lpg.IncomingEdge, "te")) + countE(sc.hub.GetEdgesWithLabel(lpg.AnyEdge, "te"))
		}},
		{"hub.GetEdgesWithAnyLabel(te,ue)", func() int { return countE(sc.hub.GetEdgesWithAnyLabel(lpg.OutgoingEdge, set("te", "ue"))) }},
		{"node.GetEdges", func() (n int) {
			for _, x := range t {
				n += countE(x.GetEdges(lpg.OutgoingEdge)) + countE(x.GetEdges(lpg.IncomingEdge)) + countE(x.GetEdges(lpg.AnyEdge))
			}
			return
		}},
		{"cursor", func() (n int) {
			c := lpg.Cursor{}
			c.Set(sc.hub)
			return countE(c.ForwardWith("te")) + countN(c.NextNodesWith("te"))
		}},
		{"NumNodes, NumEdges", func() int { g.NumNodes(); g.NumEdges(); return 0 }},
		{"NewNode, NewEdge, Remove", func() int {
			a, b := g.NewNode([]string{"F", "G"}, map[string]any{"ik": "z", "c": 1}), g.NewNode(nil, nil)
			e := g.NewEdge(a, b, "f", map[string]any{"ik": "z"})
			f := g.NewEdge(sc.hub, b, "f", nil)
			e.Remove()
			f.Remove()
			g.NewEdge(a, t[0], "f", nil)
			g.NewEdge(sc.hub, a, "f", nil)
			a.DetachAndRemove()
			b.DetachAndRemove()
			return 0
		}},
		{"one-off labels", func() int {
			a, b := g.NewNode([]string{"Q", "F"}, nil), g.NewNode([]string{"Q1", "Q2"}, nil)
			a.SetLabels(set("R"))
			a.DetachAndRemove()
			b.SetLabels(set("F", "Q2"))
			b.DetachAndRemove()
			return 0
		}},
		{"SetLabels", func() int {
			a := g.NewNode([]string{"F", "G"}, nil)
			for i := 0; i < 3; i++ {
				a.SetLabels(set("G", "H"))
				a.SetLabels(set("F"))
				a.SetLabels(set())
			}
			a.DetachAndRemove()
			return 0
		}},
		{"SetProperty", func() int {
			a := g.NewNode([]string{"F", "G"}, nil)
			e := g.NewEdge(a, sc.hub, "f", nil)
			for i := 0; i < 3; i++ {
				a.SetProperty("ik", fmt.Sprint("z", i))
				a.SetProperty("c", i)
				e.SetProperty("ik", fmt.Sprint("z", i))
			}
			a.RemoveProperty("ik")
			e.RemoveProperty("ik")
			a.DetachAndRemove()
			return 0
		}},
		{"SetLabel of an edge", func() int {
			e := g.NewEdge(t[0], sc.hub, "f", nil)
			for i := 0; i < 3; i++ {
				e.SetLabel("fe")
				e.SetLabel("f")
			}
			e.Remove()
			return 0
		}},
		{"Pattern from a label", func() int {
			p := lpg.Pattern{{Labels: set("T")}, {Min: 1, Max: 1, Labels: set("te")}, {}}
			ns, err := p.FindNodes(g, nil)
			if err != nil {
				sc.o.fail("pattern", "%v", err)
			}
			return len(ns)
		}},
		{"Pattern to a label", func() int {
			p := lpg.Pattern{{}, {Min: 1, Max: 1, Labels: set("te")}, {Labels: set("T", "U")}}
			ns, err := p.FindNodes(g, nil)
			if err != nil {
				sc.o.fail("pattern", "%v", err)
			}
			return len(ns)
		}},
	}
	js = append(js, scaleJob{"Pattern from a supplied variable", func() int {
		x, y := &lpg.PatternSymbol{}, &lpg.PatternSymbol{}
		x.AddNode(t[0])
		x.AddNode(t[1])
		for it := t[0].GetEdgesWithLabel(lpg.AnyEdge, "te"); it.Next(); {
			y.Add(it.Edge())
		}
		n := 0
		for _, p := range []lpg.Pattern{
			{{Name: "x"}, {Min: 1, Max: 1, Labels: set("te")}, {}},
			{{}, {Min: 1, Max: 1, Labels: set("te"), ToLeft: true}, {Name: "x", Properties: props("fk", 1)}},
			{{Labels: set("F")}, {Min: 1, Max: 1, Name: "y"}, {}},
		} {
			syms := map[string]*lpg.PatternSymbol{"x": x}
			if y.Edges != nil {
				syms["y"] = y
			} else if p[1].Name == "y" {
				continue
			}
			acc, err := p.FindPaths(g, syms)
			if err != nil {
				sc.o.fail("pattern", "%v", err)
			}
			n += len(acc.Paths)
		}
		return n
	}})
	js = append(js, scaleJob{"Pattern from an edge label", func() int {
		n := 0
		for _, p := range []lpg.Pattern{
			{{}, {Min: 1, Max: 1, Labels: set("te")}, {}},
			{{Labels: set("F")}, {Min: 1, Max: 1, Labels: set("te", "ue"), ToLeft: true}, {}},
			{{}, {Min: 1, Max: 1, Labels: set("te", "absent"), Properties: props("c", 1)}, {}},
		} {
			acc, err := p.FindPaths(g, nil)
			if err != nil {
				sc.o.fail("pattern", "%v", err)
			}
			n += len(acc.Paths)
		}
		return n
	}})
	if sc.nodesIx {
		js = append(js,
			scaleJob{"Pattern from an index", func() int {
				p := lpg.Pattern{{Properties: props("ik", "v1")}, {Min: 1, Max: 1, Labels: set("te", "ue")}, {}}
				acc, err := p.FindPaths(g, nil)
				if err != nil {
					sc.o.fail("pattern", "%v", err)
				}
				return len(acc.Paths)
			}},
			scaleJob{"FindNodes(ik)", func() int { return countN(g.FindNodes(set(), props("ik", "v1"))) }},
			scaleJob{"FindNodes(F,ik)", func() int { return countN(g.FindNodes(set("F"), props("ik", "v0"))) }},
			scaleJob{"FindNodes(absent ik)", func() int { return countN(g.FindNodes(set("F"), props("ik", "absent"))) }},
			scaleJob{"FindNodes(ik,c)", func() int { return countN(g.FindNodes(set(), map[string]any{"ik": "v1", "c": 1})) }},
			scaleJob{"FindNodes(ik,fk)", func() int { // one value is rare, the other frequent
				return countN(g.FindNodes(set(), map[string]any{"ik": "v1", "fk": 1})) + countN(g.FindNodes(set("F", "T"), map[string]any{"ik": "v0", "fk": 1}))
			}},
			scaleJob{"FindNodes(T,fk)", func() int { return countN(g.FindNodes(set("T"), props("fk", 1))) }},
			scaleJob{"FindNodes(fk,absent ik)", func() int { return countN(g.FindNodes(set(), map[string]any{"ik": "absent", "fk": 1})) }},
			scaleJob{"Pattern from the rarer index", func() int {
				p := lpg.Pattern{{Labels: set("T"), Properties: props("fk", 1)}, {Min: 1, Max: 1, Labels: set("te", "ue")}, {Properties: props("fk", 1)}}
				acc, err := p.FindPaths(g, nil)
				if err != nil {
					sc.o.fail("pattern", "%v", err)
				}
				return len(acc.Paths)
			}},
			scaleJob{"GetNodesWithProperty(tk)", func() int { return countN(g.GetNodesWithProperty("tk")) }},
		)
	}
	if sc.edgesIx {
		js = append(js,
			scaleJob{"FindEdges(ik)", func() int { return countE(g.FindEdges(set(), props("ik", "v1"))) }},
			scaleJob{"FindEdges(f,ik)", func() int { return countE(g.FindEdges(set("f", "te"), props("ik", "v0"))) }},
			scaleJob{"FindEdges(absent ik)", func() int { return countE(g.FindEdges(set("f"), props("ik", "absent"))) }},
			scaleJob{"FindEdges(ik,fk)", func() int {
				return countE(g.FindEdges(set(), map[string]any{"ik": "v1", "fk": 1})) + countE(g.FindEdges(set("f", "te"), map[string]any{"ik": "v0", "fk": 1}))
			}},
			scaleJob{"FindEdges(te,fk)", func() int { // the labels are rare, the value frequent
				return countE(g.FindEdges(set("te"), props("fk", 1))) + countE(g.FindEdges(set("te", "ue"), props("fk", 1))) + countE(g.FindEdges(set("te", "absent"), props("fk", 1)))
			}},
			scaleJob{"Pattern from the rarer of edge label and index", func() int {
				p := lpg.Pattern{{}, {Min: 1, Max: 1, Labels: set("te", "ue"), Properties: props("fk", 1)}, {}}
				acc, err := p.FindPaths(g, nil)
				if err != nil {
					sc.o.fail("pattern", "%v", err)
				}
				return len(acc.Paths)
			}},
			scaleJob{"Pattern from an edge index", func() int {
				n := 0
				for _, p := range []lpg.Pattern{
					{{}, {Min: 1, Max: 1, Properties: props("ik", "v1")}, {}},
					{{}, {Min: 1, Max: 1, Labels: set("te", "f"), Properties: map[string]any{"ik": "v0", "fk": 1}, ToLeft: true}, {}},
				} {
					acc, err := p.FindPaths(g, nil)
					if err != nil {
						sc.o.fail("pattern", "%v", err)
					}
					n += len(acc.Paths)
				}
				return n
			}},
			scaleJob{"GetEdgesWithProperty(tk)", func() int { return countE(g.GetEdgesWithProperty("tk")) }},
		)
	}
	return js
}

func init() {
	reg("scale", nil, func(o *opx) {
		r := prog.NewRng(prog.Mix(uint64(o.a(1)), uint64(o.a(2))))
		sc := &scaler{o: o, g: lpg.NewGraph(), r: r}
		it := []lpg.IndexType{lpg.IndexType(r.N(2)), lpg.IndexType(r.N(2))}
		sc.nodesIx, sc.edgesIx = r.N(4) > 0, r.N(4) > 0
		ix := func() {
			if sc.nodesIx {
				sc.g.AddNodePropertyIndex("ik", it[0])
				sc.g.AddNodePropertyIndex("tk", lpg.IndexType(r.N(2)))
				sc.g.AddNodePropertyIndex("fk", lpg.IndexType(r.N(2)))
			}
			if sc.edgesIx {
				sc.g.AddEdgePropertyIndex("ik", it[1])
				sc.g.AddEdgePropertyIndex("tk", lpg.IndexType(r.N(2)))
				sc.g.AddEdgePropertyIndex("fk", lpg.IndexType(r.N(2)))
			}
		}
		late := r.N(2) == 0
		if !late {
			ix()
		}
		pick := func(p map[string]any) map[string]any {
			if r.N(3) > 0 {
				p["ik"] = fmt.Sprint("v", r.N(3))
			}
			if r.N(2) > 0 {
				p["tk"] = r.N(3)
			}
			if r.N(2) > 0 {
				p["c"] = r.N(2)
			}
			if r.N(2) > 0 {
				p["fk"] = 1
			}
			return p
		}
		sc.hub = sc.g.NewNode([]string{"hub"}, nil)
		for i := 2 + r.N(3); i > 0; i-- {
			ls := []string{"T"}
			if r.N(2) == 0 {
				ls = append(ls, "U")
			}
			if r.N(3) == 0 {
				ls = append(ls, "F")
			}
			sc.t = append(sc.t, sc.g.NewNode(ls, pick(map[string]any{})))
		}
		for i := 1 + r.N(4); i > 0; i-- {
			a, b := sc.t[r.N(len(sc.t))], sc.t[r.N(len(sc.t))]
			switch r.N(3) {
			case 0:
				a = sc.hub
			case 1:
				b = sc.hub
			}
			sc.g.NewEdge(a, b, []string{"te", "te", "ue"}[r.N(3)], pick(map[string]any{}))
		}
		n := 30 + r.N(30)*(1+r.N(3))
		for sc.n < n {
			sc.filler()
		}
		if late {
			ix()
		}
		js := sc.jobs()
		nj := len(js)
		js = append(js, sc.bulk()...)
		type timing struct {
			ts   []int64
			cs   []int
			size int64
		}
		measure := func() (m timing) {
			m.size = int64(sc.g.NumNodes() + sc.g.NumEdges())
			for _, j := range js {
				o.setBudget(4000000)
				sc.skip = 0
				t0 := o.ticks
				c := j.run()
				m.ts, m.cs = append(m.ts, o.ticks-t0-sc.skip), append(m.cs, c)
				o.yield("scale")
			}
			return
		}
		compare := func(m1, m2 timing, what string) {
			o.oracle("scale")
			for i, j := range js {
				t1, t2 := m1.ts[i], m2.ts[i]
				lim := t1*2 + 300
				if i < nj {
					if m1.cs[i] != m2.cs[i] {
						o.fail("scale", "%s has %d results, and %d after unrelated elements were %s", j.name, m1.cs[i], m2.cs[i], what)
					}
					if t2 > lim {
						o.fail("scale", "%s takes %d steps in a graph of %d elements and, after others were %s, %d in one of %d, with the same %d results", j.name, t1, m1.size, what, t2, m2.size, m1.cs[i])
					}
				} else {
					lim = t1*3 + 1500
					if m2.size > m1.size {
						lim = (t1+40)*3*m2.size/m1.size + 1500
					}
					if t2 > lim {
						o.fail("scale", "%s takes %d steps in a graph of %d elements and, after others were %s, %d in one of %d", j.name, t1, m1.size, what, t2, m2.size)
					}
				}
				if v := t2 * 100 / lim; v > o.c.st.MaxTicks["% of allowed steps: "+j.name] {
					o.c.st.MaxTicks["% of allowed steps: "+j.name] = v
				}
				o.note("%s %d %d", j.name, t1, t2)
			}
			if x := sc.g.NumNodes() + sc.g.NumEdges(); x > o.s.peak {
				o.s.peak = x
			}
		}
		m1 := measure()
		for k := 0; sc.n < n*10; k++ {
			sc.filler()
			if k%48 == 47 {
				sc.burst()
			}
		}
		compare(m1, measure(), "added")
		if r.N(2) == 0 { // and once they are gone again
			for i, x := range sc.fill {
				x.DetachAndRemove()
				if i%16 == 0 {
					o.setBudget(400000)
				}
			}
			o.probe("shrunk-graph")
			compare(m1, measure(), "removed")
		}
	})
}
