package main

import (
	"bytes"
	"encoding/json"

	"github.com/cloudprivacylabs/lpg/v2"
)

// sharedArgs are arguments and results that several callers hold at the same
// time. One of them makes them while nobody reads the graph; from then on all
// only read them, whatever happens to the graph.
type sharedArgs struct {
	mg     *MGraph
	q      *patArgs
	nl, el []string
	nset   lpg.StringSet
	eset   lpg.StringSet
	props  map[string]any
	was    string
	paths  []*ownPath
	set    *lpg.NodeSet
	setM   []*MNode
	eds    *lpg.EdgeSet
	edsM   []*MEdge
}

func (o *opx) execShare() {
	mg := o.g0()
	sh := &sharedArgs{mg: mg, q: o.patternArgs(mg)}
	sh.nl = normLabels(subset(o.s.w.nlab, o.a(5)&o.a(6)))
	sh.el = normLabels(subset(o.s.w.elab, o.a(7)))
	sh.nset, sh.eset = labelSet(o.a(8)%2 == 0, sh.nl), labelSet(o.a(8)%4 < 2, sh.el)
	sh.props = map[string]any{}
	if len(mg.nodes) > 0 && o.a(9)%3 > 0 {
		sh.props = lift(o.node(mg, o.a(9)/3).props, o.a(10))
	}
	sh.was = canonProps(sh.props)
	for i := 0; i < 2 && len(mg.nodes) > 0; i++ {
		at := o.node(mg, o.a(11)+i)
		els := o.walk(mg, at, o.a(12)%5, o.a(13)+i, i)
		x := &ownPath{lpg.PathFromNode(at.h), mpath{only: at}}
		if len(els) > 0 {
			x = &ownPath{lpg.NewPathFromElements(libEls(els)...), mpath{els: els}}
		}
		sh.paths = append(sh.paths, x)
	}
	sh.set, sh.eds = lpg.NewNodeSet(), lpg.NewEdgeSet()
	for i, n := range mg.nodes {
		if o.a(14)>>(i%9)&1 == 0 {
			sh.set.Add(n.h)
			sh.setM = append(sh.setM, n)
		}
	}
	for i, e := range mg.edges {
		if o.a(15)>>(i%9)&1 == 0 {
			sh.eds.Add(e.h)
			sh.edsM = append(sh.edsM, e)
		}
	}
	o.s.w.shared[mg.slot] = sh
}

func (w *world) sharedFor(mg *MGraph) *sharedArgs {
	if sh := w.shared[mg.slot]; sh != nil && sh.mg == mg {
		return sh
	}
	return nil
}

func (sh *sharedArgs) live(mg *MGraph) bool {
	for _, x := range sh.paths {
		for _, n := range x.m.nodes() {
			if mg.byN[n.h] != n {
				return false
			}
		}
		for _, el := range x.m.els {
			if mg.byE[el.e.h] != el.e {
				return false
			}
		}
	}
	return true
}

func (o *opx) execAskShared() {
	mg := o.g0()
	sh := o.s.w.sharedFor(mg)
	if sh == nil {
		o.skip()
	}
	o.probe("shared-arguments")
	o.oracle("shared")
	const cl = "shared"
	g := mg.g
	hasN := func(n *MNode) bool { return hasAll(n.labels, sh.nl) }
	hasE := func(e *MEdge) bool { return len(sh.el) == 0 || has(sh.el, e.label) }
	for i := 0; i < 1+o.a(1)%3; i++ {
		o.yield("next")
		switch x := o.a(2 + i); x % 8 {
		case 0:
			o.nodesEq(mg, cl, "GetNodesWithAllLabels", o.drainN(mg, g.GetNodesWithAllLabels(sh.nset), "GetNodesWithAllLabels"), mg.selNodes(hasN))
		case 1:
			o.edgesEq(mg, cl, "GetEdgesWithAnyLabel", o.drainE(mg, g.GetEdgesWithAnyLabel(sh.eset), "GetEdgesWithAnyLabel"), mg.selEdges(func(e *MEdge) bool { return has(sh.el, e.label) }))
		case 2:
			o.nodesEq(mg, cl, "FindNodes", o.drainN(mg, g.FindNodes(sh.nset, sh.props), "FindNodes"), mg.selNodes(func(n *MNode) bool { return hasN(n) && matchProps(n.props, sh.props) }))
		case 3:
			o.edgesEq(mg, cl, "FindEdges", o.drainE(mg, g.FindEdges(sh.eset, sh.props), "FindEdges"), mg.selEdges(func(e *MEdge) bool { return hasE(e) && matchProps(e.props, sh.props) }))
		case 4:
			if len(mg.nodes) > 0 {
				n := o.node(mg, x/8)
				d := []lpg.EdgeDir{lpg.IncomingEdge, lpg.OutgoingEdge, lpg.AnyEdge}[x/64%3]
				o.edgesEq(mg, cl, "Node.GetEdgesWithAnyLabel", o.drainE(mg, n.h.GetEdgesWithAnyLabel(d, sh.eset), "Node.GetEdgesWithAnyLabel"), mg.incident(n, d, hasE))
			}
		case 5:
			if !sh.live(mg) {
				continue
			}
			for _, p := range sh.paths {
				o.checkPath(p, "shared path")
				for _, q := range sh.paths {
					if len(p.m.nodes()) > 0 && p.p.HasPrefixPath(q.p) != refHasPrefixPath(p.m, q.m) {
						o.fail(cl, "HasPrefixPath of %s and %s is wrong", p.m, q.m)
					}
				}
				c := &ownPath{p.p.Clone(), p.m.clone()}
				o.checkPath(c, "clone of a shared path")
				c.p.RemoveLast()
				if k := len(p.m.els); k > 0 {
					c = &ownPath{p.p.Slice(0, k+1), p.m.clone()}
					o.checkPath(c, "slice of a shared path")
					d := &ownPath{(&lpg.Path{}).AppendPath(p.p), p.m.clone()}
					d.p.RemoveLast()
					_ = p.p.String()
				}
				o.checkPath(p, "shared path")
			}
		case 6:
			for _, n := range mg.nodes {
				in := false
				for _, m := range sh.setM {
					in = in || m == n
				}
				if sh.set.Has(n.h) != in {
					o.fail(cl, "NodeSet.Has(%s) = %v", n, !in)
				}
			}
			if sh.set.Len() != len(sh.setM) || sh.eds.Len() != len(sh.edsM) {
				o.fail(cl, "a shared set has changed its size")
			}
			k := 0
			for it := sh.set.Iterator(); it.Next(); k++ {
			}
			l := len(sh.eds.Slice())
			if k != len(sh.setM) || len(sh.set.Slice()) != k || l != len(sh.edsM) {
				o.fail(cl, "a shared set delivers %d nodes, %d edges instead of %d, %d", k, l, len(sh.setM), len(sh.edsM))
			}
		case 7:
			c := sh.nset.Clone()
			c.Add("zz")
			if !sh.nset.HasAllSet(sh.nset) || !sh.nset.IsEqual(labelSet(false, sh.nl)) || c.IsEqual(sh.nset) && !has(sh.nl, "zz") || sh.nset.HasAnySet(sh.eset) != anyOf(sh.nl, sh.el) {
				o.fail(cl, "the shared set %q answers wrongly", sh.nl)
			}
			_ = sh.nset.String()
			if _, err := sh.nset.MarshalJSON(); err != nil {
				o.fail(cl, "a set does not marshal: %v", err)
			}
		}
	}
	if a, b := sh.nset.SortedSlice(), sh.eset.SortedSlice(); !eqStrings(a, sh.nl) || !eqStrings(b, sh.el) || canonProps(sh.props) != sh.was {
		o.fail(cl, "queries changed their arguments: labels %q, %q, properties %s; they were %q, %q, %s", a, b, canonProps(sh.props), sh.nl, sh.el, sh.was)
	}
}

func anyOf(a, b []string) bool {
	for _, x := range a {
		if has(b, x) {
			return true
		}
	}
	return false
}

func init() {
	reg("share", wr0, func(o *opx) { o.execShare() })
	reg("askShared", rd0, func(o *opx) { o.execAskShared() })
	// loading a small document is another way to create elements
	reg("load", wr0, func(o *opx) {
		mg := o.g0()
		if len(mg.nodes) > 2*o.s.cfg.MaxN {
			o.skip()
		}
		nn, ne := 1+o.a(1)%3, o.a(2)%4
		num := func(i int) int { return []int{i, 100 * i, 7 - i, len(mg.nodes) + len(mg.edges) + i + 1}[o.a(3)%4] }
		type m = map[string]any
		var nodes, edges []m
		for i := 0; i < nn; i++ {
			nodes = append(nodes, m{"n": num(i), "labels": subset(o.s.w.nlab, o.a(4)>>i), "properties": m{"ps": "a"}})
		}
		for i := 0; i < ne; i++ {
			f, e := (o.a(5)+i)%nn, m{"to": num((o.a(6) + i) % nn), "label": o.s.w.elab[(o.a(7)+i)%len(o.s.w.elab)]}
			if o.a(8)>>i&1 == 0 {
				e["from"] = num(f)
				edges = append(edges, e)
			} else {
				l, _ := nodes[f]["edges"].([]m)
				nodes[f]["edges"] = append(l, e)
			}
		}
		doc := m{"nodes": nodes}
		if edges != nil {
			doc["edges"] = edges
		}
		data, err := json.Marshal(doc)
		if err != nil {
			o.fail("load", "%v", err)
		}
		o.setDecodeBudget(len(data))
		if err := (lpg.JSON{}).Decode(mg.g, json.NewDecoder(bytes.NewReader(data))); err != nil {
			o.fail("load", "%s does not load: %v", data, err)
		}
		o.relax()
		an, ae := o.absorb(mg, "load")
		if len(an) != nn || len(ae) != ne {
			o.fail("load", "%d nodes and %d edges came of %s", len(an), len(ae), data)
		}
		o.probe("loaded")
		o.post(mg)
	})
	reg("loadOwn", rd0, func(o *opx) {
		if o.s.cfg.F["jsonprops"] == 0 {
			o.skip()
		}
		o.roundTrip(o.g0(), nil)
	})
}
