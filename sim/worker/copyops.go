package main

import (
	"encoding/json"

	"github.com/cloudprivacylabs/lpg/v2"
)

// ---- P11 / P16: copies ----

type cloner struct {
	o      *opx
	mode   int
	panics bool
	calls  int
	known  map[string]bool // "key=value" pairs of the source
}

func cloneVal(mode int, k string, v any) any {
	if k == "uid" {
		return v
	}
	switch mode {
	case 1:
		switch x := v.(type) {
		case int:
			return x + 1
		case string:
			return x + "a"
		case NV:
			return NV{cloneVal(1, k, x.V)}
		}
		return v
	case 2:
		switch x := v.(type) {
		case []string:
			return append([]string{}, x...)
		case []int:
			return append([]int{}, x...)
		case []any:
			return append([]any{}, x...)
		case *PNV:
			return &PNV{x.V}
		}
		return v
	case 3:
		if k == "ps" {
			if s, ok := native(v).(string); ok {
				return NV{s}
			}
		}
	}
	return v
}

func (c *cloner) fn(k string, v any) any {
	c.calls++
	c.o.yield("clone")
	if c.panics {
		c.o.maybePanic("clone")
	}
	if !c.known[k+"="+canon(v)] {
		c.o.fail("copy", "clone function called for a property the source does not have: %q=%s", k, canon(v))
	}
	return cloneVal(c.mode, k, v)
}

func (c *cloner) exp(p map[string]any) map[string]any {
	out := map[string]any{}
	for k, v := range p {
		out[k] = cloneVal(c.mode, k, v)
	}
	return out
}

func (o *opx) newCloner(mg *MGraph, mode int, panics bool) *cloner {
	c := &cloner{o: o, mode: mode % 4, panics: panics, known: map[string]bool{}}
	for _, n := range mg.nodes {
		for k, v := range n.props {
			c.known[k+"="+canon(v)] = true
		}
	}
	for _, e := range mg.edges {
		for k, v := range e.props {
			c.known[k+"="+canon(v)] = true
		}
	}
	return c
}

func (o *opx) execCopy(panics bool) {
	src, tgt := o.g0(), o.g1()
	if src == tgt {
		o.skip()
	}
	if len(tgt.nodes)+len(src.nodes) > 3*o.s.cfg.MaxN {
		o.trimGraph(tgt)
	}
	c := o.newCloner(src, o.a(3), panics)
	sn, se := src.nodes, src.edges
	var nodeMap map[*lpg.Node]*lpg.Node
	what := ""
	o.setBudget(50000 + 3000*int64(len(src.nodes)+len(src.edges)+len(tgt.nodes)+len(tgt.edges)))
	var inj bool
	checkRet := func(old *lpg.Edge, e *lpg.Edge) {
		if e == nil || e.GetGraph() != tgt.g {
			o.fail("copy", "the copy of an edge was not returned as an edge of the target")
		}
	}
	switch o.a(2) % 5 {
	case 0, 1:
		what = "CopyGraph"
		inj = o.try(func() { nodeMap = lpg.CopyGraph(src.g, tgt.g, c.fn) })
	case 2:
		what = "CopyGraphf"
		skipN := func(n *MNode) bool { return o.a(4)%3 != 0 && (n.uid+o.a(5))%3 == 0 }
		skipE := func(e *MEdge) bool { return o.a(4)%2 == 1 && (e.uid+o.a(5))%3 == 0 }
		sn = src.selNodes(func(n *MNode) bool { return !skipN(n) })
		se = src.selEdges(func(e *MEdge) bool { return !skipN(e.from) && !skipN(e.to) && !skipE(e) })
		inj = o.try(func() {
			nodeMap = lpg.CopyGraphf(src.g, func(n *lpg.Node, m map[*lpg.Node]*lpg.Node) *lpg.Node {
				o.yield("copyNode")
				if panics {
					o.maybePanic("copyNode")
				}
				mn := src.byN[n]
				if mn == nil {
					o.fail("copy", "CopyGraphf asked for a node that is not in the source")
				}
				if skipN(mn) {
					return nil
				}
				return lpg.CopyNode(n, tgt.g, c.fn)
			}, func(e *lpg.Edge, m map[*lpg.Node]*lpg.Node) *lpg.Edge {
				o.yield("copyEdge")
				if panics {
					o.maybePanic("copyEdge")
				}
				me := src.byE[e]
				if me == nil {
					o.fail("copy", "CopyGraphf asked for an edge that is not in the source")
				}
				if skipN(me.from) || skipN(me.to) {
					o.fail("copy", "CopyGraphf asked for %s although one of its nodes is not copied", me)
				}
				if skipE(me) {
					return nil
				}
				ne := lpg.CopyEdge(e, tgt.g, c.fn, m)
				checkRet(e, ne)
				return ne
			})
		})
	case 3:
		what = "CopySubgraph"
		roots := []*MNode{o.node(src, o.a(4))}
		for i := o.a(5) % 4; i > 1; i-- { // several parts, one node map
			roots = append(roots, o.node(src, o.a(6)*i+i))
			o.probe("copy-several-parts")
		}
		reach := map[*MNode]bool{}
		for _, n := range roots {
			reach[n] = true
		}
		for again := true; again; {
			again = false
			for _, e := range src.edges {
				if reach[e.from] && !reach[e.to] {
					reach[e.to] = true
					again = true
				}
			}
		}
		sn = src.selNodes(func(n *MNode) bool { return reach[n] })
		se = src.selEdges(func(e *MEdge) bool { return reach[e.from] })
		m := map[*lpg.Node]*lpg.Node{}
		inj = o.try(func() {
			for _, n := range roots {
				lpg.CopySubgraph(n.h, tgt.g, c.fn, m)
			}
		})
		nodeMap = m
		if len(sn) > 1 && len(sn) < len(src.nodes) {
			o.probe("proper-subgraph")
		}
	case 4:
		what = "CopyNode/CopyEdge"
		sn = src.selNodes(func(n *MNode) bool { return (o.a(4)>>(n.uid%7))&1 == 1 })
		in := map[*MNode]bool{}
		for _, n := range sn {
			in[n] = true
		}
		se = src.selEdges(func(e *MEdge) bool { return in[e.from] && in[e.to] && (o.a(5)>>(e.uid%7))&1 == 1 })
		m := map[*lpg.Node]*lpg.Node{}
		inj = o.try(func() {
			for _, n := range sn {
				x := lpg.CopyNode(n.h, tgt.g, c.fn)
				if x == nil || x.GetGraph() != tgt.g {
					o.fail("copy", "CopyNode did not return a node of the target")
				}
				m[n.h] = x
			}
			for i, e := range se {
				var x *lpg.Edge
				if (o.a(6)+i)%2 == 0 {
					x = lpg.CopyEdge(e.h, tgt.g, c.fn, m)
				} else {
					x = lpg.CloneEdge(m[e.from.h], m[e.to.h], e.h, tgt.g, c.fn)
				}
				checkRet(e.h, x)
			}
		})
		nodeMap = m
	}
	o.relax()
	o.oracle("copy")
	if len(tgt.nodes) > 0 {
		o.probe("copy-into-non-empty")
	}
	for k := range tgt.nodeIx {
		_ = k
		o.probe("copy-into-indexed")
		break
	}
	nn, ne := o.absorb(tgt, "copy")
	o.checkPrior("copy", tgt, nn, ne)
	var hint map[*MNode]*MNode
	if !inj {
		hint = o.hintOf("copy", what, src, tgt, nodeMap, sn, nn)
	}
	m := o.matchAdded("copy", what, nn, ne, sn, se, c.exp, !inj, hint)
	if len(ne) > 0 {
		o.probe("copy-with-edges")
	}
	if !inj {
		for _, n := range sn {
			if nodeMap[n.h] != m[n].h {
				o.fail("copy", "%s maps %s to another node than its copy", what, n)
			}
		}
		if len(nn)+len(ne) > 0 {
			o.probe("copy-nonempty")
		}
	}
	o.auditFull(tgt, o.a(7))
	o.reUID(nn, ne)
	o.auditFull(src, o.a(7)+1)
	if o.a(7)%2 == 0 {
		o.auditFull(tgt, o.a(7)+2)
	}
	o.note("copied %d nodes %d edges", len(nn), len(ne))
	o.trimGraph(tgt)
	if o.s.p.Prop == "P11" {
		o.s.w.noteState(o.s, tgt)
	}
}

// findPanic: caller-supplied predicates in plain enumeration functions.
func (o *opx) execEachPanic() {
	mg := o.g0()
	seen := 0
	o.try(func() {
		lpg.ForEachNode(mg.g, func(n *lpg.Node) bool {
			seen++
			o.yield("foreach")
			o.maybePanic("foreach")
			return o.choose("stop", 2) == 0
		})
	})
	for _, n := range mg.nodes {
		o.try(func() {
			n.h.ForEachProperty(func(k string, v any) bool {
				o.maybePanic("foreachproperty")
				return true
			})
		})
	}
	o.auditFull(mg, o.a(7))
}

func init() {
	reg("copy", rd0wr1, func(o *opx) { o.execCopy(false) })
	reg("copyPanic", rd0wr1, func(o *opx) { o.execCopy(true) })
	reg("eachPanic", rd0, func(o *opx) { o.execEachPanic() })
	// reading of single elements in ways nothing else exercises
	reg("readMisc", rd0, func(o *opx) {
		mg := o.g0()
		o.oracle("misc")
		for _, n := range mg.nodes {
			a := n.h.String()
			if b := n.h.String(); a == "" || len(a) != len(b) {
				o.fail("misc", "String() of %s is not stable: %q %q", n, a, b)
			}
			if d, err := json.Marshal(n.h); !anyBad(n.props) && (err != nil || len(d) < 2) {
				o.fail("misc", "%s does not marshal: %q %v", n, d, err)
			}
			ls := n.h.GetLabels()
			if ls.String() == "" && joinLabels(n.labels) != "" {
				o.fail("misc", "labels of %s print as nothing", n)
			}
			if !ls.IsEqual(lpg.NewStringSet(n.labels...)) || ls.Len() != len(n.labels) {
				o.fail("misc", "labels of %s differ", n)
			}
			if !ls.HasAll(n.labels...) || (len(n.labels) > 0 && !ls.HasAny(n.labels...)) {
				o.fail("misc", "labels of %s differ", n)
			}
			f := lpg.GetNodeFilterFunc(lpg.NewStringSet(n.labels...), n.props)
			if f(n.h) != matchProps(n.props, n.props) {
				o.fail("misc", "whether %s satisfies a filter made from itself is %v", n, f(n.h))
			}
		}
		for _, e := range mg.edges {
			if d, err := json.Marshal(e.h); !anyBad(e.props) && (err != nil || len(d) < 2) {
				o.fail("misc", "%s does not marshal: %q %v", e, d, err)
			}
			if e.h.String() == "" {
				o.fail("misc", "String() of %s is empty", e)
			}
			f := lpg.GetEdgeFilterFunc(lpg.NewStringSet(e.label), e.props)
			if e.label != "" && f(e.h) != matchProps(e.props, e.props) {
				o.fail("misc", "whether %s satisfies a filter made from itself is %v", e, f(e.h))
			}
		}
	})
}

func anyBad(p map[string]any) bool {
	for _, v := range p {
		if isBad(v) {
			return true
		}
	}
	return false
}
