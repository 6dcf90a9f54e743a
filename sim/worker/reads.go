package main

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"
	"time"

	"verifsim/prog"

	"github.com/cloudprivacylabs/lpg/v2"
)

// ---- P05: iterators ----

type openIt struct {
	what  string
	n     lpg.NodeIterator
	e     lpg.EdgeIterator
	wantN []*MNode
	wantE []*MEdge
	gotN  []*lpg.Node
	gotE  []*lpg.Edge
	hint  int
	done  bool
	extra int
	late  int
}

const nIterKinds = 22

func (o *opx) openIter(mg *MGraph, kind, x int) *openIt {
	g := mg.g
	nl := subset(o.s.w.nlab, x)
	el := subset(append([]string{"absent"}, o.s.w.elab...), x)
	d := dirs[x%3]
	label := append([]string{"absent"}, o.s.w.elab...)[(x/3)%(len(o.s.w.elab)+1)]
	var it *openIt
	N := func(w string, i lpg.NodeIterator, want []*MNode) { it = &openIt{what: w, n: i, wantN: want} }
	E := func(w string, i lpg.EdgeIterator, want []*MEdge) { it = &openIt{what: w, e: i, wantE: want} }
	needNode := func() *MNode {
		if len(mg.nodes) == 0 {
			return nil
		}
		return mg.nodes[(x/5)%len(mg.nodes)]
	}
	key := nodeKeys[(x/2)%len(nodeKeys)]
	q := map[string]any{}
	if x%3 != 0 {
		q[key] = genVal(key, x/11, o.s.cfg.Vals)
	}
	n := needNode()
	switch kind % nIterKinds {
	case 0:
		N("GetNodes()", g.GetNodes(), mg.nodes)
	case 1:
		E("GetEdges()", g.GetEdges(), mg.edges)
	case 2:
		N(fmt.Sprintf("GetNodesWithAllLabels(%q)", nl), g.GetNodesWithAllLabels(lpg.NewStringSet(nl...)), mg.selNodes(func(n *MNode) bool { return hasAll(n.labels, nl) }))
	case 3:
		E(fmt.Sprintf("GetEdgesWithAnyLabel(%q)", el), g.GetEdgesWithAnyLabel(lpg.NewStringSet(el...)), mg.selEdges(func(e *MEdge) bool { return has(el, e.label) }))
	case 4:
		N(fmt.Sprintf("FindNodes(%q,{%s})", nl, canonProps(q)), g.FindNodes(lpg.NewStringSet(nl...), q), mg.selNodes(func(n *MNode) bool { return hasAll(n.labels, nl) && matchProps(n.props, q) }))
	case 5:
		E(fmt.Sprintf("FindEdges(%q,{%s})", el, canonProps(q)), g.FindEdges(lpg.NewStringSet(el...), q), mg.selEdges(func(e *MEdge) bool { return (len(el) == 0 || has(el, e.label)) && matchProps(e.props, q) }))
	case 6:
		N(fmt.Sprintf("GetNodesWithProperty(%q)", key), g.GetNodesWithProperty(key), mg.selNodes(func(n *MNode) bool { _, ok := n.props[key]; return ok }))
	case 7:
		E(fmt.Sprintf("GetEdgesWithProperty(%q)", key), g.GetEdgesWithProperty(key), mg.selEdges(func(e *MEdge) bool { _, ok := e.props[key]; return ok }))
	case 8:
		N("SourcesItr()", lpg.SourcesItr(g), mg.selNodes(func(n *MNode) bool { return len(mg.incident(n, lpg.IncomingEdge, nil)) == 0 }))
	case 9:
		N("SinksItr()", lpg.SinksItr(g), mg.selNodes(func(n *MNode) bool { return len(mg.incident(n, lpg.OutgoingEdge, nil)) == 0 }))
	case 10:
		N("NodeMap.Iterator()", mg.nm.Iterator(), append([]*MNode{}, mg.nmMem...))
	case 11:
		var want []*MNode
		for _, n := range mg.nmMem {
			if hasAll(n.labels, nl) {
				want = append(want, n)
			}
		}
		N(fmt.Sprintf("NodeMap.IteratorAllLabels(%q)", nl), mg.nm.IteratorAllLabels(lpg.NewStringSet(nl...)), want)
	case 12:
		N("NodeSet.Iterator()", mg.ns.Iterator(), append([]*MNode{}, mg.nsMem...))
	case 13:
		E("EdgeSet.Iterator()", mg.es.Iterator(), append([]*MEdge{}, mg.esMem...))
	case 14, 15, 16, 17, 18, 19, 20:
		if n == nil {
			return nil
		}
		var c lpg.Cursor
		c.Set(n.h)
		byL := func(e *MEdge) bool { return e.label == label }
		switch kind % nIterKinds {
		case 14:
			E(fmt.Sprintf("GetEdges(%s) of %s", dirName(d), n), n.h.GetEdges(d), mg.incident(n, d, nil))
		case 15:
			E(fmt.Sprintf("GetEdgesWithLabel(%s,%q) of %s", dirName(d), label, n), n.h.GetEdgesWithLabel(d, label), mg.incident(n, d, byL))
		case 16:
			E(fmt.Sprintf("GetEdgesWithAnyLabel(%s,%q) of %s", dirName(d), el, n), n.h.GetEdgesWithAnyLabel(d, lpg.NewStringSet(el...)), mg.incident(n, d, func(e *MEdge) bool { return len(el) == 0 || has(el, e.label) }))
		case 17:
			E(fmt.Sprintf("Cursor.Edges(%s) at %s", dirName(d), n), c.Edges(d), mg.incident(n, d, nil))
		case 18:
			E(fmt.Sprintf("Cursor.EdgesWith(%s,%q) at %s", dirName(d), label, n), c.EdgesWith(d, label), mg.incident(n, d, byL))
		case 19:
			N(fmt.Sprintf("Cursor.Nodes(%s) at %s", dirName(d), n), c.Nodes(d), mg.neighbours(n, d, nil))
		case 20:
			N(fmt.Sprintf("Cursor.NodesWith(%s,%q) at %s", dirName(d), label, n), c.NodesWith(d, label), mg.neighbours(n, d, byL))
		}
	case 21: // a concatenation of iterators
		b := lpg.MultiIterator(g.GetNodes(), g.GetNodesWithAllLabels(lpg.NewStringSet(nl...)), lpg.SourcesItr(g))
		var total []*lpg.Node
		hint := b.MaxSize()
		for b.Next() {
			total = append(total, b.Value().(*lpg.Node))
			o.yield("next")
			if len(total) > o.limit(mg) {
				o.fail("iterator", "MultiIterator does not end")
			}
		}
		o.hintCheck(hint, len(total), "MultiIterator")
		want := len(mg.nodes) + len(mg.selNodes(func(n *MNode) bool { return hasAll(n.labels, nl) })) + len(mg.selNodes(func(n *MNode) bool { return len(mg.incident(n, lpg.IncomingEdge, nil)) == 0 }))
		if len(total) != want {
			o.fail("iterator", "MultiIterator delivered %d elements, its parts have %d", len(total), want)
		}
		return nil
	}
	if it.n != nil {
		it.hint = it.n.MaxSize()
	} else {
		it.hint = it.e.MaxSize()
	}
	return it
}

// neighbours is the reference for "nodes adjacent to n, each once".
func (mg *MGraph) neighbours(n *MNode, d lpg.EdgeDir, f func(*MEdge) bool) []*MNode {
	return mg.selNodes(func(m *MNode) bool {
		for _, e := range mg.edges {
			if f != nil && !f(e) {
				continue
			}
			if d != lpg.IncomingEdge && e.from == n && e.to == m {
				return true
			}
			if d != lpg.OutgoingEdge && e.to == n && e.from == m {
				return true
			}
		}
		return false
	})
}

// step advances the iterator once; it returns false when nothing is left to do.
func (it *openIt) step(o *opx, mg *MGraph) bool {
	var more bool
	if it.n != nil {
		more = it.n.Next()
	} else {
		more = it.e.Next()
	}
	if more && it.done {
		o.fail("iterator", "%s delivered another element after reporting its end", it.what)
	}
	if !more {
		it.done = true
		it.extra++
		return it.extra < 3
	}
	if it.n != nil {
		n := it.n.Node()
		if v, ok := it.n.Value().(*lpg.Node); !ok || v != n {
			o.fail("iterator", "%s: Value() and Node() disagree", it.what)
		}
		it.gotN = append(it.gotN, n)
	} else {
		e := it.e.Edge()
		if v, ok := it.e.Value().(*lpg.Edge); !ok || v != e {
			o.fail("iterator", "%s: Value() and Edge() disagree", it.what)
		}
		it.gotE = append(it.gotE, e)
	}
	if len(it.gotN)+len(it.gotE) > o.limit(mg) {
		o.fail("iterator", "%s does not end", it.what)
	}
	return true
}

func (it *openIt) finish(o *opx, mg *MGraph, complete bool) {
	o.hintCheck(it.hint, len(it.gotN)+len(it.gotE), it.what)
	if complete {
		if it.n != nil {
			o.nodesEq(mg, "iterator", it.what, it.gotN, it.wantN)
		} else {
			o.edgesEq(mg, "iterator", it.what, it.gotE, it.wantE)
		}
		o.oracle("iterator-complete")
		if len(it.gotN)+len(it.gotE) > 1 {
			o.probe("iterator-multi")
		}
		return
	}
	o.oracle("iterator-abandoned")
	seen := map[any]int{}
	for _, n := range it.gotN {
		seen[n]++
		ok := false
		for _, w := range it.wantN {
			ok = ok || w.h == n
		}
		if !ok || seen[n] > 1 {
			o.fail("iterator", "%s delivered %s wrongly or twice", it.what, mg.nname(n))
		}
	}
	for _, e := range it.gotE {
		seen[e]++
		c := 0
		for _, w := range it.wantE {
			if w.h == e {
				c++
			}
		}
		if seen[e] > c {
			o.fail("iterator", "%s delivered %s wrongly or too often", it.what, mg.ename(e))
		}
	}
}

// ---- P14: path enumeration ----

type pstep struct {
	e    *MEdge
	from *MNode
	to   *MNode
}

func pkey(ps []pstep) string {
	var sb strings.Builder
	if len(ps) > 0 {
		fmt.Fprintf(&sb, "n%d", ps[0].from.uid)
	}
	for _, p := range ps {
		fmt.Fprintf(&sb, " e%d n%d", p.e.uid, p.to.uid)
	}
	return sb.String()
}

// refPaths enumerates edge-distinct paths from n; it returns false if there
// are more than lim search steps.
func (mg *MGraph) refPaths(n *MNode, dir lpg.EdgeDir, min, max int, ok func(*MEdge) bool, lim int, emit func([]pstep)) bool {
	var cur []pstep
	steps := 0
	var rec func(at *MNode) bool
	rec = func(at *MNode) bool {
		steps++
		if steps > lim {
			return false
		}
		if len(cur) > 0 && (min == -1 || len(cur) >= min) && (max == -1 || len(cur) <= max) {
			emit(cur)
		}
		if max != -1 && len(cur) >= max {
			return true
		}
		for _, e := range mg.edges {
			if !ok(e) {
				continue
			}
			used := false
			for _, c := range cur {
				if c.e == e {
					used = true
				}
			}
			if used {
				continue
			}
			var to *MNode
			if e.from == at && dir != lpg.IncomingEdge {
				to = e.to
			} else if e.to == at && dir != lpg.OutgoingEdge {
				to = e.from
			} else {
				continue
			}
			cur = append(cur, pstep{e, at, to})
			if !rec(to) {
				return false
			}
			cur = cur[:len(cur)-1]
		}
		return true
	}
	return rec(n)
}

// pathSteps decodes a library path against the model.
func (o *opx) pathKey(mg *MGraph, p *lpg.Path, class string) string {
	if p == nil {
		o.fail(class, "nil path")
	}
	var sb strings.Builder
	nn, ne := p.NumNodes(), p.NumEdges()
	if nn == 0 {
		return "empty"
	}
	if nn != ne+1 {
		o.fail(class, "path has %d nodes and %d edges", nn, ne)
	}
	if ne > len(mg.edges)*3+3 {
		o.fail(class, "path of %d edges in a graph of %d", ne, len(mg.edges))
	}
	prev := mg.byN[p.GetNode(0)]
	if prev == nil {
		o.fail(class, "path starts at a node that is not live")
	}
	if p.First() != prev.h {
		o.fail(class, "First() and GetNode(0) disagree")
	}
	fmt.Fprintf(&sb, "n%d", prev.uid)
	for i := 0; i < ne; i++ {
		e := mg.byE[p.GetEdge(i)]
		if e == nil {
			o.fail(class, "edge %d of the path is not live", i)
		}
		n := mg.byN[p.GetNode(i+1)]
		if n == nil {
			o.fail(class, "node %d of the path is not live", i+1)
		}
		if !(e.from == prev && e.to == n || e.to == prev && e.from == n) {
			o.fail(class, "path is broken: %s does not join %s and %s", e, prev, n)
		}
		fmt.Fprintf(&sb, " e%d n%d", e.uid, n.uid)
		prev = n
	}
	if p.Last() != prev.h {
		o.fail(class, "Last() is not the last node of the path")
	}
	return sb.String()
}

type sliceEdges struct {
	es []*lpg.Edge
	i  int
}

func (s *sliceEdges) Next() bool      { s.i++; return s.i <= len(s.es) }
func (s *sliceEdges) Value() any      { return s.es[s.i-1] }
func (s *sliceEdges) Edge() *lpg.Edge { return s.es[s.i-1] }
func (s *sliceEdges) MaxSize() int    { return len(s.es) }

func (o *opx) execPaths(panics bool) {
	mg := o.g0()
	n := o.node(mg, o.a(2))
	dir := dirs[o.a(3)%3]
	min, max := -1, -1
	if o.a(4)%3 != 0 {
		min = 1 + (o.a(4)/3)%3
		if (o.a(4)/9)%4 == 0 {
			min += 2
		}
	}
	if o.a(5)%3 != 0 {
		max = 1 + (o.a(5)/3)%4
		if (o.a(5)/12)%4 == 0 {
			max += 4
		}
		if min > max {
			max = min
		}
	}
	var accept func(*MEdge) bool
	el := o.s.w.elab
	switch o.a(6) % 4 {
	case 0, 1:
		accept = func(*MEdge) bool { return true }
	case 2:
		ls := subset(el, 1+o.a(6)/4)
		accept = func(e *MEdge) bool { return has(ls, e.label) }
	case 3:
		m := 2 + (o.a(6)/4)%3
		accept = func(e *MEdge) bool { return e.uid%m != 0 }
	}
	want := map[string]int{}
	total := 0
	if !mg.refPaths(n, dir, min, max, accept, 4000, func(ps []pstep) { want[pkey(ps)]++; total++ }) {
		o.probe("paths-too-many")
		o.skip()
	}
	visits := 0
	mg.refPaths(n, dir, -1, max, accept, 4000, func([]pstep) { visits++ })
	if total > 0 {
		o.probe("paths-nonempty")
	}
	first := &sliceEdges{}
	for _, e := range mg.incident(n, dir, accept) {
		first.es = append(first.es, e.h)
	}
	var leg lpg.EdgeIterator = first
	if o.a(6)%4 < 2 && o.a(7)%2 == 0 {
		leg = n.h.GetEdges(dir)
	}
	o.setBudget(400000 + int64(visits)*(5000+int64(len(mg.edges))*200))
	type rep struct {
		p   *lpg.Path
		key string
	}
	var got []rep
	declined := false
	stopAt := -1
	if o.choose("stop", 2) == 1 && total > 0 {
		stopAt = o.choose("stopat", total+1)
	}
	calls := 0
	inj := o.try(func() {
		lpg.CollectAllPaths(mg.g, n.h, leg, func(e *lpg.Edge) bool {
			o.yield("edgeFilter")
			if panics {
				o.maybePanic("filter")
			}
			me := mg.byE[e]
			if me == nil {
				o.fail("paths", "edge filter called with an edge that is not live")
			}
			return accept(me)
		}, dir, min, max, func(p *lpg.Path) bool {
			if declined {
				o.fail("paths", "a path was reported after the caller had declined further paths")
			}
			got = append(got, rep{p, o.pathKey(mg, p, "paths")})
			if len(got) > total+5 {
				o.fail("paths", "more than the %d existing paths reported; e.g. %s", total, got[len(got)-1].key)
			}
			o.yield("accumulator")
			if panics {
				o.maybePanic("accumulator")
			}
			if calls == stopAt {
				o.fault("caller-declines")
				declined = true
				return false
			}
			calls++
			return true
		})
	})
	o.oracle("paths")
	cnt := map[string]int{}
	for _, r := range got {
		if k := o.pathKey(mg, r.p, "paths"); k != r.key {
			o.fail("paths", "a reported path changed afterwards: %s became %s", r.key, k)
		}
		cnt[r.key]++
		if cnt[r.key] > 1 {
			o.fail("paths", "path %s reported twice", r.key)
		}
		if want[r.key] == 0 {
			o.fail("paths", "path %s is not an admissible path (from n%d dir %s min %d max %d)\n%s", r.key, n.uid, dirName(dir), min, max, mg.dump())
		}
	}
	if !declined && !inj && len(cnt) != len(want) {
		for _, k := range sortedKeys(want) {
			if cnt[k] == 0 {
				o.fail("paths", "path %s is missing (from n%d dir %s min %d max %d)\n%s", k, n.uid, dirName(dir), min, max, mg.dump())
			}
		}
	}
	o.note("paths %d of %d", len(got), total)
}

// maybePanic lets a caller-supplied function fail by panicking.
func (o *opx) maybePanic(where string) {
	if o.choose("cbpanic", 2) == 1 {
		o.inj++
		o.fault("callback-panic:" + where)
		panic(injected{o.inj})
	}
}

// ---- P13: patterns ----

type patItem struct {
	labels             []string
	props              map[string]any
	min, max           int
	left, undir, fixed bool
	name               string
}

type symAcc struct {
	o     *opx
	mg    *MGraph
	keys  []string
	pat   []patItem
	cap   int
	pan   bool
	mut   bool // change what is delivered right away
	paths []*lpg.Path
	syms  []map[string]any
	now   []string // the results as the receiver left them
}

// spoil changes a delivered path, which belongs to the receiver.
func (o *opx) spoil(p *lpg.Path, how int) {
	ne := p.NumEdges()
	switch {
	case how%4 == 0 || ne == 0:
		p.Clear()
	case how%4 == 1 || ne > 12:
		p.RemoveLast()
	default: // back over the last edge
		e, last := p.GetEdge(ne-1), p.Last()
		p.Append(lpg.PathElement{Edge: e, Reverse: e.GetFrom() != last})
	}
	o.probe("result-changed")
}

// recheck: what was delivered is still what it was when it was delivered.
func (a *symAcc) recheck(desc func() string) {
	was := a.keys
	if a.mut {
		was = a.now
	}
	for i, p := range a.paths {
		if k := a.o.matchKey(a.mg, a.pat, p, a.syms[i]); k != was[i] {
			a.o.fail("pattern", "a result delivered as %s, last seen as %s, has become %s, for %s", a.keys[i], was[i], k, desc())
		}
	}
}

func (a *symAcc) StoreResult(ctx *lpg.MatchContext, p *lpg.Path, syms map[string]any) {
	a.keys = append(a.keys, a.o.matchKey(a.mg, a.pat, p, syms))
	a.paths = append(a.paths, p)
	a.syms = append(a.syms, syms)
	a.o.checkLocals(a.mg, a.pat, ctx, syms)
	if a.mut {
		a.o.spoil(p, len(a.keys))
		for _, k := range sortedKeys(syms) {
			if v, ok := syms[k].(*lpg.Path); ok {
				a.o.spoil(v, len(a.keys)+len(k))
			}
		}
		a.now = append(a.now, a.o.matchKey(a.mg, a.pat, p, syms))
	}
	if len(a.keys) > a.cap {
		a.o.fail("pattern", "more than %d results; e.g. %s", a.cap, a.keys[len(a.keys)-1])
	}
	a.o.yield("StoreResult")
	if a.pan {
		a.o.maybePanic("accumulator")
	}
}

func (o *opx) matchKey(mg *MGraph, pat []patItem, p *lpg.Path, syms map[string]any) string {
	k := o.pathKey(mg, p, "pattern")
	seen := map[string]bool{}
	for i, it := range pat {
		if it.name == "" || seen[it.name] {
			continue
		}
		seen[it.name] = true
		v, ok := syms[it.name]
		if !ok {
			o.fail("pattern", "result has no value for variable %q", it.name)
		}
		if i%2 == 0 {
			n, ok := v.(*lpg.Node)
			if !ok || mg.byN[n] == nil {
				o.fail("pattern", "variable %q is bound to %T, a live node was expected", it.name, v)
			}
			k += fmt.Sprintf(" %s=n%d", it.name, mg.byN[n].uid)
		} else {
			pp, ok := v.(*lpg.Path)
			if !ok {
				o.fail("pattern", "variable %q is bound to %T, a path was expected", it.name, v)
			}
			if patCount(pat, it.name) > 1 { // the same edge, maybe followed both ways
				if e := mg.byE[pp.GetEdge(0)]; e != nil && pp.NumEdges() == 1 {
					k += fmt.Sprintf(" %s=e%d", it.name, e.uid)
				}
				continue
			}
			k += fmt.Sprintf(" %s=<%s>", it.name, o.pathKey(mg, pp, "pattern"))
		}
	}
	return k
}

func patCount(pat []patItem, name string) (n int) {
	for _, it := range pat {
		if it.name == name {
			n++
		}
	}
	return
}

// checkLocals: while a result is delivered, the context holds the values of
// the variables of the pattern.
func (o *opx) checkLocals(mg *MGraph, pat []patItem, ctx *lpg.MatchContext, syms map[string]any) {
	for _, it := range pat {
		if it.name == "" {
			continue
		}
		if _, supplied := ctx.Symbols[it.name]; supplied {
			continue
		}
		sym := ctx.LocalSymbols[it.name]
		if sym == nil {
			o.fail("pattern", "the context has no value for variable %q", it.name)
		}
		switch v := syms[it.name].(type) {
		case *lpg.Node:
			if ns := sym.NodeSlice(); len(ns) != 1 || ns[0] != v {
				o.fail("pattern", "variable %q has the values %v in the context and %v in the result", it.name, ns, v)
			}
		case *lpg.Path:
			es := sym.EdgeSlice()
			if es == nil || es.NumEdges() != v.NumEdges() {
				o.fail("pattern", "variable %q has other edges in the context than in the result", it.name)
			}
			for i := 0; i < es.NumEdges(); i++ {
				in := false
				for j := 0; j < v.NumEdges(); j++ {
					in = in || v.GetEdge(j) == es.GetEdge(i)
				}
				if !in {
					o.fail("pattern", "variable %q has edge %s in the context, which the result has not", it.name, mg.byE[es.GetEdge(i)])
				}
			}
		}
	}
}

func (it patItem) String() string {
	s := it.name + ":" + strings.Join(it.labels, ":") + "{" + canonProps(it.props) + "}"
	return s
}

func patString(pat []patItem) string {
	var sb strings.Builder
	for i, it := range pat {
		if i%2 == 0 {
			fmt.Fprintf(&sb, "(%s)", it)
			continue
		}
		l, r := "-", "->"
		if it.left {
			l, r = "<-", "-"
		}
		if it.undir {
			l, r = "-", "-"
		}
		fmt.Fprintf(&sb, "%s[%s *%d..%d]%s", l, it, it.min, it.max, r)
	}
	return sb.String()
}

// buildPattern derives a pattern from the arguments of the operation.
func (o *opx) buildPattern(base int) []patItem {
	arg := func(i int) int {
		if base+i < len(o.op.A) {
			return o.op.A[base+i]
		}
		return 0
	}
	ne := arg(0) % 4
	if arg(0)/4%16 == 0 {
		ne = 4 + arg(0)/64%2
	}
	mg := o.g0()
	var pat []patItem
	varlen := 0
	for i := 0; i < 2*ne+1; i++ {
		b := 1 + i*4
		it := patItem{min: 1, max: 1, fixed: true}
		if i%2 == 0 {
			if arg(b)%3 == 1 {
				it.labels = subset(o.s.w.nlab, 1<<((arg(b)/3)%len(o.s.w.nlab))|1<<((arg(b)/16)%len(o.s.w.nlab))*((arg(b)/64)%2))
			}
			if arg(b+1)%4 == 1 {
				k := nodeKeys[(arg(b+1)/4)%len(nodeKeys)]
				it.props = map[string]any{k: genVal(k, arg(b+2), o.s.cfg.Vals)}
			}
			if len(mg.nodes) > 0 && arg(b+1)%4 == 2 { // like some node
				n := mg.nodes[arg(b+2)%len(mg.nodes)]
				it.props = lift(n.props, arg(b+1)/4)
				if arg(b)%3 == 1 {
					it.labels = pickSome(n.labels, arg(b)/4)
				}
			}
			switch arg(b+3) % 6 {
			case 1:
				it.name = "a"
			case 2:
				it.name = "b"
			case 3:
				it.name = fmt.Sprintf("s%d", arg(b+3)/6%2)
			case 4:
				it.name = fmt.Sprintf("n%d", i)
			}
		} else {
			if arg(b)%3 == 1 {
				it.labels = subset(o.s.w.elab, 1+(arg(b)/3)%(1<<len(o.s.w.elab)))
			}
			if arg(b+1)%5 == 1 {
				k := nodeKeys[(arg(b+1)/5)%len(nodeKeys)]
				it.props = map[string]any{k: genVal(k, arg(b+1)/25, o.s.cfg.Vals)}
			}
			if len(mg.edges) > 0 && arg(b+1)%5 == 2 { // like some edge
				e := mg.edges[arg(b+1)/5%len(mg.edges)]
				it.props = lift(e.props, arg(b+1)/64)
				if arg(b)%3 == 1 && !has(it.labels, e.label) {
					it.labels = append(it.labels, e.label)
				}
			}
			switch arg(b+2) % 3 {
			case 1:
				it.left = true
			case 2:
				it.undir = true
			}
			switch (arg(b+2) / 3) % 7 {
			case 1:
				it.min, it.max = -1, -1
			case 2:
				it.min, it.max = 1, 2+(arg(b+2)/18)%2
			case 3:
				it.min, it.max = 2, 2+(arg(b+2)/18)%2
			case 4:
				it.min, it.max = -1, 1+(arg(b+2)/18)%3
			case 5:
				it.min, it.max = 1+(arg(b+2)/18)%4, 3+(arg(b+2)/72)%6
				if arg(b+2)/432%8 == 0 { // no length is admissible
					it.min, it.max = 2, 1
				}
			}
			it.fixed = it.min == 1 && it.max == 1
			if !it.fixed {
				varlen++
				if varlen > 2 {
					it.min, it.max, it.fixed = 1, 1, true
				}
			}
			if arg(b+3)%3 != 0 {
				it.name = fmt.Sprintf("e%d", i)
			}
			switch x := arg(b+3) / 3 % 6; {
			case x == 0: // may be supplied
				it.name = fmt.Sprintf("t%d", arg(b+3)/18%2)
			case x == 1 && it.fixed: // may be repeated
				it.name = "r"
			}
		}
		pat = append(pat, it)
	}
	if arg(0)/128%2 == 1 && len(mg.nodes) > 0 {
		fitToWalk(mg, pat, prog.NewRng(uint64(arg(0))))
	}
	return pat
}

// fitToWalk changes the constraints of a pattern so that some walk meets them,
// where there is one.
func fitToWalk(mg *MGraph, pat []patItem, r *prog.Rng) {
	at := mg.nodes[r.N(len(mg.nodes))]
	bound := map[string]*MNode{}
	for i := range pat {
		it := &pat[i]
		if i%2 == 0 {
			if it.labels != nil {
				it.labels = pickSome(at.labels, r.N(1024))
			}
			if it.props != nil {
				it.props = lift(at.props, r.N(1024))
			}
			if b := bound[it.name]; b != nil && b != at && it.name != "" {
				it.name = fmt.Sprintf("n%d", i)
			}
			bound[it.name] = at
			continue
		}
		if it.name == "t0" || it.name == "t1" || it.name == "r" {
			if bound[it.name] != nil && r.N(4) > 0 { // the edge would have to be the same
				it.name = fmt.Sprintf("e%d", i)
			}
			bound[it.name] = at
		}
		k := 1
		if !it.fixed {
			lo, hi := it.min, it.max
			if lo < 1 {
				lo = 1
			}
			if hi < 0 || hi > lo+2 {
				hi = lo + 2
			}
			if hi < lo {
				return
			}
			k = lo + r.N(hi-lo+1)
		}
		used := map[*MEdge]bool{}
		for ; k > 0; k-- {
			free := func(e *MEdge) bool { return !used[e] }
			dir := lpg.OutgoingEdge
			if it.undir {
				dir = lpg.AnyEdge
			} else if it.left {
				dir = lpg.IncomingEdge
			}
			es := mg.incident(at, dir, free)
			if len(es) == 0 && len(used) == 0 && !it.undir { // the other way
				it.left = !it.left
				es = mg.incident(at, -dir, free)
			}
			if len(es) == 0 {
				if len(used) == 0 {
					return
				}
				break
			}
			e := es[r.N(len(es))]
			used[e] = true
			if it.labels != nil && !has(it.labels, e.label) {
				it.labels = append(append([]string{}, it.labels...), e.label)
			}
			if it.props != nil {
				if len(used) == 1 {
					it.props = lift(e.props, r.N(1024))
				}
				for _, k := range sortedKeys(it.props) {
					if v, ok := e.props[k]; !ok || !valEq(v, it.props[k]) {
						delete(it.props, k)
					}
				}
			}
			if at == e.from {
				at = e.to
			} else {
				at = e.from
			}
		}
	}
}

// lift picks some of the properties.
func lift(p map[string]any, bits int) map[string]any {
	out := map[string]any{}
	for j, k := range sortedKeys(p) {
		if bits>>(j%10)&1 == 0 {
			out[k] = p[k]
		}
	}
	return out
}

func (pat patList) lib() lpg.Pattern {
	var out lpg.Pattern
	for i, it := range pat {
		pi := lpg.PatternItem{Labels: labelSet(i%2 == 0, it.labels), Properties: it.props, Name: it.name}
		if i%2 == 1 {
			pi.Min, pi.Max, pi.ToLeft, pi.Undirected = it.min, it.max, it.left, it.undir
		}
		out = append(out, pi)
	}
	return out
}

type patList []patItem

// refMatch enumerates the matches of pat over the model.
func (mg *MGraph) refMatch(pat []patItem, syms map[string][]*MNode, esyms map[string][]*MEdge, lim int, emit func(key string, head, tail *MNode)) bool {
	bind := map[string]*MNode{}
	ebind := map[string]*MEdge{}
	var path []pstep
	var segs [][]pstep
	steps := 0
	okNode := func(i int, n *MNode) bool {
		it := pat[i]
		if !hasAll(n.labels, it.labels) || !matchProps(n.props, it.props) {
			return false
		}
		if it.name != "" {
			if set, ok := syms[it.name]; ok {
				in := false
				for _, m := range set {
					in = in || m == n
				}
				return in
			}
			if b := bind[it.name]; b != nil && b != n {
				return false
			}
		}
		return true
	}
	var atNode func(i int, n, head *MNode) bool
	atNode = func(i int, n, head *MNode) bool {
		steps++
		if steps > lim {
			return false
		}
		if !okNode(i, n) {
			return true
		}
		name := pat[i].name
		owner := false
		if name != "" && syms[name] == nil && bind[name] == nil {
			bind[name] = n
			owner = true
		}
		defer func() {
			if owner {
				delete(bind, name)
			}
		}()
		if i == len(pat)-1 {
			k := fmt.Sprintf("n%d", head.uid)
			if len(path) > 0 {
				k = pkey(path)
			}
			seen := map[string]bool{}
			at := head
			pi := 0
			for j, it := range pat {
				if j%2 == 1 {
					l := len(segs[j/2])
					if it.name != "" && !seen[it.name] {
						seen[it.name] = true
						if patCount(pat, it.name) > 1 {
							k += fmt.Sprintf(" %s=e%d", it.name, segs[j/2][0].e.uid)
						} else {
							k += fmt.Sprintf(" %s=<%s>", it.name, pkey(segs[j/2]))
						}
					}
					pi += l
					at = path[pi-1].to
					continue
				}
				if it.name != "" && !seen[it.name] {
					seen[it.name] = true
					k += fmt.Sprintf(" %s=n%d", it.name, at.uid)
				}
			}
			emit(k, head, n)
			return true
		}
		it := pat[i+1]
		dir := lpg.OutgoingEdge
		if it.left {
			dir = lpg.IncomingEdge
		}
		if it.undir {
			dir = lpg.AnyEdge
		}
		set, supplied := esyms[it.name]
		okE := func(e *MEdge) bool {
			if supplied && !slices.Contains(set, e) {
				return false
			}
			if b := ebind[it.name]; b != nil && b != e {
				return false
			}
			return (len(it.labels) == 0 || has(it.labels, e.label)) && matchProps(e.props, it.props)
		}
		var found [][]pstep
		if !mg.refPaths(n, dir, it.min, it.max, okE, lim, func(ps []pstep) { found = append(found, append([]pstep{}, ps...)); steps++ }) {
			return false
		}
		for _, ps := range found {
			l := len(path)
			path = append(path, ps...)
			segs = append(segs, append([]pstep{}, ps...))
			first := it.name != "" && !supplied && it.fixed && ebind[it.name] == nil
			if first {
				ebind[it.name] = ps[0].e
			}
			r := atNode(i+2, ps[len(ps)-1].to, head)
			if first {
				delete(ebind, it.name)
			}
			segs = segs[:len(segs)-1]
			path = path[:l]
			if !r {
				return false
			}
		}
		return true
	}
	for _, n := range mg.nodes {
		if !atNode(0, n, n) {
			return false
		}
	}
	return true
}

// patternBound limits the number of partial matches any plan can visit:
// nodes times, for every pattern edge, the largest number of paths it can
// stand for from or into one node.
func (mg *MGraph) patternBound(pat []patItem, lim int) int {
	bound := len(mg.nodes) + 1
	for i := 1; i < len(pat); i += 2 {
		it := pat[i]
		okE := func(e *MEdge) bool {
			return (len(it.labels) == 0 || has(it.labels, e.label)) && matchProps(e.props, it.props)
		}
		most := 1
		dirs := []lpg.EdgeDir{lpg.OutgoingEdge, lpg.IncomingEdge}
		if it.undir {
			dirs = []lpg.EdgeDir{lpg.AnyEdge}
		}
		for _, d := range dirs {
			for _, n := range mg.nodes {
				c := 0
				if !mg.refPaths(n, d, -1, it.max, okE, lim, func([]pstep) { c++ }) {
					return lim + 1
				}
				if c > most {
					most = c
				}
			}
		}
		bound *= most
		if bound > lim {
			return lim + 1
		}
	}
	return bound
}

// patArgs is a pattern with the variables supplied to it.
type patArgs struct {
	pat   patList
	lp    lpg.Pattern
	lsyms map[string]*lpg.PatternSymbol
	syms  map[string][]*MNode
	esyms map[string][]*MEdge
	was   string
}

// live: all supplied elements are.
func (q *patArgs) live(mg *MGraph) bool {
	for _, ns := range q.syms {
		for _, n := range ns {
			if mg.byN[n.h] != n {
				return false
			}
		}
	}
	for _, es := range q.esyms {
		for _, e := range es {
			if mg.byE[e.h] != e {
				return false
			}
		}
	}
	return true
}

// patternIntact: the caller's pattern is as it was.
func (o *opx) patternIntact(q *patArgs) {
	bad := len(q.lp) != len(q.pat) || patString(q.pat) != q.was
	for i := 0; i < len(q.lp) && !bad; i++ {
		x, it := q.lp[i], q.pat[i]
		bad = x.Name != it.name || !eqStrings(x.Labels.SortedSlice(), normLabels(it.labels)) || i%2 == 1 && (x.Min != it.min || x.Max != it.max || x.ToLeft != it.left || x.Undirected != it.undir)
	}
	if bad {
		o.fail("pattern", "a search changed the caller's pattern %s", q.was)
	}
}

func (o *opx) patternArgs(mg *MGraph) *patArgs {
	pat := patList(o.buildPattern(4))
	// supplied variables
	syms := map[string][]*MNode{}
	lsyms := map[string]*lpg.PatternSymbol{}
	cnt := map[string]int{}
	for i, it := range pat {
		if i%2 == 0 {
			cnt[it.name]++
		}
	}
	for j, name := range []string{"s0", "s1"} {
		if (o.a(2)>>(4+j))&1 == 1 {
			continue // used as an ordinary variable
		}
		sym := &lpg.PatternSymbol{Nodes: lpg.NewNodeSet()}
		if o.a(3)%3 == 1 {
			sym = &lpg.PatternSymbol{}
		}
		var ms []*MNode
		bits := o.a(2) >> (6 + 3*j)
		if (o.a(3)/11+j)%4 == 0 {
			bits = -1 // all nodes
		}
		for i, n := range mg.nodes {
			if (bits>>(i%5))&1 == 1 && (cnt[name] <= 1 || len(ms) == 0) {
				ms = append(ms, n)
				switch (o.a(3) + i) % 3 {
				case 0:
					if sym.Nodes == nil {
						sym.Nodes = lpg.NewNodeSet()
					}
					sym.Nodes.Add(n.h)
				case 1:
					sym.AddNode(n.h)
				case 2:
					sym.Add(n.h)
				}
			}
		}
		if ms == nil {
			ms = []*MNode{}
			sym.Nodes = lpg.NewNodeSet()
		}
		syms[name] = ms
		lsyms[name] = sym
	}
	esyms := o.supplyEdges(mg, pat, lsyms)
	return &patArgs{pat: pat, lp: pat.lib(), lsyms: lsyms, syms: syms, esyms: esyms, was: patString(pat)}
}

func (o *opx) execPattern(panics bool) {
	mg := o.g0()
	q := o.patternArgs(mg)
	if sh := o.s.w.sharedFor(mg); sh != nil && o.a(3)%2 == 0 && sh.q.live(mg) {
		o.probe("shared-pattern")
		q = sh.q
	}
	pat, lp, lsyms, syms, esyms := q.pat, q.lp, q.lsyms, q.syms, q.esyms
	bound := mg.patternBound(pat, 20000)
	if bound > 20000 {
		o.probe("pattern-too-many")
		o.skip()
	}
	want := map[string]int{}
	total := 0
	heads, tails := map[*MNode]bool{}, map[*MNode]bool{}
	if !mg.refMatch(pat, syms, esyms, 6000, func(k string, h, t *MNode) { want[k]++; total++; heads[h] = true; tails[t] = true }) {
		o.probe("pattern-too-many")
		o.skip()
	}
	if total > 0 {
		o.probe("pattern-nonempty")
		if len(pat) > 1 {
			o.probe("pattern-nonempty-edges")
		}
	}
	if o.a(3)%5 == 0 && len(lsyms) == 0 {
		lsyms = nil
	}
	desc := func() string {
		s := patString(pat)
		for _, k := range sortedKeys(syms) {
			s += fmt.Sprintf(" with %s in %v", k, syms[k])
		}
		for _, k := range sortedKeys(esyms) {
			s += fmt.Sprintf(" with %s in %v", k, esyms[k])
		}
		return s + "\n" + mg.dump()
	}
	if o.a(3)%7 == 0 {
		o.checkSymbols(mg, pat, lp, lsyms, syms)
		o.checkKinds(mg, pat)
	}
	defer func() {
		o.patternIntact(q)
		for name, sym := range lsyms {
			if es, ok := esyms[name]; ok {
				var got []*lpg.Edge
				for it := sym.Edges.Iterator(); it.Next(); {
					got = append(got, it.Edge())
				}
				o.edgesEq(mg, "pattern", "supplied variable "+name+" after the search", got, es)
				continue
			}
			o.nodesEq(mg, "pattern", "supplied variable "+name+" after the search", sym.NodeSlice(), syms[name])
		}
	}()
	E := int64(len(mg.edges))
	o.setBudget(400000 + 12*int64(bound)*(E+4)*(E+20))
	var keys []string
	inj := false
	switch o.a(1) % 4 {
	case 0, 1:
		acc := &symAcc{o: o, mg: mg, pat: pat, cap: total + 50, pan: panics, mut: o.a(3)%3 == 1}
		inj = o.try(func() {
			if err := lp.Run(mg.g, lsyms, acc); err != nil {
				o.fail("pattern", "Run of %s: %v", desc(), err)
			}
		})
		keys = acc.keys
		acc.recheck(desc)
	case 2:
		acc, err := lp.FindPaths(mg.g, lsyms)
		if err != nil {
			o.fail("pattern", "FindPaths of %s: %v", desc(), err)
		}
		if len(acc.Paths) != len(acc.Symbols) {
			o.fail("pattern", "FindPaths reports %d paths and %d symbol maps", len(acc.Paths), len(acc.Symbols))
		}
		for i := range acc.Paths {
			keys = append(keys, o.matchKey(mg, pat, acc.Paths[i], acc.Symbols[i]))
		}
		defer func() {
			if n := len(keys); n > 1 && o.a(3)%3 == 1 { // change one result, look at the others
				i := o.a(3) % n
				o.spoil(acc.Paths[i], o.a(3)/n)
				for _, k := range sortedKeys(acc.Symbols[i]) {
					if v, ok := acc.Symbols[i][k].(*lpg.Path); ok {
						o.spoil(v, o.a(3)/n+len(k))
					}
				}
				for j := range keys {
					if k := o.matchKey(mg, pat, acc.Paths[j], acc.Symbols[j]); j != i && k != keys[j] {
						o.fail("pattern", "after result %s was changed by its receiver, %s has become %s, for %s", keys[i], keys[j], k, desc())
					}
				}
			}
		}()
		o.nodesEq(mg, "pattern", "GetHeadNodes of "+patString(pat), acc.GetHeadNodes(), mg.selNodes(func(n *MNode) bool { return heads[n] }))
		o.nodesEq(mg, "pattern", "GetTailNodes of "+patString(pat), acc.GetTailNodes(), mg.selNodes(func(n *MNode) bool { return tails[n] }))
	case 3:
		ns, err := lp.FindNodes(mg.g, lsyms)
		if err != nil {
			o.fail("pattern", "FindNodes of %s: %v", desc(), err)
		}
		o.nodesEq(mg, "pattern", "FindNodes of "+desc(), ns, mg.selNodes(func(n *MNode) bool { return heads[n] }))
		o.oracle("pattern")
		return
	}
	o.oracle("pattern")
	got := map[string]int{}
	for _, k := range keys {
		got[k]++
		if want[k] == 0 {
			o.fail("pattern", "%s is reported but does not match %s", k, desc())
		}
		if got[k] > want[k] {
			o.fail("pattern", "%s is reported %d times, expected %d, for %s", k, got[k], want[k], desc())
		}
	}
	if !inj {
		for _, k := range sortedKeys(want) {
			if got[k] < want[k] {
				o.fail("pattern", "%s is missing for %s", k, desc())
			}
		}
	}
	o.note("pattern %d of %d", len(keys), total)
}

// supplyEdges adds supplied edge variables; an edge variable used more than
// once holds one edge, as the searches may report either occurrence.
func (o *opx) supplyEdges(mg *MGraph, pat patList, lsyms map[string]*lpg.PatternSymbol) map[string][]*MEdge {
	esyms := map[string][]*MEdge{}
	for j, name := range []string{"t0", "t1"} {
		n := patCount(pat, name)
		varlen := false
		for i := range pat {
			varlen = varlen || pat[i].name == name && !pat[i].fixed
		}
		if (o.a(2)>>(12+j))&1 == 1 {
			if n > 1 && varlen { // not defined: which one restricts the other?
				for i := range pat {
					if pat[i].name == name {
						pat[i].name = fmt.Sprintf("e%d", i)
					}
				}
			}
			continue
		}
		sym := &lpg.PatternSymbol{Edges: lpg.NewEdgeSet()}
		ms := []*MEdge{}
		bits := o.a(2) >> (14 + 2*j)
		for i, e := range mg.edges {
			if few := o.a(3) / 7 % 3; few > 0 && i%11 != o.a(3)%11 && (few == 1 || len(ms) > 0 || i < o.a(3)%32) {
				continue
			}
			if (bits>>(i%3))&1 == 1 || n > 1 && len(ms) > 0 {
				continue
			}
			ms = append(ms, e)
			switch (o.a(3) + i) % 3 {
			case 0:
				sym.Edges.Add(e.h)
			case 1:
				sym.Add(e.h)
			case 2:
				sym.AddPath(lpg.NewPathFromElements(lpg.PathElement{Edge: e.h}))
			}
		}
		if n < 2 && o.a(3)/21%2 == 0 {
			ms = o.addWalk(mg, sym, ms, o.a(3)/3+j)
		}
		esyms[name] = ms
		lsyms[name] = sym
	}
	return esyms
}

// addWalk adds the edges of a path to a variable.
func (o *opx) addWalk(mg *MGraph, sym *lpg.PatternSymbol, ms []*MEdge, x int) []*MEdge {
	if len(mg.edges) == 0 {
		return ms
	}
	els := o.walk(mg, mg.edges[x%len(mg.edges)].from, 2+x%4, x, x%2)
	if len(els) == 0 {
		return ms
	}
	if p := lpg.NewPathFromElements(libEls(els)...); x%3 == 0 {
		sym.Add(p)
	} else {
		sym.AddPath(p)
	}
	for _, el := range els {
		in := false
		for _, e := range ms {
			in = in || e == el.e
		}
		if !in {
			ms = append(ms, el.e)
		}
	}
	return ms
}

// checkKinds: a variable that holds nodes never stands for an edge, and the
// other way around: the search says so, or finds nothing.
func (o *opx) checkKinds(mg *MGraph, pat patList) {
	if len(pat) < 2 || len(mg.edges) == 0 {
		return
	}
	pat = append(patList{}, pat...)
	for i := range pat {
		pat[i].name = ""
	}
	i := (o.a(3) / 5) % len(pat)
	pat[i].name = "k"
	var syms map[string]*lpg.PatternSymbol
	switch x := o.a(3) / 11 % 3; {
	case x == 0:
		j := 1 + o.a(3)/40%(len(pat)/2)*2 // of the other kind
		if i%2 == 1 {
			j = o.a(3) / 40 % (len(pat)/2 + 1) * 2
		}
		pat[j].name = "k"
	default:
		sym := &lpg.PatternSymbol{}
		if i%2 == 0 {
			for j, e := range mg.edges {
				if x == 1 || j%2 == 0 {
					sym.Add(e.h)
				}
			}
		} else {
			for j, n := range mg.nodes {
				if x == 1 || j%2 == 0 {
					sym.Add(n.h)
				}
			}
		}
		syms = map[string]*lpg.PatternSymbol{"k": sym}
	}
	if mg.patternBound(pat, 2000) > 2000 {
		return
	}
	o.setBudget(4000000)
	acc, err := pat.lib().FindPaths(mg.g, syms)
	o.oracle("pattern-kinds")
	if err == nil && len(acc.Paths) > 0 {
		o.fail("pattern", "%s matches although k stands for nodes and for edges; supplied: %v\n%s", patString(pat), syms != nil, mg.dump())
	}
	if err != nil {
		o.probe("pattern-kind-error")
		var n lpg.ErrNodeVariableExpected
		var e lpg.ErrEdgeVariableExpected
		if !errors.As(err, &n) && !errors.As(err, &e) {
			o.fail("pattern", "%s with a variable of the wrong kind: %v", patString(pat), err)
		}
	}
}

// checkSymbols: what a pattern and pattern variables say about themselves.
func (o *opx) checkSymbols(mg *MGraph, pat patList, lp lpg.Pattern, lsyms map[string]*lpg.PatternSymbol, syms map[string][]*MNode) {
	want := map[string]bool{}
	for _, it := range pat {
		if it.name != "" {
			want[it.name] = true
		}
	}
	names := lp.GetSymbolNames()
	if got := names.SortedSlice(); fmt.Sprint(got) != fmt.Sprint(sortedKeys(want)) {
		o.fail("pattern", "GetSymbolNames of %s is %q", patString(pat), got)
	}
	for name, sym := range lsyms {
		if _, node := syms[name]; !node {
			continue
		}
		if sym.EdgeSlice() != nil {
			o.fail("pattern", "the edges of node variable %s are not nil", name)
		}
	}
	// an edge variable collects edges and the edges of paths
	sym := &lpg.PatternSymbol{}
	if sym.NodeSlice() != nil || sym.EdgeSlice() != nil {
		o.fail("pattern", "an empty variable has nodes or edges")
	}
	var es []*MEdge
	for i, e := range mg.edges {
		if (o.a(2)>>(i%7))&1 == 1 {
			continue
		}
		es = append(es, e)
		switch (o.a(3) + i) % 3 {
		case 0:
			sym.Add(e.h)
		case 1:
			sym.Add(lpg.NewPathFromElements(lpg.PathElement{Edge: e.h}))
		case 2:
			sym.AddPath(lpg.NewPathFromElements(lpg.PathElement{Edge: e.h, Reverse: true}))
		}
	}
	es = o.addWalk(mg, sym, es, o.a(3)/2)
	if len(es) == 0 {
		return
	}
	var got []*lpg.Edge
	p := sym.EdgeSlice()
	for i := 0; p != nil && i < p.NumEdges(); i++ {
		got = append(got, p.GetEdge(i))
	}
	o.edgesEq(mg, "pattern", "the edges of a variable", got, es)
	if sym.NodeSlice() != nil {
		o.fail("pattern", "the nodes of an edge variable are not nil")
	}
	o.oracle("pattern-symbols")
}

// ---- P12: isomorphism ----

// simCtx is the caller's context: it ends when the simulation says so.
type simCtx struct {
	o      *opx
	cancel bool
	err    error
	done   chan struct{}
	at     int64 // library step at which it ended
}

func (c *simCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *simCtx) Done() <-chan struct{}       { return c.done }
func (c *simCtx) Value(any) any               { return nil }
func (c *simCtx) Err() error {
	c.o.yield("ctx.Err")
	if c.cancel {
		return c.err
	}
	return nil
}
func (c *simCtx) fire(err error) {
	if c.cancel {
		return
	}
	c.cancel = true
	c.err = err
	c.at = c.o.ticks
	close(c.done)
}

// refIso decides isomorphism by brute force over class-respecting bijections.
func refIso(a, b *MGraph, nc func(*MNode) string, ec func(*MEdge) string) bool {
	if len(a.nodes) != len(b.nodes) || len(a.edges) != len(b.edges) {
		return false
	}
	n := len(a.nodes)
	sig := func(g *MGraph) [][]string {
		ix := map[*MNode]int{}
		for i, x := range g.nodes {
			ix[x] = i
		}
		cells := make([][][]string, n)
		for i := range cells {
			cells[i] = make([][]string, n)
		}
		for _, e := range g.edges {
			f, t := ix[e.from], ix[e.to]
			cells[f][t] = append(cells[f][t], ec(e))
		}
		out := make([][]string, n)
		for i := range out {
			out[i] = make([]string, n)
			for j := range out[i] {
				sort.Strings(cells[i][j])
				out[i][j] = strings.Join(cells[i][j], "\x00") + fmt.Sprint(len(cells[i][j]))
			}
		}
		return out
	}
	sa, sb := sig(a), sig(b)
	ca, cb := make([]string, n), make([]string, n)
	for i := range a.nodes {
		ca[i], cb[i] = nc(a.nodes[i]), nc(b.nodes[i])
	}
	m := make([]int, n)
	used := make([]bool, n)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return true
		}
		for j := 0; j < n; j++ {
			if used[j] || ca[i] != cb[j] || sa[i][i] != sb[j][j] {
				continue
			}
			ok := true
			for k := 0; k < i && ok; k++ {
				ok = sa[i][k] == sb[j][m[k]] && sa[k][i] == sb[m[k]][j]
			}
			if !ok {
				continue
			}
			m[i] = j
			used[j] = true
			if rec(i + 1) {
				return true
			}
			used[j] = false
		}
		return false
	}
	return rec(0)
}

func (o *opx) execIso(panics bool) {
	a, b := o.g0(), o.g1()
	classN := o.a(2) % 4
	classE := o.a(3) % 4
	nc := func(n *MNode) string {
		switch classN {
		case 0, 1:
			return joinLabels(n.labels)
		case 2:
			return ""
		}
		return canon(native(n.props["ps"]))
	}
	ec := func(e *MEdge) string {
		switch classE {
		case 0, 1:
			return e.label
		case 2:
			return ""
		}
		return canon(native(e.props["pi"]))
	}
	// the comparison is exponential: keep the search space small, unless the
	// context is going to end early
	space := 1
	for _, x := range a.nodes {
		c := 0
		for _, y := range b.nodes {
			if nc(x) == nc(y) {
				c++
			}
		}
		if c > 0 && space < 1<<30 {
			space *= c
		}
	}
	mode := o.choose("cancel", 4) // 0 none, 1 cancel at a callback, 2 deadline, 3 before the call
	if space > 1<<20 || space > 4000 && mode == 0 {
		o.probe("iso-too-large")
		o.skip()
	}
	V, E := len(a.nodes)+len(b.nodes), len(a.edges)+len(b.edges)
	// work that may follow the end of the context: a bounded number of
	// candidate checks and not a share of the search space
	unit := int64(len(a.nodes)*len(b.nodes) + V + E + len(a.edges)*len(b.edges))
	limC, limT := 4*unit+100, 12*unit+400
	callbacks, cbAt := int64(0), int64(0)
	ctx := &simCtx{o: o, done: make(chan struct{}), err: context.Canceled}
	ended := func(err error) {
		ctx.fire(err)
		cbAt = callbacks
		if b := ctx.at + 4*limT; b < o.budget {
			o.noteBudget()
			o.budgetAt, o.budget = ctx.at, b
		}
	}
	o.setBudget(1000000 + int64(space)*int64(V+1)*int64((E+2)*(E+2))*4)
	cancelAt := int64(-1)
	switch mode {
	case 1:
		cancelAt = int64(o.choose("cancelat", 1500))
		if cancelAt > 300 {
			cancelAt = (cancelAt - 300) * 4
		}
		if space > 4000 {
			cancelAt %= 60
		}
	case 2:
		x := int64(o.choose("cancelat", 1500))
		o.alarmAt = o.ticks + 1 + x*x/40
		o.alarm = func() {
			o.fault("context-deadline")
			ended(context.DeadlineExceeded)
		}
	case 3:
		o.fault("cancelled-before-call")
		ended(context.Canceled)
	}
	if space > 4000 {
		o.probe("iso-large-cancelled")
	}
	prompt := func() {
		if !ctx.cancel {
			return
		}
		if pc := (o.ticks - ctx.at) * 100 / limT; pc > o.c.st.MaxTicks["iso: steps after the end of the context, % of the limit"] {
			o.c.st.MaxTicks["iso: steps after the end of the context, % of the limit"] = pc
		}
		if pc := (callbacks - cbAt) * 100 / limC; pc > o.c.st.MaxTicks["iso: callbacks after the end of the context, % of the limit"] {
			o.c.st.MaxTicks["iso: callbacks after the end of the context, % of the limit"] = pc
		}
		if callbacks-cbAt > limC {
			o.fail("cancellation", "%d further callbacks after the context ended (graphs have %d nodes and %d edges)", callbacks-cbAt, V, E)
		}
		if o.ticks-ctx.at > limT {
			o.fail("cancellation", "%d further steps after the context ended (graphs have %d nodes and %d edges)", o.ticks-ctx.at, V, E)
		}
	}
	tick := func(where string) {
		callbacks++
		if mode == 1 && callbacks > cancelAt && !ctx.cancel {
			o.fault("context-cancelled")
			ended(context.Canceled)
		}
		prompt()
		o.yield(where)
		if panics {
			o.maybePanic("equivalence")
		}
	}
	var got bool
	var err error
	inj := o.try(func() {
		got, err = lpg.CheckIsomorphism(ctx, a.g, b.g, func(n1, n2 *lpg.Node) bool {
			x, y := a.byN[n1], b.byN[n2]
			if x == nil || y == nil {
				o.fail("iso", "node equivalence called with nodes that are not (graph 1, graph 2)")
			}
			tick("nodeEq")
			return nc(x) == nc(y)
		}, func(e1, e2 *lpg.Edge) bool {
			x, y := a.byE[e1], b.byE[e2]
			if x == nil || y == nil {
				o.fail("iso", "edge equivalence called with edges that are not (graph 1, graph 2)")
			}
			tick("edgeEq")
			return ec(x) == ec(y)
		})
	})
	o.alarmAt = 0
	o.oracle("iso")
	if inj {
		return
	}
	prompt()
	if err != nil {
		if !ctx.cancel {
			o.fail("iso", "error %v although the context is alive", err)
		}
		if err != ctx.err {
			o.fail("iso", "error is %v, the context's is %v", err, ctx.err)
		}
		o.probe("iso-cancelled")
		return
	}
	want := refIso(a, b, nc, ec)
	if got != want {
		o.fail("iso", "CheckIsomorphism = %v, want %v (node classes %d, edge classes %d)\n graph 1:\n%s graph 2:\n%s", got, want, classN, classE, a.dump(), b.dump())
	}
	if want {
		o.probe("iso-yes")
	} else if len(a.nodes) == len(b.nodes) && len(a.edges) == len(b.edges) {
		o.probe("iso-no-same-size")
	}
	o.note("iso %v", got)
}

// permCopy rebuilds graph 0 as graph 1 in another order, possibly altered.
func (o *opx) execPerm() {
	a := o.g0()
	if o.g0() == o.g1() {
		o.skip()
	}
	b := newMGraph(o.g1().slot)
	r := prog.NewRng(uint64(o.a(2)))
	ps := append([]*MNode{}, a.nodes...)
	es := append([]*MEdge{}, a.edges...)
	if o.a(2) != 0 {
		for i := len(ps) - 1; i > 0; i-- {
			j := r.N(i + 1)
			ps[i], ps[j] = ps[j], ps[i]
		}
		for i := len(es) - 1; i > 0; i-- {
			j := r.N(i + 1)
			es[i], es[j] = es[j], es[i]
		}
	}
	m := map[*MNode]*MNode{}
	for _, n := range ps {
		m[n] = o.newNode(b, n.labels, copyProps(n.props), 0)
	}
	alter := o.a(3) % 4
	for i, e := range es {
		f, t, l := m[e.from], m[e.to], e.label
		if i == 0 || i == 1 && alter == 3 {
			switch alter {
			case 1: // turn one edge around
				f, t = t, f
			case 2: // send it elsewhere
				t = b.nodes[o.a(4)%len(b.nodes)]
			case 3: // move two edges
				f = b.nodes[o.a(4+i)%len(b.nodes)]
			}
			if o.a(5)%8 == 1 {
				l = o.s.w.elab[o.a(6)%len(o.s.w.elab)]
			}
		}
		o.newEdge(b, f, t, l, copyProps(e.props), 0)
	}
	o.s.w.gs[b.slot] = b
}

// ---- P15: cursors ----

type simCursor struct {
	slot  int
	c     *lpg.Cursor
	nodes []*MNode
	edges []*MEdge
	mg    *MGraph
	old   []takenPath // paths taken from the cursor before it started another one
}

// takenPath is a path somebody got from a cursor that has moved on.
type takenPath struct {
	p     *lpg.Path
	nodes []*lpg.Node
	edges []*lpg.Edge
}

func (w *world) cursor(i int) *simCursor {
	for len(w.curs) <= i {
		w.curs = append(w.curs, &simCursor{slot: -1})
	}
	return w.curs[i]
}

// valid reports whether everything the cursor stands on is still live.
func (sc *simCursor) valid(w *world) bool {
	if sc.c == nil || sc.mg != w.gs[sc.slot] {
		return false
	}
	for _, n := range sc.nodes {
		if sc.mg.byN[n.h] != n {
			return false
		}
	}
	for _, e := range sc.edges {
		if sc.mg.byE[e.h] != e {
			return false
		}
	}
	return true
}

func (o *opx) checkCursor(sc *simCursor) {
	o.oracle("cursor")
	o.checkAround(sc, sc.nodes[len(sc.nodes)-1])
	o.checkRecorded(sc)
}

// checkAround checks what the cursor offers when it is at a node.
func (o *opx) checkAround(sc *simCursor, at *MNode) {
	const cl = "cursor"
	mg := sc.mg
	c := sc.c
	labels := append([]string{"absent"}, o.s.w.elab...)
	for _, d := range dirs {
		w := fmt.Sprintf("Cursor.Edges(%s) at %s", dirName(d), at)
		o.edgesEq(mg, cl, w, o.drainE(mg, c.Edges(d), w), mg.incident(at, d, nil))
		o.yield("cursor")
		w = fmt.Sprintf("Cursor.Nodes(%s) at %s", dirName(d), at)
		o.nodesEq(mg, cl, w, o.drainN(mg, c.Nodes(d), w), mg.neighbours(at, d, nil))
		for _, l := range labels {
			l := l
			byL := func(e *MEdge) bool { return e.label == l }
			w = fmt.Sprintf("Cursor.EdgesWith(%s,%q) at %s", dirName(d), l, at)
			o.edgesEq(mg, cl, w, o.drainE(mg, c.EdgesWith(d, l), w), mg.incident(at, d, byL))
			w = fmt.Sprintf("Cursor.NodesWith(%s,%q) at %s", dirName(d), l, at)
			o.nodesEq(mg, cl, w, o.drainN(mg, c.NodesWith(d, l), w), mg.neighbours(at, d, byL))
		}
	}
	l := labels[o.a(6)%len(labels)]
	byL := func(e *MEdge) bool { return e.label == l }
	o.edgesEq(mg, cl, "Cursor.Forward", o.drainE(mg, c.Forward(), "Forward"), mg.incident(at, lpg.OutgoingEdge, nil))
	o.edgesEq(mg, cl, "Cursor.Backward", o.drainE(mg, c.Backward(), "Backward"), mg.incident(at, lpg.IncomingEdge, nil))
	o.edgesEq(mg, cl, "Cursor.ForwardWith", o.drainE(mg, c.ForwardWith(l), "ForwardWith"), mg.incident(at, lpg.OutgoingEdge, byL))
	o.edgesEq(mg, cl, "Cursor.BackwardWith", o.drainE(mg, c.BackwardWith(l), "BackwardWith"), mg.incident(at, lpg.IncomingEdge, byL))
	o.nodesEq(mg, cl, "Cursor.NextNodes", o.drainN(mg, c.NextNodes(), "NextNodes"), mg.neighbours(at, lpg.OutgoingEdge, nil))
	o.nodesEq(mg, cl, "Cursor.PrevNodes", o.drainN(mg, c.PrevNodes(), "PrevNodes"), mg.neighbours(at, lpg.IncomingEdge, nil))
	o.nodesEq(mg, cl, "Cursor.NextNodesWith", o.drainN(mg, c.NextNodesWith(l), "NextNodesWith"), mg.neighbours(at, lpg.OutgoingEdge, byL))
	o.nodesEq(mg, cl, "Cursor.PrevNodesWith", o.drainN(mg, c.PrevNodesWith(l), "PrevNodesWith"), mg.neighbours(at, lpg.IncomingEdge, byL))
}

// checkRecorded checks the path the cursor records, and those it recorded before.
func (o *opx) checkRecorded(sc *simCursor) {
	const cl = "cursor"
	mg := sc.mg
	at := sc.nodes[len(sc.nodes)-1]
	for _, t := range sc.old {
		ok := t.p.NumNodes() == len(t.nodes) && t.p.NumEdges() == len(t.edges)
		for i := 0; ok && i < len(t.nodes); i++ {
			ok = t.p.GetNode(i) == t.nodes[i]
		}
		for i := 0; ok && i < len(t.edges); i++ {
			ok = t.p.GetEdge(i) == t.edges[i]
		}
		if !ok {
			o.fail(cl, "a path taken from a cursor had %d edges and has %d now that the cursor records another one", len(t.edges), t.p.NumEdges())
		}
	}
	p := sc.c.GetPath()
	if p == nil {
		o.fail(cl, "GetPath() is nil after StartPath")
	}
	if p.NumNodes() != len(sc.nodes) || p.NumEdges() != len(sc.edges) {
		o.fail(cl, "recorded path has %d nodes and %d edges, want %d and %d", p.NumNodes(), p.NumEdges(), len(sc.nodes), len(sc.edges))
	}
	if p.IsEmpty() {
		o.fail(cl, "recorded path is empty")
	}
	if p.First() != sc.nodes[0].h || p.Last() != at.h {
		o.fail(cl, "recorded path runs from %s to %s, want %s to %s", mg.nname(p.First()), mg.nname(p.Last()), sc.nodes[0], at)
	}
	for i, n := range sc.nodes {
		if p.GetNode(i) != n.h {
			o.fail(cl, "node %d of the recorded path is %s, want %s", i, mg.nname(p.GetNode(i)), n)
		}
	}
	for i, e := range sc.edges {
		if p.GetEdge(i) != e.h {
			o.fail(cl, "edge %d of the recorded path is %s, want %s", i, mg.ename(p.GetEdge(i)), e)
		}
	}
}

func init() {
	reg("iter", rd0, func(o *opx) {
		mg := o.g0()
		n := 1 + o.a(1)%3
		var its []*openIt
		for i := 0; i < n; i++ {
			if it := o.openIter(mg, o.a(2+2*i), o.a(3+2*i)); it != nil {
				its = append(its, it)
			}
		}
		if len(its) > 1 {
			o.probe("several-iterators")
		}
		alive := append([]*openIt{}, its...)
		turn := 0
		for len(alive) > 0 {
			i := 0
			if len(alive) > 1 {
				turn++
				i = (turn * (1 + o.a(8)%3) / (1 + o.a(9)%2)) % len(alive)
			}
			o.yield("next")
			if o.choose("abandon", 2) == 1 {
				o.fault("iterator-abandoned")
				alive[i].finish(o, mg, false)
				alive = append(alive[:i:i], alive[i+1:]...)
				continue
			}
			if !alive[i].step(o, mg) {
				alive[i].finish(o, mg, true)
				alive = append(alive[:i:i], alive[i+1:]...)
			}
		}
	})
	reg("paths", rd0, func(o *opx) { o.execPaths(false) })
	reg("pattern", rd0, func(o *opx) { o.execPattern(false) })
	reg("iso", rd0rd1, func(o *opx) { o.execIso(false) })
	reg("permCopy", rd0wr1, func(o *opx) { o.execPerm() })
	reg("pathsPanic", rd0, func(o *opx) { o.execPaths(true); o.afterPanic(o.g0()) })
	reg("patternPanic", rd0, func(o *opx) { o.execPattern(true); o.afterPanic(o.g0()) })
	reg("isoPanic", rd0rd1, func(o *opx) { o.execIso(true); o.afterPanic(o.g0()); o.afterPanic(o.g1()) })
	reg("curStart", rd0, func(o *opx) {
		mg := o.g0()
		n := o.node(mg, o.a(2))
		sc := o.s.w.cursor(o.c.id*3 + o.slot(o.a(1), 3))
		if sc.c == nil {
			sc.c = &lpg.Cursor{}
			for _, d := range dirs {
				if sc.c.Edges(d).Next() || sc.c.Nodes(d).Next() || sc.c.EdgesWith(d, "x").Next() || sc.c.NodesWith(d, "x").Next() {
					o.fail("cursor", "a cursor without a node offers something")
				}
			}
		}
		old := sc.old
		if p := sc.c.GetPath(); p != nil && len(sc.nodes) > 0 && o.a(5)%2 == 0 {
			t := takenPath{p: p}
			for _, n := range sc.nodes {
				t.nodes = append(t.nodes, n.h)
			}
			for _, e := range sc.edges {
				t.edges = append(t.edges, e.h)
			}
			if old = append(old, t); len(old) > 3 {
				old = old[1:]
			}
			o.probe("cursor-path-taken")
		}
		// at the node it is at, where it started, or anywhere
		set := true
		if o.a(4)%4 < 2 && sc.slot == mg.slot && sc.valid(o.s.w) {
			if n = sc.nodes[0]; o.a(4)%4 == 1 {
				n, set = sc.nodes[len(sc.nodes)-1], false
			}
		}
		*sc = simCursor{slot: mg.slot, c: sc.c, mg: mg, nodes: []*MNode{n}, old: old}
		if o.a(3)%4 == 0 && set {
			sc.c = &lpg.Cursor{}
		}
		if set {
			sc.c.Set(n.h)
		}
		sc.c.StartPath()
		o.checkCursor(sc)
	})
	curOp := func(f func(o *opx, sc *simCursor)) func(o *opx) {
		return func(o *opx) {
			sc := o.s.w.cursor(o.c.id*3 + o.slot(o.a(1), 3))
			if sc.slot != o.g0().slot || !sc.valid(o.s.w) || o.s.w.curJobs[o.a(1)%4] != nil {
				o.skip()
			}
			o.s.w.curJobs[o.a(1)%4] = o // one client at a time moves a cursor
			defer func() { o.s.w.curJobs[o.a(1)%4] = nil }()
			f(o, sc)
			o.checkCursor(sc)
			if o.a(7)%4 == 0 {
				o.auditStruct(sc.mg, o.a(7))
			}
		}
	}
	reg("curPush", rd0, curOp(func(o *opx, sc *simCursor) {
		at := sc.nodes[len(sc.nodes)-1]
		out := sc.mg.incident(at, lpg.OutgoingEdge, nil)
		if len(out) == 0 {
			o.skip()
		}
		e := out[o.a(2)%len(out)]
		sc.c.PushToPath(e.h)
		sc.edges = append(sc.edges, e)
		sc.nodes = append(sc.nodes, e.to)
		if len(sc.edges) > 17 {
			o.probe("long-path")
		}
	}))
	reg("curPop", rd0, curOp(func(o *opx, sc *simCursor) {
		if len(sc.edges) == 0 {
			o.skip()
		}
		o.probe("cursor-pop")
		sc.c.PopFromPath()
		sc.edges = sc.edges[:len(sc.edges)-1]
		sc.nodes = sc.nodes[:len(sc.nodes)-1]
	}))
	reg("curLook", rd0, curOp(func(o *opx, sc *simCursor) {
		if o.a(4)%2 == 0 && len(sc.mg.nodes) > 0 { // look from somewhere else
			n := sc.mg.nodes[o.a(2)%len(sc.mg.nodes)]
			sc.c.Set(n.h)
			o.checkAround(sc, n)
			o.checkRecorded(sc)
			sc.c.Set(sc.nodes[len(sc.nodes)-1].h)
			o.probe("cursor-set-aside")
		}
	}))
}

func (o *opx) afterPanic(mg *MGraph) {
	o.relax()
	o.auditFull(mg, o.a(0))
}
