package main

import (
	"fmt"
	"sort"

	"github.com/cloudprivacylabs/lpg/v2"
)

// Matching of added elements with the elements they were made from. Elements
// that carry a "uid" property are told apart by it; the others (among them
// all elements without properties) are matched by search.

type edgeSig struct {
	from, to int
}

type matcher struct {
	nn, sn   []*MNode
	addE     map[edgeSig][]string // by index into nn, sorted
	srcE     map[edgeSig][]string // by index into sn, sorted
	adjN     [][]int              // added: neighbours by index
	to       []int                // nn index -> sn index, -1 open
	used     []bool
	cands    [][]int
	complete bool
	steps    int
}

const matchCap = 60000

// subMulti says whether sorted a is a sub-multiset of sorted b.
func subMulti(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if j == len(b) || b[j] != x {
			return false
		}
		j++
	}
	return true
}

func (m *matcher) edgesFit(i, j int) bool {
	a, b := m.addE[edgeSig{i, j}], m.srcE[edgeSig{m.to[i], m.to[j]}]
	if m.complete && len(a) != len(b) {
		return false
	}
	return subMulti(a, b)
}

func (m *matcher) fits(i int) bool {
	if m.complete {
		for j := range m.to {
			if m.to[j] >= 0 && (!m.edgesFit(i, j) || !m.edgesFit(j, i)) {
				return false
			}
		}
		return true
	}
	for _, j := range append([]int{i}, m.adjN[i]...) {
		if m.to[j] >= 0 && (!m.edgesFit(i, j) || !m.edgesFit(j, i)) {
			return false
		}
	}
	return true
}

// search assigns the open nodes; it reports whether it could.
func (m *matcher) search() bool {
	best, bestScore := -1, 0
	for i, t := range m.to {
		if t >= 0 {
			continue
		}
		free := 0
		for _, c := range m.cands[i] {
			if !m.used[c] {
				free++
			}
		}
		if free == 0 {
			return false
		}
		near := 0
		for _, j := range m.adjN[i] {
			if m.to[j] >= 0 {
				near++
			}
		}
		score := free*64 - near
		if best < 0 || score < bestScore {
			best, bestScore = i, score
		}
	}
	if best < 0 {
		return true
	}
	for _, c := range m.cands[best] {
		if m.used[c] {
			continue
		}
		m.steps++
		if m.steps > matchCap {
			return false
		}
		m.to[best] = c
		m.used[c] = true
		if m.fits(best) && m.search() {
			return true
		}
		m.used[c] = false
		m.to[best] = -1
	}
	return false
}

type matchResult struct {
	why    string // "" when they match
	capped bool   // search given up: nothing decided beyond the counts
	m      map[*MNode]*MNode
}

// matchGraphs decides whether the nodes nn and edges ne are images, each of a
// different element, of the nodes sn and edges se; complete demands that all
// of them have one. hint, when given, is the mapping to use.
func matchGraphs(nn []*MNode, ne []*MEdge, sn []*MNode, se []*MEdge, exp func(map[string]any) map[string]any, complete bool, hint map[*MNode]*MNode) (res matchResult) {
	bad := func(f string, a ...any) matchResult {
		res.why = fmt.Sprintf(f, a...)
		return res
	}
	mt := &matcher{nn: nn, sn: sn, complete: complete, addE: map[edgeSig][]string{}, srcE: map[edgeSig][]string{}}
	nix, six := map[*MNode]int{}, map[*MNode]int{}
	byU := map[string]int{}
	bySig := map[string][]int{}
	sigN := func(n *MNode, p map[string]any) string { return joinLabels(n.labels) + "|" + canonProps(p) }
	sigE := func(e *MEdge, p map[string]any) string { return fmt.Sprintf("%q|%s", e.label, canonProps(p)) }
	sExp := make([]string, len(sn))
	for i, s := range sn {
		six[s] = i
		sExp[i] = sigN(s, exp(s.props))
		if u := propUID(s.props); u != "" {
			byU[u] = i
		} else {
			bySig[sExp[i]] = append(bySig[sExp[i]], i)
		}
	}
	mt.used = make([]bool, len(sn))
	mt.to = make([]int, len(nn))
	mt.cands = make([][]int, len(nn))
	hinted := map[int]int{}
	if hint != nil {
		for s, n := range hint {
			for i, x := range nn {
				if x == n {
					hinted[i] = six[s]
				}
			}
		}
	}
	for i, n := range nn {
		nix[n] = i
		mt.to[i] = -1
		s := -1
		if u := propUID(n.props); u != "" {
			x, ok := byU[u]
			if !ok {
				return bad("it added %s, which is not a node of the source", n)
			}
			s = x
		} else if hint != nil {
			x, ok := hinted[i]
			if !ok {
				return bad("it added %s, which it does not report as the copy of any node", n)
			}
			s = x
		}
		if s >= 0 {
			if mt.used[s] {
				return bad("it added %s twice", sn[s])
			}
			if sExp[s] != sigN(n, n.props) {
				return bad("it added %s with labels %q and properties {%s}, want {%s}", sn[s], n.labels, canonProps(n.props), canonProps(exp(sn[s].props)))
			}
			mt.used[s] = true
			mt.to[i] = s
			continue
		}
		mt.cands[i] = bySig[sigN(n, n.props)]
		if len(mt.cands[i]) == 0 {
			return bad("it added %s; no node of the source is like it", n)
		}
	}
	if complete && len(nn) != len(sn) {
		for i, s := range sn {
			if !mt.used[i] && propUID(s.props) != "" {
				return bad("it did not add %s", s)
			}
		}
		return bad("it added %d of %d nodes", len(nn), len(sn))
	}
	// edges
	srcUE := map[string]*MEdge{}
	for _, e := range se {
		k := edgeSig{six[e.from], six[e.to]}
		mt.srcE[k] = append(mt.srcE[k], sigE(e, exp(e.props)))
		if u := propUID(e.props); u != "" {
			srcUE[u] = e
		}
	}
	seenUE := map[*MEdge]bool{}
	mt.adjN = make([][]int, len(nn))
	for _, e := range ne {
		f, ok1 := nix[e.from]
		t, ok2 := nix[e.to]
		if !ok1 || !ok2 {
			return bad("it attached %s to a node it did not add", e)
		}
		if u := propUID(e.props); u != "" {
			s := srcUE[u]
			switch {
			case s == nil:
				return bad("it added %s, which is not an edge of the source", e)
			case seenUE[s]:
				return bad("it added %s twice", s)
			case sigE(s, exp(s.props)) != sigE(e, e.props):
				return bad("it added %s as %s, want properties {%s}", s, e, canonProps(exp(s.props)))
			case mt.to[f] >= 0 && sn[mt.to[f]] != s.from || mt.to[t] >= 0 && sn[mt.to[t]] != s.to:
				return bad("it attached the copy of %s to the wrong nodes", s)
			}
			seenUE[s] = true
		}
		k := edgeSig{f, t}
		mt.addE[k] = append(mt.addE[k], sigE(e, e.props))
		mt.adjN[f] = append(mt.adjN[f], t)
		mt.adjN[t] = append(mt.adjN[t], f)
	}
	if complete && len(ne) != len(se) {
		for _, e := range se {
			if u := propUID(e.props); u != "" && !seenUE[e] {
				return bad("it did not add %s", e)
			}
		}
		return bad("it added %d of %d edges", len(ne), len(se))
	}
	for _, v := range mt.addE {
		sort.Strings(v)
	}
	for _, v := range mt.srcE {
		sort.Strings(v)
	}
	for i, t := range mt.to {
		if t >= 0 && !mt.fits(i) {
			return bad("the edges of the copy of %s differ", sn[t])
		}
	}
	if !mt.search() {
		if mt.steps > matchCap {
			res.capped = true
			return
		}
		return bad("what it added cannot be matched with the source")
	}
	res.m = map[*MNode]*MNode{}
	for i, t := range mt.to {
		res.m[sn[t]] = nn[i]
	}
	return
}

func dumpElems(ns []*MNode, es []*MEdge) string {
	return (&MGraph{nodes: ns, edges: es}).dump()
}

// matchAdded checks that the elements a load or copy added are elements of
// the source, each once; complete demands all of them.
func (o *opx) matchAdded(class string, what any, nn []*MNode, ne []*MEdge, sn []*MNode, se []*MEdge, exp func(map[string]any) map[string]any, complete bool, hint map[*MNode]*MNode) map[*MNode]*MNode {
	r := matchGraphs(nn, ne, sn, se, exp, complete, hint)
	if r.why != "" {
		o.fail(class, "%v: %s\n added:\n%s source:\n%s", what, r.why, dumpElems(nn, ne), dumpElems(sn, se))
	}
	if r.capped {
		o.probe("match-search-capped")
	}
	if hint == nil && len(nn) > 0 && propUID(nn[0].props) == "" {
		o.probe("matched-by-search")
	}
	return r.m
}

// hintOf turns a returned node map into one over the model; it fails when the
// map does not lead from copied nodes to added ones, one to one.
func (o *opx) hintOf(class, what string, src, tgt *MGraph, nm map[*lpg.Node]*lpg.Node, sn, nn []*MNode) map[*MNode]*MNode {
	if len(nm) != len(sn) {
		o.fail(class, "%s returned a map of %d nodes, %d were copied", what, len(nm), len(sn))
	}
	added := map[*MNode]bool{}
	for _, n := range nn {
		added[n] = true
	}
	out := map[*MNode]*MNode{}
	seen := map[*MNode]*MNode{}
	for _, s := range sn {
		h, ok := nm[s.h]
		if !ok {
			o.fail(class, "%s does not report the copy of %s", what, s)
		}
		n := tgt.byN[h]
		if n == nil || !added[n] {
			o.fail(class, "%s maps %s to a node it did not add to the target", what, s)
		}
		if seen[n] != nil {
			o.fail(class, "%s maps %s and %s to the same node", what, s, seen[n])
		}
		seen[n] = s
		out[s] = n
	}
	return out
}
