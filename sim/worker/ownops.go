package main

import (
	"encoding/json"
	"fmt"
	"sort"

	"verifsim/prog"

	"github.com/cloudprivacylabs/lpg/v2"
)

// Values that several clients derive from one another: paths (P18) and string
// sets (P19). Every client owns four of each; a mailbox guarded by the lock
// of graph 0 hands copies around. Nothing else orders the clients.

const ownSlots = 4

// ---- P18: paths ----

type pel struct {
	e   *MEdge
	rev bool
}

func (x pel) from() *MNode {
	if x.rev {
		return x.e.to
	}
	return x.e.from
}
func (x pel) to() *MNode {
	if x.rev {
		return x.e.from
	}
	return x.e.to
}
func (x pel) lib() lpg.PathElement { return lpg.PathElement{Edge: x.e.h, Reverse: x.rev} }

// mpath is the reference: nothing, one node, or edges with directions.
type mpath struct {
	only *MNode
	els  []pel
}

func (m mpath) nodes() []*MNode {
	if m.only != nil {
		return []*MNode{m.only}
	}
	if len(m.els) == 0 {
		return nil
	}
	ns := []*MNode{m.els[0].from()}
	for _, x := range m.els {
		ns = append(ns, x.to())
	}
	return ns
}

func (m mpath) clone() mpath { return mpath{m.only, append([]pel{}, m.els...)} }

func (m mpath) String() string {
	if m.only != nil {
		return m.only.String()
	}
	if len(m.els) == 0 {
		return "(empty)"
	}
	s := m.els[0].from().String()
	for _, x := range m.els {
		s += " " + x.e.String() + " " + x.to().String()
	}
	return s
}

type ownPath struct {
	p *lpg.Path
	m mpath
}

type ownSet struct {
	s lpg.StringSet
	m []string // sorted
}

type owned struct {
	paths [ownSlots]*ownPath
	els   []lpg.PathElement // elements passed to NewPathFromElements, kept by the caller
	elsAs []pel
	sets  [ownSlots]*ownSet
}

func (o *opx) own() *owned {
	w := o.s.w
	return &w.own[o.c.id]
}

func (o *opx) checkPath(x *ownPath, what string) {
	const cl = "path"
	o.oracle("path")
	p, ns := x.p, x.m.nodes()
	bad := func(f string, a ...any) {
		o.fail(cl, "%s: %s; the path should be %s", what, fmt.Sprintf(f, a...), x.m)
	}
	mg := o.g0()
	if p == nil {
		bad("nil path")
	}
	if p.NumNodes() != len(ns) || p.NumEdges() != len(x.m.els) || p.IsEmpty() != (len(ns) == 0) {
		bad("%d nodes, %d edges, empty=%v", p.NumNodes(), p.NumEdges(), p.IsEmpty())
	}
	if len(ns) == 0 {
		if p.First() != nil || p.Last() != nil {
			bad("an empty path has a first or last node")
		}
	} else if p.First() != ns[0].h || p.Last() != ns[len(ns)-1].h {
		bad("runs from %s to %s", mg.nname(p.First()), mg.nname(p.Last()))
	}
	for i, n := range ns {
		if p.GetNode(i) != n.h {
			bad("node %d is %s", i, mg.nname(p.GetNode(i)))
		}
	}
	for i, e := range x.m.els {
		if p.GetEdge(i) != e.e.h {
			bad("edge %d is %s", i, mg.ename(p.GetEdge(i)))
		}
	}
	if p.GetEdge(len(x.m.els)) != nil {
		bad("there is an edge behind the last")
	}
}

// checkPaths checks the path just worked on and all others of this client.
func (o *opx) checkPaths(what string) {
	for i, x := range o.own().paths {
		if x != nil {
			o.checkPath(x, fmt.Sprintf("path %d of client %d after %s", i, o.c.id, what))
		}
	}
	for i, x := range o.s.w.boxPaths {
		if x != nil {
			o.checkPath(x, fmt.Sprintf("handed over path %d after %s", i, what))
		}
	}
	if w := o.own(); len(w.els) > 0 {
		for i, x := range w.els[:cap(w.els)] {
			if i < len(w.els) && x != w.elsAs[i].lib() || i >= len(w.els) && x != (lpg.PathElement{}) {
				o.fail("path", "element %d of the list a path was made from has changed after %s", i, what)
			}
		}
	}
	if len(o.g0().nodes)+len(o.g0().edges) > o.s.peak {
		o.s.peak = len(o.g0().nodes) + len(o.g0().edges)
	}
}

// walk is a random walk of up to n edges from at; dir 0 forward only.
func (o *opx) walk(mg *MGraph, at *MNode, n, bits, dir int) []pel {
	var out []pel
	for ; n > 0; n-- {
		var cand []pel
		for _, e := range mg.edges {
			if e.from == at {
				cand = append(cand, pel{e, false})
			}
			if dir != 0 && e.to == at {
				cand = append(cand, pel{e, true})
			}
		}
		if len(cand) == 0 {
			break
		}
		x := cand[bits%len(cand)]
		bits = bits/3 + 7*n
		out = append(out, x)
		at = x.to()
	}
	return out
}

func libEls(els []pel) []lpg.PathElement {
	out := make([]lpg.PathElement, 0, len(els)+2)
	for _, x := range els {
		out = append(out, x.lib())
	}
	return out
}

func hasPrefix(a, b []pel) bool {
	if len(b) > len(a) {
		return false
	}
	for i := range b {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// refHasPrefixPath: the node and edge sequence of b starts that of a.
func refHasPrefixPath(a, b mpath) bool {
	an, bn := a.nodes(), b.nodes()
	if len(bn) == 0 {
		return true
	}
	if len(an) == 0 || an[0] != bn[0] {
		return false
	}
	return hasPrefix(a.els, b.els)
}

// slot spreads over the slots a client has or, in long runs, stays with a few of
// them so that what is in them grows.
func (o *opx) slot(i, n int) int {
	if o.s.cfg.F["few"] != 0 && i%8 != 0 {
		n = 2
	}
	return i / 8 % n
}

func (o *opx) pathAt(i int) *ownPath {
	x := o.own().paths[o.slot(i, ownSlots)]
	if x == nil {
		o.skip()
	}
	return x
}

func init() {
	put := func(o *opx, x *ownPath) { o.own().paths[o.slot(o.a(1), ownSlots)] = x }
	pathOp := func(k string, f func(o *opx, mg *MGraph)) {
		reg(k, rd0, func(o *opx) {
			f(o, o.g0())
			o.yield("path")
			o.checkPaths(k)
		})
	}
	pathOp("pathNew", func(o *opx, mg *MGraph) {
		n := o.node(mg, o.a(2))
		x := &ownPath{}
		els := o.walk(mg, n, 1+o.a(3)%5, o.a(4), o.a(5)%2)
		switch o.a(6) % 8 {
		case 6, 7: // several paths of the same elements, which stay the caller's
			w := o.own()
			if o.a(6)/8%2 == 0 || len(w.els) == 0 {
				w.els, w.elsAs = libEls(els), els
			}
			if o.a(6)%8 == 7 {
				for i := range w.els {
					w.els[i] = lpg.PathElement{}
				}
				w.els, w.elsAs = libEls(els), els
			}
			x.p, x.m = lpg.NewPathFromElements(w.els...), mpath{els: w.elsAs}.clone()
			w.paths[o.slot(o.a(1)+8, ownSlots)] = &ownPath{lpg.NewPathFromElements(w.els...), x.m.clone()}
			o.probe("shared-elements")
		case 0:
			x.p, x.m = lpg.PathFromNode(n.h), mpath{only: n}
		case 1:
			x.p = &lpg.Path{}
		case 2:
			els = o.walk(mg, n, 1+o.a(3)%5, o.a(4), 0)
			var es []*lpg.Edge
			for _, e := range els {
				es = append(es, e.e.h)
			}
			x.p, x.m = lpg.NewPathFromElements(lpg.NewPathElementsFromEdges(es)...), mpath{els: els}
		case 3: // one edge at a time
			x.p, x.m = lpg.PathFromNode(n.h), mpath{only: n}
			for _, e := range els {
				x.p.Append(e.lib())
				x.m = mpath{els: append(x.m.els, e)}
			}
		default:
			x.p, x.m = lpg.NewPathFromElements(libEls(els)...), mpath{els: els}
		}
		put(o, x)
	})
	pathOp("pathClone", func(o *opx, mg *MGraph) {
		x := o.pathAt(o.a(2))
		put(o, &ownPath{x.p.Clone(), x.m.clone()})
	})
	pathOp("pathSlice", func(o *opx, mg *MGraph) {
		x := o.pathAt(o.a(2))
		ns := x.m.nodes()
		if len(ns) == 0 {
			o.skip()
		}
		s := o.a(3) % len(ns)
		e := s + 2 + o.a(4)%4
		m := mpath{}
		switch {
		case o.a(5)%8 == 0:
			s, e = 0, 0
			m.only = ns[0]
		case o.a(5)%8 == 1 && s < len(ns)-1: // documented form for one node
			e = s
			m.only = ns[s]
		case s == len(ns)-1:
			m.only = ns[s]
			e = len(ns)
			if o.a(4)%2 == 0 {
				e = -1
			}
		default:
			if e >= len(ns) {
				e = len(ns)
				m.els = append(m.els, x.m.els[s:]...)
				if o.a(6)%2 == 0 {
					e = -1
				}
			} else {
				m.els = append(m.els, x.m.els[s:e-1]...)
			}
		}
		put(o, &ownPath{x.p.Slice(s, e), m})
	})
	pathOp("pathAppend", func(o *opx, mg *MGraph) {
		x := o.pathAt(o.a(1))
		ns := x.m.nodes()
		at := o.node(mg, o.a(2))
		if len(ns) > 0 {
			at = ns[len(ns)-1]
		}
		els := o.walk(mg, at, o.a(3)%4, o.a(4), o.a(5)%2)
		arg := libEls(els)
		if x.p.Append(arg...) != x.p {
			o.fail("path", "Append does not return its receiver")
		}
		if len(els) > 0 {
			x.m = mpath{els: append(append([]pel{}, x.m.els...), els...)}
		}
		for i := range arg { // the argument list is the caller's
			arg[i] = lpg.PathElement{}
		}
	})
	pathOp("pathAppendPath", func(o *opx, mg *MGraph) {
		x, y := o.pathAt(o.a(1)), o.pathAt(o.a(2))
		xn, yn := x.m.nodes(), y.m.nodes()
		if len(xn)+len(yn) > 300 {
			o.skip()
		}
		if len(xn) > 0 && len(yn) > 0 && xn[len(xn)-1] != yn[0] {
			// make a second path that continues the first one
			at := xn[len(xn)-1]
			els := o.walk(mg, at, o.a(3)%4, o.a(4), o.a(5)%2)
			y = &ownPath{lpg.NewPathFromElements(libEls(els)...), mpath{els: els}}
			if len(els) == 0 {
				y = &ownPath{lpg.PathFromNode(at.h), mpath{only: at}}
			}
			o.own().paths[o.slot(o.a(2), ownSlots)] = y
			yn = y.m.nodes()
		}
		if len(xn)+len(yn) > 17 {
			o.probe("long-path")
		}
		if len(yn) == 1 {
			o.probe("append-single-node")
		}
		if x == y {
			o.probe("append-self")
		}
		if x.p.AppendPath(y.p) != x.p {
			o.fail("path", "AppendPath does not return its receiver")
		}
		switch {
		case len(xn) == 0:
			x.m = y.m.clone()
		case len(y.m.els) > 0:
			x.m = mpath{els: append(append([]pel{}, x.m.els...), y.m.els...)}
		}
	})
	pathOp("pathRemoveLast", func(o *opx, mg *MGraph) {
		x := o.pathAt(o.a(1))
		for i := o.a(2) % 3; i >= 0; i-- {
			x.p.RemoveLast()
			switch {
			case x.m.only != nil:
				x.m = mpath{}
			case len(x.m.els) == 1:
				x.m = mpath{only: x.m.els[0].from()}
			case len(x.m.els) > 1:
				x.m = mpath{els: append([]pel{}, x.m.els[:len(x.m.els)-1]...)}
			}
		}
	})
	pathOp("pathReset", func(o *opx, mg *MGraph) {
		x := o.pathAt(o.a(1))
		if o.a(2)%2 == 0 {
			x.p.Clear()
			x.m = mpath{}
		} else {
			n := o.node(mg, o.a(3))
			x.p.SetOnlyNode(n.h)
			x.m = mpath{only: n}
		}
	})
	pathOp("pathPrefix", func(o *opx, mg *MGraph) {
		x, y := o.pathAt(o.a(1)), o.pathAt(o.a(2))
		if o.a(3)%2 == 0 { // something related
			k := 0
			if len(x.m.els) > 0 {
				k = o.a(4) % (len(x.m.els) + 1)
			}
			m := mpath{els: append([]pel{}, x.m.els[:k]...)}
			if k > 0 && o.a(5)%3 == 0 { // differing in one place only
				i := o.a(6) % k
				for _, e := range mg.edges {
					if d := (pel{e, m.els[i].rev}); e != m.els[i].e && d.from() == m.els[i].from() && d.to() == m.els[i].to() {
						m.els[i] = d
						o.probe("prefix-parallel-edge")
						break
					}
				}
			}
			if k == 0 {
				if ns := x.m.nodes(); len(ns) > 0 {
					m.only = ns[0]
				}
			}
			y = &ownPath{m: m}
			switch {
			case m.only != nil:
				y.p = lpg.PathFromNode(m.only.h)
			case k == 0:
				y.p = &lpg.Path{}
			default:
				y.p = lpg.NewPathFromElements(libEls(m.els)...)
			}
		}
		if want := refHasPrefixPath(x.m, y.m); x.p.HasPrefixPath(y.p) != want {
			o.fail("path", "HasPrefixPath of %s and %s is %v", x.m, y.m, !want)
		}
		if len(x.m.els) > 0 {
			want := hasPrefix(x.m.els, y.m.els)
			if x.p.HasPrefix(libEls(y.m.els)) != want {
				o.fail("path", "HasPrefix of %s and %s is %v", x.m, y.m, !want)
			}
			if want && len(y.m.els) > 0 {
				o.probe("prefix-true")
			}
		}
		o.checkPath(y, "the prefix after HasPrefix")
		_ = x.p.String()
	})
	// a path delivered by an enumeration belongs to the receiver
	pathOp("pathTake", func(o *opx, mg *MGraph) {
		n := o.node(mg, o.a(2))
		want := map[string]int{}
		total := 0
		if !mg.refPaths(n, lpg.OutgoingEdge, -1, 3, func(*MEdge) bool { return true }, 300, func(ps []pstep) { want[pkey(ps)]++; total++ }) {
			o.skip()
		}
		var leg sliceEdges
		for _, e := range mg.incident(n, lpg.OutgoingEdge, nil) {
			leg.es = append(leg.es, e.h)
		}
		k := 0
		o.setBudget(400000 + 100000*int64(total+1))
		lpg.CollectAllPaths(mg.g, n.h, &leg, func(*lpg.Edge) bool { return true }, lpg.OutgoingEdge, -1, 3, func(p *lpg.Path) bool {
			key := o.pathKey(mg, p, "path")
			if want[key]--; want[key] < 0 {
				o.fail("path", "after the receiver changed earlier paths, %s is reported, which is no path or a repetition", key)
			}
			x := &ownPath{p: p}
			for i := 0; i < p.NumEdges(); i++ {
				x.m.els = append(x.m.els, pel{mg.byE[p.GetEdge(i)], false})
			}
			switch k++; (o.a(3) + k) % 4 {
			case 0:
				p.RemoveLast()
				if len(x.m.els) == 1 {
					x.m = mpath{only: x.m.els[0].from()}
				} else {
					x.m.els = x.m.els[:len(x.m.els)-1]
				}
			case 1:
				if more := o.walk(mg, x.m.els[len(x.m.els)-1].to(), 2, o.a(4)+k, 0); len(more) > 0 {
					p.Append(libEls(more)...)
					x.m.els = append(x.m.els, more...)
				}
			case 2:
				p.Clear()
				x.m = mpath{}
			}
			o.own().paths[(o.a(1)+k)%ownSlots] = x
			o.yield("pathTake")
			return true
		})
		for _, key := range sortedKeys(want) {
			if want[key] != 0 {
				o.fail("path", "after the receiver changed earlier paths, %s is missing", key)
			}
		}
	})
	reg("pathGive", wr0, func(o *opx) {
		x := o.pathAt(o.a(1))
		o.s.w.boxPaths[o.a(2)%ownSlots] = &ownPath{x.p.Clone(), x.m.clone()}
		o.checkPaths("pathGive")
	})
	reg("pathGet", wr0, func(o *opx) {
		x := o.s.w.boxPaths[o.a(2)%ownSlots]
		if x == nil {
			o.skip()
		}
		o.probe("path-handed-over")
		put(o, &ownPath{x.p.Clone(), x.m.clone()})
		o.checkPaths("pathGet")
	})

	// ---- P19: string sets ----

	reg("setNew", nil, func(o *opx) {
		x := &ownSet{}
		if o.a(3)%4 > 0 {
			ls := o.list(o.a(2), o.a(4))
			x.s = lpg.NewStringSet(ls...)
			x.m = normLabels(ls)
			for i := range ls {
				ls[i] = "zz"
			}
		}
		o.own().sets[o.a(1)%ownSlots] = x
		o.checkSets("setNew")
	})
	setOp := func(k string, f func(o *opx, x *ownSet)) {
		reg(k, nil, func(o *opx) {
			f(o, o.setAt(o.a(1)))
			o.yield("set")
			o.checkSets(k)
		})
	}
	setOp("setClone", func(o *opx, x *ownSet) {
		o.own().sets[o.a(2)%ownSlots] = &ownSet{x.s.Clone(), x.m}
	})
	setOp("setAdd", func(o *opx, x *ownSet) {
		ls := o.list(o.a(2), o.a(3))
		if x.s.Add(ls...) != &x.s {
			o.fail("set", "Add does not return its receiver")
		}
		x.m = normLabels(append(append([]string{}, x.m...), ls...))
	})
	setOp("setAddSet", func(o *opx, x *ownSet) {
		y := o.setAt(o.a(2))
		if x == y {
			o.probe("set-with-itself")
		}
		if x.s.AddSet(y.s) != &x.s {
			o.fail("set", "AddSet does not return its receiver")
		}
		x.m = normLabels(append(append([]string{}, x.m...), y.m...))
	})
	setOp("setRemove", func(o *opx, x *ownSet) {
		ls := o.list(o.a(2), o.a(3))
		if x.s.Remove(ls...) != &x.s {
			o.fail("set", "Remove does not return its receiver")
		}
		var keep []string
		for _, m := range x.m {
			if !has(ls, m) {
				keep = append(keep, m)
			}
		}
		x.m = keep
	})
	setOp("setAsk", func(o *opx, x *ownSet) {
		y := o.setAt(o.a(2))
		ls := o.list(o.a(3), o.a(4))
		sub := func(a, b []string) (all, any bool) { // of b in a
			all = true
			for _, m := range b {
				if has(a, m) {
					any = true
				} else {
					all = false
				}
			}
			return
		}
		all, some := sub(x.m, y.m)
		ask := func(what string, got, want bool) {
			if got != want {
				o.fail("set", "%s of %q and %q (or %q) is %v", what, x.m, y.m, ls, got)
			}
		}
		ask("HasAllSet", x.s.HasAllSet(y.s), all)
		ask("HasAnySet", x.s.HasAnySet(y.s), some)
		ask("IsEqual", x.s.IsEqual(y.s), all && len(x.m) == len(y.m))
		all, some = sub(x.m, ls)
		ask("HasAll", x.s.HasAll(ls...), all)
		ask("HasAny", x.s.HasAny(ls...), some)
		for i, l := range ls {
			ask("Has", x.s.Has(l), has(x.m, l))
			if i > 3 {
				break
			}
		}
	})
	setOp("setJSON", func(o *opx, x *ownSet) {
		b, err := x.s.MarshalJSON()
		if o.a(3)%2 == 0 {
			b, err = json.Marshal(x.s)
		}
		if err != nil {
			o.fail("set", "marshaling %q: %v", x.m, err)
		}
		var ls []string
		if err := json.Unmarshal(b, &ls); err != nil || ls == nil {
			o.fail("set", "marshaling %q yields %s", x.m, b)
		}
		sort.Strings(ls)
		if !eqStrings(ls, x.m) {
			o.fail("set", "marshaling %q yields %s", x.m, b)
		}
		y := o.setAt(o.a(2))
		switch o.a(4) % 4 {
		case 0: // damaged input leaves the receiver alone
			bad := [][]byte{[]byte(`["a",1]`), []byte(`{"a":1}`), []byte(`"a"`), []byte(`["a"`), []byte(``), []byte(`[["a"]]`), append(append([]byte{}, b...), 'x'), b[:len(b)-1]}[o.a(5)%8]
			o.fault("damaged-set-json")
			if err := y.s.UnmarshalJSON(bad); err == nil {
				o.fail("set", "unmarshaling %s succeeds", bad)
			}
		case 1:
			if err := json.Unmarshal(b, &y.s); err != nil {
				o.fail("set", "unmarshaling %s: %v", b, err)
			}
			y.m = x.m
		default:
			ls := o.list(o.a(5), o.a(6))
			in, _ := json.Marshal(ls)
			if err := y.s.UnmarshalJSON(in); err != nil {
				o.fail("set", "unmarshaling %s: %v", in, err)
			}
			y.m = normLabels(ls)
		}
	})
	setOp("setSlice", func(o *opx, x *ownSet) {
		for _, ls := range [][]string{x.s.Slice(), x.s.SortedSlice()} {
			for i := range ls { // the result is the caller's
				ls[i] = "zz"
			}
			_ = append(ls, "zz")
		}
	})
	reg("setGive", wr0, func(o *opx) {
		x := o.setAt(o.a(1))
		o.s.w.boxSets[o.a(2)%ownSlots] = &ownSet{x.s.Clone(), x.m}
		o.checkSets("setGive")
	})
	reg("setGet", wr0, func(o *opx) {
		x := o.s.w.boxSets[o.a(2)%ownSlots]
		if x == nil {
			o.skip()
		}
		o.probe("set-handed-over")
		o.own().sets[o.a(1)%ownSlots] = &ownSet{x.s.Clone(), x.m}
		o.checkSets("setGet")
	})
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// list is a list of strings, possibly empty, possibly with repetitions.
func (o *opx) list(bits, shape int) []string {
	pool := append([]string{"p", "q", "", "0"}, o.s.w.nlab...)
	var out []string
	for i := shape % 5; i > 0; i-- {
		out = append(out, pool[bits%len(pool)])
		bits = int(prog.Mix(uint64(bits), 5) >> 40)
	}
	if shape%64 >= 60 { // many
		for i := 0; i < 40; i++ {
			out = append(out, fmt.Sprint("m", (bits+i)%60))
		}
	}
	return out
}

func (o *opx) setAt(i int) *ownSet {
	x := o.own().sets[i%ownSlots]
	if x == nil {
		o.skip()
	}
	return x
}

func (o *opx) checkSets(what string) {
	n := 0
	for i, x := range o.own().sets {
		if x == nil {
			continue
		}
		n++
		o.oracle("set")
		bad := func(f string, a ...any) {
			o.fail("set", "set %d of client %d after %s: %s; it should be %q", i, o.c.id, what, fmt.Sprintf(f, a...), x.m)
		}
		if x.s.Len() != len(x.m) {
			bad("Len() is %d", x.s.Len())
		}
		for _, m := range x.m {
			if !x.s.Has(m) {
				bad("%q is missing", m)
			}
		}
		if ls := x.s.SortedSlice(); !eqStrings(ls, x.m) {
			bad("SortedSlice() is %q", ls)
		}
		ls := x.s.Slice()
		sort.Strings(ls)
		if !eqStrings(ls, x.m) {
			bad("Slice() is %q", ls)
		}
		if (x.s.String() == "") != (len(x.m) == 0 || len(x.m) == 1 && x.m[0] == "") {
			bad("String() is %q", x.s.String())
		}
		if len(x.m)+n > o.s.peak {
			o.s.peak = len(x.m) + n
		}
	}
}
