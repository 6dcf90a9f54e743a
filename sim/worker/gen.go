package main

import (
	"verifsim/prog"
)

type wk struct {
	k string
	w int
}

var mutators = []wk{{"newNode", 16}, {"newEdge", 20}, {"setLabels", 8}, {"setEdgeLabel", 6}, {"removeEdge", 7}, {"detach", 2}, {"removeNode", 6},
	{"setNodeProp", 9}, {"removeNodeProp", 5}, {"setEdgeProp", 9}, {"removeEdgeProp", 5}, {"addNodeIndex", 2}, {"addEdgeIndex", 2}}

func with(base []wk, more ...wk) []wk { return append(append([]wk{}, base...), more...) }

type profile struct {
	kinds        []wk
	graphs       [2]int
	clients      [2]int
	maxN, maxE   [2]int
	ops          [2]int
	p            map[string][2]int // permille ranges per choice class
	flags        func(r *prog.Rng, f map[string]int)
	prelude      bool // start by building small graphs
	preludeIndex bool
	large        bool // now and then much larger graphs
}

var noPre = map[string][2]int{"yield": {0, 0}}

var profiles = map[string]*profile{
	"P01": {large: true, kinds: with(mutators, wk{"crossEdge", 2}, wk{"audit", 3}), graphs: [2]int{1, 2}, clients: [2]int{1, 3}, maxN: [2]int{2, 7}, maxE: [2]int{3, 12}, ops: [2]int{5, 45},
		p: map[string][2]int{"gap": {0, 60}, "who": {500, 500}, "yield": {0, 30}, "done": {0, 300}}},
	"P02": {large: true, kinds: []wk{{"newNode", 18}, {"newEdge", 14}, {"setLabels", 18}, {"setEdgeLabel", 12}, {"removeEdge", 5}, {"detach", 2}, {"removeNode", 8}, {"setNodeProp", 2}, {"nmAdd", 10}, {"nmRemove", 5}, {"addNodeIndex", 1}, {"addEdgeIndex", 1}, {"setEdgeProp", 2}, {"audit", 2}},
		graphs: [2]int{1, 2}, clients: [2]int{1, 2}, maxN: [2]int{2, 7}, maxE: [2]int{2, 9}, ops: [2]int{5, 45},
		p: map[string][2]int{"gap": {0, 40}, "who": {500, 500}, "done": {0, 300}}},
	"P03": {large: true, kinds: []wk{{"newNode", 14}, {"newEdge", 14}, {"setLabels", 4}, {"setEdgeLabel", 3}, {"removeEdge", 6}, {"detach", 3}, {"removeNode", 6}, {"setNodeProp", 18}, {"removeNodeProp", 7}, {"setEdgeProp", 18}, {"removeEdgeProp", 7}, {"addNodeIndex", 6}, {"addEdgeIndex", 6}, {"audit", 4}},
		graphs: [2]int{1, 2}, clients: [2]int{1, 2}, maxN: [2]int{2, 7}, maxE: [2]int{2, 9}, ops: [2]int{5, 45},
		p: map[string][2]int{"gap": {0, 30}, "who": {500, 500}, "done": {0, 300}}},
	"P04": {large: true, kinds: with(mutators, wk{"crossEdge", 6}, wk{"nsAdd", 8}, wk{"nsRemove", 4}, wk{"esAdd", 8}, wk{"esRemove", 4}, wk{"audit", 3}, wk{"copy", 4}, wk{"load", 4}), graphs: [2]int{1, 3}, clients: [2]int{1, 3}, maxN: [2]int{2, 6}, maxE: [2]int{2, 8}, ops: [2]int{5, 45},
		p: map[string][2]int{"gap": {0, 60}, "who": {500, 500}, "yield": {0, 30}, "done": {0, 300}}, flags: func(r *prog.Rng, f map[string]int) { f["uid"] = uidMode(r) }},
	"P05": {large: true, kinds: with(mutators, wk{"iter", 70}, wk{"nmAdd", 6}, wk{"nsAdd", 5}, wk{"esAdd", 5}), graphs: [2]int{1, 2}, clients: [2]int{2, 4}, maxN: [2]int{2, 7}, maxE: [2]int{3, 10}, ops: [2]int{8, 50}, prelude: true,
		p: map[string][2]int{"gap": {0, 700}, "who": {500, 500}, "yield": {0, 500}, "done": {0, 300}, "abandon": {0, 60}}},
	"P06": {kinds: []wk{{"newNode", 4}, {"newEdge", 6}, {"setLabels", 3}, {"setEdgeLabel", 2}, {"removeEdge", 2}, {"removeNode", 2}, {"setNodeProp", 3}, {"setEdgeProp", 3}, {"addNodeIndex", 1}, {"addEdgeIndex", 1},
		{"audit", 8}, {"iter", 8}, {"pattern", 14}, {"paths", 8}, {"iso", 6}, {"permCopy", 1}, {"encFault", 8}, {"dot", 6}, {"copy", 6}, {"readMisc", 6}, {"share", 4}, {"askShared", 7}, {"loadOwn", 3}, {"curStart", 3}, {"curPush", 4}, {"curPop", 2}, {"curLook", 2}},
		graphs: [2]int{2, 3}, clients: [2]int{2, 4}, maxN: [2]int{2, 6}, maxE: [2]int{3, 9}, ops: [2]int{15, 50}, prelude: true,
		p:     map[string][2]int{"gap": {200, 950}, "who": {500, 800}, "yield": {0, 300}, "done": {0, 300}},
		flags: func(r *prog.Rng, f map[string]int) { f["uid"] = uidMode(r); f["jsonprops"] = r.N(2) }},
	"P07": {large: true, kinds: with(mutators, wk{"roundTrip", 40}), graphs: [2]int{1, 2}, clients: [2]int{1, 3}, maxN: [2]int{2, 6}, maxE: [2]int{2, 9}, ops: [2]int{4, 30}, prelude: true,
		p:     map[string][2]int{"gap": {0, 30}, "who": {500, 500}, "yield": {0, 30}, "done": {0, 300}, "chunk": {0, 900}, "zero": {0, 100}, "eofdata": {0, 500}},
		flags: func(r *prog.Rng, f map[string]int) { f["uid"] = uidMode(r); f["jsonprops"] = 1 }},
	"P08": {large: true, kinds: with(mutators, wk{"encFault", 45}, wk{"dot", 30}, wk{"setBad", 5}, wk{"clearBad", 5}), graphs: [2]int{1, 2}, clients: [2]int{1, 3}, maxN: [2]int{2, 6}, maxE: [2]int{2, 9}, ops: [2]int{4, 30}, prelude: true,
		p:     map[string][2]int{"gap": {0, 30}, "who": {500, 500}, "yield": {0, 30}, "done": {0, 300}, "wfail": {0, 25}, "wshort": {0, 900}, "cberr": {0, 60}},
		flags: func(r *prog.Rng, f map[string]int) { f["uid"] = uidMode(r); f["jsonprops"] = 1 }},
	"P09": {kinds: with(mutators, wk{"decFault", 60}), graphs: [2]int{2, 2}, clients: [2]int{1, 2}, maxN: [2]int{2, 6}, maxE: [2]int{2, 9}, ops: [2]int{4, 30}, prelude: true, preludeIndex: true,
		p:     map[string][2]int{"gap": {0, 20}, "who": {500, 500}, "yield": {0, 20}, "done": {0, 300}, "chunk": {0, 900}, "zero": {0, 100}, "eofdata": {0, 500}, "cberr": {0, 60}},
		flags: func(r *prog.Rng, f map[string]int) { f["uid"] = uidMode(r); f["jsonprops"] = 1 }},
	"P10": {large: true, kinds: with(mutators, wk{"dsave", 40}, wk{"dcrash", 10}), graphs: [2]int{1, 1}, clients: [2]int{1, 1}, maxN: [2]int{2, 6}, maxE: [2]int{2, 9}, ops: [2]int{4, 35}, prelude: true,
		p: map[string][2]int{"crash": {0, 15}, "ioerr": {0, 12}, "fsync": {0, 150}, "tear": {0, 950}, "zeros": {0, 400}, "wshort": {0, 900}, "rfail": {0, 300}, "rfailat": {0, 950}, "chunk": {0, 900}, "zero": {0, 50}, "eofdata": {0, 500}},
		flags: func(r *prog.Rng, f map[string]int) {
			f["uid"] = uidMode(r)
			f["jsonprops"] = 1
			f["proto"] = r.N(2)
			f["codec"] = r.N(64)
		}},
	"P11": {large: true, kinds: with(mutators, wk{"copy", 40}), graphs: [2]int{2, 3}, clients: [2]int{1, 3}, maxN: [2]int{2, 6}, maxE: [2]int{2, 9}, ops: [2]int{5, 40}, prelude: true,
		p:     map[string][2]int{"gap": {0, 60}, "who": {500, 500}, "yield": {0, 40}, "done": {0, 300}},
		flags: func(r *prog.Rng, f map[string]int) { f["uid"] = uidMode(r) }},
	"P12": {kinds: with(mutators, wk{"permCopy", 25}, wk{"iso", 60}), graphs: [2]int{2, 3}, clients: [2]int{1, 2}, maxN: [2]int{2, 7}, maxE: [2]int{2, 8}, ops: [2]int{6, 40}, prelude: true,
		p: map[string][2]int{"gap": {0, 40}, "who": {500, 500}, "yield": {0, 30}, "done": {0, 300}, "cancel": {0, 500}, "cancelat": {700, 1000}}},
	"P13": {large: true, kinds: with(mutators, wk{"pattern", 90}), graphs: [2]int{1, 2}, clients: [2]int{1, 3}, maxN: [2]int{2, 6}, maxE: [2]int{2, 9}, ops: [2]int{8, 50}, prelude: true,
		p: map[string][2]int{"gap": {0, 100}, "who": {500, 500}, "yield": {0, 100}, "done": {0, 300}}},
	"P14": {large: true, kinds: with(mutators, wk{"paths", 70}), graphs: [2]int{1, 2}, clients: [2]int{1, 3}, maxN: [2]int{2, 6}, maxE: [2]int{3, 9}, ops: [2]int{8, 50}, prelude: true,
		p: map[string][2]int{"gap": {0, 200}, "who": {500, 500}, "yield": {0, 200}, "done": {0, 300}, "stop": {0, 500}, "stopat": {800, 1000}}},
	"P15": {large: true, kinds: with(mutators, wk{"curStart", 14}, wk{"curPush", 40}, wk{"curPop", 22}, wk{"curLook", 14}), graphs: [2]int{1, 2}, clients: [2]int{1, 3}, maxN: [2]int{2, 6}, maxE: [2]int{3, 10}, ops: [2]int{8, 50}, prelude: true,
		p: map[string][2]int{"gap": {0, 200}, "who": {500, 500}, "yield": {0, 200}, "done": {0, 300}}},
	"P18": {large: true, kinds: []wk{{"newNode", 2}, {"newEdge", 4}, {"pathNew", 16}, {"pathClone", 10}, {"pathSlice", 12}, {"pathAppend", 14}, {"pathAppendPath", 12}, {"pathRemoveLast", 9}, {"pathReset", 2}, {"pathPrefix", 12}, {"pathTake", 2}, {"pathGive", 5}, {"pathGet", 5}},
		graphs: [2]int{1, 1}, clients: [2]int{1, 3}, maxN: [2]int{2, 6}, maxE: [2]int{3, 9}, ops: [2]int{8, 60}, prelude: true,
		p: map[string][2]int{"gap": {0, 300}, "who": {500, 500}, "yield": {0, 300}, "done": {0, 300}}},
	"P19": {kinds: []wk{{"setNew", 12}, {"setClone", 16}, {"setAdd", 14}, {"setAddSet", 10}, {"setRemove", 12}, {"setAsk", 14}, {"setJSON", 7}, {"setSlice", 4}, {"setGive", 8}, {"setGet", 8}},
		graphs: [2]int{1, 1}, clients: [2]int{1, 4}, maxN: [2]int{2, 3}, maxE: [2]int{2, 3}, ops: [2]int{8, 60},
		p: map[string][2]int{"gap": {100, 900}, "who": {500, 800}, "yield": {0, 300}, "done": {0, 300}}},
	"P21": {kinds: []wk{{"churn", 1}}, graphs: [2]int{1, 1}, clients: [2]int{1, 3}, maxN: [2]int{2, 3}, maxE: [2]int{2, 3}, ops: [2]int{1, 2},
		p: map[string][2]int{"gap": {0, 50}, "who": {500, 500}, "done": {0, 300}, "cbpanic": {0, 300}}},
	"P20": {kinds: []wk{{"scale", 1}}, graphs: [2]int{1, 1}, clients: [2]int{1, 3}, maxN: [2]int{2, 3}, maxE: [2]int{2, 3}, ops: [2]int{1, 3},
		p: map[string][2]int{"gap": {0, 50}, "who": {500, 500}, "done": {0, 300}}},
	"P16": {kinds: with(mutators, wk{"copyPanic", 20}, wk{"decPanic", 20}, wk{"encPanic", 10}, wk{"dotPanic", 8}, wk{"isoPanic", 6}, wk{"patternPanic", 6}, wk{"pathsPanic", 6}, wk{"eachPanic", 2}, wk{"permCopy", 2}), graphs: [2]int{2, 3}, clients: [2]int{1, 2}, maxN: [2]int{2, 6}, maxE: [2]int{2, 9}, ops: [2]int{5, 40}, prelude: true,
		p:     map[string][2]int{"gap": {0, 30}, "who": {500, 500}, "yield": {0, 20}, "done": {0, 300}, "cbpanic": {0, 120}, "cberr": {0, 60}, "wfail": {0, 20}, "chunk": {0, 500}},
		flags: func(r *prog.Rng, f map[string]int) { f["uid"] = uidMode(r); f["jsonprops"] = 1 }},
}

// uidMode: whether all (1), some (2) or no (0) elements carry a uid property.
func uidMode(r *prog.Rng) int { return []int{1, 1, 2, 2, 0}[r.N(5)] }

func span(r *prog.Rng, s [2]int) int {
	if s[1] <= s[0] {
		return s[0]
	}
	return s[0] + r.N(s[1]-s[0]+1)
}

// generate derives the program of one run from its seed alone.
func generate(property string, seed uint64) *prog.Program {
	pf := profiles[property]
	r := prog.NewRng(prog.Mix(seed, prog.HashStr(property)))
	p := &prog.Program{Prop: property, Seed: seed}
	c := &p.Cfg
	c.Graphs = span(r, pf.graphs)
	c.Clients = span(r, pf.clients)
	c.MaxN = span(r, pf.maxN)
	c.MaxE = span(r, pf.maxE)
	c.Labels = 1 + r.N(4)
	c.ELabels = 1 + r.N(4)
	c.Vals = 1 + r.N(6)
	if r.N(8) == 0 {
		c.Labels = 5 + r.N(2)
	}
	if r.N(8) == 0 {
		c.ELabels = 5 + r.N(2)
	}
	c.MapSeed = r.U64()
	nops := span(r, pf.ops)
	large := pf.large && r.N(40) == 0
	if large {
		c.MaxN = 8 + r.N(18)
		c.MaxE = 10 + r.N(24)
		c.Vals = 4 + r.N(20)
		nops += r.N(60)
	}
	costly := property == "P07" || property == "P11" || property == "P13" || property == "P14"
	huge := pf.large && !large && (r.N(1000) == 0 || costly && r.N(500) == 0)
	if huge { // past the sizes where structures tend to change their form
		c.MaxN = 20 + r.N(180)
		c.MaxE = 30 + r.N(370)
		if c.Vals = 4 + r.N(100); r.N(3) == 0 {
			c.Vals = 1 + r.N(4)
		}
		nops += r.N(100)
		if costly {
			nops = 3 + r.N(8)
		}
	}
	long := !large && !huge && (property == "P15" || property == "P18") && r.N(40) == 0
	if long { // paths and cursors that get long
		nops *= 5
		if c.Clients > 2 {
			c.Clients = 2
		}
	}
	c.P = map[string]int{}
	for _, k := range sortedKeys(pf.p) {
		s := pf.p[k]
		switch r.N(4) { // swarm: sometimes off, sometimes at the top of the range
		case 0:
			c.P[k] = s[0]
		case 1:
			c.P[k] = s[1]
		default:
			c.P[k] = span(r, s)
		}
	}
	c.F = map[string]int{}
	if r.N(6) == 0 {
		c.F["noprops"] = 1
	}
	if r.N(3) == 0 {
		c.F["shape"] = 1 + r.N(4)
	}
	if r.N(6) == 0 {
		c.F["labset"] = 1 + r.N(3)
		for _, k := range pf.kinds {
			if (k.k == "dot" || k.k == "dotPanic") && c.F["labset"] == 2 { // no NUL in DOT
				c.F["labset"] = 3
			}
		}
	}
	if r.N(14) == 0 { // many labels
		c.F["labset"] = len(labelPools) - 1
		c.Labels = 6 + r.N(15)
		c.ELabels = 6 + r.N(15)
	}
	if huge {
		c.F["huge"] = 1
		c.F["dense"] = r.N(2)
	}
	if long {
		c.F["few"] = 1
	}
	if !large && !huge && r.N(6) == 0 {
		c.Vals += exotic
	}
	if pf.flags != nil {
		pf.flags(r, c.F)
	}
	if (large || huge) && c.F["uid"] == 0 {
		c.F["uid"] = 2
	}
	if (large || huge) && c.F["noprops"] != 0 {
		c.F["uid"] = 1
	}
	// swarm weights
	ks := make([]wk, 0, len(pf.kinds))
	total := 0
	for _, k := range pf.kinds {
		w := k.w
		switch r.N(7) {
		case 0:
			w = 0
		case 1:
			w *= 4
		}
		if k.k == "newNode" && w == 0 {
			w = k.w
		}
		total += w
		ks = append(ks, wk{k.k, w})
	}
	if total == 0 {
		total, ks = pf.kinds[0].w, []wk{pf.kinds[0]}
	}
	id := 0
	add := func(k string, a []int) {
		p.Ops = append(p.Ops, prog.Op{ID: id, C: r.N(c.Clients), K: k, A: a})
		id++
	}
	args := func(n int) []int {
		a := make([]int, n)
		for i := range a {
			a[i] = r.N(1 << 20)
		}
		return a
	}
	nargs := func(k string) int {
		switch k {
		case "pattern", "patternPanic", "share":
			return 56
		}
		return 10
	}
	least := func(n int) int {
		if huge {
			return n/2 + r.N(n/2+1)
		}
		return r.N(n + 1)
	}
	if pf.prelude || large || huge || r.N(3) == 0 {
		for g := 0; g < c.Graphs; g++ {
			if r.N(6) == 0 {
				continue
			}
			for i := least(c.MaxN); i > 0; i-- {
				a := args(10)
				a[0] = g
				add("newNode", a)
			}
			for i := least(c.MaxE); i > 0; i-- {
				a := args(10)
				a[0] = g
				add("newEdge", a)
			}
			if pf.preludeIndex && r.N(2) == 0 {
				a := args(10)
				a[0] = g
				add("addNodeIndex", a)
				a = args(10)
				a[0] = g
				add("addEdgeIndex", a)
			}
		}
	}
	for n := nops; n > 0; n-- {
		x := r.N(total)
		k := ""
		for _, e := range ks {
			if x < e.w {
				k = e.k
				break
			}
			x -= e.w
		}
		add(k, args(nargs(k)))
	}
	for i := 0; huge && costly && i < 3; i++ {
		k := pf.kinds[len(pf.kinds)-1].k
		add(k, args(nargs(k)))
	}
	if huge && r.N(2) == 0 { // and shrink again
		n := c.MaxE/2 + r.N(c.MaxE/2)
		for _, k := range pf.kinds {
			for i := n; i > 0 && (k.k == "removeEdge" || k.k == "removeNode" && i%4 == 0); i-- {
				add(k.k, args(10))
			}
		}
	}
	for g := 0; huge && g < c.Graphs; g++ {
		a := args(10)
		a[0] = g
		add("audit", a)
	}
	return p
}
