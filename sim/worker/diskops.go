package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"

	"github.com/cloudprivacylabs/lpg/v2"
)

// ---- P10: a simulated disk, an application saving to it, crashes ----

type crashNow struct{}

type dfile struct {
	data   []byte
	synced int // durable prefix
}

type disk struct {
	files   map[string]*dfile
	snaps   []*snap // every attempted save, in order
	acked   int     // index of the last acknowledged save, -1 none
	seq     int
	cur     string // file of the last acknowledged save (two-file protocol)
	crashes int
}

func (w *world) theDisk() *disk {
	if w.disk == nil {
		w.disk = &disk{files: map[string]*dfile{}, acked: -1}
	}
	return w.disk
}

func (d *disk) file(n string) *dfile {
	f := d.files[n]
	if f == nil {
		f = &dfile{}
		d.files[n] = f
	}
	return f
}

// crash loses what is not durable: of the bytes not yet synced an arbitrary
// prefix survives, and the rest may read back as zeros.
func (d *disk) crash(o *opx) {
	d.crashes++
	o.fault("crash")
	for _, n := range sortedKeys(d.files) {
		f := d.files[n]
		un := len(f.data) - f.synced
		if un == 0 {
			continue
		}
		keep := o.choose("tear", un+1)
		if keep > 0 && keep < un {
			o.fault("torn-write")
		} else if keep == 0 {
			o.fault("lost-write")
		}
		total := len(f.data)
		f.data = append([]byte{}, f.data[:f.synced+keep]...)
		if keep < un && o.choose("zeros", 2) == 1 {
			o.fault("zero-filled-tail")
			for len(f.data) < total {
				f.data = append(f.data, 0)
			}
		}
		f.synced = len(f.data)
	}
}

// snap is a saved version: the graph as a load must give it back.
type snap struct {
	nodes []*MNode
	edges []*MEdge
}

func snapOf(mg *MGraph, exp func(map[string]any) map[string]any) *snap {
	s := &snap{}
	m := map[*MNode]*MNode{}
	for _, n := range mg.nodes {
		c := &MNode{uid: n.uid, labels: n.labels, props: exp(n.props)}
		m[n] = c
		s.nodes = append(s.nodes, c)
	}
	for _, e := range mg.edges {
		s.edges = append(s.edges, &MEdge{uid: e.uid, from: m[e.from], to: m[e.to], label: e.label, props: exp(e.props)})
	}
	return s
}

// is decides whether mg is this version.
func (s *snap) is(o *opx, mg *MGraph) bool {
	r := matchGraphs(mg.nodes, mg.edges, s.nodes, s.edges, func(p map[string]any) map[string]any { return p }, true, nil)
	if r.capped {
		o.probe("match-search-capped")
	}
	return r.why == ""
}

func (o *opx) diskCodec() *jcodec { return o.codec(o.s.cfg.F["codec"]) }

// maybeCrash is a point at which power can fail.
func (o *opx) maybeCrash(where string) {
	if o.choose("crash", 2) == 1 {
		o.note("crash at %s", where)
		panic(crashNow{})
	}
}

// crashable runs f; it reports whether the machine went down in it.
func (o *opx) crashable(f func()) (down bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(crashNow); ok {
				down = true
				return
			}
			panic(r)
		}
	}()
	f()
	return false
}

func (o *opx) diskWriter(f *dfile) *simWriter {
	w := &simWriter{o: o}
	w.onWrite = func(p []byte) (int, error, bool) {
		o.maybeCrash("before a write")
		switch o.choose("ioerr", 3) {
		case 1:
			w.failed++
			o.fault("disk-write-error")
			return 0, errSink, true
		case 2:
			w.failed++
			n := 0
			if len(p) > 1 {
				n = 1 + o.choose("wshort", len(p)-1)
			}
			f.data = append(f.data, p[:n]...)
			o.fault("disk-full")
			return n, errors.New("no space left on device"), true
		}
		if o.choose("crash", 2) == 1 {
			n := o.choose("tear", len(p)+1)
			f.data = append(f.data, p[:n]...)
			o.note("crash inside a write")
			panic(crashNow{})
		}
		f.data = append(f.data, p...)
		return len(p), nil, true
	}
	return w
}

// fsync makes the file durable or fails.
func (o *opx) fsync(f *dfile) error {
	o.maybeCrash("before sync")
	if o.choose("fsync", 2) == 1 {
		o.fault("fsync-error")
		return errors.New("input/output error")
	}
	f.synced = len(f.data)
	o.maybeCrash("after sync")
	return nil
}

func (f *dfile) truncate(n int) {
	f.data = f.data[:n:n]
	if f.synced > n {
		f.synced = n
	}
}

func (o *opx) save() {
	w := o.s.w
	d := w.theDisk()
	mg := w.gs[0]
	j := o.diskCodec()
	proto := o.s.cfg.F["proto"]
	d.snaps = append(d.snaps, snapOf(mg, j.loaded))
	me := len(d.snaps) - 1
	name := "log"
	if proto == 1 {
		name = "a"
		if d.cur == "a" {
			name = "b"
		}
	}
	f := d.file(name)
	if proto == 1 {
		f.truncate(0)
	}
	start := len(f.data)
	sw := o.diskWriter(f)
	err := func() error {
		if proto == 1 {
			d.seq++
			if _, err := fmt.Fprintf(sw, "%d\n", d.seq); err != nil {
				return err
			}
		}
		o.setBudget(60000 + 9000*int64(len(mg.nodes)+len(mg.edges)))
		if err := j.lib().Encode(mg.g, sw); err != nil {
			return err
		}
		if proto == 0 {
			if _, err := sw.Write([]byte("\n")); err != nil {
				return err
			}
		}
		return o.fsync(f)
	}()
	o.relax()
	o.oracle("save")
	if err != nil {
		o.probe("save-failed")
		f.truncate(start)
		return
	}
	d.acked = me
	d.cur = name
	o.probe("save-acknowledged")
}

// recover rebuilds the graph from what the disk still holds.
func (o *opx) recover() {
	w := o.s.w
	d := w.theDisk()
	j := o.diskCodec()
	nodeIx, edgeIx := w.gs[0].nodeIx, w.gs[0].edgeIx
	addIx := func(g *lpg.Graph) {
		for _, k := range sortedKeys(nodeIx) {
			g.AddNodePropertyIndex(k, nodeIx[k])
		}
		for _, k := range sortedKeys(edgeIx) {
			g.AddEdgePropertyIndex(k, edgeIx[k])
		}
	}
	early := o.a(6)%2 == 0
	fresh := func() *lpg.Graph {
		g := lpg.NewGraph()
		if early {
			addIx(g)
		}
		return g
	}
	attempt := 0
	var best *lpg.Graph
	for {
		attempt++
		var retry bool
		readFile := func(f *dfile, each func(*json.Decoder) error) (int64, error) {
			r := newReader(o, f.data)
			if attempt < 4 && len(f.data) > 0 && o.choose("rfail", 2) == 1 {
				r.errAt = o.choose("rfailat", len(f.data))
				r.err = errSink
			}
			dec := json.NewDecoder(r)
			off := int64(0)
			for {
				if attempt < 4 {
					o.maybeCrash("during recovery")
				}
				err := each(dec)
				if err != nil {
					if errors.Is(err, errSink) {
						retry = true
					}
					return off, err
				}
				off = dec.InputOffset()
			}
		}
		load := func(dec *json.Decoder, n int) (*lpg.Graph, error) {
			g := fresh()
			o.setDecodeBudget(n)
			err := j.lib().Decode(g, dec)
			o.relax()
			return g, err
		}
		best = nil
		down := o.crashable(func() {
			if o.s.cfg.F["proto"] == 0 {
				f := d.file("log")
				off, err := readFile(f, func(dec *json.Decoder) error {
					g, err := load(dec, len(f.data))
					if err != nil {
						return err
					}
					best = g
					return nil
				})
				if retry {
					return
				}
				if err != io.EOF {
					o.probe("torn-save-recognised")
				}
				f.truncate(int(off))
				o.note("recovered log up to %d", off)
				return
			}
			bestSeq := -1
			for _, n := range []string{"a", "b"} {
				f := d.file(n)
				readFile(f, func(dec *json.Decoder) error {
					var seq int
					if err := dec.Decode(&seq); err != nil {
						return err
					}
					g, err := load(dec, len(f.data))
					if err != nil {
						if err != io.EOF {
							o.probe("torn-save-recognised")
						}
						return err
					}
					if seq > bestSeq {
						bestSeq, best = seq, g
						d.cur = n
					}
					return io.EOF
				})
				if retry {
					return
				}
			}
			if bestSeq > d.seq {
				d.seq = bestSeq
			}
		})
		if down {
			d.crash(o)
			o.probe("crash-during-recovery")
			continue
		}
		if !retry {
			break
		}
		if attempt > 40 {
			o.s.err = "engine: recovery does not settle"
			o.s.stop = true
			panic(stopRun{})
		}
	}
	o.oracle("recovery")
	if best == nil {
		if d.acked >= 0 {
			o.fail("durability", "nothing was recovered although save %d was acknowledged", d.acked)
		}
		best = fresh()
		d.cur = ""
	} else if !early {
		// indexes are added to the loaded graph below
	}
	mg := wrapGraph(best, 0)
	if !early {
		addIx(best)
	}
	mg.nodeIx, mg.edgeIx = nodeIx, edgeIx
	o.absorb(mg, "durability")
	empty := len(mg.nodes) == 0 && len(mg.edges) == 0
	lo := d.acked
	if lo < 0 {
		lo = 0
		if empty {
			lo = len(d.snaps)
		}
	}
	ok := empty && d.acked < 0
	for i := len(d.snaps) - 1; i >= lo && !ok; i-- {
		if d.snaps[i].is(o, mg) {
			ok = true
			if i > d.acked {
				d.acked = i
				o.probe("later-complete-save-recovered")
			}
		}
	}
	if !ok {
		last := "(none)"
		if d.acked >= 0 {
			last = dumpElems(d.snaps[d.acked].nodes, d.snaps[d.acked].edges)
		}
		o.fail("durability", "recovered a graph that is neither the last acknowledged save nor a later one\n recovered:\n%s\n last acknowledged:\n%s", mg.dump(), last)
	}
	if mgIsBig(mg) {
		o.probe("recovered-nonempty")
	}
	w.gs[0] = mg
	o.auditFull(mg, o.a(7))
	o.jsonIndexAudit(mg)
	w.noteState(o.s, mg)
}

func mgIsBig(mg *MGraph) bool { return len(mg.nodes) > 1 && len(mg.edges) > 0 }

func init() {
	reg("dsave", wr0, func(o *opx) {
		down := o.crashable(func() { o.save() })
		if down {
			o.probe("crash-during-save")
			o.s.w.theDisk().crash(o)
			o.recover()
			return
		}
		if o.a(5)%4 == 0 {
			o.auditFull(o.s.w.gs[0], o.a(7))
		}
	})
	reg("dcrash", wr0, func(o *opx) {
		o.s.w.theDisk().crash(o)
		o.recover()
		if o.a(4)%3 == 0 { // recovery must work repeatedly
			o.s.w.theDisk().crash(o)
			o.recover()
		}
	})
}
