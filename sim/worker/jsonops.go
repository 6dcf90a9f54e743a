package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"

	"verifsim/prog"

	"github.com/cloudprivacylabs/lpg/v2"
)

// ---- JSON-representable properties ----

// jsonIxKeys are the keys indexed in runs over documents.
var jsonIxKeys = []string{"ps", "uid", "pi", "pl", "pn", "pm", "pz", oddKey, "", "bad"}

const oddKey = "k\u00e9y \"q\"<&>\u2028\\"

var jsonStrings = []string{"", "a", "b", "ab", "\u00e9", "\u2028<&>\"\\", "\U0001F600", "\x00\x1f\x7f", "}", "{\"nodes\":[", "null", "\uFFFD"}

func (o *opx) jsonVal(k string, x int) any {
	if x < 0 {
		x = -x
	}
	s := jsonStrings[x%len(jsonStrings)]
	switch k {
	case "ps":
		return jsonStrings[x%o.valPool()]
	case "pi":
		return []any{0, -1, 7, 1 << 40, 3.25, -0.5, 1e300, 5e-324}[x%8]
	case "pl":
		return []any{[]string{}, []string{s}, []string{"a", s}, []any{"a", 1.5, nil}, []any{}}[x%5]
	case "pn":
		return []any{[]int{1, 2}, map[string]any{}, map[string]any{s: s, "b": []any{true}}, []any{[]any{[]any{}}}, map[string]any{"n": 0.0, "edges": []any{}}}[x%5]
	}
	return []any{nil, true, false, s, 2.0, map[string]any{"x": nil}}[x%6]
}

func (o *opx) valPool() int {
	v := o.s.cfg.Vals % exotic
	if v < 1 {
		v = 3
	}
	if v > len(jsonStrings) {
		v = len(jsonStrings)
	}
	return v
}

func (o *opx) genJSONProps(x int) map[string]any {
	p := map[string]any{}
	for j, k := range append([]string{oddKey, ""}, nodeKeys...) {
		if (x>>j)&1 == 1 && (x>>(j+2+len(nodeKeys)))&3 == 1 {
			p[k] = o.jsonVal(k, x/7+j*31)
		}
	}
	return p
}

// jsonNorm is what a value looks like after JSON.
func jsonNorm(v any) any {
	d, err := json.Marshal(v)
	if err != nil {
		return badVal{}
	}
	var out any
	if err := json.Unmarshal(d, &out); err != nil {
		return badVal{}
	}
	return out
}

// badVal cannot be converted to JSON.
type badVal struct{}

func (badVal) MarshalJSON() ([]byte, error) { return nil, errors.New("badVal cannot be marshaled") }

func isBad(v any) bool { _, err := json.Marshal(v); return err != nil }

// ---- simulated sink and source ----

type simWriter struct {
	o       *opx
	buf     bytes.Buffer
	faulty  bool
	panics  bool
	perm    bool // once failed, stays failed
	failed  int  // writes that reported an error
	writes  int
	onWrite func(p []byte) (int, error, bool)
}

var errSink = &injErr{"write"}

func (w *simWriter) Write(p []byte) (int, error) {
	w.writes++
	w.o.yield("write")
	if w.panics {
		w.o.maybePanic("writer")
	}
	if w.failed > 0 && w.perm {
		return 0, errSink
	}
	if w.onWrite != nil {
		if n, err, handled := w.onWrite(p); handled {
			return n, err
		}
	}
	if w.faulty {
		switch w.o.choose("wfail", 4) {
		case 1:
			w.failed++
			w.o.fault("write-error")
			return 0, errSink
		case 2:
			w.failed++
			n := 0
			if len(p) > 1 {
				n = 1 + w.o.choose("wshort", len(p)-1)
			}
			w.buf.Write(p[:n])
			w.o.fault("write-short")
			if w.o.op.ID%2 == 0 {
				return n, io.ErrShortWrite
			}
			return n, errSink
		case 3: // the bytes are taken, what was done with them failed
			w.failed++
			w.buf.Write(p)
			w.o.fault("write-late-error")
			return len(p), errSink
		}
	}
	return w.buf.Write(p)
}

type simReader struct {
	o      *opx
	data   []byte
	pos    int
	errAt  int // -1: none
	err    error
	panics bool
	ended  int
	reads  int
}

func (r *simReader) Read(p []byte) (int, error) {
	r.reads++
	r.o.yield("read")
	if r.panics {
		r.o.maybePanic("reader")
	}
	end := len(r.data)
	endErr := io.EOF
	if r.errAt >= 0 && r.errAt < end {
		end, endErr = r.errAt, r.err
	} else if r.errAt >= 0 {
		endErr = r.err
	}
	if r.pos >= end {
		r.ended++
		if r.ended > 200 {
			r.o.fail("hang", "keeps reading after the input ended")
		}
		if r.errAt >= 0 && r.ended == 1 {
			r.o.fault("read-error")
		}
		return 0, endErr
	}
	n := end - r.pos
	if n > len(p) {
		n = len(p)
	}
	if c := r.o.choose("chunk", 64); c > 0 && c < n {
		n = c
		r.o.fault("read-short")
	}
	if r.o.choose("zero", 2) == 1 {
		r.o.fault("read-zero")
		return 0, nil
	}
	copy(p[:n], r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos == end && r.o.choose("eofdata", 2) == 1 {
		r.o.fault("read-data-with-error")
		return n, endErr
	}
	return n, nil
}

func newReader(o *opx, data []byte) *simReader { return &simReader{o: o, data: data, errAt: -1} }

// ---- codecs ----

type jcodec struct {
	o      *opx
	sep    bool
	mode   int // 0 default, 1 typed, 2 marshaler drops pm, 3 unmarshaler drops pm and renames pn
	intern int
	panics bool
	cberr  bool
	erred  int // callback errors returned
}

func (o *opx) codec(x int) *jcodec {
	return &jcodec{o: o, sep: x%2 == 1, mode: (x / 2) % 5 % 4, intern: (x / 16) % 3}
}

type simInterner struct {
	j *jcodec
	m lpg.MapInterner
}

func (s *simInterner) Intern(x string) string {
	s.j.call("interner")
	return s.m.Intern(x)
}

func (j *jcodec) call(where string) {
	j.o.yield(where)
	if j.panics {
		j.o.maybePanic(where)
	}
}

func (j *jcodec) failing(where string) bool {
	if j.cberr && j.o.choose("cberr", 2) == 1 {
		j.erred++
		j.o.fault("callback-error:" + where)
		return true
	}
	return false
}

func (j *jcodec) hasM() bool {
	return j.mode == 1 || j.mode == 2 || (j.cberr && j.mode == 0) || (j.panics && j.mode == 0)
}

func (j *jcodec) hasU() bool {
	return j.mode == 1 || j.mode == 3 || j.cberr || (j.panics && j.mode == 0)
}

func (j *jcodec) lib() lpg.JSON {
	out := lpg.JSON{MarshalEdgesSeparately: j.sep}
	switch j.intern {
	case 1:
		out.Interner = lpg.MapInterner{}
	case 2:
		out.Interner = &simInterner{j: j, m: lpg.MapInterner{}}
	}
	if j.hasM() {
		out.PropertyMarshaler = func(k string, v any) (string, json.RawMessage, error) {
			j.call("marshaler")
			if j.failing("marshaler") {
				if bad := j.o.choose("cberr", 7); bad > 2 { // not JSON
					j.o.probe("marshaler-returns-garbage")
					return "m_" + k, json.RawMessage([]string{"{", "tru", "1 2", ""}[bad-3]), nil
				}
				return "", nil, &injErr{"marshal"}
			}
			if j.mode == 2 && k == "pm" { // declined; what comes with it does not matter
				if _, ok := v.(bool); ok {
					return "", json.RawMessage("0"), nil
				}
				return "", nil, nil
			}
			d, err := json.Marshal(v)
			if err != nil {
				j.erred++
				return "", nil, err
			}
			if v == nil && j.mode != 1 && j.o.op.ID%2 == 0 { // no value at all is null
				j.o.probe("marshaler-returns-nil")
				return k, nil, nil
			}
			if j.mode != 1 {
				return k, d, nil
			}
			t := "j"
			if _, ok := v.(int); ok {
				t = "i"
			}
			return "m_" + k, json.RawMessage(fmt.Sprintf(`{"t":%q,"v":%s}`, t, d)), nil
		}
	}
	if j.hasU() {
		out.PropertyUnmarshaler = func(k string, raw json.RawMessage) (string, any, error) {
			j.call("unmarshaler")
			if j.failing("unmarshaler") {
				return "", nil, &injErr{"unmarshal"}
			}
			if j.mode == 1 {
				var w struct {
					T string          `json:"t"`
					V json.RawMessage `json:"v"`
				}
				if err := json.Unmarshal(raw, &w); err != nil {
					return "", nil, err
				}
				k = strings.TrimPrefix(k, "m_")
				if w.T == "i" {
					var i int
					if err := json.Unmarshal(w.V, &i); err != nil {
						return "", nil, err
					}
					return k, i, nil
				}
				raw = w.V
			}
			if j.mode == 3 && k == "pm" {
				if len(raw) > 4 {
					return "", "declined", nil
				}
				return "", nil, nil
			}
			if j.mode == 3 {
				k = swapKey(k)
			}
			var v any
			if err := json.Unmarshal(raw, &v); err != nil {
				return "", nil, err
			}
			return k, v, nil
		}
	}
	return out
}

// swapKey is the renaming codec 3 applies on load.
func swapKey(k string) string {
	switch k {
	case "pn":
		return "pq"
	case "pq":
		return "pn"
	}
	return k
}

// wire gives the JSON form of props (key -> canonical value).
func (j *jcodec) wire(p map[string]any) map[string]any {
	out := map[string]any{}
	for k, v := range p {
		switch {
		case j.mode == 2 && k == "pm":
		case j.mode != 1 && k == "" && j.hasM(): // a returned "" means skip it
		case j.mode == 1:
			t := "j"
			if _, ok := v.(int); ok {
				t = "i"
			}
			out["m_"+k] = map[string]any{"t": t, "v": jsonNorm(v)}
		default:
			out[k] = jsonNorm(v)
		}
	}
	return out
}

// loaded gives the properties after encode and decode.
func (j *jcodec) loaded(p map[string]any) map[string]any {
	out := map[string]any{}
	for k, v := range p {
		if k == "" && (j.hasM() || j.hasU()) {
			continue
		}
		switch j.mode {
		case 0:
			out[k] = jsonNorm(v)
		case 1:
			if i, ok := v.(int); ok {
				out[k] = i
			} else {
				out[k] = jsonNorm(v)
			}
		case 2:
			if k != "pm" {
				out[k] = jsonNorm(v)
			}
		case 3:
			if k == "pm" {
				continue
			}
			out[swapKey(k)] = jsonNorm(v)
		}
	}
	return out
}

// ---- reading a document independently of the code under test ----

type wEdge struct {
	From  *int                       `json:"from,omitempty"`
	To    *int                       `json:"to"`
	Label string                     `json:"label,omitempty"`
	Props map[string]json.RawMessage `json:"properties,omitempty"`
}
type wNode struct {
	N      *int                       `json:"n"`
	Labels []string                   `json:"labels,omitempty"`
	Props  map[string]json.RawMessage `json:"properties,omitempty"`
	Edges  []wEdge                    `json:"edges,omitempty"`
}
type wDoc struct {
	Nodes []wNode `json:"nodes,omitempty"`
	Edges []wEdge `json:"edges,omitempty"`
}

func rawProps(m map[string]json.RawMessage) map[string]any {
	out := map[string]any{}
	for k, v := range m {
		var x any
		json.Unmarshal(v, &x)
		out[k] = x
	}
	return out
}

func propUID(m map[string]any) string {
	for _, k := range []string{"uid", "m_uid"} {
		switch x := m[k].(type) {
		case string:
			return x
		case map[string]any:
			s, _ := x["v"].(string)
			return s
		}
	}
	return ""
}

// checkDoc compares a document with the model of the graph it was made from.
func (o *opx) checkDoc(mg *MGraph, j *jcodec, data []byte) *wDoc {
	const cl = "document"
	o.oracle("json-document")
	var doc wDoc
	bad := func(f string, a ...any) {
		o.fail(cl, "encoding reported success but "+f+"\n document: %.600q\n graph:\n%s", append(a, data, mg.dump())...)
	}
	if err := json.Unmarshal(data, &doc); err != nil {
		bad("the document is not valid JSON: %v", err)
	}
	ix := map[int]*MNode{}
	var fn []*MNode
	var fe []*MEdge
	for _, wn := range doc.Nodes {
		n := &MNode{uid: len(fn), labels: normLabels(wn.Labels), props: rawProps(wn.Props)}
		if wn.N == nil {
			bad("%s has no number", n)
		}
		if ix[*wn.N] != nil {
			bad("two nodes are numbered %d", *wn.N)
		}
		ix[*wn.N] = n
		if len(wn.Labels) != len(n.labels) {
			bad("labels of %s are %q", n, wn.Labels)
		}
		fn = append(fn, n)
	}
	edge := func(from *MNode, we wEdge) {
		if from == nil || we.To == nil || ix[*we.To] == nil {
			bad("an edge has no source or no target")
		}
		fe = append(fe, &MEdge{uid: len(fe), from: from, to: ix[*we.To], label: we.Label, props: rawProps(we.Props)})
	}
	for _, wn := range doc.Nodes {
		for _, we := range wn.Edges {
			edge(ix[*wn.N], we)
		}
	}
	for _, we := range doc.Edges {
		if we.From == nil {
			bad("an edge has no source")
		}
		edge(ix[*we.From], we)
	}
	o.matchAdded(cl, lz("encoding reported success but the document is not the graph\n document: %.600q", data), fn, fe, mg.nodes, mg.edges, j.wire, true, nil)
	return &doc
}

var unknownVals = []string{`null`, `true`, `"nodes"`, `5`, `-1.5e3`, `[]`, `{}`, `{"nodes":[{"n":0}]}`, `[[],{"edges":[1]},"}"]`, `{"a":{"b":[{}]},"c":"]"}`, `"edges"`, `[{"n":0},{"n":1}]`, `""`, `[1,2,[3]]`}
var unknownKeys = []string{"meta", "Nodes", "version", "", "edge", "nodes2", "a\"b"}

// rewrite lays the same graph out as another document.
func (o *opx) rewrite(doc *wDoc, x int) []byte {
	r := prog.NewRng(uint64(x))
	d := wDoc{}
	num := map[int]int{}
	base := []int{0, -3, 100, 1 << 33}[r.N(4)]
	perm := make([]int, len(doc.Nodes))
	for i := range perm {
		perm[i] = i
		j := r.N(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	for i, n := range doc.Nodes {
		num[*n.N] = base + perm[i]*(1+x%3)
	}
	pi := func(i int) *int { return &i }
	type fe struct {
		from int
		e    wEdge
	}
	var es []fe
	for _, n := range doc.Nodes {
		for _, e := range n.Edges {
			es = append(es, fe{num[*n.N], e})
		}
	}
	for _, e := range doc.Edges {
		es = append(es, fe{num[*e.From], e})
	}
	for _, p := range permOf(r, len(doc.Nodes)) {
		n := doc.Nodes[p]
		d.Nodes = append(d.Nodes, wNode{N: pi(num[*n.N]), Labels: n.Labels, Props: n.Props})
	}
	for _, p := range permOf(r, len(es)) {
		e := es[p]
		we := wEdge{To: pi(num[*e.e.To]), Label: e.e.Label, Props: e.e.Props}
		if r.N(2) == 0 {
			we.From = pi(e.from)
			d.Edges = append(d.Edges, we)
			continue
		}
		for i := range d.Nodes {
			if *d.Nodes[i].N == e.from {
				d.Nodes[i].Edges = append(d.Nodes[i].Edges, we)
			}
		}
	}
	ws := func() string { return []string{"", "", " ", "\n\t", " \r\n"}[r.N(5)] }
	var members []string
	if len(d.Nodes) > 0 || r.N(2) == 0 {
		b, _ := json.Marshal(d.Nodes)
		if len(d.Nodes) == 0 {
			b = []byte("[]")
		}
		members = append(members, ws()+`"nodes"`+ws()+":"+ws()+string(b))
	}
	if len(d.Edges) > 0 || r.N(2) == 0 {
		b, _ := json.Marshal(d.Edges)
		if len(d.Edges) == 0 {
			b = []byte("[]")
		}
		members = append(members, ws()+`"edges"`+ws()+":"+ws()+string(b))
	}
	if r.N(3) > 0 {
		for i := r.N(4); i > 0; i-- {
			k, _ := json.Marshal(unknownKeys[r.N(len(unknownKeys))] + fmt.Sprint(i))
			members = append(members, ws()+string(k)+ws()+":"+ws()+unknownVals[r.N(len(unknownVals))])
			o.probe("unknown-member")
		}
	}
	var sb strings.Builder
	sb.WriteString(ws() + "{")
	for i, p := range permOf(r, len(members)) {
		if i > 0 {
			sb.WriteString(ws() + ",")
		}
		sb.WriteString(members[p])
	}
	sb.WriteString(ws() + "}")
	return []byte(sb.String())
}

func permOf(r *prog.Rng, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// reUID gives added elements identities of their own, where they have one.
func (o *opx) reUID(nn []*MNode, ne []*MEdge) {
	for _, n := range nn {
		if _, ok := n.props["uid"]; !ok {
			continue
		}
		u := fmt.Sprintf("u%d", n.uid)
		n.h.SetProperty("uid", u)
		n.props["uid"] = u
	}
	for _, e := range ne {
		if _, ok := e.props["uid"]; !ok {
			continue
		}
		u := fmt.Sprintf("u%d", e.uid)
		e.h.SetProperty("uid", u)
		e.props["uid"] = u
	}
}

// checkPrior verifies that what mg held before is as it was.
func (o *opx) checkPrior(class string, mg *MGraph, nn []*MNode, ne []*MEdge) {
	isN := map[*MNode]bool{}
	for _, n := range nn {
		isN[n] = true
	}
	isE := map[*MEdge]bool{}
	for _, e := range ne {
		isE[e] = true
	}
	for _, n := range mg.nodes {
		if !isN[n] {
			p := map[string]any{}
			n.h.ForEachProperty(func(k string, v any) bool { p[k] = v; return true })
			ls := n.h.GetLabels()
			if canonProps(p) != canonProps(n.props) || joinLabels(ls.SortedSlice()) != joinLabels(n.labels) {
				o.fail(class, "%s, which was there before, changed", n)
			}
		}
	}
	for _, e := range mg.edges {
		if !isE[e] && (e.h.GetFrom() != e.from.h || e.h.GetTo() != e.to.h || e.h.GetLabel() != e.label) {
			o.fail(class, "%s, which was there before, changed", e)
		}
	}
}

func (o *opx) execEncode(mg *MGraph, j *jcodec, w *simWriter) (err error, inj bool) {
	o.setBudget(20000 + 3000*int64(len(mg.nodes)+len(mg.edges)))
	inj = o.try(func() { err = j.lib().Encode(mg.g, w) })
	return
}

func (o *opx) mustEncode(mg *MGraph, j *jcodec) []byte {
	w := &simWriter{o: o}
	err, _ := o.execEncode(mg, j, w)
	if err != nil {
		o.fail("encode", "encoding failed without a fault: %v", err)
	}
	return w.buf.Bytes()
}

func (o *opx) scratchGraph(x int) *MGraph {
	g := newMGraph(-1)
	if x%3 == 1 {
		for i := 0; i < 4; i++ {
			k, it := jsonIxKeys[prog.Mix(uint64(x), uint64(i))%uint64(len(jsonIxKeys))], lpg.IndexType(x>>(3+i)&1)
			if i%2 == 0 {
				g.g.AddNodePropertyIndex(k, it)
				g.nodeIx[k] = it
			} else {
				g.g.AddEdgePropertyIndex(k, it)
				g.edgeIx[k] = it
			}
		}
	}
	return g
}

func (o *opx) setDecodeBudget(n int) { o.setBudget(4000 + 60*int64(n)) }

// roundTrip saves src and loads what was saved into tgt or, if that is nil,
// into new graphs.
func (o *opx) roundTrip(src, tgt *MGraph) {
	ndocs := 1 + o.a(2)%3
	if ndocs > 1 {
		o.probe("document-stream")
	}
	var stream bytes.Buffer
	var cods []*jcodec
	var lens []int
	for i := 0; i < ndocs; i++ {
		j := o.codec(o.a(3) + i*7)
		data := o.mustEncode(src, j)
		doc := o.checkDoc(src, j, data)
		if (o.a(4)+i)%3 != 0 {
			data = o.rewrite(doc, o.a(4)+i)
		}
		cods = append(cods, j)
		lens = append(lens, len(data))
		stream.Write(data)
		stream.WriteString([]string{"", "\n", " ", "\r\n\t"}[(o.a(5)+i)%4])
	}
	tail := o.a(5)%3 == 0
	if tail {
		stream.WriteString(` "tail"`)
	}
	sn, se := append([]*MNode{}, src.nodes...), append([]*MEdge{}, src.edges...)
	// the source may also be the target: remember what was written
	type snap struct{ p map[string]any }
	frozenN := make([]*MNode, len(sn))
	fm := map[*MNode]*MNode{}
	for i, n := range sn {
		c := *n
		c.props = copyProps(n.props)
		frozenN[i] = &c
		fm[n] = &c
	}
	frozenE := make([]*MEdge, len(se))
	for i, e := range se {
		c := *e
		c.props = copyProps(e.props)
		c.from, c.to = fm[e.from], fm[e.to]
		frozenE[i] = &c
	}
	rd := newReader(o, stream.Bytes())
	dec := json.NewDecoder(rd)
	for i := 0; i < ndocs; i++ {
		mg := tgt
		if tgt == nil || (o.a(6)>>i)&1 == 1 || len(tgt.nodes) > o.s.cfg.MaxN*3 {
			mg = o.scratchGraph(o.a(6) / 8)
		}
		if len(mg.nodes) > 0 {
			o.probe("load-into-non-empty")
		}
		j := cods[i]
		o.setDecodeBudget(lens[i])
		if err := j.lib().Decode(mg.g, dec); err != nil {
			o.fail("load", "document %d of %d does not load: %v\n document: %.600q", i+1, ndocs, err, stream.Bytes())
		}
		o.relax()
		nn, ne := o.absorb(mg, "load")
		o.checkPrior("load", mg, nn, ne)
		o.matchAdded("load", fmt.Sprintf("load of document %d of %d", i+1, ndocs), nn, ne, frozenN, frozenE, j.loaded, true, nil)
		o.oracle("json-roundtrip")
		if len(ne) > 0 {
			o.probe("load-with-edges")
		}
		o.auditFull(mg, o.a(7))
		o.jsonIndexAudit(mg)
		if mg == tgt {
			o.reUID(nn, ne)
		}
	}
	if tail {
		var v any
		if err := dec.Decode(&v); err != nil || v != "tail" {
			o.fail("load", "value after the last document read as %v, %v: a load consumed more or less than its own document", v, err)
		}
	}
	if tok, err := dec.Token(); err != io.EOF {
		o.fail("load", "after the last document the stream yields %v, %v: a load did not consume its whole document", tok, err)
	}
	if src != tgt {
		o.auditStruct(src, o.a(7))
		o.auditProps(src)
	}
}

// jsonIndexAudit queries every value of the indexed keys that occurs.
func (o *opx) jsonIndexAudit(mg *MGraph) {
	o.oracle("index")
	keys := map[string]bool{"ps": true, "uid": true}
	for k := range mg.nodeIx {
		keys[k] = true
	}
	for k := range mg.edgeIx {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		vals := map[string]any{"absent": "absent"}
		for _, n := range mg.nodes {
			if v, ok := n.props[k]; ok {
				vals[canon(v)] = v
			}
		}
		for _, e := range mg.edges {
			if v, ok := e.props[k]; ok {
				vals[canon(v)] = v
			}
		}
		for _, c := range sortedKeys(vals) {
			o.findCheck(mg, nil, nil, map[string]any{k: vals[c]})
		}
	}
}

// trimGraph keeps the graph small by removing the newest elements.
func (o *opx) trimGraph(mg *MGraph) {
	for len(mg.nodes) > o.s.cfg.MaxN {
		n := mg.nodes[len(mg.nodes)-1]
		mg.dropNodeFromSets(n)
		n.h.DetachAndRemove()
		mg.detach(n)
		mg.delNode(n)
	}
	for len(mg.edges) > o.s.cfg.MaxE {
		e := mg.edges[len(mg.edges)-1]
		e.h.Remove()
		mg.delEdge(e)
	}
}

func (mg *MGraph) hasBad(j *jcodec) bool {
	for _, n := range mg.nodes {
		for _, v := range n.props {
			if isBad(v) {
				return true
			}
		}
	}
	for _, e := range mg.edges {
		for _, v := range e.props {
			if isBad(v) {
				return true
			}
		}
	}
	return false
}

func (o *opx) execEncFault(panics bool) {
	mg := o.g0()
	j := o.codec(o.a(3))
	if panics {
		j.panics = true
	} else {
		j.cberr = o.a(4)%3 == 1
	}
	w := &simWriter{o: o, faulty: o.a(4)%3 != 1 || panics, perm: o.a(5)%2 == 0, panics: panics}
	err, inj := o.execEncode(mg, j, w)
	o.oracle("encode-under-fault")
	bad := mg.hasBad(j)
	if bad {
		o.probe("unconvertible-property")
	}
	if !inj {
		if err == nil {
			if w.failed > 0 {
				o.fail("encode", "Encode reported success although %d write(s) failed", w.failed)
			}
			if j.erred > 0 {
				o.fail("encode", "Encode reported success although a property could not be converted")
			}
			if bad {
				o.fail("encode", "Encode reported success although the graph holds a value that cannot be converted\n document: %.300q", w.buf.Bytes())
			}
			o.checkDoc(mg, j, w.buf.Bytes())
			o.probe("encode-success")
		} else if w.failed == 0 && j.erred == 0 && !bad {
			o.fail("encode", "Encode failed without a fault: %v", err)
		} else {
			o.probe("encode-error-reported")
		}
	}
	o.relax()
	o.auditFull(mg, o.a(7))
}

// ---- DOT ----

// readDOT reads the part of the DOT language a rendering may use: it returns
// the statements of a digraph, each as the nodes it names and its attributes,
// and what is wrong with the document.
type dotStmt struct {
	nodes []string
	attrs map[string]string
}

func readDOT(doc string) (out []dotStmt, bad string) {
	type tok struct {
		k byte // 'i' name, 's' string, '>' arrow, otherwise itself
		s string
	}
	var ts []tok
	idc := func(c byte) bool {
		return c == '_' || c == '.' || c >= '0' && c <= '9' || c|32 >= 'a' && c|32 <= 'z' || c >= 0x80
	}
	for i := 0; i < len(doc); {
		c := doc[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case idc(c):
			j := i
			for j < len(doc) && idc(doc[j]) {
				j++
			}
			ts = append(ts, tok{'i', doc[i:j]})
			i = j
		case c == '"':
			var b []byte
			for i++; ; i++ {
				if i >= len(doc) {
					return nil, "a string that does not end"
				}
				if doc[i] == '"' {
					i++
					break
				}
				if doc[i] == '\\' && i+1 < len(doc) {
					i++
					switch doc[i] {
					case '"', '\\':
						b = append(b, doc[i])
					case 'n':
						b = append(b, '\n')
					default:
						b = append(b, '\\', doc[i])
					}
					continue
				}
				b = append(b, doc[i])
			}
			ts = append(ts, tok{'s', string(b)})
		case strings.HasPrefix(doc[i:], "->"):
			ts = append(ts, tok{'>', "->"})
			i += 2
		case strings.IndexByte("{}[]=;,", c) >= 0:
			ts = append(ts, tok{c, doc[i : i+1]})
			i++
		default:
			return nil, fmt.Sprintf("a stray %q", c)
		}
	}
	p := 0
	is := func(k byte) bool { return p < len(ts) && ts[p].k == k }
	name := func() (string, bool) {
		if is('i') || is('s') {
			p++
			return ts[p-1].s, true
		}
		return "", false
	}
	if x, ok := name(); !ok || x != "digraph" {
		return nil, "no digraph"
	}
	name()
	if !is('{') {
		return nil, "no graph body"
	}
	for p++; !is('}'); {
		if p >= len(ts) {
			return nil, "no end"
		}
		if is(';') {
			p++
			continue
		}
		x, ok := name()
		if !ok {
			return nil, fmt.Sprintf("a misplaced %q", ts[p].s)
		}
		if is('=') {
			p++
			if _, ok := name(); !ok {
				return nil, "a graph attribute without a value"
			}
			continue
		}
		st := dotStmt{nodes: []string{x}, attrs: map[string]string{}}
		for is('>') {
			p++
			x, ok := name()
			if !ok {
				return nil, "an edge without a target"
			}
			st.nodes = append(st.nodes, x)
		}
		for is('[') {
			for p++; !is(']'); {
				k, ok := name()
				if !ok || !is('=') {
					return nil, "a damaged attribute list"
				}
				p++
				if st.attrs[k], ok = name(); !ok {
					return nil, "an attribute without a value"
				}
				if is(',') || is(';') {
					p++
				}
			}
			p++
		}
		if len(st.nodes) == 1 && (x == "node" || x == "edge" || x == "graph") {
			continue
		}
		if !is(';') && !is('}') && (p >= len(ts) || ts[p-1].k != ']' && ts[p].k != 'i') {
			return nil, fmt.Sprintf("a damaged statement about %q", x)
		}
		out = append(out, st)
	}
	if p++; p < len(ts) {
		return nil, "more after its end"
	}
	return out, ""
}

// dotQuote is a DOT string.
func dotQuote(s string) string {
	return `"` + strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), `"`, `\"`) + `"`
}

func (o *opx) execDOT(panics bool) {
	mg := o.g0()
	w := &simWriter{o: o, faulty: true, perm: o.a(5)%2 == 0, panics: panics}
	cberrs, renderFails := 0, o.a(4)%3 == 1
	d := lpg.DOTRenderer{}
	exN := func(n *MNode) bool { return o.a(3)%4 == 3 && (n.uid+o.a(6))%3 == 0 }
	exE := func(e *MEdge) bool { return o.a(3)%4 >= 2 && (e.uid+o.a(6))%4 == 0 }
	custom := o.a(3)%4 != 0
	if custom {
		d.NodeRenderer = func(id string, n *lpg.Node, out io.Writer) (bool, error) {
			o.yield("noderenderer")
			if panics {
				o.maybePanic("noderenderer")
			}
			if renderFails && o.choose("cberr", 2) == 1 {
				cberrs++
				o.fault("callback-error:noderenderer")
				return o.op.ID%2 == 0, &injErr{"render"}
			}
			mn := mg.byN[n]
			if mn == nil {
				o.fail("dot", "node renderer called with a node that is not live")
			}
			if exN(mn) {
				return false, nil
			}
			_, err := fmt.Fprintf(out, "  %s [uid=%q];\n", id, fmt.Sprintf("u%d", mn.uid))
			return true, err
		}
		d.EdgeRenderer = func(f, t string, e *lpg.Edge, out io.Writer) (bool, error) {
			o.yield("edgerenderer")
			if panics {
				o.maybePanic("edgerenderer")
			}
			if renderFails && o.choose("cberr", 2) == 1 {
				cberrs++
				o.fault("callback-error:edgerenderer")
				return o.op.ID%2 == 0, &injErr{"render"}
			}
			me := mg.byE[e]
			if me == nil {
				o.fail("dot", "edge renderer called with an edge that is not live")
			}
			if exE(me) {
				return false, nil
			}
			_, err := fmt.Fprintf(out, "  %s -> %s [label=%s] [uid=%q];\n", f, t, dotQuote(me.label), fmt.Sprintf("u%d", me.uid))
			return true, err
		}
	}
	var err error
	o.setBudget(20000 + 3000*int64(len(mg.nodes)+len(mg.edges)))
	inj := o.try(func() { err = d.Render(mg.g, "G", w) })
	o.oracle("dot")
	if inj {
		o.relax()
		o.auditFull(mg, o.a(7))
		return
	}
	if err != nil {
		if w.failed == 0 && cberrs == 0 {
			o.fail("dot", "Render failed without a fault: %v", err)
		}
		o.probe("dot-error-reported")
	} else {
		if w.failed > 0 {
			o.fail("dot", "Render reported success although %d write(s) failed", w.failed)
		}
		if cberrs > 0 {
			o.fail("dot", "Render reported success although a renderer failed")
		}
		o.checkDOT(mg, w.buf.String(), custom, exN, exE)
		o.probe("dot-success")
	}
	o.relax()
	o.auditFull(mg, o.a(7))
}

func (o *opx) checkDOT(mg *MGraph, doc string, custom bool, exN func(*MNode) bool, exE func(*MEdge) bool) {
	bad := func(f string, a ...any) {
		o.fail("dot", "rendering reported success but "+f+"\n document: %s\n graph:\n%s", append(a, doc, mg.dump())...)
	}
	sts, wrong := readDOT(doc)
	if wrong != "" {
		bad("the document has %s", wrong)
	}
	ids := map[string]string{}
	var idOrder []string
	type de struct{ f, t, l, u string }
	var es []de
	for _, st := range sts {
		if len(st.nodes) == 1 {
			id := st.nodes[0]
			if _, dup := ids[id]; dup {
				bad("node name %s is used twice", id)
			}
			ids[id] = st.attrs["uid"]
			idOrder = append(idOrder, id)
		}
		for i := 1; i < len(st.nodes); i++ {
			es = append(es, de{st.nodes[i-1], st.nodes[i], st.attrs["label"], st.attrs["uid"]})
		}
	}
	wantN := mg.selNodes(func(n *MNode) bool { return !exN(n) })
	if len(ids) != len(wantN) {
		bad("it shows %d nodes instead of %d", len(ids), len(wantN))
	}
	wantE := mg.selEdges(func(e *MEdge) bool { return !exN(e.from) && !exN(e.to) && !exE(e) })
	if len(es) != len(wantE) {
		bad("it shows %d edges instead of %d", len(es), len(wantE))
	}
	for _, e := range es {
		if _, ok := ids[e.f]; !ok {
			bad("edge from %s, which is not shown", e.f)
		}
		if _, ok := ids[e.t]; !ok {
			bad("edge to %s, which is not shown", e.t)
		}
	}
	if custom {
		u2id := map[string]string{}
		for id, u := range ids {
			u2id[u] = id
		}
		for _, n := range wantN {
			if _, ok := u2id[fmt.Sprintf("u%d", n.uid)]; !ok {
				bad("%s is not shown", n)
			}
		}
		seen := map[string]de{}
		for _, e := range es {
			seen[e.u] = e
		}
		for _, e := range wantE {
			d, ok := seen[fmt.Sprintf("u%d", e.uid)]
			if !ok {
				bad("%s is not shown", e)
			}
			if d.f != u2id[fmt.Sprintf("u%d", e.from.uid)] || d.t != u2id[fmt.Sprintf("u%d", e.to.uid)] || d.l != e.label {
				bad("%s is shown as %v", e, d)
			}
		}
		return
	}
	if len(wantN) > 8 {
		return
	}
	// default renderer: compare up to renaming of nodes
	sh := &MGraph{}
	by := map[string]*MNode{}
	for _, id := range idOrder {
		n := &MNode{}
		by[id] = n
		sh.nodes = append(sh.nodes, n)
	}
	for _, e := range es {
		sh.edges = append(sh.edges, &MEdge{from: by[e.f], to: by[e.t], label: e.l})
	}
	ref := &MGraph{nodes: mg.nodes, edges: mg.edges}
	if !refIso(sh, ref, func(*MNode) string { return "" }, func(e *MEdge) string { return e.label }) {
		bad("it shows another graph")
	}
}

// ---- P09: damaged input ----

var notGraphs = []string{`[]`, `"x"`, `5`, `null`, `true`, ``, `   `, `{"nodes":5}`, `{"nodes":{}}`, `{"nodes":[5]}`, `{"nodes":[{"n":"a"}]}`,
	`{"edges":[{"from":0,"to":1}]}`, `{"nodes":[{"n":0,"labels":[1]}]}`, `{]`, `{"nodes":[}`, `{"nodes":[{"n":0,"properties":[1]}]}`,
	`}`, `{"nodes" 5}`, `{"nodes":[{"n":0}],}`, `{,"edges":[]}`, `{"nodes":[{"n":0}],"edges":[{"from":0,"to":1}]}`, `{"x":{"a":[1,2}}`, `{"x":[1}`, `{"a" "b"}`, `{"a":1 "b":2}`, `{5:1}`,
	`{"nodes":[{"n":0,"edges":[{"to":7}]}]}`, `{"nodes":[{"n":1}],"edges":[{"from":9,"to":1}]}`, `{"nodes":[{"n":0,"properties":{"pi":1e999}}]}`, `{"edges":"nodes"}`, `{"nodes":true}`, `{"nodes":[[]]}`, `{"edges":[[]]}`, `{"edges":5,"nodes":[]}`, `{"nodes":[{"n":1.5}]}`, `{"nodes":[{"n":0}],"edges":[{"from":0,"to":0,"label":5}]}`}

func (o *opx) execDecFault(panics bool) {
	src, tgt := o.g0(), o.g1()
	if src == tgt {
		o.skip()
	}
	j := o.codec(o.a(3))
	data := o.mustEncode(src, j)
	doc := o.checkDoc(src, j, data)
	if o.a(4)%3 != 0 {
		data = o.rewrite(doc, o.a(4))
	}
	rd := newReader(o, nil)
	mustFail := true
	flips := false
	desc := ""
	sn, se := src.nodes, src.edges
	kind := o.a(2) % 8
	if panics {
		kind = 7
		j.panics = true
		rd.panics = true
	}
	switch kind {
	case 0, 1: // torn input
		k := o.a(5) % len(data)
		if o.a(6)%3 == 0 && len(data) > 12 { // near the end
			k = len(data) - 1 - o.a(5)%12
		}
		// white space after the closing brace may be missing without harm
		for k > 0 && len(bytes.TrimSpace(data[k:])) == 0 {
			k--
		}
		if kind == 0 {
			o.fault("truncated")
			data = data[:k]
			desc = fmt.Sprintf("input truncated to %d bytes", k)
		} else {
			rd.errAt = k
			rd.err = &injErr{"read"}
			if o.a(6)%2 == 0 {
				rd.err = io.ErrUnexpectedEOF
			}
			desc = fmt.Sprintf("input failing after %d bytes", k)
		}
	case 2: // dangling edge
		if len(src.nodes) == 0 {
			o.skip()
		}
		ids := []int{}
		for _, n := range doc.Nodes {
			ids = append(ids, *n.N)
		}
		miss := 0
		for in := true; in; {
			miss += 1 + o.a(5)%5
			in = false
			for _, x := range ids {
				in = in || x == miss
			}
		}
		if o.a(5)%3 == 0 {
			miss = -1 - o.a(5)%4
		}
		d := wDoc{Nodes: append([]wNode{}, doc.Nodes...), Edges: append([]wEdge{}, doc.Edges...)}
		ok := ids[o.a(6)%len(ids)]
		var dp map[string]json.RawMessage
		dl := o.s.w.elab[o.a(5)/5%len(o.s.w.elab)]
		if o.a(5)/5%3 > 0 {
			dp = map[string]json.RawMessage{"pn": json.RawMessage("1"), "px": json.RawMessage(`"x"`)}
		}
		switch o.a(6) / 8 % 4 {
		case 0:
			i := o.a(6) % len(d.Nodes)
			d.Nodes[i].Edges = append(append([]wEdge{}, d.Nodes[i].Edges...), wEdge{To: &miss, Label: dl, Props: dp})
		case 1:
			d.Edges = append([]wEdge{{From: &ok, To: &miss, Label: dl, Props: dp}}, d.Edges...)
		case 2:
			d.Edges = append(d.Edges, wEdge{From: &miss, To: &ok, Label: dl, Props: dp})
		case 3:
			d.Edges = append(d.Edges, wEdge{From: &miss, To: &miss, Label: dl, Props: dp})
		}
		data = o.encodeDoc(&d, o.a(4))
		o.fault("dangling-edge")
		desc = "document with a dangling edge"
	case 3: // not a graph
		s := notGraphs[o.a(5)%len(notGraphs)]
		data = []byte(s)
		sn, se = nil, nil
		o.fault("not-a-graph")
		desc = fmt.Sprintf("document %q", s)
		flips = true
	case 4: // property that cannot be converted
		if o.a(6)%2 == 0 {
			j.cberr = true
			mustFail = false
			desc = "failing property conversion"
		} else {
			if len(doc.Nodes)+len(doc.Edges) == 0 {
				o.skip()
			}
			d := wDoc{Nodes: append([]wNode{}, doc.Nodes...), Edges: append([]wEdge{}, doc.Edges...)}
			bad := func(p map[string]json.RawMessage) map[string]json.RawMessage {
				out := map[string]json.RawMessage{}
				for k, v := range p {
					out[k] = v
				}
				out["pi"] = json.RawMessage("1e999")
				if j.mode == 1 {
					out["m_pi"] = json.RawMessage(`{"t":"j","v":1e999}`)
				}
				return out
			}
			if len(d.Edges) > 0 && o.a(5)%2 == 0 {
				i := o.a(5) / 2 % len(d.Edges)
				d.Edges[i].Props = bad(d.Edges[i].Props)
			} else {
				i := o.a(5) / 2 % len(d.Nodes)
				if len(d.Nodes[i].Edges) > 0 && o.a(5)%3 == 0 {
					es := append([]wEdge{}, d.Nodes[i].Edges...)
					es[0].Props = bad(es[0].Props)
					d.Nodes[i].Edges = es
				} else {
					d.Nodes[i].Props = bad(d.Nodes[i].Props)
				}
			}
			data = o.encodeDoc(&d, o.a(4))
			o.fault("unconvertible-value")
			desc = "document with an unconvertible value"
		}
	case 5, 6: // corrupted bytes
		mustFail = false
		flips = true
		data = append([]byte{}, data...)
		r := prog.NewRng(uint64(o.a(5)))
		for n := 1 + r.N(3); n > 0 && len(data) > 0; n-- {
			i := r.N(len(data))
			switch r.N(4) {
			case 0:
				data[i] ^= 1 << r.N(8)
			case 1:
				data[i] = "{}[]\",:0 nte\\"[r.N(13)]
			case 2:
				l := r.N(20)
				if i+l > len(data) {
					l = len(data) - i
				}
				data = append(data[:i:i], data[i+l:]...)
			case 3:
				l := r.N(20)
				if i+l > len(data) {
					l = len(data) - i
				}
				data = append(data[:i+l:i+l], data[i:]...)
			}
		}
		o.fault("corrupted-bytes")
		desc = "corrupted document"
	case 7:
		mustFail = false
		j.cberr = o.a(6)%2 == 0
		desc = "document"
	}
	if !flips && o.a(6)%4 == 0 && rd.errAt < 0 && kind != 0 {
		data = append(data, []byte("\n {}")...)
	}
	rd.data = data
	o.setDecodeBudget(len(data))
	dec := json.NewDecoder(rd)
	var err error
	inj := o.try(func() { err = j.lib().Decode(tgt.g, dec) })
	o.relax()
	o.oracle("damaged-load")
	if !inj {
		if err == nil && (mustFail || j.erred > 0) {
			o.fail("load", "%s loaded as success\n document: %.600q", desc, data)
		}
		if err != nil && !mustFail && !flips && j.erred == 0 {
			o.fail("load", "undamaged document does not load: %v\n document: %.600q", err, data)
		}
	}
	nn, ne := o.absorb(tgt, "load")
	if len(nn) > 0 && (err != nil || inj) {
		o.probe("partial-load")
	}
	o.checkPrior("load", tgt, nn, ne)
	if !flips {
		exp := j.loaded
		o.matchAdded("load", desc, nn, ne, sn, se, func(p map[string]any) map[string]any { return exp(p) }, err == nil && !inj, nil)
	}
	if flips {
		// corruption may have invented values: continue with a graph of known ones
		o.auditStruct(tgt, o.a(7))
		o.auditLabels(tgt)
		o.auditIdent(tgt)
		o.auditProps(tgt)
		o.jsonIndexAudit(tgt)
		for _, n := range nn {
			mgDropNode(tgt, n)
		}
		for _, e := range ne {
			if tgt.byE[e.h] == e {
				e.h.Remove()
				tgt.delEdge(e)
			}
		}
	} else {
		o.reUID(nn, ne)
	}
	o.auditFull(tgt, o.a(7))
	o.jsonIndexAudit(tgt)
	if o.a(7)%2 == 0 {
		o.auditFull(src, o.a(7))
	}
	o.trimGraph(tgt)
}

func mgDropNode(mg *MGraph, n *MNode) {
	mg.dropNodeFromSets(n)
	n.h.DetachAndRemove()
	mg.detach(n)
	mg.delNode(n)
}

// encodeDoc writes a document with the members in an order given by x.
func (o *opx) encodeDoc(d *wDoc, x int) []byte {
	n, _ := json.Marshal(d.Nodes)
	e, _ := json.Marshal(d.Edges)
	if len(d.Edges) == 0 {
		e = []byte("[]")
	}
	if len(d.Nodes) == 0 {
		n = []byte("[]")
	}
	if x%2 == 0 {
		return []byte(fmt.Sprintf(`{"edges":%s,"nodes":%s}`, e, n))
	}
	return []byte(fmt.Sprintf(`{"nodes":%s,"edges":%s}`, n, e))
}

var badVals = []any{math.NaN(), badVal{}, math.Inf(1), complex(1, 1)}

func init() {
	reg("roundTrip", rd0wr1, func(o *opx) { o.roundTrip(o.g0(), o.g1()); o.trimGraph(o.g1()) })
	reg("encFault", rd0, func(o *opx) { o.execEncFault(false) })
	reg("encPanic", rd0, func(o *opx) { o.execEncFault(true) })
	reg("dot", rd0, func(o *opx) { o.execDOT(false) })
	reg("dotPanic", rd0, func(o *opx) { o.execDOT(true) })
	reg("decFault", rd0wr1, func(o *opx) { o.execDecFault(false) })
	reg("decPanic", rd0wr1, func(o *opx) { o.execDecFault(true) })
	reg("setBad", wr0, func(o *opx) {
		mg := o.g0()
		v := badVals[o.a(4)%len(badVals)]
		if len(mg.edges) > 0 && o.a(3)%2 == 0 {
			e := o.edge(mg, o.a(2))
			e.h.SetProperty("bad", v)
			e.props["bad"] = v
		} else {
			n := o.node(mg, o.a(2))
			n.h.SetProperty("bad", v)
			n.props["bad"] = v
		}
		o.post(mg)
	})
	reg("clearBad", wr0, func(o *opx) {
		mg := o.g0()
		for _, n := range mg.nodes {
			n.h.RemoveProperty("bad")
			delete(n.props, "bad")
		}
		for _, e := range mg.edges {
			e.h.RemoveProperty("bad")
			delete(e.props, "bad")
		}
		o.post(mg)
	})
	_ = sort.Strings
}
