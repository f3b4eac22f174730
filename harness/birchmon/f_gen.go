package main

import (
	"bytes"
	"compress/zlib"
	"context"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"verif/harness/mon"
	"verif/harness/ref"
)

// ---- samples

var metricTypes = []byte{ref.Boolean, ref.Double, ref.Int32, ref.Int64, ref.DateTime, ref.Timestamp}

func isMetric(t byte) bool {
	for _, m := range metricTypes {
		if m == t {
			return true
		}
	}
	return false
}

// schema generates sample documents of one shape.
type schema struct {
	r    *mon.Rand
	g    *ref.Gen
	doc  *Doc
	mode map[*Val]int
	last map[*Val]*Val
	rare int // how seldom values change that are the same, beyond the usual
}

type schemaOpts struct {
	unique bool // the flattened keys are unique, and plain
	flat   bool
	elems  int
	types  []byte // only these
	nested int    // so many documents and arrays around it
	still  bool   // nearly everything stays the same
}

func newSchema(r *mon.Rand, o schemaOpts) *schema {
	s := &schema{r: r, mode: map[*Val]int{}, last: map[*Val]*Val{}}
	s.g = ref.NewGen(r)
	s.g.Budget, s.g.Depth, s.g.MaxElems, s.g.ValidUTF8 = 400, 2, 3, true
	if o.elems == 0 {
		o.elems = r.Range(1, 8)
		if r.Chance(20) {
			o.elems = r.Range(20, 200)
			if r.Chance(5) {
				o.elems = r.Range(200, 1500)
			}
		}
		if r.Chance(40) {
			o.elems = 0
		}
		if r.Chance(40) && !o.flat {
			o.nested = r.Range(3, 40)
		}
	}
	depth := 3
	if o.flat {
		depth = 0
	}
	s.doc = s.shape(o, o.elems, depth, false)
	for i := range o.nested {
		s.nest(i)
	}
	if o.still {
		s.rare = mon.Pick(s.r, []int{600, 1 << 20, 1 << 20})
		for v := range s.mode {
			s.mode[v] = 1
		}
	}
	return s
}

// nest puts everything into a document or an array, with neighbors.
func (s *schema) nest(level int) {
	d, t := &Doc{}, mon.Pick(s.r, []byte{ref.Document, ref.Document, ref.Array})
	add := func(v *Val) {
		k := fmt.Sprintf("n%d_%d", level, len(d.E))
		if t == ref.Array {
			k = strconv.Itoa(len(d.E))
		}
		s.mode[v] = s.r.IntN(6)
		d.Append(k, v)
	}
	neighbors := func() {
		for range s.r.IntN(2) {
			add(&Val{T: mon.Pick(s.r, []byte{ref.Int64, ref.Int32, ref.Double, ref.Boolean})})
		}
	}
	neighbors()
	add(&Val{T: ref.Document, D: s.doc})
	neighbors()
	s.doc = &Doc{}
	s.doc.Append(fmt.Sprintf("n%d", level), &Val{T: t, D: d})
}

func (s *schema) shape(o schemaOpts, n, depth int, array bool) *Doc {
	d := &Doc{}
	for i := range n {
		k := s.g.Key()
		if o.unique {
			k = string(rune('a'+i%26)) + strconv.Itoa(i)
			if s.r.Chance(6) {
				k += mon.Pick(s.r, []string{" ", ",", "\"", "'", ";", "é", "-"}) + "x"
			}
		}
		if array {
			k = strconv.Itoa(i)
		}
		v := &Val{}
		switch x := s.r.IntN(12); {
		case x == 0 && depth > 0:
			v.T, v.D = ref.Document, s.shape(o, s.r.IntN(5), depth-1, false)
		case x == 1 && depth > 0:
			v.T, v.D = ref.Array, s.shape(o, s.r.IntN(5), depth-1, true)
		case x == 2 && o.types == nil:
			for v.T == 0 || isMetric(v.T) || v.T == ref.Document || v.T == ref.Array {
				v.T = mon.Pick(s.r, ref.AllTypes)
			}
		default:
			v.T = mon.Pick(s.r, metricTypes)
			if o.types != nil {
				v.T = mon.Pick(s.r, o.types)
			}
		}
		s.mode[v] = s.r.IntN(6)
		d.Append(k, v)
	}
	return d
}

func (s *schema) sample() *Doc { return s.fill(s.doc) }

func (s *schema) fill(d *Doc) *Doc {
	out := &Doc{}
	for _, e := range d.E {
		out.Append(e.K, s.value(e.V))
	}
	return out
}

func (s *schema) value(t *Val) *Val {
	r := s.r
	v := &Val{T: t.T}
	last := s.last[t]
	if t.D != nil {
		v.D = s.fill(t.D)
		return v
	}
	if !isMetric(t.T) {
		return s.g.ValOf(t.T)
	}
	mode := s.mode[t]
	if r.Chance(30) && r.Chance(1+s.rare) {
		mode = r.IntN(6)
	}
	switch {
	case last == nil || mode == 0:
		*v = *s.g.ValOf(t.T)
	case mode == 1 || mode == 2 && !r.Chance(5): // the same
		*v = *last
	default: // a step
		*v = *last
		step := int64(r.IntN(1000)) - 200
		if r.Chance(4) {
			step = 1
		}
		switch t.T {
		case ref.Double:
			v.F += float64(step) / 8
		case ref.Boolean:
			v.I = r.Int64N(2)
		case ref.Int32:
			v.I = int64(int32(v.I + step))
		case ref.Int64:
			v.I += step
		case ref.DateTime:
			v.I += step
		case ref.Timestamp:
			v.H, v.L = uint64(uint32(v.H)+uint32(step)), uint64(uint32(v.L)+1)
		}
	}
	s.last[t] = v
	return v
}

// metrics counts what is recorded of a document.
func metricsOf(d *Doc) int {
	n := 0
	for _, e := range d.E {
		switch {
		case e.V.D != nil && (e.V.T == ref.Document || e.V.T == ref.Array):
			n += metricsOf(e.V.D)
		case e.V.T == ref.Timestamp:
			n += 2
		case isMetric(e.V.T):
			n++
		}
	}
	return n
}

// recorded is what the structured view has of a sample.
func recorded(d *Doc, array bool) *Doc {
	out := &Doc{}
	for _, e := range d.E {
		switch {
		case e.V.T == ref.Document || e.V.T == ref.Array:
			out.Append(e.K, &Val{T: e.V.T, D: recorded(e.V.D, e.V.T == ref.Array)})
		case isMetric(e.V.T):
			out.Append(e.K, e.V)
		}
		if array && len(out.E) > 0 {
			out.E[len(out.E)-1].K = strconv.Itoa(len(out.E) - 1)
		}
	}
	return out
}

type metric struct {
	parent []string
	key    string
	v      *Val // of the flattened view
	raw    int64
	orig   *Val
	inc    bool
}

func (m metric) path() string {
	return strings.Join(append(append([]string{}, m.parent...), m.key), ".")
}

func flatten(d *Doc, parent []string) []metric {
	var out []metric
	for _, e := range d.E {
		out = append(out, flattenVal(e.K, e.V, parent)...)
	}
	return out
}

func flattenVal(k string, v *Val, parent []string) []metric {
	switch v.T {
	case ref.Document:
		return flatten(v.D, append(append([]string{}, parent...), k))
	case ref.Array:
		var out []metric
		for i, e := range v.D.E {
			out = append(out, flattenVal(fmt.Sprintf("%s.%d", k, i), e.V, parent)...)
		}
		return out
	case ref.Timestamp:
		return []metric{
			{parent: parent, key: k, v: &Val{T: ref.Int64, I: int64(v.H)}, raw: int64(v.H), orig: v},
			{parent: parent, key: k + ".inc", v: &Val{T: ref.Int64, I: int64(v.L)}, raw: int64(v.L), orig: v, inc: true},
		}
	case ref.Double:
		return []metric{{parent: parent, key: k, v: v, raw: int64(math.Float64bits(v.F)), orig: v}}
	}
	if isMetric(v.T) {
		return []metric{{parent: parent, key: k, v: v, raw: v.I, orig: v}}
	}
	return nil
}

func flatDoc(d *Doc) *Doc {
	out := &Doc{}
	for _, m := range flatten(d, nil) {
		out.Append(m.path(), m.v)
	}
	return out
}

// ---- giving samples to collectors

type bsonBytes []byte

func (b bsonBytes) MarshalBSON() ([]byte, error) { return b, nil }

// foreignSample is of a type that only the global marshaler knows.
type foreignSample struct{ raw []byte }

// sampleInput is the sample in one of the forms that collectors take, and a
// function that overwrites what the caller owns.
func sampleInput(r *mon.Rand, d *Doc) (in any, reuse func()) {
	b := &builder{r: r, live: true}
	switch r.IntN(7) {
	case 6:
		raw := d.Encode()
		return &foreignSample{raw}, func() { wipe(r, raw) }
	case 0:
		raw := d.Encode()
		return raw, func() { wipe(r, raw) }
	case 1:
		raw := bsonBytes(d.Encode())
		return raw, func() { wipe(r, raw) }
	case 2:
		doc := b.doc(d)
		return docMarshaler{doc}, func() { edit(r, doc) }
	case 3:
		if len(d.E) > 0 {
			m := map[string]int64{}
			for _, e := range d.E {
				m[e.K] = e.V.I
			}
			// the keys of a map are sorted.
			if len(m) == len(d.E) && sort.SliceIsSorted(d.E, func(i, j int) bool { return d.E[i].K < d.E[j].K }) {
				ok := true
				for _, e := range d.E {
					ok = ok && e.V.T == ref.Int64
				}
				if ok {
					return m, func() {
						for k := range m {
							m[k]++
						}
					}
				}
			}
		}
		fallthrough
	default:
		doc := b.doc(d)
		return doc, func() { edit(r, doc) }
	}
}

func wipe(r *mon.Rand, b []byte) {
	for i := range b {
		b[i] ^= 0x55
	}
}

func edit(r *mon.Rand, d *birch.Document) {
	switch r.IntN(3) {
	case 0:
		d.Reset()
		d.Append(birch.EC.String("x", "y"))
	case 1:
		for i := 0; i < d.Len(); i++ {
			d.ElementAt(uint(i)).SetValue(birch.VC.Int64(12345))
		}
	default:
		d.Append(birch.EC.Int64("more", 1))
	}
}

// ---- collectors

type recordWriter struct {
	mu     sync.Mutex
	buf    bytes.Buffer
	writes [][]byte
	kept   [][]byte // what was given, to see that it isn't reused
	closed int
}

func (w *recordWriter) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.buf.Write(b)
	w.writes = append(w.writes, clone(b))
	return len(b), nil
}

func (w *recordWriter) Close() error { w.mu.Lock(); w.closed++; w.mu.Unlock(); return nil }

func (w *recordWriter) bytes() []byte {
	w.mu.Lock()
	defer w.mu.Unlock()
	return clone(w.buf.Bytes())
}

type collectorKind struct {
	name     string
	stream   bool // writes chunks by itself
	dynamic  bool // follows schema changes
	limit    bool // refuses more samples than fit
	extra    int  // samples of a chunk beyond the maximum
	batch    bool // metadata only before the first chunk, forgotten by Reset
	buffered bool
	sampling bool
	base     string
	make     func(ctx context.Context, max int, w io.Writer) ftdc.Collector
}

func collectorKinds() []collectorKind {
	base := []collectorKind{
		{name: "base", limit: true, extra: 1, make: func(_ context.Context, n int, _ io.Writer) ftdc.Collector { return ftdc.NewBaseCollector(n) }},
		{name: "batch", batch: true, make: func(_ context.Context, n int, _ io.Writer) ftdc.Collector { return ftdc.NewBatchCollector(n) }},
		{name: "dynamic", batch: true, dynamic: true, make: func(_ context.Context, n int, _ io.Writer) ftdc.Collector { return ftdc.NewDynamicCollector(n) }},
		{name: "streaming", stream: true, make: func(_ context.Context, n int, w io.Writer) ftdc.Collector { return ftdc.NewStreamingCollector(n, w) }},
		{name: "streaming-dynamic", stream: true, dynamic: true, make: func(_ context.Context, n int, w io.Writer) ftdc.Collector {
			return ftdc.NewStreamingDynamicCollector(n, w)
		}},
	}
	out := append([]collectorKind{}, base...)
	for _, b := range base {
		inner := b.make
		s := b
		s.base, s.name = b.name, "synchronized("+b.name+")"
		s.make = func(ctx context.Context, n int, w io.Writer) ftdc.Collector {
			return ftdc.NewSynchronizedCollector(inner(ctx, n, w))
		}
		f := b
		f.base, f.name, f.buffered = b.name, "buffered("+b.name+")", true
		f.make = func(ctx context.Context, n int, w io.Writer) ftdc.Collector {
			return ftdc.NewBufferedCollector(ctx, n%7, inner(ctx, n, w))
		}
		p := b
		p.base, p.name, p.sampling = b.name, "sampling("+b.name+")", true
		p.make = func(ctx context.Context, n int, w io.Writer) ftdc.Collector {
			return ftdc.NewSamplingCollector(0, inner(ctx, n, w))
		}
		out = append(out, s, f, p)
	}
	return out
}

var kinds = collectorKinds()

// ---- reading

func (k *comparer) sampleBytes(what string, d *birch.Document) []byte {
	if d == nil {
		k.c.Failf("nil", "%s: no document", what)
	}
	raw, err := d.MarshalBSON()
	if err != nil {
		k.c.Failf("marshal", "%s: %v", what, err)
	}
	return raw
}

type chunkInfo struct {
	size, metrics int
	meta          []byte
	samples       []*Doc
}

// readStructured reads the stream and gives the documents and the error.
func readStructured(c *C, data []byte) ([][]byte, error) {
	return readStructuredFrom(c, &chunkReader{r: fork(c), data: clone(data), err: io.EOF})
}

// fork is a PRNG for another goroutine.
func fork(c *C) *mon.Rand { return mon.NewRand(int64(c.R.Uint64()>>1), "fork", 0) }

func readStructuredFrom(c *C, r io.Reader) ([][]byte, error) {
	it := ftdc.ReadStructuredMetrics(r)
	k := &comparer{c: c}
	var out [][]byte
	for d := range it.Iterator() {
		out = append(out, k.sampleBytes("a sample", d))
	}
	return out, it.Close()
}

// metadataOf is the document in a metadata document that was read.
func metadataOf(c *C, d *birch.Document) []byte {
	if d == nil {
		return nil
	}
	v := d.Lookup("doc")
	if v == nil {
		c.Failf("metadata", "the metadata of a chunk has no document: %s", d)
	}
	r, ok := v.ReaderDocumentOK()
	if !ok {
		c.Failf("metadata", "the metadata of a chunk is of type %s", v.Type())
	}
	return clone(r)
}

func readChunksOf(c *C, data []byte) ([]chunkInfo, error) {
	it := ftdc.ReadChunks(bytes.NewReader(data))
	k := &comparer{c: c}
	var out []chunkInfo
	for ch := range it.Iterator() {
		info := chunkInfo{size: ch.Size(), metrics: ch.Len(), meta: metadataOf(c, ch.Metadata())}
		for d := range ch.StructuredIterator().Iterator() {
			raw := k.sampleBytes("a sample", d)
			doc, err := ref.Decode(raw)
			if err != nil {
				c.Failf("marshal", "a sample isn't valid: %v", err)
			}
			info.samples = append(info.samples, doc)
		}
		if len(info.samples) != info.size {
			c.Failf("size", "a chunk of size %d has %d samples", info.size, len(info.samples))
		}
		out = append(out, info)
	}
	return out, it.Close()
}

func sameSamples(c *C, what string, got [][]byte, want []*Doc) {
	if len(got) != len(want) {
		c.Failf("samples", "%s: %d samples were put in, %d came out", what, len(want), len(got))
	}
	for i := range want {
		sameSample(c, fmt.Sprintf("%s: sample %d of %d", what, i, len(want)), got[i], want[i])
	}
	c.EventN("samples", len(want))
}

func sameSample(c *C, what string, got []byte, want *Doc) {
	w := recorded(want, false).Encode()
	if !bytes.Equal(got, w) {
		c.Note("want", "%s", hexs(w))
		c.Note("got", "%s", hexs(got))
		c.Failf("sample", "%s: differs from what was put in: %s", what, diffAt(got, w))
	}
}

func add(c *C, col ftdc.Collector, d *Doc, what string) {
	in, reuse := sampleInput(c.R, d)
	if err := col.Add(in); err != nil {
		c.Failf("add", "%s: adding a sample (%T): %v", what, in, err)
	}
	reuse()
}

// forget adds samples of some schema and resets the collector.
func forget(c *C, col ftdc.Collector, k collectorKind, limit int) {
	other := newSchema(c.R, schemaOpts{unique: true})
	for range c.R.Range(1, min(limit, 4)) {
		add(c, col, other.sample(), k.name)
	}
	col.Reset()
	c.Event("reset before")
}

// output is everything that the collector has and had.
func output(c *C, col ftdc.Collector, k collectorKind, w *recordWriter) []byte {
	if k.stream {
		if err := ftdc.FlushCollector(col, w); err != nil {
			c.Failf("flush", "%s: flushing: %v", k.name, err)
		}
		return w.bytes()
	}
	out, err := col.Resolve()
	if err != nil {
		c.Failf("resolve", "%s: resolving: %v", k.name, err)
	}
	return out
}

func maxSamples(r *mon.Rand) int {
	switch r.IntN(5) {
	case 0:
		return 1
	case 1:
		return r.Range(2, 4)
	case 2:
		return r.Range(90, 130)
	}
	return r.Range(5, 40)
}

func inflateErr(b []byte) ([]byte, error) {
	z, err := zlib.NewReader(bytes.NewReader(b[4:]))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(z)
}
