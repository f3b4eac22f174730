package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	mon.Register(&mon.Property{
		ID:   "F01",
		Rule: "samples of one shape go through every compressed collector (and wrapper), and what the output has is compared to what was put in, sample by sample, by birch's readers and by an independent FTDC reader; an independent FTDC writer's output goes through birch's readers; a case is non-trivial when the shape, the collector or the number of samples is new",
		Assumptions: []string{
			"only booleans, numbers, dates and timestamps are recorded; what the structured view leaves out of a sample is everything else",
		},
		Workloads: []mon.Workload{
			{Name: "collect", Quick: 6000, Thorough: 400000, Run: f01Collect},
			{Name: "large", Quick: 32, Thorough: 1500, Run: f01Large},
			{Name: "maps", Quick: 4000, Thorough: 150000, Run: f01Maps},
			{Name: "writer", Quick: 1200, Thorough: 60000, Run: f01Writer},
			{Name: "foreign", Quick: 3000, Thorough: 200000, Run: f01Foreign},
		},
	})
	mon.Register(&mon.Property{
		ID:   "F03",
		Rule: "samples of several related shapes (renamed, reordered, nested, retyped, longer, shorter) go through the collectors that follow schema changes, which record all of them, and through those that don't, which refuse the samples with other numbers or types of metrics; a case is non-trivial when the shapes or the collector are new",
		Assumptions: []string{
			"the collectors of one schema compare the number and the types of the metrics, and not their names",
		},
		Workloads: []mon.Workload{
			{Name: "follow", Quick: 3500, Thorough: 300000, Run: f03Follow},
			{Name: "refuse", Quick: 3000, Thorough: 150000, Run: f03Refuse},
		},
	})
	mon.Register(&mon.Property{
		ID:   "F04",
		Rule: "sequences of operations on a collector and on a model of one are compared in results, counts and output; a case is non-trivial when the sequence of operations is new",
		Workloads: []mon.Workload{
			{Name: "histories", Quick: 6000, Thorough: 300000, Run: f04History},
			{Name: "long-histories", Quick: 120, Thorough: 5000, Run: f04Long},
			{Name: "sampling", Quick: 120, Thorough: 3000, Run: f04Sampling},
		},
	})
	mon.Register(&mon.Property{
		ID:   "F05",
		Rule: "streaming collectors write to writers that fail or write short at arbitrary points; the samples that were acknowledged are compared to what the completed writes hold; a case is non-trivial when the sequence of faults and the collector are new",
		Assumptions: []string{
			"what a failed write left behind is discarded by the owner of the output, as a partial chunk can't be taken back by the collector",
		},
		Workloads: []mon.Workload{
			{Name: "faults", Quick: 3500, Thorough: 250000, Run: f05Faults},
			{Name: "many-samples", Quick: 80, Thorough: 4000, Run: f05Many},
		},
	})
}

// shapeOf identifies a schema, including the names.
func shapeOf(d *Doc) string {
	var sb strings.Builder
	var walk func(*Doc)
	walk = func(d *Doc) {
		for _, e := range d.E {
			fmt.Fprintf(&sb, "%q:%d", e.K, e.V.T)
			if e.V.T == ref.Document || e.V.T == ref.Array {
				sb.WriteByte('{')
				walk(e.V.D)
				sb.WriteByte('}')
			}
			sb.WriteByte(',')
		}
	}
	walk(d)
	return sb.String()
}

// typesOf are the types of the metrics, in order.
func typesOf(d *Doc) string {
	var out []byte
	for _, m := range flatten(d, nil) {
		out = append(out, m.orig.T)
	}
	return string(out)
}

// decodeFTDC reads the stream with the independent reader and with birch's,
// which agree.
func decodeFTDC(c *C, what string, data []byte) []ref.FTDCChunk {
	want, err := ref.FTDCDecode(data)
	if err != nil {
		c.Note("stream", "%s", hexs(data))
		c.Failf("format", "%s: the output isn't valid FTDC: %v", what, err)
	}
	got, err := readChunksOf(c, data)
	if err != nil {
		c.Failf("read", "%s: reading the chunks: %v", what, err)
	}
	if len(got) != len(want) {
		c.Failf("read", "%s: ReadChunks has %d chunks, the stream has %d", what, len(got), len(want))
	}
	for i := range want {
		if got[i].size != len(want[i].Samples) {
			c.Failf("size", "%s: chunk %d has %d samples and says %d", what, i, len(want[i].Samples), got[i].size)
		}
		if n := metricsOf(want[i].Ref); got[i].metrics != n {
			c.Failf("size", "%s: chunk %d has %d metrics and says %d", what, i, n, got[i].metrics)
		}
		for j, s := range want[i].Samples {
			if !ref.Equal(s, got[i].samples[j]) {
				c.Note("want", "%s", hexs(s.Encode()))
				c.Note("got", "%s", hexs(got[i].samples[j].Encode()))
				c.Failf("sample", "%s: sample %d of chunk %d is read differently than it is in the stream: %s", what, j, i, diffAt(got[i].samples[j].Encode(), s.Encode()))
			}
		}
	}
	c.EventN("chunks", len(want))
	return want
}

// f01Collect: samples of one schema come back.
func f01Collect(c *C) {
	k := mon.Pick(c.R, kinds)
	s := newSchema(c.R, schemaOpts{})
	limit := maxSamples(c.R)
	n := c.R.Range(1, 60)
	switch c.R.IntN(8) {
	case 0:
		n = limit
	case 1:
		n = 2 * limit
	case 2:
		n = limit + 1
	case 3:
		n = max(1, limit-1)
	}
	if n > 150 {
		n = 150
	}
	f01Run(c, k, s, limit, n)
}

// numbersOf is a map of a collector's samples, and what it has, in order.
func numbersOf[T int | int64 | uint | uint64](r *mon.Rand, keys []string) (map[string]T, map[string]int64) {
	m, want := map[string]T{}, map[string]int64{}
	for _, k := range keys {
		v := ref.Int64v(r)
		if T(0)-1 > 0 {
			v &= math.MaxInt64
		}
		m[k], want[k] = T(v), v
	}
	return m, want
}

// f01Maps: maps are samples whose fields are in the order of their keys.
func f01Maps(c *C) {
	r := c.R
	g := ref.NewGen(r)
	g.ValidUTF8 = true
	keys := []string{}
	for range r.Range(1, 12) {
		keys = append(keys, g.Key()+"#"+strconv.Itoa(len(keys)))
	}
	limit := r.Range(1, 20)
	w := &recordWriter{}
	k := collectorKinds()[0]
	for !k.dynamic {
		k = mon.Pick(r, kinds)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	col := k.make(ctx, limit, w)
	c.Event("collector:" + k.name)
	var want []map[string]int64
	kind := r.IntN(5)
	for range r.Range(1, 40) {
		var in any
		var values map[string]int64
		switch kind {
		case 0:
			in, values = numbersOf[int](r, keys)
		case 1:
			in, values = numbersOf[int64](r, keys)
		case 2:
			in, values = numbersOf[uint](r, keys)
		case 3:
			in, values = numbersOf[uint64](r, keys)
		default:
			m := map[string]any{}
			values = map[string]int64{}
			for i, k := range keys {
				switch i % 4 {
				case 0:
					v := ref.Int64v(r)
					m[k], values[k] = v, v
				case 1:
					v := ref.Int32v(r)
					m[k], values[k] = v, int64(v)
				case 2:
					v := r.Bool()
					m[k], values[k] = v, int64(b2i(v))
				case 3:
					v := int(ref.Int32v(r))
					m[k], values[k] = v, int64(v)
				}
			}
			in = m
		}
		if err := col.Add(in); err != nil {
			c.Failf("add", "%s: adding %v: %v", k.name, in, err)
		}
		want = append(want, values)
	}
	data := output(c, col, k, w)
	got, err := readStructured(c, data)
	if err != nil {
		c.Failf("read", "%s: reading: %v", k.name, err)
	}
	if len(got) != len(want) {
		c.Failf("samples", "%s: %d samples of %d", k.name, len(got), len(want))
	}
	order := append([]string{}, keys...)
	sort.Strings(order)
	for i, raw := range got {
		d, err := ref.Decode(raw)
		if err != nil || len(d.E) != len(order) {
			c.Failf("sample", "%s: sample %d of a map: %v: %v", k.name, i, err, d)
		}
		for j, e := range d.E {
			if e.K != order[j] || e.V.I != want[i][e.K] {
				c.Failf("sample", "%s: field %d of sample %d is %q: %d, instead of %q: %d", k.name, j, i, e.K, e.V.I, order[j], want[i][order[j]])
			}
		}
	}
	c.EventN("maps", len(want))
	c.State(kind, limit, fmt.Sprintf("%q", order))
}

func f01Large(c *C) {
	k := mon.Pick(c.R, kinds)
	o, n := schemaOpts{elems: mon.Pick(c.R, []int{1, 4, 60})}, c.R.Range(500, 2500)
	limit := mon.Pick(c.R, []int{100, 1000, 3000})
	switch c.Index % 4 {
	case 0:
		o.still = true
		if c.Index%8 == 0 {
			o.elems, limit = c.R.Range(30, 60), c.R.Range(600, 3000)
		}
		c.Event("long runs of the same values")
	case 1:
		o.elems, n = c.R.Range(300, 1800), c.R.Range(2, 20)
		limit = mon.Pick(c.R, []int{5, 100})
		c.Event("many metrics")
	case 2:
		o.nested, n = c.R.Range(5, 60), c.R.Range(5, 200)
		c.Event("deeply nested metrics")
	}
	f01Run(c, k, newSchema(c.R, o), limit, n)
}

func f01Run(c *C, k collectorKind, s *schema, limit, n int) {
	if k.limit {
		n = min(n, limit+k.extra)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	w := &recordWriter{}
	col := k.make(ctx, limit, w)
	c.State(k.name, limit, n, shapeOf(s.doc))
	c.Note("collector", "%s of %d samples", k.name, limit)
	c.Event("collector:" + k.name)
	var samples []*Doc
	from := time.Now().UnixMilli()
	for range n {
		d := s.sample()
		samples = append(samples, d)
		add(c, col, d, k.name)
	}
	c.Sample("%s of %d, %d samples of %d metrics", k.name, limit, n, metricsOf(s.doc))
	data := output(c, col, k, w)
	got, err := readStructured(c, data)
	if err != nil {
		c.Failf("read", "%s: reading: %v", k.name, err)
	}
	sameSamples(c, k.name, got, samples)
	chunks := decodeFTDC(c, k.name, data)
	checkSizes(c, k.name, chunks, expectSizes(k, limit, n))
	i := 0
	for _, ch := range chunks {
		if now := time.Now().UnixMilli(); ch.ID < from || ch.ID > now {
			c.Failf("dated", "%s: the chunk at sample %d has the date %d, expected %d to %d", k.name, i, ch.ID, from, now)
		}
		from = ch.ID
		for _, d := range ch.Samples {
			sameSample(c, fmt.Sprintf("%s: sample %d (by the independent reader)", k.name, i), d.Encode(), samples[i])
			i++
		}
	}
}

func expectSizes(k collectorKind, limit, n int) []int {
	if k.limit {
		return []int{n}
	}
	var out []int
	for ; n > limit; n -= limit {
		out = append(out, limit)
	}
	return append(out, n)
}

func checkSizes(c *C, what string, chunks []ref.FTDCChunk, want []int) {
	got := []int{}
	for _, ch := range chunks {
		got = append(got, len(ch.Samples))
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Failf("chunks", "%s: the chunks have %v samples, expected %v", what, got, want)
	}
}

// f01Writer: documents written to the collecting writer come back.
func f01Writer(c *C) {
	w := &recordWriter{}
	limit := maxSamples(c.R)
	col := ftdc.NewWriterCollector(limit, w)
	ss := []*schema{newSchema(c.R, schemaOpts{}), newSchema(c.R, schemaOpts{})}
	if c.R.Bool() {
		ss = ss[:1]
	}
	cur := ss[0]
	var samples []*Doc
	var want []int
	prev := ""
	for range c.R.Range(1, 60) {
		if c.R.Chance(10) {
			cur = mon.Pick(c.R, ss)
		}
		d := cur.sample()
		raw := d.Encode()
		if n, err := col.Write(raw); err != nil || n != len(raw) {
			c.Failf("write", "writing a document of %d bytes: %d, %v", len(raw), n, err)
		}
		wipe(c.R, raw)
		samples = append(samples, d)
		if sh := shapeOf(recordedShape(d)); len(want) == 0 || sh != prev || want[len(want)-1] == limit {
			want, prev = append(want, 0), sh
		}
		want[len(want)-1]++
		if c.R.Chance(8) {
			bad := ref.Mutate(c.R, d.Encode())
			if _, err := ref.Decode(bad); err != nil {
				if _, err := col.Write([]byte{7, 0, 0, 0, 1, 2, 0}); err == nil {
					c.Failf("write", "writing an invalid document gave no error")
				}
			}
		}
	}
	c.State(limit, len(samples), shapeOf(cur.doc))
	if err := col.Close(); err != nil {
		c.Failf("close", "closing: %v", err)
	}
	if w.closed != 1 {
		c.Failf("close", "the underlying writer was closed %d times", w.closed)
	}
	got, err := readStructured(c, w.bytes())
	if err != nil {
		c.Failf("read", "reading: %v", err)
	}
	sameSamples(c, "NewWriterCollector", got, samples)
	checkSizes(c, "NewWriterCollector", decodeFTDC(c, "NewWriterCollector", w.bytes()), want)
}

// recordedShape is a document whose shape is what the collectors tell apart:
// the types of fields that aren't metrics don't matter.
func recordedShape(d *Doc) *Doc {
	out := &Doc{}
	for _, e := range d.E {
		switch {
		case e.V.T == ref.Document || e.V.T == ref.Array:
			out.Append(e.K, &Val{T: e.V.T, D: recordedShape(e.V.D)})
		case isMetric(e.V.T):
			out.Append(e.K, &Val{T: e.V.T})
		default:
			out.Append(e.K, &Val{T: ref.Null})
		}
	}
	return out
}

// f01Foreign: streams from another writer.
func f01Foreign(c *C) {
	var data []byte
	var samples []*Doc
	var sizes []int
	for range c.R.Range(1, 4) {
		s := newSchema(c.R, schemaOpts{})
		if c.R.Chance(4) {
			d := (&Doc{}).Append("_id", &Val{T: ref.DateTime, I: 1}).Append("type", &Val{T: ref.Int32, I: mon.Pick(c.R, []int64{0, 2, 7, -1})}).Append("doc", &Val{T: ref.Document, D: s.sample()})
			data = append(data, d.Encode()...)
			c.Event("foreign: other documents")
		}
		n := c.R.Range(1, 40)
		if c.R.Chance(20) {
			n = c.R.Range(200, 700)
		}
		one := []*Doc{}
		for range n {
			one = append(one, s.sample())
		}
		typ := mon.Pick(c.R, []*Val{{T: ref.Int32, I: 1}, {T: ref.Int64, I: 1}, {T: ref.Double, F: 1}})
		data = append(data, ref.FTDCEncode(ref.Int64v(c.R), typ, one)...)
		samples = append(samples, one...)
		sizes = append(sizes, n)
		c.State(n, shapeOf(s.doc))
	}
	got, err := readStructured(c, data)
	if err != nil {
		c.Failf("read", "reading another writer's stream: %v", err)
	}
	sameSamples(c, "another writer's stream", got, samples)
	checkSizes(c, "another writer's stream", decodeFTDC(c, "another writer's stream", data), sizes)
}

// ---- schema changes

// vary makes a related schema.
func (s *schema) vary() *schema {
	out := &schema{r: s.r, g: s.g, mode: map[*Val]int{}, last: map[*Val]*Val{}, doc: s.doc.Clone()}
	var docs []*Doc
	var walk func(*Doc)
	walk = func(d *Doc) {
		docs = append(docs, d)
		for _, e := range d.E {
			out.mode[e.V] = s.r.IntN(6)
			if e.V.D != nil && (e.V.T == ref.Document) {
				walk(e.V.D)
			}
		}
	}
	walk(out.doc)
	d := mon.Pick(s.r, docs)
	fresh := func() *Val { return &Val{T: mon.Pick(s.r, metricTypes)} }
	if len(d.E) == 0 {
		d.Append("new", fresh())
		return out
	}
	i := s.r.IntN(len(d.E))
	switch s.r.IntN(9) {
	case 0: // renamed
		d.E[i].K += "x"
	case 1: // retyped
		d.E[i].V = fresh()
	case 2: // longer
		d.Append("new", fresh())
	case 3: // shorter
		d.E = append(d.E[:i:i], d.E[i+1:]...)
	case 4: // reordered
		j := s.r.IntN(len(d.E))
		d.E[i], d.E[j] = d.E[j], d.E[i]
	case 5: // nested deeper
		e := d.E[i]
		d.E[i] = ref.Elem{K: e.K, V: &Val{T: ref.Document, D: (&Doc{}).Append("in", e.V)}}
	case 6: // the next fields move into a document
		e := d.E[i]
		in := &Doc{E: append([]ref.Elem{}, d.E[i+1:]...)}
		d.E = append(d.E[:i:i], ref.Elem{K: e.K, V: &Val{T: ref.Document, D: in}})
	case 7: // a document becomes an array or the other way around
		if e := d.E[i].V; e.T == ref.Document {
			a := &Doc{}
			for j, x := range e.D.E {
				a.Append(fmt.Sprint(j), x.V)
			}
			d.E[i].V = &Val{T: ref.Array, D: a}
		} else if e.T == ref.Array {
			d.E[i].V = &Val{T: ref.Document, D: e.D}
		} else {
			d.E[i].V = &Val{T: ref.Array, D: (&Doc{}).Append("0", e)}
		}
	case 8: // two keys joined differently
		if i+1 < len(d.E) && len(d.E[i].K) > 0 {
			k := d.E[i].K
			d.E[i].K, d.E[i+1].K = k[:len(k)-1], k[len(k)-1:]+d.E[i+1].K
		} else {
			d.Append("new", fresh())
		}
	}
	return out
}

func f03Follow(c *C) {
	var k collectorKind
	for !k.dynamic {
		k = mon.Pick(c.R, kinds)
	}
	base := newSchema(c.R, schemaOpts{unique: c.R.Bool()})
	all := []*schema{base}
	for range c.R.Range(1, 4) {
		all = append(all, mon.Pick(c.R, all).vary())
	}
	limit := maxSamples(c.R)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	w := &recordWriter{}
	col := k.make(ctx, limit, w)
	c.Event("collector:" + k.name)
	if c.R.Chance(4) {
		forget(c, col, k, limit)
	}
	var samples []*Doc
	var want []int
	prev := ""
	cur := mon.Pick(c.R, all)
	for range c.R.Range(2, 50) {
		if c.R.Chance(3) {
			cur = mon.Pick(c.R, all)
		}
		d := cur.sample()
		add(c, col, d, k.name)
		samples = append(samples, d)
		sh := shapeOf(recordedShape(d))
		if len(want) == 0 || sh != prev || want[len(want)-1] == limit {
			if sh != prev {
				c.Event("schema changes")
			}
			want, prev = append(want, 0), sh
		}
		want[len(want)-1]++
		c.State(k.name, sh)
	}
	data := output(c, col, k, w)
	got, err := readStructured(c, data)
	if err != nil {
		c.Failf("read", "%s: reading: %v", k.name, err)
	}
	sameSamples(c, k.name, got, samples)
	checkSizes(c, k.name, decodeFTDC(c, k.name, data), want)
}

func f03Refuse(c *C) {
	var k collectorKind
	for k.make == nil || k.dynamic || k.buffered {
		k = mon.Pick(c.R, kinds)
	}
	base := newSchema(c.R, schemaOpts{unique: c.R.Bool()})
	limit := c.R.Range(3, 40)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	w := &recordWriter{}
	col := k.make(ctx, limit, w)
	c.Event("collector:" + k.name)
	if c.R.Chance(4) {
		forget(c, col, k, limit)
	}
	var samples []*Doc
	want := []int{}
	n := 0
	for range c.R.Range(2, 60) {
		if k.limit && n == limit+k.extra {
			break
		}
		cur := base
		if c.R.Chance(3) && n > 0 && n%limit != 0 {
			for range c.R.Range(1, 3) {
				cur = cur.vary()
			}
		}
		d := cur.sample()
		if n > 0 && cur != base {
			if typesOf(d) == typesOf(samples[0]) {
				continue // only the names differ
			}
			in, reuse := sampleInput(c.R, d)
			before := col.Info()
			if err := col.Add(in); err == nil {
				c.Note("first", "%s", hexs(samples[0].Encode()))
				c.Note("refused", "%s", hexs(d.Encode()))
				c.Failf("accepted", "%s: a sample with other metrics (%x instead of %x) was accepted", k.name, typesOf(d), typesOf(samples[0]))
			}
			reuse()
			if after := col.Info(); after != before {
				c.Failf("info", "%s: refusing a sample changed the counts from %v to %v", k.name, before, after)
			}
			c.Event("refused")
			c.State(k.name, shapeOf(base.doc), shapeOf(cur.doc))
			continue
		}
		add(c, col, d, k.name)
		samples = append(samples, d)
		if len(want) == 0 || !k.limit && want[len(want)-1] == limit {
			want = append(want, 0)
		}
		want[len(want)-1]++
		n++
	}
	data := output(c, col, k, w)
	got, err := readStructured(c, data)
	if err != nil {
		c.Failf("read", "%s: reading: %v", k.name, err)
	}
	sameSamples(c, k.name, got, samples)
	checkSizes(c, k.name, decodeFTDC(c, k.name, data), want)
}

// ---- histories

type mchunk struct {
	meta    []byte // nil when there's none
	samples []*Doc
}

// collModel is what a collector does.
type collModel struct {
	k       collectorKind
	limit   int
	meta    []byte
	chunks  []mchunk // in memory
	written []mchunk
	n       int // samples since the last flush, of streaming collectors
}

func (m *collModel) last() *mchunk {
	if len(m.chunks) == 0 {
		m.chunks = []mchunk{{meta: m.meta}}
	}
	return &m.chunks[len(m.chunks)-1]
}

func (m *collModel) count() (samples int) {
	for _, ch := range m.chunks {
		samples += len(ch.samples)
	}
	return samples
}

func (m *collModel) metrics() (n int) {
	for _, ch := range m.chunks {
		if len(ch.samples) > 0 {
			n += metricsOf(ch.samples[0])
		}
	}
	return n
}

// flush writes what there is.
func (m *collModel) flush() {
	if m.count() == 0 {
		return
	}
	m.written = append(m.written, m.resolved()...)
	m.reset()
}

func (m *collModel) resolved() []mchunk {
	out := append([]mchunk{}, m.chunks...)
	if !m.k.batch {
		out[0].meta = m.meta
	} else {
		out[0].meta = m.meta
		for i := range out[1:] {
			out[1+i].meta = nil
		}
	}
	return out
}

func (m *collModel) reset() {
	m.chunks = nil
	if m.k.batch {
		m.meta = nil
	}
}

// add is whether the sample is taken.
func (m *collModel) add(d *Doc) bool {
	if m.k.stream && m.count() >= m.limit {
		m.flush()
	}
	ch := m.last()
	if m.k.dynamic && len(ch.samples) > 0 && shapeOf(recordedShape(ch.samples[0])) != shapeOf(recordedShape(d)) {
		if m.k.stream {
			m.flush()
			ch = m.last()
		} else {
			m.chunks = append(m.chunks, mchunk{})
			ch = m.last()
		}
	}
	if m.k.batch && len(ch.samples) == m.limit {
		m.chunks = append(m.chunks, mchunk{})
		ch = m.last()
	}
	if m.k.limit && len(ch.samples) >= m.limit+m.k.extra {
		return false
	}
	if len(ch.samples) > 0 && typesOf(ch.samples[0]) != typesOf(d) {
		return false
	}
	ch.samples = append(ch.samples, d)
	return true
}

type failingMarshaler struct{}

func (failingMarshaler) MarshalBSON() ([]byte, error) { return nil, errors.New("no") }

type failingDocMarshaler struct{}

func (failingDocMarshaler) MarshalDocument() (*birch.Document, error) { return nil, errors.New("no") }
func (failingDocMarshaler) UnmarshalDocument(*birch.Document) error   { return errors.New("no") }

// invalidSample is a document that has no encoding, in one of the forms that
// collectors take. It has as many fields as it may: refusing it must not set
// the schema.
func invalidSample(c *C) any {
	bad := func(v *birch.Value) *birch.Element { return birch.EC.Value("x\x00y", v) }
	d := birch.DC.New()
	for range c.R.IntN(4) {
		d.Append(birch.EC.Int64("a", 1))
	}
	switch c.R.IntN(5) {
	case 0:
		d.Append(birch.EC.SubDocumentFromElements("s", birch.EC.Int64("b", 1), bad(birch.VC.Int64(1))))
	case 1:
		d.Append(birch.EC.SubDocumentFromReader("s", birch.Reader{12, 0, 0, 0, 1, 'a', 0, 1, 0, 0, 0, 0}))
	case 2:
		d.Append(birch.EC.Array("s", birch.NewArray(birch.VC.DocumentFromElements(bad(birch.VC.Double(1))))))
	case 3:
		return map[string]int64{"a": 1, "b\x00c": 2}
	default:
		d.Append(bad(birch.VC.Int64(1)))
	}
	for range c.R.IntN(4) {
		d.Append(birch.EC.Int64("a", 1))
	}
	if c.R.Chance(4) {
		return docMarshaler{d}
	}
	return d
}

func badInput(c *C) any {
	valid := (&Doc{}).Append("a", &Val{T: ref.Int64, I: 1}).Append("b", &Val{T: ref.String, S: "xyz"}).Encode()
	switch c.R.IntN(15) {
	case 10, 11, 12, 13:
		return invalidSample(c)
	case 14:
		return (*birch.Document)(nil)
	case 7:
		return struct{ A int }{1} // which the global marshaler refuses
	case 8:
		return map[string]struct{}{"a": {}}
	case 9:
		return &foreignSample{valid[:c.R.IntN(len(valid))]}
	case 0:
		return nil
	case 1:
		return map[string]string{"a": "b"}
	case 2:
		return failingMarshaler{}
	case 3:
		return failingDocMarshaler{}
	case 4:
		return valid[:c.R.IntN(len(valid))]
	case 5:
		valid[4] = 0x7e // no such type
		return bsonBytes(valid)
	default:
		return []byte{}
	}
}

func checkChunks(c *C, what string, data []byte, want []mchunk) {
	chunks := decodeFTDC(c, what, data)
	if len(chunks) != len(want) {
		c.Failf("chunks", "%s: %d chunks, expected %d", what, len(chunks), len(want))
	}
	for i, w := range want {
		g := chunks[i]
		if g.HasMeta != (w.meta != nil) || !bytes.Equal(g.Meta, w.meta) {
			c.Failf("metadata", "%s: the metadata of chunk %d of %d is %x (%v), expected %x", what, i, len(want), g.Meta, g.HasMeta, w.meta)
		}
		if len(g.Samples) != len(w.samples) {
			c.Failf("chunks", "%s: chunk %d of %d has %d samples, expected %d", what, i, len(want), len(g.Samples), len(w.samples))
		}
		for j := range w.samples {
			sameSample(c, fmt.Sprintf("%s: sample %d of chunk %d", what, j, i), g.Samples[j].Encode(), w.samples[j])
		}
	}
	// what the reader says about the metadata
	got, err := readChunksOf(c, data)
	if err != nil {
		c.Failf("read", "%s: %v", what, err)
	}
	var meta []byte
	for i, w := range want {
		if w.meta != nil {
			meta = w.meta
		}
		if !bytes.Equal(got[i].meta, meta) {
			c.Failf("metadata", "%s: the reader has the metadata %x for chunk %d, expected %x", what, got[i].meta, i, meta)
		}
	}
	if len(want) > 0 {
		how := mon.Pick(c.R, []string{"metrics", "metrics", "structured", "structured", "matrix", "series"})
		it := map[string]func(io.Reader) *ftdc.Iterator[*birch.Document]{
			"metrics": ftdc.ReadMetrics, "structured": ftdc.ReadStructuredMetrics, "matrix": ftdc.ReadMatrix, "series": ftdc.ReadSeries,
		}[how](bytes.NewReader(data))
		for range it.Iterator() { //nolint:revive
		}
		if m := metadataOf(c, it.Metadata()); !bytes.Equal(m, meta) {
			c.Failf("metadata", "%s: the %s iterator has the metadata %x, expected %x", what, how, m, meta)
		}
	}
}

func f04History(c *C) { f04Run(c, c.R.Range(1, 12), c.R.Range(5, 60), false) }

// f04Long has chunks of hundreds of samples, and hundreds of chunks.
func f04Long(c *C) {
	limit := mon.Pick(c.R, []int{1, 2, 100, 127, 128, 200, 255, 256, 257, 300, 500})
	f04Run(c, limit, c.R.Range(300, 1500), true)
}

func f04Run(c *C, limit, n int, long bool) {
	k := mon.Pick(c.R, kinds)
	base := newSchema(c.R, schemaOpts{elems: c.R.Range(1, 5)})
	all := []*schema{base}
	if k.dynamic || !k.buffered {
		for range c.R.IntN(4) {
			all = append(all, mon.Pick(c.R, all).vary())
		}
	}
	g := ref.NewGen(c.R)
	g.Budget, g.Depth = 60, 2
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	w := &recordWriter{}
	col := k.make(ctx, limit, w)
	m := &collModel{k: k, limit: limit}
	var ops strings.Builder
	fmt.Fprintf(&ops, "%s %d:", k.name, limit)
	var results []kept
	cur := base
	names := map[string]bool{}
	for range n {
		op := c.R.IntN(24)
		if long && op >= 13 && !c.R.Chance(30) {
			op = 0
		}
		switch {
		case op < 13: // add
			if c.R.Chance(4) && (!long || c.R.Chance(50)) {
				cur = mon.Pick(c.R, all)
			}
			d := cur.sample()
			// the collectors of one schema don't compare names
			if !k.dynamic && m.count() > 0 && typesOf(m.last().samplesOr(d)) == typesOf(d) && shapeOf(recordedShape(m.last().samplesOr(d))) != shapeOf(recordedShape(d)) {
				continue
			}
			if k.buffered && (!k.dynamic && m.count() > 0 && typesOf(m.last().samplesOr(d)) != typesOf(d) || k.limit && m.count() >= limit+k.extra) {
				continue // the error would be reported later
			}
			in, reuse := sampleInput(c.R, d)
			ok := m.add(d)
			fmt.Fprintf(&ops, " add(%x)=%v", typesOf(d), ok)
			if !long {
				c.Note("ops", "%s", ops.String())
			}
			if err := col.Add(in); (err == nil) != ok {
				c.Failf("add", "%s: adding a sample: %v, expected success: %v", k.name, err, ok)
			}
			if !ok {
				c.Event("refused")
			}
			reuse()
			names["add"] = true
		case op < 15: // bad add
			in := badInput(c)
			fmt.Fprintf(&ops, " bad(%T)", in)
			c.Note("ops", "%s", ops.String())
			before, writes := m.count(), w.count()
			if err := col.Add(in); err == nil {
				c.Failf("add", "%s: adding %T %v gave no error", k.name, in, in)
			}
			// a full streaming collector may have flushed first
			if k.stream && !k.buffered && before >= limit && w.count() > writes {
				m.flush()
			}
			c.Event("bad samples")
		case op < 17: // metadata
			d := g.Doc()
			g.Budget = 60
			raw := d.Encode()
			var in any = raw
			reuse := func() { wipe(c.R, raw) }
			switch c.R.IntN(4) {
			case 0:
				in, d = nil, nil
			case 1:
				doc := (&builder{r: c.R, live: true}).doc(d)
				in, reuse = doc, func() { edit(c.R, doc) }
			case 2:
				if c.R.Bool() {
					in = badInput(c)
					if d, ok := in.(*birch.Document); in == nil || ok && d == nil {
						in = []byte{1}
					}
					if err := col.SetMetadata(in); err == nil {
						c.Failf("metadata", "%s: setting the metadata to %T %v gave no error", k.name, in, in)
					}
					c.Event("bad metadata")
					fmt.Fprintf(&ops, " badmeta")
					continue
				}
			}
			if err := col.SetMetadata(in); err != nil {
				c.Failf("metadata", "%s: setting the metadata: %v", k.name, err)
			}
			reuse()
			m.meta = nil
			if d != nil {
				m.meta = d.Encode()
			}
			fmt.Fprintf(&ops, " meta(%v)", d != nil)
			c.Event("metadata set")
		case op < 19: // counts
			fmt.Fprintf(&ops, " info")
			c.Note("ops", "%s", ops.String())
			info := col.Info()
			if info.SampleCount != m.count() || info.MetricsCount != m.metrics() {
				c.Failf("info", "%s: Info says %d samples and %d metrics, expected %d and %d", k.name, info.SampleCount, info.MetricsCount, m.count(), m.metrics())
			}
		case op < 21: // resolve
			fmt.Fprintf(&ops, " resolve")
			c.Note("ops", "%s", ops.String())
			out, err := col.Resolve()
			if m.count() == 0 {
				if err == nil {
					c.Failf("resolve", "%s: resolving an empty collector gave %d bytes and no error", k.name, len(out))
				}
				continue
			}
			if err != nil {
				c.Failf("resolve", "%s: resolving: %v", k.name, err)
			}
			checkChunks(c, k.name+": Resolve", out, m.resolved())
			if c.R.Bool() {
				for i := range out {
					out[i] ^= 0xff
				}
				again, err := col.Resolve()
				if err != nil {
					c.Failf("resolve", "%s: resolving again: %v", k.name, err)
				}
				checkChunks(c, k.name+": Resolve again", again, m.resolved())
				out = again
			}
			results = append(results, keep("Resolve", out))
			names["resolve"] = true
		case op < 22: // reset
			fmt.Fprintf(&ops, " reset")
			col.Reset()
			m.reset()
			names["reset"] = true
		default: // flush
			fmt.Fprintf(&ops, " flush")
			c.Note("ops", "%s", ops.String())
			if err := ftdc.FlushCollector(col, w); err != nil {
				c.Failf("flush", "%s: flushing: %v", k.name, err)
			}
			m.flush()
			names["flush"] = true
		}
		if !k.buffered || c.R.Chance(5) {
			if k.buffered {
				_ = col.Info() // waits for the buffer
			}
			if n := w.count(); n > 0 != (len(m.written) > 0) {
				c.Failf("flush", "%s: there were %d writes, when %d chunks are expected", k.name, n, len(m.written))
			}
		}
	}
	c.State(ops.String())
	c.Sample("%s", ops.String())
	for n := range names {
		c.Event("history with " + n)
	}
	if err := ftdc.FlushCollector(col, w); err != nil {
		c.Failf("flush", "%s: flushing: %v", k.name, err)
	}
	m.flush()
	checkChunks(c, k.name+": everything written", w.bytes(), m.written)
	for i := range results {
		results[i].check(c)
	}
}

func (ch *mchunk) samplesOr(d *Doc) *Doc {
	if len(ch.samples) > 0 {
		return ch.samples[0]
	}
	return d
}

func (w *recordWriter) count() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.writes)
}

// ---- writer faults

type faultyWriter struct {
	recordWriter
	plan     []int // 0 works, 1 fails, 2 writes some and fails, 3 writes less and says so
	closeErr error
	faults   int
}

var errFault = errors.New("injected fault")

func (w *faultyWriter) Write(b []byte) (int, error) {
	p := 0
	if len(w.plan) > 0 {
		p, w.plan = w.plan[0], w.plan[1:]
	}
	switch p {
	case 1:
		w.faults++
		return 0, errFault
	case 2:
		w.faults++
		return len(b) / 2, errFault
	case 3:
		if len(b) > 0 {
			w.faults++
			return len(b) - 1, nil
		}
	}
	return w.recordWriter.Write(b)
}

func (w *faultyWriter) Close() error {
	if err := w.closeErr; err != nil {
		w.closeErr = nil
		return err
	}
	return w.recordWriter.Close()
}

func f05Faults(c *C) { f05Run(c, c.R.Range(1, 8), c.R.Range(3, 30), c.R.Range(5, 80)) }

func f05Many(c *C) {
	limit := mon.Pick(c.R, []int{1, 2, 10, 100, 128, 255, 256, 257, 400})
	n := c.R.Range(500, 2000)
	f05Run(c, limit, c.R.Range(1, n/limit+2), n)
}

func f05Run(c *C, limit, plans, n int) {
	w := &faultyWriter{}
	var col ftdc.Collector
	var wc io.WriteCloser
	var name string
	switch c.R.IntN(6) {
	case 0:
		name, col = "streaming", ftdc.NewStreamingCollector(limit, w)
	case 1:
		name, col = "streaming-dynamic", ftdc.NewStreamingDynamicCollector(limit, w)
	case 2:
		name, col = "synchronized(streaming-dynamic)", ftdc.NewSynchronizedCollector(ftdc.NewStreamingDynamicCollector(limit, w))
	case 3:
		name, col = "batch", ftdc.NewBatchCollector(limit)
	case 4:
		name, col = "dynamic", ftdc.NewDynamicCollector(limit)
	default:
		name, wc = "writer", ftdc.NewWriterCollector(limit, w)
	}
	dynamic := strings.Contains(name, "dynamic") || name == "writer"
	all := []*schema{newSchema(c.R, schemaOpts{elems: c.R.Range(1, 4)})}
	if dynamic && c.R.Bool() {
		all = append(all, all[0].vary())
	}
	for range plans {
		if c.R.Chance(3) {
			w.plan = append(w.plan, c.R.Range(1, 3))
		} else {
			w.plan = append(w.plan, 0)
		}
	}
	plan := fmt.Sprint(w.plan)
	c.Note("plan", "%s of %d: %s", name, limit, plan)
	add := func(d *Doc) error {
		if wc != nil {
			_, err := wc.Write(d.Encode())
			return err
		}
		return col.Add(d.Encode())
	}
	flush := func() error { return ftdc.FlushCollector(col, w) }
	var acked []*Doc
	var lost int
	cur := all[0]
	for range n {
		if n < 100 || c.R.Chance(50) {
			cur = mon.Pick(c.R, all)
		}
		d := cur.sample()
		before := w.faults
		err := add(d)
		switch {
		case err == nil && w.faults == before:
			acked = append(acked, d)
		case err == nil:
			c.Failf("swallowed", "%s: a write failed while adding a sample, and there was no error", name)
		case w.faults == before:
			c.Failf("add", "%s: adding a sample failed without a fault: %v", name, err)
		default:
			lost++
			c.Event("adds failed by faults")
			if c.R.Bool() { // try again
				if err := add(d); err == nil {
					acked = append(acked, d)
					c.Event("adds retried")
				}
			}
		}
		if wc == nil && c.R.Chance(max(10, n/4)) {
			before := w.faults
			if err := flush(); (err != nil) != (w.faults > before) {
				c.Failf("flush", "%s: flushing with %d faults: %v", name, w.faults-before, err)
			}
		}
	}
	end := flush
	if wc != nil {
		if c.R.Chance(4) {
			w.closeErr = errFault
		}
		end = wc.Close
	}
	for i := 0; ; i++ {
		before, cerr := w.faults, w.closeErr
		err := end()
		failed := w.faults > before || cerr != nil && w.closeErr == nil
		if (err != nil) != failed {
			c.Failf("flush", "%s: the last flush or Close: %v, with faults: %v", name, err, failed)
		}
		if err == nil {
			break
		}
		c.Event("final flushes failed by faults")
		if i > 100 {
			c.Failf("flush", "%s: flushing never succeeds: %v", name, err)
		}
	}
	if wc != nil && w.closed != 1 {
		c.Failf("close", "%s: the underlying writer was closed %d times", name, w.closed)
	}
	c.EventN("faults", w.faults)
	c.State(name, limit, plan, len(acked))
	data := w.bytes()
	if len(acked) == 0 {
		if len(data) > 0 {
			c.Failf("samples", "%s: %d bytes were written without samples", name, len(data))
		}
		return
	}
	got, err := readStructured(c, data)
	if err != nil {
		c.Failf("read", "%s: reading: %v", name, err)
	}
	sameSamples(c, name+" (acknowledged)", got, acked)
	decodeFTDC(c, name, data)
}

// f04Sampling: the sampling collector takes a sample when the interval has
// passed since the last one it took, and skips the others.
func f04Sampling(c *C) {
	interval := time.Duration(c.R.Range(1, 20)) * time.Millisecond
	if c.R.Chance(4) {
		interval = time.Hour
	}
	col := ftdc.NewSamplingCollector(interval, ftdc.NewBatchCollector(100))
	var taken []*Doc
	var before, after time.Time // the last taken one
	for i := range 40 {
		if c.R.Chance(6) {
			// whether it is skipped or refused, it isn't taken, and the
			// interval goes on.
			if err := col.Add(badInput(c)); err != nil {
				c.Event("sampling: refused")
			}
			if n := col.Info().SampleCount; n != len(taken) {
				c.Failf("sampling", "%d samples after %d were taken and another was refused", n, len(taken))
			}
		}
		d := labelled(0, i, 0)
		b := time.Now()
		if err := col.Add(d.Encode()); err != nil {
			c.Failf("add", "%v", err)
		}
		a := time.Now()
		n := col.Info().SampleCount
		if n < len(taken) || n > len(taken)+1 {
			c.Failf("sampling", "%d samples after %d were taken", n, len(taken))
		}
		took := n > len(taken)
		switch {
		case len(taken) == 0 && !took:
			c.Failf("sampling", "the first sample wasn't taken")
		case len(taken) > 0 && took && a.Sub(before) < interval:
			c.Failf("sampling", "a sample was taken at most %v after the last one, with an interval of %v", a.Sub(before), interval)
		case len(taken) > 0 && !took && b.Sub(after) > interval:
			c.Failf("sampling", "a sample wasn't taken at least %v after the last one, with an interval of %v", b.Sub(after), interval)
		}
		if took {
			taken = append(taken, d)
			before, after = b, a
			c.Event("sampling: taken")
		} else {
			c.Event("sampling: skipped")
		}
		if c.R.Bool() {
			time.Sleep(time.Duration(c.R.IntN(4000)) * time.Microsecond)
		}
	}
	out, err := col.Resolve()
	if err != nil {
		c.Failf("resolve", "%v", err)
	}
	got, err := readStructured(c, out)
	if err != nil {
		c.Failf("read", "%v", err)
	}
	sameSamples(c, "sampling", got, taken)
	c.State(interval, len(taken))
}
