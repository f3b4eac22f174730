package main

import (
	"bytes"
	"encoding/binary"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"iter"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/util"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	mon.Register(&mon.Property{
		ID:   "F06",
		Rule: "valid streams are cut at every kind of place, damaged in the compressed data or in what it holds, and read from failing readers, by every reader; what is read is compared to the samples before the damage, and damage must be reported; a case is non-trivial when the stream or the damage is new",
		Assumptions: []string{
			"data that declares more samples than it has bytes (runs of zeroes) takes memory in proportion to what it declares",
			"a document whose type says that it isn't metrics is skipped, so damage to the type itself can't be told",
		},
		Workloads: []mon.Workload{
			{Name: "truncated", Quick: 2500, Thorough: 80000, Run: f06Truncated},
			{Name: "damaged", Quick: 3500, Thorough: 120000, Run: f06Damaged},
			{Name: "inconsistent", Quick: 4000, Thorough: 120000, Run: f06Inconsistent},
			{Name: "failing-readers", Quick: 2000, Thorough: 60000, Run: f06Failing},
			{Name: "hostile", Quick: 6000, Thorough: 300000, Run: f06Hostile},
			{Name: "abandoned", Quick: 150, Thorough: 4000, Serial: true, Run: f06Abandoned},
		},
	})
	mon.Register(&mon.Property{
		ID:   "F09",
		Rule: "streams are read in every way there is, and all the views are compared to what the samples say they are; a case is non-trivial when the shape is new",
		Workloads: []mon.Workload{
			{Name: "views", Quick: 5000, Thorough: 150000, Run: f09Views},
			{Name: "ownership", Quick: 1500, Thorough: 50000, Run: f09Ownership},
			{Name: "series-faults", Quick: 800, Thorough: 20000, Run: f09SeriesFaults},
		},
	})
	mon.Register(&mon.Property{
		ID:   "F11",
		Rule: "chunks are exported as CSV and parsed by the standard library's CSV reader, and CSV of other programs is converted, and the values are compared; a case is non-trivial when the shape is new",
		Assumptions: []string{
			"keys aren't empty and have no carriage returns, which CSV can't represent; dates are in the years 1 to 9999",
		},
		Workloads: []mon.Workload{
			{Name: "write", Quick: 3000, Thorough: 100000, Run: f11Write},
			{Name: "dump", Quick: 400, Thorough: 10000, Run: f11Dump},
			{Name: "convert", Quick: 3000, Thorough: 100000, Run: f11Convert},
			{Name: "round-trip", Quick: 1500, Thorough: 50000, Run: f11RoundTrip},
			{Name: "faults", Quick: 1000, Thorough: 30000, Run: f11Faults},
			{Name: "large", Quick: 40, Thorough: 1500, Run: f11Large},
		},
	})
	util.RegisterGlobalMarshaler(marshalSeries)
}

// the marshaler fails, or gives what isn't BSON, for series with these keys.
const (
	badSeriesKey     = "a series that fails"
	garbageSeriesKey = "a series of garbage"
)

var errBadSeries = errors.New("injected marshaler failure")

// marshalSeries is the marshaler that the series need.
func marshalSeries(in any) ([]byte, error) {
	if f, ok := in.(*foreignSample); ok {
		return f.raw, nil
	}
	m, ok := in.(map[string]any)
	if !ok {
		return nil, fmt.Errorf("can't marshal %T", in)
	}
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if _, ok := m[badSeriesKey]; ok {
		return nil, errBadSeries
	}
	if _, ok := m[garbageSeriesKey]; ok {
		return []byte{9, 0, 0, 0, 1, 'a', 0, 1, 0}, nil
	}
	d := &Doc{}
	for _, k := range keys {
		a := &Doc{}
		app := func(v *Val) { a.Append(strconv.Itoa(len(a.E)), v) }
		switch s := m[k].(type) {
		case []int64:
			for _, x := range s {
				app(&Val{T: ref.Int64, I: x})
			}
		case []int32:
			for _, x := range s {
				app(&Val{T: ref.Int32, I: int64(x)})
			}
		case []bool:
			for _, x := range s {
				v := &Val{T: ref.Boolean}
				if x {
					v.I = 1
				}
				app(v)
			}
		case []float64:
			for _, x := range s {
				app(&Val{T: ref.Double, F: x})
			}
		case []time.Time:
			for _, x := range s {
				app(&Val{T: ref.DateTime, I: x.UnixMilli()})
			}
		default:
			return nil, fmt.Errorf("can't marshal %T", s)
		}
		d.Append(k, &Val{T: ref.Array, D: a})
	}
	return d.Encode(), nil
}

// ---- streams

type stream struct {
	data   []byte
	ends   []int    // of the documents
	chunks [][]*Doc // of each of them, nil for others
}

func (s *stream) samples(docs int) []*Doc {
	var out []*Doc
	for _, ch := range s.chunks[:docs] {
		out = append(out, ch...)
	}
	return out
}

func (s *stream) add(doc []byte, samples []*Doc) {
	s.data = append(s.data, doc...)
	s.ends = append(s.ends, len(s.data))
	s.chunks = append(s.chunks, samples)
}

func newStream(c *C, o schemaOpts) *stream {
	s := &stream{}
	chunks, most := c.R.Range(1, 4), 20
	if o.elems == 0 && c.R.Chance(150) {
		o.elems, chunks, most = c.R.Range(1, 3), 1, 2600
		c.Event("long chunks")
	}
	for range chunks {
		if c.R.Chance(4) {
			g := ref.NewGen(c.R)
			g.Budget, g.Depth = 80, 2
			d := (&Doc{}).Append("_id", &Val{T: ref.DateTime, I: 1}).Append("type", &Val{T: ref.Int32, I: 0}).Append("doc", &Val{T: ref.Document, D: g.Doc()})
			s.add(d.Encode(), nil)
		}
		sc := newSchema(c.R, o)
		for metricsOf(sc.doc) == 0 && !c.R.Chance(8) {
			sc = newSchema(c.R, o)
		}
		var samples []*Doc
		for range c.R.Range(1, most) {
			samples = append(samples, sc.sample())
		}
		var one []byte
		if c.R.Bool() {
			one = ref.FTDCEncode(0, &Val{T: ref.Int32, I: 1}, samples)
		} else {
			col := ftdc.NewBaseCollector(len(samples))
			for _, d := range samples {
				if err := col.Add(d.Encode()); err != nil {
					c.Failf("add", "%v", err)
				}
			}
			var err error
			if one, err = col.Resolve(); err != nil {
				c.Failf("resolve", "%v", err)
			}
		}
		s.add(one, samples)
	}
	c.StateBytes(s.data)
	return s
}

// readers are all the ways to read a stream, giving the samples of each, the
// errors, and how many chunks or samples there were.
var readerNames = []string{"structured", "flattened", "chunks", "matrix", "series"}

func readAs(c *C, how string, r io.Reader) (out [][]byte, err error) {
	k := &comparer{c: c}
	docs := func(it *ftdc.Iterator[*birch.Document]) ([][]byte, error) {
		var out [][]byte
		for d := range it.Iterator() {
			out = append(out, k.sampleBytes(how, d))
		}
		return out, it.Close()
	}
	switch how {
	case "structured":
		return docs(ftdc.ReadStructuredMetrics(r))
	case "flattened":
		return docs(ftdc.ReadMetrics(r))
	case "matrix":
		return docs(ftdc.ReadMatrix(r))
	case "series":
		return docs(ftdc.ReadSeries(r))
	default:
		it := ftdc.ReadChunks(r)
		for ch := range it.Iterator() {
			for d := range ch.StructuredIterator().Iterator() {
				out = append(out, k.sampleBytes(how, d))
			}
			if len(ch.Metrics) > 0 {
				for _, m := range ch.Metrics {
					if len(m.Values) != ch.Size() {
						c.Failf("size", "a metric of a chunk of %d samples has %d values", ch.Size(), len(m.Values))
					}
				}
			}
		}
		return out, it.Close()
	}
}

// expectAs is what the reader gives for the chunks.
func expectAs(how string, chunks [][]*Doc) (out [][]byte) {
	for _, ch := range chunks {
		if ch == nil {
			continue
		}
		switch how {
		case "structured", "chunks":
			for _, d := range ch {
				out = append(out, recorded(d, false).Encode())
			}
		case "flattened":
			for _, d := range ch {
				out = append(out, flatDoc(d).Encode())
			}
		case "matrix":
			out = append(out, matrixOf(ch).Encode())
		case "series":
			out = append(out, seriesOf(ch).Encode())
		}
	}
	return out
}

func matrixOf(ch []*Doc) *Doc {
	out := &Doc{}
	var all [][]metric
	for _, d := range ch {
		all = append(all, flatten(d, nil))
	}
	for i, m := range all[0] {
		if m.inc {
			continue
		}
		a := &Doc{}
		for j := range all {
			a.Append(strconv.Itoa(j), all[j][i].orig)
		}
		out.Append(m.path(), &Val{T: ref.Array, D: a})
	}
	return out
}

func seriesOf(ch []*Doc) *Doc {
	out := &Doc{}
	var all [][]metric
	for _, d := range ch {
		all = append(all, flatten(d, nil))
	}
	for i, m := range all[0] {
		a := &Doc{}
		for j := range all {
			a.Append(strconv.Itoa(j), all[j][i].v)
		}
		out.Append(m.path(), &Val{T: ref.Array, D: a})
	}
	sort.SliceStable(out.E, func(i, j int) bool { return out.E[i].K < out.E[j].K })
	return out
}

func sameOutput(c *C, what string, got, want [][]byte) {
	if len(got) != len(want) {
		c.Failf("samples", "%s: %d documents, expected %d", what, len(got), len(want))
	}
	for i := range want {
		if !bytes.Equal(got[i], want[i]) {
			c.Note("want", "%s", hexs(want[i]))
			c.Note("got", "%s", hexs(got[i]))
			c.Failf("sample", "%s: document %d of %d differs: %s", what, i, len(want), diffAt(got[i], want[i]))
		}
	}
	c.EventN("documents", len(want))
}

var plainKeys = schemaOpts{unique: true}

// sourceOf is a reader of the data, that fails at the end with the error.
func sourceOf(c *C, data []byte, err error) io.Reader {
	if err == io.EOF && c.R.Bool() {
		return bytes.NewReader(clone(data))
	}
	return &chunkReader{r: fork(c), data: clone(data), err: err}
}

func f06Truncated(c *C) {
	s := newStream(c, plainKeys)
	for range 6 {
		how := mon.Pick(c.R, readerNames)
		cut := c.R.IntN(len(s.data) + 1)
		switch c.R.IntN(6) {
		case 0:
			cut = mon.Pick(c.R, s.ends)
		case 1:
			cut = mon.Pick(c.R, s.ends) - 1
		case 2:
			cut = min(len(s.data), mon.Pick(c.R, s.ends)+c.R.Range(1, 4))
		}
		whole, clean := 0, cut == 0
		for i, e := range s.ends {
			if e <= cut {
				whole = i + 1
				clean = e == cut
			}
		}
		what := fmt.Sprintf("%s reader, %d of %d bytes", how, cut, len(s.data))
		got, err := readAs(c, how, sourceOf(c, s.data[:cut], io.EOF))
		if clean && err != nil {
			c.Failf("error", "%s, which ends with a document: %v", what, err)
		}
		if !clean && err == nil {
			c.Failf("no-error", "%s, which ends in the middle of a document: no error", what)
		}
		sameOutput(c, what, got, expectAs(how, s.chunks[:whole]))
		if clean {
			c.Event("cut at the end of a document")
		} else {
			c.Event("cut inside of a document")
		}
	}
}

// payloadAt is where the compressed data of a chunk's document are.
func payloadAt(doc []byte) (int, int) {
	i := bytes.Index(doc, []byte("\x05data\x00"))
	if i < 0 {
		return 0, 0
	}
	n := int(binary.LittleEndian.Uint32(doc[i+6:]))
	return i + 11, i + 11 + n
}

func f06Damaged(c *C) {
	s := newStream(c, plainKeys)
	for range 4 {
		// a chunk
		var i int
		for i = c.R.IntN(len(s.chunks)); s.chunks[i] == nil; i = c.R.IntN(len(s.chunks)) {
		}
		start := 0
		if i > 0 {
			start = s.ends[i-1]
		}
		from, to := payloadAt(s.data[start:s.ends[i]])
		from, to = from+start, to+start
		data := clone(s.data)
		switch c.R.IntN(4) {
		case 0:
			data[from+c.R.IntN(to-from)] ^= 1 << c.R.IntN(8)
		case 1:
			data[from+c.R.IntN(to-from)] = byte(c.R.Uint64())
		case 2: // several
			for range c.R.Range(2, 6) {
				data[from+c.R.IntN(to-from)] = byte(c.R.Uint64())
			}
		case 3: // a block
			n := min(to-from, c.R.Range(1, 64))
			at := from + c.R.IntN(to-from-n+1)
			for j := range data[at : at+n] {
				data[at+j] = 0
			}
		}
		if bytes.Equal(data, s.data) {
			continue
		}
		how := mon.Pick(c.R, readerNames)
		what := fmt.Sprintf("%s reader, damaged data in document %d of %d", how, i, len(s.ends))
		got, err := readAs(c, how, sourceOf(c, data, io.EOF))
		// damage that the compression doesn't notice does no harm
		if err == nil {
			c.Event("harmless damage")
			sameOutput(c, what+" (no error)", got, expectAs(how, s.chunks))
			continue
		}
		c.Event("damage reported")
		sameOutput(c, what, got, expectAs(how, s.chunks[:i]))
	}
}

// f06Inconsistent: well-formed documents and compression, and wrong contents.
func f06Inconsistent(c *C) {
	s := newStream(c, plainKeys)
	before := len(s.chunks)
	var sc *schema
	for sc = newSchema(c.R, plainKeys); metricsOf(sc.doc) == 0; sc = newSchema(c.R, plainKeys) {
	}
	n := c.R.Range(2, 12)
	var samples []*Doc
	for range n {
		samples = append(samples, sc.sample())
	}
	lastRun := c.R.Chance(10)
	if lastRun {
		// the numbers end with a run of zeroes
		samples = samples[:0]
		for i := range n {
			d := &Doc{}
			for k := range 1 + n%3 {
				d.Append(fmt.Sprint("k", k), &Val{T: ref.Int64, I: int64(i * (k + 1))})
			}
			samples = append(samples, d)
		}
		zeroes := c.R.Range(1, n-1)
		last := len(samples[0].E) - 1
		for i := n - zeroes; i < n; i++ {
			samples[i].E[last].V.I = samples[n-zeroes-1].E[last].V.I
		}
	}
	good, err := ref.Decode(ref.FTDCEncode(0, &Val{T: ref.Int32, I: 1}, samples))
	if err != nil {
		panic(err)
	}
	typ := good.E[1].V
	raw := inflate(good.E[2].V.B)
	rl := int(binary.LittleEndian.Uint32(raw))
	metrics, deltas := binary.LittleEndian.Uint32(raw[rl:]), binary.LittleEndian.Uint32(raw[rl+4:])
	var kind string
	var bad []byte
	kind = mon.Pick(c.R, []string{"fewer metrics", "more metrics", "more samples", "cut numbers", "cut header", "cut reference", "bad reference", "no data", "data of another type", "short data", "not compressed", "long number", "nothing"})
	if lastRun {
		kind = "cut last run"
	}
	switch kind {
	case "cut last run":
		raw = raw[:len(raw)-1]
	case "fewer metrics":
		binary.LittleEndian.PutUint32(raw[rl:], uint32(c.R.IntN(int(metrics))))
	case "more metrics":
		binary.LittleEndian.PutUint32(raw[rl:], metrics+uint32(c.R.Range(1, 5)))
	case "more samples":
		// the numbers run out, unless they end with a run of zeroes that's as long
		binary.LittleEndian.PutUint32(raw[rl+4:], deltas+uint32(c.R.Range(1, 5)))
	case "cut numbers":
		raw = raw[:rl+8+c.R.IntN(len(raw)-rl-8)]
	case "cut header":
		raw = raw[:rl+c.R.IntN(8)]
	case "cut reference":
		raw = raw[:c.R.Range(1, rl-1)]
	case "bad reference":
		raw[rl-1] = 1
	case "nothing":
		raw = nil
	case "long number":
		raw = append(raw[:rl+8:rl+8], bytes.Repeat([]byte{0xff}, 11)...)
	case "no data":
		bad = (&Doc{}).Append("_id", good.E[0].V).Append("type", typ).Encode()
	case "data of another type":
		g := ref.NewGen(c.R)
		g.Budget, g.Depth = 60, 1
		v := g.Val()
		for v.T == ref.Binary {
			v = g.Val()
		}
		bad = (&Doc{}).Append("_id", good.E[0].V).Append("type", typ).Append("data", v).Encode()
	case "short data":
		bad = (&Doc{}).Append("_id", good.E[0].V).Append("type", typ).Append("data", &Val{T: ref.Binary, B: good.E[2].V.B[:c.R.IntN(5)]}).Encode()
	case "not compressed":
		bad = (&Doc{}).Append("_id", good.E[0].V).Append("type", typ).Append("data", &Val{T: ref.Binary, B: append([]byte{byte(len(raw)), 0, 0, 0}, raw...)}).Encode()
	}
	c.Event("inconsistent: " + kind)
	if bad == nil {
		bad = ref.FTDCChunkDoc(0, typ, raw).Encode()
	}
	if ch, err := ref.FTDCDecode(bad); err == nil {
		// it has become another valid chunk
		if len(ch) == 1 {
			return
		}
	} else if strings.Contains(err.Error(), "bytes after") || strings.Contains(err.Error(), "more zeroes") {
		return // this is accepted by readers
	}
	s.add(bad, nil)
	s.add(ref.FTDCEncode(0, typ, samples), samples)
	c.Note("kind", "%s", kind)
	c.Note("bad", "%s", hexs(bad))
	how := mon.Pick(c.R, readerNames)
	what := fmt.Sprintf("%s reader, after a chunk with %s", how, kind)
	got, err := readAs(c, how, sourceOf(c, s.data, io.EOF))
	if err == nil {
		c.Failf("no-error", "%s: no error", what)
	}
	sameOutput(c, what, got, expectAs(how, s.chunks[:before]))
}

var errSource = errors.New("the source failed")

func f06Failing(c *C) {
	s := newStream(c, plainKeys)
	for range 4 {
		how := mon.Pick(c.R, readerNames)
		cut := c.R.IntN(len(s.data) + 1)
		if c.R.Chance(3) {
			cut = mon.Pick(c.R, s.ends)
		}
		whole := 0
		for i, e := range s.ends {
			if e <= cut {
				whole = i + 1
			}
		}
		what := fmt.Sprintf("%s reader, source failing after %d of %d bytes", how, cut, len(s.data))
		got, err := readAs(c, how, sourceOf(c, s.data[:cut], errSource))
		if !errors.Is(err, errSource) {
			c.Failf("no-error", "%s: the error is %v", what, err)
		}
		sameOutput(c, what, got, expectAs(how, s.chunks[:whole]))
	}
	c.Event("failing sources")
}

func inflate(b []byte) []byte {
	out, err := inflateErr(b)
	if err != nil {
		panic(err)
	}
	return out
}

// f06Hostile: anything may be in the data.
func f06Hostile(c *C) {
	s := newStream(c, schemaOpts{})
	data := s.data
	if c.R.Chance(3) {
		data = ref.Mutate(c.R, data)
	} else {
		data = nil
		start := 0
		for i, e := range s.ends {
			doc := s.data[start:e]
			start = e
			if s.chunks[i] == nil || c.R.Chance(4) {
				data = append(data, doc...)
				continue
			}
			from, to := payloadAt(doc)
			raw := inflate(doc[from:to])
			for range c.R.Range(1, 4) {
				raw = ref.Mutate(c.R, raw)
			}
			if len(raw) > 4 {
				// keep the number of samples in bounds.
				if n := binary.LittleEndian.Uint32(raw); int64(n)+8 <= int64(len(raw)) {
					x := raw[n:]
					if binary.LittleEndian.Uint32(x[4:]) > 5000 {
						binary.LittleEndian.PutUint32(x[4:], uint32(c.R.IntN(5000)))
					}
				}
			}
			typ := &Val{T: ref.Int32, I: 1}
			data = append(data, ref.FTDCChunkDoc(0, typ, raw).Encode()...)
		}
	}
	c.Note("stream", "%s", hexs(data))
	how := mon.Pick(c.R, readerNames)
	got, err := readAs(c, how, sourceOf(c, data, io.EOF))
	for _, d := range got {
		if _, err := ref.Decode(d); err != nil {
			c.Failf("marshal", "%s reader gave an invalid document: %v", how, err)
		}
	}
	if err != nil {
		c.Event("hostile: error")
	} else {
		c.Event("hostile: accepted")
	}
	c.StateBytes(data)
}

// f06Abandoned: iterations that stop early leave nothing running.
func f06Abandoned(c *C) {
	s := newStream(c, schemaOpts{unique: true, elems: 3})
	base := runtime.NumGoroutine()
	for range 10 {
		n := c.R.IntN(4)
		stop := func(seq iter.Seq[*birch.Document]) {
			i := 0
			for range seq {
				if i++; i > n {
					return
				}
			}
		}
		src := sourceOf(c, s.data, io.EOF)
		switch c.R.IntN(5) {
		case 0:
			it := ftdc.ReadStructuredMetrics(src)
			stop(it.Iterator())
			_ = it.Close()
		case 1:
			it := ftdc.ReadMetrics(src)
			stop(it.Iterator())
			_ = it.Close()
		case 2:
			it := ftdc.ReadMatrix(src)
			stop(it.Iterator())
			_ = it.Close()
		case 3:
			it := ftdc.ReadSeries(src)
			stop(it.Iterator())
			_ = it.Close()
		default:
			it := ftdc.ReadChunks(src)
			for range it.Iterator() {
				if n--; n <= 0 {
					break
				}
			}
			_ = it.Close()
		}
		c.Event("iterations abandoned")
	}
	deadline := time.Now().Add(10 * time.Second)
	for runtime.NumGoroutine() > base {
		if time.Now().After(deadline) {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			if i := bytes.Index(buf, []byte("ftdc.")); i < 0 {
				return
			}
			c.Note("stacks", "%s", buf)
			c.Failf("leak", "%d goroutines are still running 10 s after abandoned iterations (%d before)", runtime.NumGoroutine(), base)
		}
		time.Sleep(time.Millisecond)
	}
}

// ---- views

// f09SeriesFaults: what the marshaler doesn't take is reported, and the rest
// is given.
func f09SeriesFaults(c *C) {
	s := &stream{}
	bad, failing := 0, 0
	var want [][]*Doc
	for range c.R.Range(1, 6) {
		n := c.R.Range(1, 5)
		key := ""
		if c.R.Chance(3) {
			key = badSeriesKey
			bad++
			failing++
		} else if c.R.Chance(4) {
			key = garbageSeriesKey
			bad++
		}
		var samples []*Doc
		for range n {
			d := &Doc{}
			d.Append("x", &Val{T: ref.Int64, I: ref.Int64v(c.R)})
			if key != "" {
				d.Append(key, &Val{T: ref.Int64, I: 1})
			}
			samples = append(samples, d)
		}
		s.add(ref.FTDCEncode(0, &Val{T: ref.Int32, I: 1}, samples), samples)
		if key == "" {
			want = append(want, samples)
		}
	}
	c.Note("stream", "%s", hexs(s.data))
	c.StateBytes(s.data)
	it := ftdc.ReadSeries(sourceOf(c, s.data, io.EOF))
	var got []*Doc
	for d := range it.Iterator() {
		data, err := d.MarshalBSON()
		if err != nil {
			c.Failf("marshal", "%v", err)
		}
		rd, err := ref.Decode(data)
		if err != nil {
			c.Failf("decode", "%v", err)
		}
		got = append(got, rd)
	}
	err := it.Close()
	if len(got) != len(want) {
		c.Failf("series", "%d series were given of %d chunks, of which %d can't be marshaled", len(got), len(s.chunks), bad)
	}
	for i, samples := range want {
		a := &Doc{}
		for j, sm := range samples {
			a.Append(strconv.Itoa(j), sm.E[0].V)
		}
		w := &Doc{}
		w.Append("x", &Val{T: ref.Array, D: a})
		if !bytes.Equal(w.Encode(), got[i].Encode()) {
			c.Failf("series", "series %d differs: got %x, want %x", i, got[i].Encode(), w.Encode())
		}
	}
	if bad == 0 && err != nil {
		c.Failf("error", "the error is %v", err)
	}
	if bad > 0 && err == nil {
		c.Failf("no-error", "%d of %d series could not be marshaled, and Close gave no error", bad, len(s.chunks))
	}
	if failing > 0 && !errors.Is(err, errBadSeries) {
		c.Failf("no-error", "the marshaler failed with %q, and Close gave %v", errBadSeries, err)
	}
	c.EventN("series that can't be marshaled", bad)
}

func f09Views(c *C) {
	s := newStream(c, schemaOpts{unique: c.R.Bool()})
	c.Note("stream", "%s", hexs(s.data))
	uniq := true
	for _, ch := range s.chunks {
		if ch != nil {
			seen := map[string]bool{}
			for _, m := range flatten(ch[0], nil) {
				uniq = uniq && !seen[m.path()]
				seen[m.path()] = true
			}
		}
	}
	for _, how := range readerNames {
		if how == "series" && !uniq {
			continue
		}
		got, err := readAs(c, how, sourceOf(c, s.data, io.EOF))
		if err != nil {
			c.Failf("read", "%s reader: %v", how, err)
		}
		sameOutput(c, how+" reader", got, expectAs(how, s.chunks))
		c.Event("view:" + how)
	}
	it := ftdc.ReadChunks(sourceOf(c, s.data, io.EOF))
	i := 0
	k := &comparer{c: c}
	var meta []byte
	prev := 0
	for ch := range it.Iterator() {
		for s.chunks[i] == nil {
			d, err := ref.Decode(s.data[prev:s.ends[i]])
			if err != nil {
				panic(err)
			}
			meta = d.E[2].V.D.Encode()
			prev = s.ends[i]
			i++
		}
		want := s.chunks[i]
		prev = s.ends[i]
		i++
		if m := metadataOf(c, ch.Metadata()); !bytes.Equal(m, meta) {
			c.Failf("metadata", "the metadata of a chunk is %x, expected %x", m, meta)
		}
		if ch.Size() != len(want) || ch.Len() != len(flatten(want[0], nil)) || len(ch.Metrics) != ch.Len() {
			c.Failf("size", "a chunk says %d samples of %d metrics (and has %d), expected %d of %d", ch.Size(), ch.Len(), len(ch.Metrics), len(want), len(flatten(want[0], nil)))
		}
		var all [][]metric
		for _, d := range want {
			all = append(all, flatten(d, nil))
		}
		for j := range ch.Metrics {
			m, w := &ch.Metrics[j], all[0][j]
			if len(m.Values) != len(want) {
				c.Failf("size", "metric %d has %d values of %d samples", j, len(m.Values), len(want))
			}
			if m.Key() != w.path() || m.KeyName != w.key || strings.Join(m.ParentPath, "\x00") != strings.Join(w.parent, "\x00") {
				c.Failf("key", "metric %d is %q of %q (%q), expected %q of %q", j, m.KeyName, m.ParentPath, m.Key(), w.key, w.parent)
			}
			for x, v := range m.Values {
				if v != all[x][j].raw {
					c.Failf("value", "value %d of metric %q is %d, expected %d", x, m.Key(), v, all[x][j].raw)
				}
			}
			c.EventN("metric values", len(m.Values))
		}
		// the iterators of a chunk, again and again
		for range 2 {
			x := 0
			st, fl := ch.StructuredIterator(), ch.Iterator()
			if m := metadataOf(c, st.Metadata()); !bytes.Equal(m, meta) {
				c.Failf("metadata", "the metadata of a structured iterator is %x, expected %x", m, meta)
			}
			if m := metadataOf(c, fl.Metadata()); !bytes.Equal(m, meta) {
				c.Failf("metadata", "the metadata of a flattened iterator is %x, expected %x", m, meta)
			}
			for d := range st.Iterator() {
				sameSample(c, fmt.Sprintf("structured sample %d", x), k.sampleBytes("structured", d), want[x])
				x++
			}
			y := 0
			for d := range fl.Iterator() {
				if raw, w := k.sampleBytes("flattened", d), flatDoc(want[y]).Encode(); !bytes.Equal(raw, w) {
					c.Failf("sample", "flattened sample %d differs: %s", y, diffAt(raw, w))
				}
				y++
			}
			if x != len(want) || y != len(want) {
				c.Failf("samples", "%d structured and %d flattened samples of %d", x, y, len(want))
			}
		}
	}
	if err := it.Close(); err != nil {
		c.Failf("read", "%v", err)
	}
}

// f09Ownership: what readers give away can be changed.
func f09Ownership(c *C) {
	s := newStream(c, schemaOpts{})
	how := mon.Pick(c.R, readerNames[:4])
	src := sourceOf(c, s.data, io.EOF)
	want := expectAs(how, s.chunks)
	k := &comparer{c: c}
	var docs []*birch.Document
	seq := map[string]func(io.Reader) *ftdc.Iterator[*birch.Document]{
		"structured": ftdc.ReadStructuredMetrics, "flattened": ftdc.ReadMetrics, "matrix": ftdc.ReadMatrix,
	}[how]
	if seq == nil {
		it := ftdc.ReadChunks(src)
		for ch := range it.Iterator() {
			for d := range ch.StructuredIterator().Iterator() {
				docs = append(docs, d)
			}
		}
		if err := it.Close(); err != nil {
			c.Failf("read", "%v", err)
		}
	} else {
		it := seq(src)
		for d := range it.Iterator() {
			docs = append(docs, d)
		}
		if err := it.Close(); err != nil {
			c.Failf("read", "%v", err)
		}
	}
	if len(docs) != len(want) {
		c.Failf("samples", "%d documents, expected %d", len(docs), len(want))
	}
	order := c.R.Perm(len(docs))
	for _, i := range order {
		if raw := k.sampleBytes(how, docs[i]); !bytes.Equal(raw, want[i]) {
			c.Failf("shared", "%s: document %d changed when others did: %s", how, i, diffAt(raw, want[i]))
		}
		editDeep(c.R, docs[i])
	}
	c.EventN("documents edited", len(docs))
}

func editDeep(r *mon.Rand, d *birch.Document) {
	for e := range d.Iterator() {
		if in, ok := e.Value().MutableDocumentOK(); ok {
			editDeep(r, in)
		}
		if a, ok := e.Value().MutableArrayOK(); ok {
			a.Append(birch.VC.Int32(1))
		}
	}
	edit(r, d)
}

// ---- CSV

func csvLarge(c *C) bool { return c.Workload.Name == "large" }

func f11Large(c *C) {
	switch c.R.IntN(4) {
	case 0:
		f11Write(c)
	case 1:
		f11Dump(c)
	case 2:
		f11Convert(c)
	default:
		f11RoundTrip(c)
	}
}

func csvSchema(c *C, types []byte) *schema {
	for {
		elems := c.R.Range(1, 6)
		if csvLarge(c) {
			elems = mon.Pick(c.R, []int{elems, elems, c.R.Range(20, 100), c.R.Range(100, 400)})
		}
		s := newSchema(c.R, schemaOpts{unique: true, elems: elems, types: types})
		if metricsOf(s.doc) > 0 && !strings.ContainsAny(strings.Join(headerOf(s.doc), ""), "\r") {
			return s
		}
	}
}

func headerOf(d *Doc) (out []string) {
	for _, m := range flatten(d, nil) {
		out = append(out, m.path())
	}
	return out
}

func csvSample(c *C, s *schema) *Doc {
	d := s.sample()
	var fix func(*Doc)
	fix = func(d *Doc) {
		for _, e := range d.E {
			if e.V.D != nil {
				fix(e.V.D)
			}
			if e.V.T == ref.DateTime && (e.V.I < -62135596800000 || e.V.I > 253402300799999) {
				e.V.I %= 253402300799999 / 8
			}
		}
	}
	fix(d)
	return d
}

func csvStreamOf(c *C, types []byte, schemas int) (*stream, [][]*Doc) {
	var ss []*schema
	for range schemas {
		ss = append(ss, csvSchema(c, types))
	}
	return csvStream(c, ss)
}

// csvStreamEmpty may have chunks without metrics.
func csvStreamEmpty(c *C, schemas int) (*stream, [][]*Doc) {
	var ss []*schema
	for range schemas {
		if c.R.Chance(6) {
			ss = append(ss, newSchema(c.R, schemaOpts{unique: true, elems: c.R.IntN(3), types: []byte{ref.String, ref.Null, ref.ObjectID, ref.Binary}}))
		} else {
			ss = append(ss, csvSchema(c, metricTypes))
		}
	}
	return csvStream(c, ss)
}

func csvStream(c *C, ss []*schema) (*stream, [][]*Doc) {
	s := &stream{}
	var groups [][]*Doc
	chunks, size := c.R.Range(1, 5), 12
	if csvLarge(c) {
		chunks, size = c.R.Range(5, 40), mon.Pick(c.R, []int{12, 12, 300})
	}
	for range chunks {
		sc := mon.Pick(c.R, ss)
		var samples []*Doc
		for range c.R.Range(1, max(2, min(size, 20000/(metricsOf(sc.doc)+1)))) {
			samples = append(samples, csvSample(c, sc))
		}
		s.add(ref.FTDCEncode(0, &Val{T: ref.Int32, I: 1}, samples), samples)
		if n := len(groups); n > 0 && metricsOf(groups[n-1][0]) == metricsOf(samples[0]) {
			groups[n-1] = append(groups[n-1], samples...)
		} else {
			groups = append(groups, samples)
		}
	}
	c.StateBytes(s.data)
	return s, groups
}

func checkCSV(c *C, what string, data []byte, samples []*Doc) {
	if metricsOf(samples[0]) == 0 {
		if string(data) != strings.Repeat("\n", len(samples)+1) {
			c.Note("csv", "%s", data)
			c.Failf("empty", "%s isn't a header and %d samples without metrics", what, len(samples))
		}
		c.Event("tables without columns")
		return
	}
	r := csv.NewReader(bytes.NewReader(data))
	rows, err := r.ReadAll()
	if err != nil {
		c.Note("csv", "%s", data)
		c.Failf("csv", "%s isn't valid CSV: %v", what, err)
	}
	if len(rows) != len(samples)+1 {
		c.Failf("rows", "%s has %d rows, expected a header and %d samples", what, len(rows), len(samples))
	}
	if h := headerOf(samples[0]); strings.Join(rows[0], "\x00") != strings.Join(h, "\x00") {
		c.Failf("header", "%s: the header is %q, expected %q", what, rows[0], h)
	}
	for i, d := range samples {
		for j, m := range flatten(d, nil) {
			got, ok := rows[i+1][j], false
			switch m.orig.T {
			case ref.Double:
				f, err := strconv.ParseFloat(got, 64)
				ok = err == nil && (math.Float64bits(f) == math.Float64bits(m.orig.F) || math.IsNaN(f) && math.IsNaN(m.orig.F))
			case ref.DateTime:
				t, err := time.Parse(time.RFC3339Nano, got)
				ok = err == nil && t.UnixMilli() == m.orig.I
			default:
				ok = got == strconv.FormatInt(m.raw, 10)
			}
			if !ok {
				c.Failf("value", "%s: row %d, column %q is %q, expected the value %v of type 0x%02x", what, i, m.path(), got, m.orig, m.orig.T)
			}
		}
		c.EventN("cells", metricsOf(d))
	}
}

func chunksOf(c *C, data []byte) (iter.Seq[*ftdc.Chunk], func() error) {
	it := ftdc.ReadChunks(sourceOf(c, data, io.EOF))
	return it.Iterator(), it.Close
}

func f11Write(c *C) {
	s, groups := csvStreamEmpty(c, c.R.Range(1, 2))
	var buf bytes.Buffer
	seq, done := chunksOf(c, s.data)
	err := ftdc.WriteCSV(seq, &buf)
	if len(groups) > 1 {
		if err == nil {
			c.Failf("no-error", "exporting chunks with different numbers of metrics gave no error")
		}
		c.Event("schema changes refused")
		checkCSV(c, "WriteCSV, until the schema changes", buf.Bytes(), groups[0])
		return
	}
	if err != nil {
		c.Failf("write", "%v", err)
	}
	if err := done(); err != nil {
		c.Failf("read", "%v", err)
	}
	checkCSV(c, "WriteCSV", buf.Bytes(), groups[0])
}

func f11Dump(c *C) {
	s, groups := csvStreamEmpty(c, c.R.Range(1, 3))
	dir, err := os.MkdirTemp("", "birchmon-csv")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	name := func(i int) string { return filepath.Join(dir, fmt.Sprintf("out.%d.csv", i)) }
	if c.R.Chance(4) {
		// the files of an earlier dump are replaced.
		for i := range groups {
			if err := os.WriteFile(name(i), bytes.Repeat([]byte("old,"), c.R.IntN(20000)), 0o600); err != nil {
				panic(err)
			}
		}
		c.Event("dumps over older files")
	} else if c.R.Chance(4) {
		f11DumpFault(c, s, groups, dir, name)
		return
	}
	seq, _ := chunksOf(c, s.data)
	if err := ftdc.DumpCSV(seq, filepath.Join(dir, "out")); err != nil {
		c.Failf("write", "%v", err)
	}
	files, err := os.ReadDir(dir)
	if err != nil {
		panic(err)
	}
	if len(files) != len(groups) {
		c.Failf("files", "%d files were written, expected %d", len(files), len(groups))
	}
	for i, g := range groups {
		data, err := os.ReadFile(name(i))
		if err != nil {
			c.Failf("files", "%v", err)
		}
		checkCSV(c, fmt.Sprintf("DumpCSV, file %d of %d", i, len(groups)), data, g)
	}
	c.EventN("files", len(files))
}

// f11DumpFault: a file can't be created, or the disk is full.
func f11DumpFault(c *C, s *stream, groups [][]*Doc, dir string, name func(int) string) {
	k := c.R.IntN(len(groups))
	var want error
	switch c.R.IntN(3) {
	case 0:
		want = syscall.ENOSPC
		if err := os.Symlink("/dev/full", name(k)); err != nil {
			panic(err)
		}
	case 1:
		want = syscall.EISDIR
		if err := os.Mkdir(name(k), 0o700); err != nil {
			panic(err)
		}
	case 2:
		k, want = 0, fs.ErrNotExist
		dir = filepath.Join(dir, "missing")
	}
	seq, _ := chunksOf(c, s.data)
	if err := ftdc.DumpCSV(seq, filepath.Join(dir, "out")); !errors.Is(err, want) {
		c.Failf("no-error", "writing file %d of %d fails with %q, and the error is %v", k, len(groups), want, err)
	}
	for i, g := range groups[:k] {
		data, err := os.ReadFile(name(i))
		if err != nil {
			c.Failf("files", "%v", err)
		}
		checkCSV(c, fmt.Sprintf("DumpCSV, file %d of %d, with a failure in file %d", i, len(groups), k), data, g)
	}
	c.Event("dumps that fail")
}

// f11Convert: CSV of any program becomes FTDC.
func f11Convert(c *C) {
	var buf bytes.Buffer
	w := csv.NewWriter(&buf)
	w.UseCRLF = c.R.Chance(4)
	var want []*Doc
	first, prev := 0, 0
	tables, cols, rows := c.R.Range(1, 4), 6, 25
	if csvLarge(c) {
		tables, cols, rows = c.R.Range(1, 20), mon.Pick(c.R, []int{6, 50, 500}), mon.Pick(c.R, []int{25, 300, 3000})
	}
	for range tables {
		n := c.R.Range(1, cols)
		for n == prev || n == first { // going back to the first number of fields is refused
			n = c.R.Range(1, cols)
		}
		prev = n
		if first == 0 {
			first = n
		}
		var header []string
		for i := range n {
			h := "h" + strconv.Itoa(i)
			if c.R.Chance(4) {
				h += mon.Pick(c.R, []string{" x", ",", "\"", "\n", ".y", "é"})
			}
			header = append(header, h)
		}
		_ = w.Write(header)
		mode := make([]int, n)
		for i := range mode {
			mode[i] = c.R.IntN(6)
		}
		for range c.R.IntN(min(rows, 3+30000/n)) {
			d := &Doc{}
			var row []string
			for i := range n {
				m := mode[i]
				if c.R.Chance(10) {
					m = c.R.IntN(6)
				}
				switch m {
				case 0, 1, 2:
					v := ref.Int64v(c.R)
					row = append(row, strconv.FormatInt(v, 10))
					d.Append(header[i], &Val{T: ref.Int64, I: v})
				case 3, 4:
					f := ref.Floatv(c.R)
					for math.IsNaN(f) {
						f = ref.Floatv(c.R)
					}
					text := strconv.FormatFloat(f, mon.Pick(c.R, []byte{'e', 'g', 'G'}), -1, 64)
					if x, err := strconv.ParseInt(text, 10, 64); err == nil {
						d.Append(header[i], &Val{T: ref.Int64, I: x})
					} else {
						d.Append(header[i], &Val{T: ref.Double, F: f})
					}
					row = append(row, text)
				default:
					row = append(row, mon.Pick(c.R, []string{"", "text", "1,2", "2020-01-01T00:00:00Z", "a \"b\"", "1 2", "--3", "0x"}))
				}
			}
			if n == 1 && row[0] == "" {
				continue // csv leaves empty lines out
			}
			_ = w.Write(row)
			want = append(want, d)
		}
	}
	w.Flush()
	c.StateBytes(buf.Bytes())
	c.Note("csv", "%s", buf.String())
	var out recordWriter
	bucket := c.R.Range(1, 20)
	if err := ftdc.ConvertFromCSV(bucket, sourceOf(c, buf.Bytes(), io.EOF), &out); err != nil {
		c.Failf("convert", "%v", err)
	}
	got, err := readStructured(c, out.bytes())
	if err != nil {
		c.Failf("read", "%v", err)
	}
	sameSamples(c, "ConvertFromCSV", got, want)
	for _, ch := range decodeFTDC(c, "ConvertFromCSV", out.bytes()) {
		if len(ch.Samples) > bucket {
			c.Failf("chunks", "a chunk has %d samples, more than %d", len(ch.Samples), bucket)
		}
	}
}

// f11RoundTrip: integers and doubles survive the way through CSV.
func f11RoundTrip(c *C) {
	s, groups := csvStreamOf(c, []byte{ref.Int64, ref.Int32, ref.Double}, 1)
	var buf bytes.Buffer
	seq, _ := chunksOf(c, s.data)
	if err := ftdc.WriteCSV(seq, &buf); err != nil {
		c.Failf("write", "%v", err)
	}
	c.Note("csv", "%s", buf.String())
	var out bytes.Buffer
	if err := ftdc.ConvertFromCSV(c.R.Range(1, 20), &buf, &out); err != nil {
		c.Failf("convert", "%v", err)
	}
	var want []*Doc
	for _, d := range groups[0] {
		w := &Doc{}
		for _, e := range flatDoc(d).E {
			v := *e.V
			if v.T == ref.Int32 {
				v.T = ref.Int64
			}
			if v.T == ref.Double && math.IsNaN(v.F) {
				v.F = math.NaN()
			}
			w.Append(e.K, &v)
		}
		want = append(want, w)
	}
	got, err := readStructured(c, out.Bytes())
	if err != nil {
		c.Failf("read", "%v", err)
	}
	sameSamples(c, "WriteCSV and ConvertFromCSV", got, want)
}

// f11Faults: failing sources and outputs are reported.
func f11Faults(c *C) {
	s, groups := csvStreamOf(c, metricTypes, 1)
	seq, _ := chunksOf(c, s.data)
	var good bytes.Buffer
	if err := ftdc.WriteCSV(seq, &good); err != nil {
		c.Failf("write", "%v", err)
	}
	_ = groups
	switch c.R.IntN(3) {
	case 0:
		seq, _ := chunksOf(c, s.data)
		lw := &limitWriter{n: c.R.IntN(good.Len())}
		if err := ftdc.WriteCSV(seq, lw); !errors.Is(err, errFault) {
			c.Failf("no-error", "the output failed after %d of %d bytes, and the error is %v", lw.n, good.Len(), err)
		}
		c.Event("failing CSV output")
	case 1:
		cut := c.R.IntN(good.Len() + 1)
		var out bytes.Buffer
		if err := ftdc.ConvertFromCSV(5, sourceOf(c, good.Bytes()[:cut], errSource), &out); !errors.Is(err, errSource) {
			c.Failf("no-error", "the source failed after %d of %d bytes, and the error is %v", cut, good.Len(), err)
		}
		c.Event("failing CSV source")
	case 2:
		var out bytes.Buffer
		if err := ftdc.ConvertFromCSV(5, bytes.NewReader(good.Bytes()), &out); err != nil {
			c.Failf("convert", "%v", err)
		}
		if out.Len() == 0 {
			return
		}
		lw := &limitWriter{n: c.R.IntN(out.Len())}
		if err := ftdc.ConvertFromCSV(5, bytes.NewReader(good.Bytes()), lw); !errors.Is(err, errFault) {
			c.Failf("no-error", "the output failed after %d of %d bytes, and the error is %v", lw.n, out.Len(), err)
		}
		c.Event("failing FTDC output")
	}
}

// limitWriter fails after n bytes.
type limitWriter struct{ n, written int }

func (w *limitWriter) Write(b []byte) (int, error) {
	if w.written+len(b) > w.n {
		k := w.n - w.written
		w.written = w.n
		return k, errFault
	}
	w.written += len(b)
	return len(b), nil
}
