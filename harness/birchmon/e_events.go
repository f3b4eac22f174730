package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/events"
	bhist "github.com/tychoish/birch/x/ftdc/hdrhist"
	"github.com/tychoish/fun/dt/hdrhist"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	mon.Register(&mon.Property{
		ID:   "E01",
		Rule: "a generated performance, histogram or custom event is marshaled, collected, read and restored, and compared to the model; a case is non-trivial when the document is new",
		Assumptions: []string{
			"times are kept to the millisecond",
			"unsigned integers above the signed 64-bit range cannot be represented",
			"the width of an int or unsigned integer isn't specified",
		},
		Workloads: []mon.Workload{
			{Name: "performance", Quick: 60000, Thorough: 3000000, Run: e01Performance},
			{Name: "histogram", Quick: 1500, Thorough: 60000, Run: e01Histogram},
			{Name: "custom", Quick: 40000, Thorough: 2000000, Run: e01Custom},
			{Name: "add", Quick: 40000, Thorough: 2000000, Run: e01Add},
		},
	})
	mon.Register(&mon.Property{
		ID:   "H01",
		Rule: "a histogram of any configuration and history is marshaled and restored as BSON and JSON, or a damaged snapshot is restored; a case is non-trivial when the snapshot is new",
		Assumptions: []string{
			"the histograms themselves are another module's",
		},
		Workloads: []mon.Workload{
			{Name: "round-trip", Quick: 2500, Thorough: 150000, Run: h01RoundTrip},
			{Name: "hostile", Quick: 20000, Thorough: 600000, Run: h01Hostile},
		},
	})
}

// ---- performance events

func genTime(r *mon.Rand) time.Time {
	ms := r.Int64N(8e12) - 4e12
	switch r.IntN(6) {
	case 0:
		ms = mon.Pick(r, []int64{0, 1, -1, 999, 1000, -999, -1000, -1001, 1e12, 253402300799999, -62135596800000})
	case 1:
		ms = r.Int64N(2e14) - 1e14
	}
	t := time.UnixMilli(ms).Add(time.Duration(r.Int64N(1e6)))
	switch r.IntN(3) {
	case 0:
		t = t.UTC()
	case 1:
		t = t.In(time.FixedZone("x", r.IntN(40000)-20000))
	}
	return t
}

// floorMilli is the millisecond that the time is in.
func floorMilli(t time.Time) int64 { return t.Unix()*1000 + int64(t.Nanosecond()/1e6) }

func genPerf(r *mon.Rand) *events.Performance {
	n := func() int64 { return ref.Int64v(r) }
	if r.Chance(3) {
		n = func() int64 { return r.Int64N(1000) }
	}
	return &events.Performance{
		Timestamp: genTime(r),
		ID:        n(),
		Counters:  events.PerformanceCounters{Number: n(), Operations: n(), Size: n(), Errors: n()},
		Timers:    events.PerformanceTimers{Duration: time.Duration(n()), Total: time.Duration(n())},
		Gauges:    events.PerformanceGauges{State: n(), Workers: n(), Failed: r.Bool()},
	}
}

func i64(i int64) *Val { return &Val{T: ref.Int64, I: i} }
func boolv(b bool) *Val {
	v := &Val{T: ref.Boolean}
	if b {
		v.I = 1
	}
	return v
}
func docv(kv ...any) *Val { return &Val{T: ref.Document, D: mkdoc(kv...)} }
func mkdoc(kv ...any) *Doc {
	d := &Doc{}
	for i := 0; i < len(kv); i += 2 {
		d.Append(kv[i].(string), kv[i+1].(*Val))
	}
	return d
}

func perfDoc(p *events.Performance) *Doc {
	return mkdoc(
		"ts", &Val{T: ref.DateTime, I: floorMilli(p.Timestamp)},
		"id", i64(p.ID),
		"counters", docv("n", i64(p.Counters.Number), "ops", i64(p.Counters.Operations), "size", i64(p.Counters.Size), "errors", i64(p.Counters.Errors)),
		"timers", docv("dur", i64(int64(p.Timers.Duration)), "total", i64(int64(p.Timers.Total))),
		"gauges", docv("state", i64(p.Gauges.State), "workers", i64(p.Gauges.Workers), "failed", boolv(p.Gauges.Failed)),
	)
}

func samePerf(c *C, what string, got, want *events.Performance) {
	g, w := *got, *want
	if floorMilli(g.Timestamp) != floorMilli(w.Timestamp) {
		c.Failf("perf", "%s: the timestamp is %v, expected %v", what, g.Timestamp, w.Timestamp)
	}
	g.Timestamp, w.Timestamp = time.Time{}, time.Time{}
	if g != w {
		c.Failf("perf", "%s: %+v, expected %+v", what, g, w)
	}
}

func e01Performance(c *C) {
	r := c.R
	p := genPerf(r)
	keep := *p
	want := perfDoc(p)
	raw, err := p.MarshalBSON()
	if err != nil {
		c.Failf("marshal", "MarshalBSON: %v", err)
	}
	if !bytes.Equal(raw, want.Encode()) {
		c.Note("got", "%s", hexs(raw))
		c.Note("want", "%s", hexs(want.Encode()))
		c.Failf("document", "the document of %+v is wrong: %s", p, diffAt(raw, want.Encode()))
	}
	d, err := p.MarshalDocument()
	if err != nil {
		c.Failf("marshal", "MarshalDocument: %v", err)
	}
	(&comparer{c: c}).doc("", d, want)
	out := &events.Performance{}
	if r.Bool() { // not empty
		out = genPerf(r)
	}
	if err := out.UnmarshalDocument(d); err != nil {
		c.Failf("unmarshal", "UnmarshalDocument: %v", err)
	}
	samePerf(c, "restored", out, &keep)
	if *p != keep {
		c.Failf("changed", "marshaling changed the event: %+v, from %+v", p, keep)
	}
	c.StateBytes(raw)
	c.Sample("%+v", keep)

	// the document's fields may be in another order, and be joined by others;
	// fields that aren't there are kept.
	g := ref.NewGen(r)
	shuffled := want.Clone()
	for _, e := range append([]ref.Elem{{V: &Val{D: shuffled}}}, shuffled.E...) {
		if e.V.D == nil {
			continue
		}
		r.Shuffle(len(e.V.D.E), func(i, j int) { e.V.D.E[i], e.V.D.E[j] = e.V.D.E[j], e.V.D.E[i] })
		if r.Chance(3) {
			e.V.D.Append("other"+g.Key(), g.Val())
		}
	}
	out = &events.Performance{}
	if err := out.UnmarshalDocument((&builder{r: r, live: true}).doc(shuffled)); err != nil {
		c.Failf("unmarshal", "UnmarshalDocument of the fields in another order: %v", err)
	}
	samePerf(c, "restored from another order", out, &keep)

	// a value of another type is refused.
	bad := want.Clone()
	at := bad.E[r.IntN(len(bad.E))].V
	if at.D != nil && r.Chance(2) {
		at = at.D.E[r.IntN(len(at.D.E))].V
	}
	old := at.T
	for at.T == old {
		*at = *g.Val()
	}
	if err := (&events.Performance{}).UnmarshalDocument((&builder{r: r, live: true}).doc(bad)); err == nil {
		c.Note("document", "%s", hexs(bad.Encode()))
		c.Failf("unmarshal", "a document with a value of type %#x in place of %#x is accepted", at.T, old)
	}
	c.EventN("events restored", 2)
	c.Event("wrong types refused")
}

// perfModel adds as the documentation says.
func addPerf(p *events.Performance, in events.Performance) {
	p.Timestamp = in.Timestamp
	if in.ID == 0 {
		p.ID++
	} else {
		p.ID = in.ID
	}
	p.Counters.Number += in.Counters.Number
	p.Counters.Operations += in.Counters.Operations
	p.Counters.Size += in.Counters.Size
	p.Counters.Errors += in.Counters.Errors
	p.Timers.Duration += in.Timers.Duration
	p.Timers.Total += in.Timers.Total
	p.Gauges = in.Gauges
}

func e01Add(c *C) {
	r := c.R
	p := genPerf(r)
	model := *p
	for range r.Range(1, 6) {
		in := genPerf(r)
		if r.Chance(4) {
			in.ID = 0
		}
		keep := *in
		p.Add(in)
		addPerf(&model, keep)
		if *in != keep {
			c.Failf("changed", "Add changed its argument: %+v, from %+v", in, keep)
		}
		if *p != model {
			c.Failf("sum", "after adding %+v: %+v, expected %+v", keep, *p, model)
		}
		c.Event("events added")
	}
	c.State(model)
	c.Sample("%+v", model)
}

// ---- custom events

func (n *native) custom() (any, *Val) {
	r := n.r
	one := func(k int) (any, *Val) {
		switch k {
		case 0:
			i := ref.Int64v(r)
			return i, &Val{T: ref.Int64, I: i}
		case 1:
			i := ref.Int32v(r)
			return i, &Val{T: ref.Int32, I: int64(i)}
		case 2:
			i := ref.Int64v(r)
			return int(i), n.intAny(i)
		case 3:
			b := r.Bool()
			return b, boolv(b)
		case 4:
			t := genTime(r)
			return t, &Val{T: ref.DateTime, I: floorMilli(t)}
		case 5:
			f := ref.Floatv(r)
			return f, &Val{T: ref.Double, F: f}
		case 6:
			f := float32(ref.Floatv(r))
			return f, &Val{T: ref.Double, F: float64(f)}
		case 7:
			i := uint32(ref.Int64v(r))
			return i, n.intAny(int64(i))
		default:
			i := uint64(ref.Int64v(r)) & math.MaxInt64
			return i, n.intAny(int64(i))
		}
	}
	k := r.IntN(9)
	if r.Chance(3) {
		l := r.IntN(6)
		if r.Chance(20) {
			l = r.Range(9, 120)
		}
		d := &Doc{}
		var xs []any
		for i := range l {
			x, v := one(k)
			xs = append(xs, x)
			d.Append(fmt.Sprint(i), v)
		}
		var out any
		switch k {
		case 0:
			out = slice[int64](xs)
		case 1:
			out = slice[int32](xs)
		case 2:
			out = slice[int](xs)
		case 3:
			out = slice[bool](xs)
		case 4:
			out = slice[time.Time](xs)
		case 5:
			out = slice[float64](xs)
		case 6:
			out = slice[float32](xs)
		case 7:
			out = slice[uint32](xs)
		default:
			out = slice[uint64](xs)
		}
		return out, &Val{T: ref.Array, D: d}
	}
	return one(k)
}

func slice[T any](in []any) []T {
	out := make([]T, len(in))
	for i := range in {
		out[i] = in[i].(T)
	}
	return out
}

func e01Custom(c *C) {
	r := c.R
	n := newNative(c)
	ps := events.MakeCustom(r.IntN(10))
	want := &Doc{}
	var names []string
	points, repeats := r.IntN(12), 5
	if r.Chance(5) { // many, of few names
		points, repeats = r.Range(12, 60), 2
	}
	for range points {
		name := n.g.Key()
		if len(names) > 0 && r.Chance(repeats) {
			name = mon.Pick(r, names)
		}
		names = append(names, name)
		if r.Chance(8) {
			bad := mon.Pick(r, []any{"text", nil, []string{"a"}, map[string]any{}, []byte("x"), complex(1, 2), struct{}{}, int8(1), uint(3), uint16(4), []any{1}, time.Second})
			if err := ps.Add(name, bad); err == nil {
				c.Failf("add", "Add accepts a %T", bad)
			}
			c.Event("unsupported values refused")
			continue
		}
		x, v := n.custom()
		if err := ps.Add(name, x); err != nil {
			c.Failf("add", "Add of a %T: %v", x, err)
		}
		want.Append(name, v)
	}
	if ps.Len() != len(want.E) {
		c.Failf("len", "%d points after adding %d", ps.Len(), len(want.E))
	}
	if r.Chance(8) { // a number that no document holds
		big := uint64(math.MaxInt64) + 1 + r.Uint64N(1<<63)
		var x any = big
		if r.Bool() {
			many := []uint64{big}
			for range r.IntN(5) {
				many = append(many, r.Uint64()>>r.IntN(64))
			}
			r.Shuffle(len(many), func(i, j int) { many[i], many[j] = many[j], many[i] })
			x = many
		}
		if err := ps.Add(n.g.Key(), x); err == nil {
			var raw []byte
			var err error
			switch r.IntN(3) {
			case 0:
				_, err = ps.MarshalDocument()
			case 1:
				raw, err = ps.MarshalBSON()
			default:
				err = ftdc.NewUncompressedCollectorBSON(10).Add(ps)
			}
			if err == nil {
				c.Note("output", "%s", hexs(raw))
				c.Failf("marshal", "an event with %v, beyond the range of a document's numbers, is marshaled", x)
			}
		}
		c.Event("numbers out of range refused")
		return
	}
	sort.SliceStable(want.E, func(i, j int) bool { return want.E[i].K < want.E[j].K })
	if r.Bool() {
		ps.Sort()
	}
	var raw []byte
	var err error
	switch r.IntN(3) {
	case 0:
		d, e := ps.MarshalDocument()
		if e != nil {
			c.Failf("marshal", "MarshalDocument: %v", e)
		}
		raw, err = d.MarshalBSON()
	case 1: // as an FTDC sample
		col := ftdc.NewUncompressedCollectorBSON(10)
		if e := col.Add(ps); e != nil {
			c.Failf("collect", "collecting a custom event: %v", e)
		}
		if raw, err = col.Resolve(); err == nil && len(raw) == 0 {
			raw = (&Doc{}).Encode()
		}
	default:
		raw, err = ps.MarshalBSON()
	}
	if err != nil {
		c.Failf("marshal", "marshaling a custom event: %v", err)
	}
	got, err := ref.Decode(raw)
	if err != nil {
		c.Note("output", "%s", hexs(raw))
		c.Failf("marshal", "the output isn't a document: %v", err)
	}
	if len(got.E) != len(want.E) {
		c.Failf("points", "%d fields of %d points", len(got.E), len(want.E))
	}
	for i, e := range want.E {
		if got.E[i].K != e.K {
			c.Failf("order", "field %d is %q, expected %q", i, got.E[i].K, e.K)
		}
		n.match(c, e.K, e.V, got.E[i].V)
	}
	back := events.Custom{}
	if err := back.UnmarshalBSON(clone(raw)); err != nil {
		c.Failf("unmarshal", "UnmarshalBSON: %v", err)
	}
	if len(back) != len(got.E) {
		c.Failf("unmarshal", "%d points are restored of %d", len(back), len(got.E))
	}
	for i, p := range back {
		if p.Name != got.E[i].K {
			c.Failf("unmarshal", "point %d is %q, expected %q", i, p.Name, got.E[i].K)
		}
		(goCheck{c}).val(p.Name, p.Value, got.E[i].V)
	}
	if len(raw) > 5 {
		cut := raw[:r.IntN(len(raw)-1)]
		if err := (&events.Custom{}).UnmarshalBSON(clone(cut)); err == nil {
			c.Failf("unmarshal", "a cut document of %d of %d bytes is accepted", len(cut), len(raw))
		}
	}
	c.EventN("points", len(want.E))
	c.StateBytes(raw)
	c.Sample("%v", ps)
}

// ---- histograms

// smallHistogram is one with few counts.
func smallHistogram(r *mon.Rand, top int) *hdrhist.Histogram {
	lo := int64(mon.Pick(r, []int{0, 1, 2, 3, 10, 1000, 1000000}))
	hi := lo + 1 + r.Int64N(int64(mon.Pick(r, []int{1, 10, 1000, 100000, 100000000})))
	if r.Chance(6) {
		hi = lo + 1 + r.Int64N(1<<50)
	}
	figures := r.Range(1, top)
	if r.Chance(12) {
		// up to the highest that there can be.
		figures = r.Range(1, min(top, 3))
		lo = int64(1)<<(62-[]int{0, 5, 8, 11}[figures]-r.IntN(3)) - 1 - r.Int64N(2)
		hi = 1<<62 - r.Int64N(3)
		if r.Bool() {
			hi = lo + r.Int64N(hi-lo+1)
		}
		if r.Bool() {
			lo = r.Int64N(lo + 1)
		}
	}
	h := hdrhist.New(lo, hi, figures)
	for range r.IntN(40) {
		v := lo + r.Int64N(hi-lo+1)
		if r.Chance(10) {
			v = r.Int64N(min(hi, 1<<61)) * 3
		}
		n := int64(1)
		if r.Chance(6) {
			n = r.Int64N(1 << 40)
		}
		_ = h.RecordValues(v, n)
	}
	return h
}

func histDoc(h *hdrhist.Histogram) *Doc {
	ss := h.Export()
	a := &Doc{}
	for i, n := range ss.Counts {
		a.Append(fmt.Sprint(i), i64(n))
	}
	return mkdoc("lowest", i64(ss.LowestTrackableValue), "highest", i64(ss.HighestTrackableValue),
		"figures", i64(ss.SignificantFigures), "counts", &Val{T: ref.Array, D: a})
}

func e01Histogram(c *C) {
	r := c.R
	h := func() *hdrhist.Histogram { return smallHistogram(r, 2) }
	p := &events.PerformanceHDR{
		Timestamp: genTime(r), ID: ref.Int64v(r),
		Counters: events.PerformanceCountersHDR{Number: h(), Operations: h(), Size: h(), Errors: h()},
		Timers:   events.PerformanceTimersHDR{Duration: h(), Total: h()},
		Gauges:   events.PerformanceGauges{State: ref.Int64v(r), Workers: ref.Int64v(r), Failed: r.Bool()},
	}
	hd := func(h *hdrhist.Histogram) *Val { return &Val{T: ref.Document, D: histDoc(h)} }
	want := mkdoc(
		"ts", &Val{T: ref.DateTime, I: floorMilli(p.Timestamp)},
		"id", i64(p.ID),
		"counters", docv("n", hd(p.Counters.Number), "ops", hd(p.Counters.Operations), "size", hd(p.Counters.Size), "errors", hd(p.Counters.Errors)),
		"timers", docv("dur", hd(p.Timers.Duration), "total", hd(p.Timers.Total)),
		"gauges", docv("state", i64(p.Gauges.State), "workers", i64(p.Gauges.Workers), "failed", boolv(p.Gauges.Failed)),
	)
	d, err := p.MarshalDocument()
	if err != nil {
		c.Failf("marshal", "MarshalDocument: %v", err)
	}
	raw, err := d.MarshalBSON()
	if err != nil {
		c.Failf("marshal", "MarshalBSON: %v", err)
	}
	if !bytes.Equal(raw, want.Encode()) {
		c.Failf("document", "the histogram document is wrong: %s", diffAt(raw, want.Encode()))
	}
	if r.Chance(4) {
		// and as a sample.
		col := ftdc.NewBaseCollector(10)
		if err := col.Add(p); err != nil {
			c.Failf("collect", "collecting histograms: %v", err)
		}
		out, err := col.Resolve()
		if err != nil {
			c.Failf("collect", "Resolve: %v", err)
		}
		chunks, err := ref.FTDCDecode(out)
		if err != nil || len(chunks) != 1 || len(chunks[0].Samples) != 1 {
			c.Failf("collect", "%d chunks: %v", len(chunks), err)
		}
		if got := chunks[0].Samples[0]; !ref.Equal(got, want) {
			c.Failf("collect", "the collected histograms differ: %s", diffAt(got.Encode(), want.Encode()))
		}
		c.Event("histograms collected")
	}
	for _, k := range []struct {
		v  string
		in *hdrhist.Histogram
	}{{"n", p.Counters.Number}, {"dur", p.Timers.Duration}} {
		if k.in.TotalCount() > 0 {
			c.Event("histograms with values")
		}
	}
	c.StateBytes(raw)
	c.Sample("%d bytes of histograms", len(raw))
}

func sameHistogram(c *C, what string, got *bhist.Histogram, want *hdrhist.Histogram) {
	if got.Histogram == nil {
		c.Failf("histogram", "%s: no histogram", what)
	}
	if !got.Equals(want) {
		c.Failf("histogram", "%s: the histogram differs: %d values from %d to %d in (%d, %d, %d), expected %d from %d to %d in (%d, %d, %d)", what,
			got.TotalCount(), got.Min(), got.Max(), got.LowestTrackableValue(), got.HighestTrackableValue(), got.SignificantFigures(),
			want.TotalCount(), want.Min(), want.Max(), want.LowestTrackableValue(), want.HighestTrackableValue(), want.SignificantFigures())
	}
}

func h01RoundTrip(c *C) {
	r := c.R
	top := 3
	if r.Chance(60) {
		top = 5
	}
	h := smallHistogram(r, top)
	b := &bhist.Histogram{Histogram: h}
	want := histDoc(h)
	raw, err := b.MarshalBSON()
	if err != nil {
		c.Failf("marshal", "MarshalBSON: %v", err)
	}
	if !bytes.Equal(raw, want.Encode()) {
		c.Failf("document", "the histogram document is wrong: %s", diffAt(raw, want.Encode()))
	}
	restored := func() *bhist.Histogram {
		if r.Bool() {
			return &bhist.Histogram{}
		}
		return &bhist.Histogram{Histogram: smallHistogram(r, 2)}
	}
	out := restored()
	in := clone(raw)
	if err := out.UnmarshalBSON(in); err != nil {
		c.Failf("unmarshal", "UnmarshalBSON: %v", err)
	}
	wipe(r, in)
	sameHistogram(c, "BSON", out, h)
	out = restored()
	d, err := b.MarshalDocument()
	if err != nil {
		c.Failf("marshal", "MarshalDocument: %v", err)
	}
	if err := out.UnmarshalDocument(d); err != nil {
		c.Failf("unmarshal", "UnmarshalDocument: %v", err)
	}
	sameHistogram(c, "document", out, h)
	js, err := json.Marshal(b)
	if err != nil {
		c.Failf("marshal", "JSON: %v", err)
	}
	out = restored()
	if err := json.Unmarshal(js, out); err != nil {
		c.Failf("unmarshal", "JSON: %v", err)
	}
	sameHistogram(c, "JSON", out, h)

	// it goes on as the original.
	for range r.IntN(10) {
		v := r.Int64N(1 << 40)
		e1, e2 := out.RecordValue(v), h.RecordValue(v)
		if (e1 == nil) != (e2 == nil) {
			c.Failf("record", "recording %d: %v, and %v in the original", v, e1, e2)
		}
	}
	sameHistogram(c, "after recording more", out, h)
	// and is apart from what was made of it.
	if again, err := d.MarshalBSON(); err != nil || !bytes.Equal(again, raw) {
		c.Failf("shared", "the document of the histogram changed with it")
	}
	c.EventN("values", int(min(h.TotalCount(), 1000)))
	c.StateBytes(raw)
	c.Sample("%d values of %d to %d in %d counts", h.TotalCount(), h.LowestTrackableValue(), h.HighestTrackableValue(), len(h.Export().Counts))
}

func h01Hostile(c *C) {
	r := c.R
	h := smallHistogram(r, 1)
	before := smallHistogram(r, 1)
	mine := &bhist.Histogram{Histogram: before}
	doc := histDoc(h)
	g := ref.NewGen(r)
	bad := true
	var what string
	v := func(k string) *Val {
		for _, e := range doc.E {
			if e.K == k {
				return e.V
			}
		}
		return nil
	}
	drop := func(k string) {
		for i, e := range doc.E {
			if e.K == k {
				doc.E = append(doc.E[:i:i], doc.E[i+1:]...)
				return
			}
		}
	}
	counts := v("counts").D
	switch r.IntN(10) {
	case 0:
		what = "wrong type"
		at := doc.E[r.IntN(4)].V
		for old := at.T; at.T == old; {
			*at = *g.Val()
		}
	case 1:
		what = "wrong type of count"
		at := counts.E[r.IntN(len(counts.E))].V
		for old := at.T; at.T == old; {
			*at = *g.Val()
		}
	case 2:
		what = "figures"
		v("figures").I = mon.Pick(r, []int64{0, -1, 6, 7, 1 << 40, math.MinInt64, math.MaxInt64})
	case 3:
		what = "too few counts"
		counts.E = counts.E[:r.IntN(len(counts.E))]
	case 4:
		what = "too many counts"
		for range r.Range(1, 70) {
			counts.Append(fmt.Sprint(len(counts.E)), i64(r.Int64N(10)))
		}
	case 5:
		what = "missing field"
		drop(mon.Pick(r, []string{"figures", "counts"}))
	case 6:
		what = "range"
		switch r.IntN(3) {
		case 0:
			v("lowest").I = -1 - r.Int64N(1<<62)
		case 1:
			v("highest").I = v("lowest").I - 1 - r.Int64N(1<<40)
		default:
			v("lowest").I = math.MaxInt64 - r.Int64N(10)
			v("highest").I = math.MaxInt64
		}
	case 7:
		what = "order"
		bad = false
		r.Shuffle(len(doc.E), func(i, j int) { doc.E[i], doc.E[j] = doc.E[j], doc.E[i] })
		doc.Append("other"+g.Key(), g.Val())
	case 8:
		what = "cut"
		raw := doc.Encode()
		raw = raw[:r.IntN(len(raw)-1)]
		var err error
		if p := mon.NoPanic(func() { err = mine.UnmarshalBSON(raw) }); p != nil {
			c.Failf("panic", "UnmarshalBSON of a cut document panics: %v", p)
		}
		if err == nil {
			c.Failf("accepted", "a cut document is accepted")
		}
		sameHistogram(c, "after an error", mine, before)
		// json.Unmarshal itself refuses what isn't JSON, and so does this.
		js, _ := json.Marshal(&bhist.Histogram{Histogram: h})
		switch r.IntN(3) {
		case 0:
			js = js[:r.IntN(len(js))]
		case 1:
			js = append(js, mon.Pick(r, []string{"x", " {}", "}", "]", ",", "\n1", "\x00", string(js)})...)
		default:
			js = []byte(mon.Pick(r, []string{`[]`, `1`, `""`, `true`, `{"Counts":{}}`, `{"Counts":[1.5]}`, `{"SignificantFigures":"1"}`, `{}`, `null`}))
		}
		if p := mon.NoPanic(func() { err = mine.UnmarshalJSON(js) }); p != nil {
			c.Failf("panic", "UnmarshalJSON of %q panics: %v", js, p)
		}
		if err == nil {
			c.Failf("accepted", "the JSON %q is accepted", js)
		}
		sameHistogram(c, "after an error", mine, before)
		c.Event(what)
		return
	default:
		what = "random values"
		for _, k := range []string{"lowest", "highest", "figures"} {
			if r.Bool() {
				v(k).I = ref.Int64v(r)
			}
		}
		if p := mon.NoPanic(func() { _ = mine.UnmarshalBSON(doc.Encode()) }); p != nil {
			c.Failf("panic", "UnmarshalBSON of %s panics: %v", what, p)
		}
		c.Event(what)
		return
	}
	raw := doc.Encode()
	var err error
	if p := mon.NoPanic(func() { err = mine.UnmarshalBSON(clone(raw)) }); p != nil {
		c.Failf("panic", "UnmarshalBSON of a snapshot with a damaged field (%s) panics: %v", what, p)
	}
	switch {
	case bad && err == nil:
		c.Note("document", "%s", hexs(raw))
		c.Failf("accepted", "a damaged snapshot is accepted: %s", what)
	case bad:
		sameHistogram(c, "after an error", mine, before)
		if what != "wrong type" && what != "wrong type of count" && what != "missing field" && r.Bool() {
			s := hdrhist.Snapshot{LowestTrackableValue: v("lowest").I, HighestTrackableValue: v("highest").I, SignificantFigures: v("figures").I}
			for _, e := range counts.E {
				s.Counts = append(s.Counts, e.V.I)
			}
			js, _ := json.Marshal(s)
			if p := mon.NoPanic(func() { err = json.Unmarshal(js, mine) }); p != nil {
				c.Failf("panic", "UnmarshalJSON of a damaged snapshot (%s) panics: %v", what, p)
			}
			if err == nil {
				c.Failf("accepted", "a damaged JSON snapshot is accepted: %s", what)
			}
			sameHistogram(c, "after an error", mine, before)
		}
	case err != nil:
		c.Failf("refused", "a snapshot with %s is refused: %v", what, err)
	default:
		sameHistogram(c, what, mine, h)
	}
	c.Event(what)
	c.StateBytes(raw)
	c.Sample("%s: %v", what, err)
}

var _ birch.DocumentMarshaler = (*events.Performance)(nil)
