package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	mon.Register(&mon.Property{
		ID:   "F07",
		Rule: "sequences of operations on the uncompressed collectors are compared to a model that concatenates documents; a case is non-trivial when the sequence is new",
		Assumptions: []string{
			"the schema of an uncompressed sample is its number of fields, as documented",
			"what one document is in JSON is the business of J01; here it's compared to the document's own JSON",
		},
		Workloads: []mon.Workload{
			{Name: "histories", Quick: 12000, Thorough: 400000, Run: f07History},
		},
	})
	mon.Register(&mon.Property{
		ID:   "F08",
		Rule: "goroutines add labelled samples to one synchronized or buffered collector while others resolve, flush, set metadata and cancel, with random delays and under the race detector; the output is compared to what was acknowledged; a case is non-trivial when the interleaving in the output is new",
		Assumptions: []string{
			"only the synchronized and the buffered collectors are for several goroutines",
		},
		Workloads: []mon.Workload{
			{Name: "concurrent", Quick: 400, Thorough: 20000, Race: true, Run: f08Concurrent},
			{Name: "cancelled", Quick: 300, Thorough: 15000, Race: true, Run: f08Cancelled},
			{Name: "backlog", Quick: 200, Thorough: 8000, Run: f08Backlog},
			{Name: "buffered-errors", Quick: 300, Thorough: 10000, Run: f08Errors},
		},
	})
}

type uncKind struct {
	name            string
	json            bool
	stream, dynamic bool
	make            func(n int, w io.Writer) ftdc.Collector
}

var uncKinds = []uncKind{
	{"uncompressed BSON", false, false, false, func(n int, _ io.Writer) ftdc.Collector { return ftdc.NewUncompressedCollectorBSON(n) }},
	{"uncompressed JSON", true, false, false, func(n int, _ io.Writer) ftdc.Collector { return ftdc.NewUncompressedCollectorJSON(n) }},
	{"streaming uncompressed BSON", false, true, false, ftdc.NewStreamingUncompressedCollectorBSON},
	{"streaming uncompressed JSON", true, true, false, ftdc.NewStreamingUncompressedCollectorJSON},
	{"streaming dynamic uncompressed BSON", false, true, true, ftdc.NewStreamingDynamicUncompressedCollectorBSON},
	{"streaming dynamic uncompressed JSON", true, true, true, ftdc.NewStreamingDynamicUncompressedCollectorJSON},
}

func (k uncKind) encode(c *C, d *Doc) []byte {
	if !k.json {
		return d.Encode()
	}
	doc := (&builder{r: c.R, simple: true, live: true}).doc(d)
	out, err := doc.MarshalJSON()
	if err != nil {
		c.Failf("json", "%v", err)
	}
	if bytes.ContainsRune(out, '\n') {
		c.Failf("json", "the JSON of a document has a line break: %q", out)
	}
	return append(clone(out), '\n')
}

func f07History(c *C) {
	k := mon.Pick(c.R, uncKinds)
	limit, n, large := c.R.Range(1, 12), c.R.Range(5, 60), c.R.Chance(60)
	if large {
		limit, n = c.R.Range(50, 700), c.R.Range(400, 1000)
		if c.R.Chance(4) {
			limit, n = c.R.Range(1000, 4000), c.R.Range(2000, 5000)
			c.Event("thousands of samples")
		}
	}
	all := []*schema{newSchema(c.R, schemaOpts{unique: true, elems: c.R.Range(1, 5)})}
	for range c.R.IntN(3) {
		all = append(all, mon.Pick(c.R, all).vary())
	}
	if c.R.Chance(4) {
		empty := *all[0]
		empty.doc = &Doc{}
		all = append(all, &empty)
	}
	if c.R.Chance(40) {
		limit = 0
	}
	g := ref.NewGen(c.R)
	w := &recordWriter{}
	col := k.make(limit, w)
	c.Event("collector:" + k.name)
	var ops strings.Builder
	fmt.Fprintf(&ops, "%s %d:", k.name, limit)
	var meta *Doc
	var pending []*Doc
	var written bytes.Buffer
	var results []kept
	render := func() []byte {
		var out []byte
		if meta != nil {
			out = append(out, k.encode(c, meta)...)
		}
		for _, d := range pending {
			out = append(out, k.encode(c, d)...)
		}
		return out
	}
	flush := func() {
		if len(pending) > 0 {
			written.Write(render())
			pending = nil
		}
	}
	check := func() {
		if got := w.bytes(); !bytes.Equal(got, written.Bytes()) {
			c.Note("want", "%s", hexs(written.Bytes()))
			c.Note("got", "%s", hexs(got))
			c.Failf("output", "%s: the output differs: %s", k.name, diffAt(got, written.Bytes()))
		}
	}
	cur := all[0]
	for range n {
		c.Note("ops", "%s", ops.String())
		op := c.R.IntN(24)
		if large && op >= 16 && !c.R.Chance(40) {
			op = 0
		}
		switch {
		case op < 14:
			if c.R.Chance(4) && (!large || c.R.Chance(50)) {
				cur = mon.Pick(c.R, all)
			}
			d := cur.sample()
			if k.stream && len(pending) >= limit {
				flush()
			}
			if k.dynamic && len(pending) > 0 && shapeOf(recordedShape(pending[0])) != shapeOf(recordedShape(d)) {
				flush()
				c.Event("schema changes")
			}
			ok := len(pending) < limit && (len(pending) == 0 || len(pending[0].E) == len(d.E))
			fmt.Fprintf(&ops, " add(%d)=%v", len(d.E), ok)
			c.Note("ops", "%s", ops.String())
			in, reuse := sampleInput(c.R, d)
			if err := col.Add(in); (err == nil) != ok {
				c.Failf("add", "%s: adding a sample: %v, expected success: %v", k.name, err, ok)
			}
			reuse()
			if ok {
				pending = append(pending, d)
				c.Event("samples")
			} else {
				c.Event("refused")
			}
		case op < 16:
			in := badInput(c)
			fmt.Fprintf(&ops, " bad(%T)", in)
			full := k.stream && len(pending) >= limit
			before := w.count()
			if err := col.Add(in); err == nil {
				c.Failf("add", "%s: adding %T %v gave no error", k.name, in, in)
			}
			if full && w.count() > before {
				flush()
			}
		case op < 18:
			g.Budget, g.Depth = 60, 2
			meta = g.Doc()
			var in any
			raw := meta.Encode()
			in = raw
			if c.R.Chance(3) {
				in, meta = nil, nil
			}
			if err := col.SetMetadata(in); err != nil {
				c.Failf("metadata", "%s: setting the metadata: %v", k.name, err)
			}
			wipe(c.R, raw)
			fmt.Fprintf(&ops, " meta(%v)", meta != nil)
		case op < 20:
			want := ftdc.CollectorInfo{SampleCount: len(pending)}
			if len(pending) > 0 {
				want.MetricsCount = len(pending[0].E)
			}
			fmt.Fprintf(&ops, " info")
			if info := col.Info(); info != want {
				c.Failf("info", "%s: Info is %+v, expected %+v", k.name, info, want)
			}
		case op < 22:
			fmt.Fprintf(&ops, " resolve")
			out, err := col.Resolve()
			if len(pending) == 0 {
				if err == nil {
					c.Failf("resolve", "%s: resolving an empty collector gave %d bytes and no error", k.name, len(out))
				}
				continue
			}
			if err != nil {
				c.Failf("resolve", "%s: resolving: %v", k.name, err)
			}
			if r := render(); !bytes.Equal(out, r) {
				c.Failf("output", "%s: Resolve differs: %s", k.name, diffAt(out, r))
			}
			results = append(results, keep("Resolve", out))
			c.Event("resolved")
		case op < 23:
			fmt.Fprintf(&ops, " reset")
			col.Reset()
			pending = nil
		default:
			fmt.Fprintf(&ops, " flush")
			if err := ftdc.FlushCollector(col, w); err != nil {
				c.Failf("flush", "%s: flushing: %v", k.name, err)
			}
			flush()
		}
		check()
	}
	c.State(ops.String())
	c.Sample("%s", ops.String())
	if err := ftdc.FlushCollector(col, w); err != nil {
		c.Failf("flush", "%s: flushing: %v", k.name, err)
	}
	flush()
	check()
	for i := range results {
		results[i].check(c)
	}
}

// ---- concurrency

// labelled is sample i of goroutine g.
func labelled(g, i, extra int) *Doc {
	d := (&Doc{}).Append("g", &Val{T: ref.Int32, I: int64(g)}).Append("i", &Val{T: ref.Int64, I: int64(i)})
	for x := range extra {
		d.Append(fmt.Sprintf("x%d", x), &Val{T: ref.Int64, I: int64(g*1000 + i*(x+1))})
	}
	return d
}

func pause(r *mon.Rand) {
	switch r.IntN(6) {
	case 0:
		time.Sleep(time.Duration(r.IntN(200)) * time.Microsecond)
	case 1, 2:
		for range r.IntN(300) {
			atomic.LoadInt32(&pauseSpin)
		}
	}
}

var pauseSpin int32

// plainWriter has no lock of its own: the collectors must not use it from
// several goroutines at the same time.
type plainWriter struct {
	buf   []byte
	calls int
}

func (w *plainWriter) Write(b []byte) (int, error) {
	w.buf = append(w.buf, b...)
	w.calls++
	return len(b), nil
}

func forks(c *C, n int) []*mon.Rand {
	out := make([]*mon.Rand, n)
	for i := range out {
		out[i] = mon.NewRand(int64(c.R.Uint64()>>1), "fork", i)
	}
	return out
}

// checkLabels compares a stream to the acknowledged samples: complete when
// all of them must be there, otherwise some first samples of each goroutine.
func checkLabels(c *C, what string, data []byte, acked [][]*Doc, complete bool) {
	chunks, err := ref.FTDCDecode(data)
	if err != nil {
		c.Failf("format", "%s: %v", what, err)
	}
	if rd, err := readStructuredFrom(c, bytes.NewReader(data)); err != nil {
		c.Failf("read", "%s: %v", what, err)
	} else {
		n := 0
		for _, ch := range chunks {
			n += len(ch.Samples)
		}
		if len(rd) != n {
			c.Failf("read", "%s: %d samples read of %d", what, len(rd), n)
		}
	}
	next := make([]int, len(acked))
	var order strings.Builder
	for _, ch := range chunks {
		for _, d := range ch.Samples {
			g := int(d.E[0].V.I)
			fmt.Fprintf(&order, "%d,", g)
			if g < 0 || g >= len(acked) || next[g] >= len(acked[g]) {
				c.Failf("samples", "%s: more samples of goroutine %d than were added", what, g)
			}
			if w := acked[g][next[g]]; !ref.Equal(d, w) {
				c.Failf("samples", "%s: sample %d of goroutine %d is %v, expected %v (lost, repeated, mixed or out of order)", what, next[g], g, d.E[1].V.I, w.E[1].V.I)
			}
			next[g]++
		}
	}
	if complete {
		for g := range acked {
			if next[g] != len(acked[g]) {
				c.Failf("samples", "%s: %d samples of goroutine %d are there, %d were acknowledged", what, next[g], g, len(acked[g]))
			}
		}
	}
	c.State(order.String())
}

func syncKind(c *C, w io.Writer, ctx context.Context) (string, ftdc.Collector, bool) {
	limit := c.R.Range(1, 20)
	var inner ftdc.Collector
	var name string
	stream := false
	switch c.R.IntN(5) {
	case 0:
		name, inner = "base", ftdc.NewBaseCollector(5000)
	case 1:
		name, inner = "batch", ftdc.NewBatchCollector(limit)
	case 2:
		name, inner = "dynamic", ftdc.NewDynamicCollector(limit)
	case 3:
		name, inner, stream = "streaming", ftdc.NewStreamingCollector(limit, w), true
	default:
		name, inner, stream = "streaming-dynamic", ftdc.NewStreamingDynamicCollector(limit, w), true
	}
	if ctx != nil {
		return "buffered(" + name + ")", ftdc.NewBufferedCollector(ctx, c.R.IntN(10), inner), stream
	}
	return "synchronized(" + name + ")", ftdc.NewSynchronizedCollector(inner), stream
}

func f08Concurrent(c *C) {
	w := &plainWriter{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var bctx context.Context
	if c.R.Bool() {
		bctx = ctx
	}
	name, col, stream := syncKind(c, w, bctx)
	c.Event("collector:" + name)
	n := c.R.Range(2, 6)
	per := c.R.Range(3, 40)
	acked := make([][]*Doc, n)
	rs := forks(c, n+4)
	extra := c.R.IntN(3)
	c.Note("collector", "%s", name)
	// what each will add, for those who look at it meanwhile
	for g := range n {
		for i := range per {
			acked[g] = append(acked[g], labelled(g, i, extra))
		}
	}
	var adders sync.WaitGroup
	var stop atomic.Bool
	var added atomic.Int64
	for g := range n {
		adders.Add(1)
		c.Go(func() {
			defer adders.Done()
			for i := range per {
				pause(rs[g])
				raw := acked[g][i].Encode()
				if err := col.Add(raw); err != nil {
					c.Failf("add", "%s: %v", name, err)
				}
				added.Add(1)
				wipe(rs[g], raw)
			}
		})
	}
	watch := func(r *mon.Rand, fn func(r *mon.Rand) bool) {
		for i := range 1 + r.IntN(2) {
			r := mon.NewRand(int64(r.Uint64()>>1), "watch", i)
			c.Go(func() {
				for !stop.Load() && fn(r) {
					pause(r)
				}
			})
		}
	}
	flushing := c.R.Bool()
	if flushing {
		watch(rs[n], func(r *mon.Rand) bool {
			if err := ftdc.FlushCollector(col, w); err != nil {
				c.Failf("flush", "%s: %v", name, err)
			}
			c.Event("concurrent flushes")
			time.Sleep(time.Duration(r.IntN(400)) * time.Microsecond)
			return true
		})
	}
	if c.R.Bool() {
		watch(rs[n+1], func(r *mon.Rand) bool {
			low := added.Load()
			info := col.Info()
			high := added.Load() + int64(n) // those being added
			if int64(info.SampleCount) > high || info.SampleCount < 0 {
				c.Failf("info", "%s: %d samples when at most %d were added", name, info.SampleCount, high)
			}
			if !flushing && !stream && int64(info.SampleCount) < low {
				c.Failf("info", "%s: %d samples when at least %d were added", name, info.SampleCount, low)
			}
			c.Event("concurrent Info")
			return true
		})
	}
	if !flushing && !stream && c.R.Bool() {
		watch(rs[n+2], func(r *mon.Rand) bool {
			low := added.Load()
			out, err := col.Resolve()
			if err != nil {
				if low > 0 {
					c.Failf("resolve", "%s: %v", name, err)
				}
				return true
			}
			checkLabels(c, name+": Resolve meanwhile", out, acked, false)
			time.Sleep(time.Duration(r.IntN(1000)) * time.Microsecond)
			return true
		})
	}
	if c.R.Bool() {
		meta := (&Doc{}).Append("m", &Val{T: ref.Int64, I: 1}).Encode()
		watch(rs[n+3], func(r *mon.Rand) bool {
			if err := col.SetMetadata(clone(meta)); err != nil {
				c.Failf("metadata", "%s: %v", name, err)
			}
			time.Sleep(50 * time.Microsecond)
			return true
		})
	}
	adders.Wait()
	stop.Store(true)
	c.Wait()
	if err := ftdc.FlushCollector(col, w); err != nil {
		c.Failf("flush", "%s: %v", name, err)
	}
	checkLabels(c, name, w.buf, acked, true)
	c.EventN("samples", n*per)
}

// f08Cancelled: after the context ends, the samples that were taken are there.
func f08Cancelled(c *C) {
	w := &plainWriter{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	name, col, _ := syncKind(c, w, ctx)
	n := c.R.Range(1, 5)
	rs := forks(c, n+1)
	acked := make([][]*Doc, n)
	after := time.Duration(c.R.IntN(1500)) * time.Microsecond
	c.Go(func() {
		time.Sleep(after)
		cancel()
	})
	for g := range n {
		c.Go(func() {
			for i := 0; i < 3000; i++ {
				pause(rs[g])
				d := labelled(g, i, 1)
				if err := col.Add(d.Encode()); err != nil {
					if ctx.Err() == nil {
						c.Failf("add", "%s: %v", name, err)
					}
					c.Event("adds refused after the end")
					return
				}
				acked[g] = append(acked[g], d)
			}
		})
	}
	c.Wait()
	cancel()
	if err := col.Add(labelled(0, 0, 1).Encode()); err == nil {
		// may be taken: then it's the last one of the first goroutine
		acked[0] = append(acked[0], labelled(0, 0, 1))
	}
	total := 0
	for g := range acked {
		total += len(acked[g])
	}
	c.EventN("acknowledged before the end", total)
	if info := col.Info(); strings.Contains(name, "(b") && info.SampleCount != total {
		c.Failf("info", "%s: %d samples, %d were acknowledged", name, info.SampleCount, total)
	}
	if err := ftdc.FlushCollector(col, w); err != nil {
		c.Failf("flush", "%s: %v", name, err)
	}
	checkLabels(c, name, w.buf, acked, true)
}

// gated waits before it takes a sample.
type gated struct {
	ftdc.Collector
	gate chan struct{}
}

func (g *gated) Add(in any) error {
	<-g.gate
	return g.Collector.Add(in)
}

// f08Backlog: what's in the buffer when the collection is cancelled is
// collected, however much it is.
func f08Backlog(c *C) {
	r := c.R
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	n := mon.Pick(r, []int{0, 1, 2, 10, 60, 100, 101, 128, 256, 257, 600, 1025, 2000})
	size := n + r.IntN(3)
	inner := &gated{ftdc.NewDynamicCollector(r.Range(1, 300)), make(chan struct{})}
	col := ftdc.NewBufferedCollector(ctx, size, inner)
	var acked []*Doc
	for i := range n {
		d := labelled(0, i, 1)
		if err := col.Add(d.Encode()); err != nil {
			c.Failf("add", "sample %d of %d: %v", i, n, err)
		}
		acked = append(acked, d)
	}
	if r.Chance(4) { // before the end
		close(inner.gate)
	} else {
		cancel()
		time.AfterFunc(time.Duration(r.IntN(1000))*time.Microsecond, func() { close(inner.gate) })
	}
	w := &plainWriter{}
	switch r.IntN(3) {
	case 0:
		if got := col.Info().SampleCount; got != n {
			c.Failf("info", "%d samples, %d were acknowledged", got, n)
		}
	case 1:
		out, err := col.Resolve()
		if n > 0 && err != nil {
			c.Failf("resolve", "%v", err)
		}
		checkLabels(c, "Resolve", out, [][]*Doc{acked}, true)
	}
	if err := ftdc.FlushCollector(col, w); err != nil {
		c.Failf("flush", "%v", err)
	}
	checkLabels(c, "backlog", w.buf, [][]*Doc{acked}, true)
	c.EventN("samples in the buffer", n)
	c.State(n, size)
}

// f08Errors: what goes wrong behind the buffer is reported later.
func f08Errors(c *C) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	size := c.R.IntN(8)
	col := ftdc.NewBufferedCollector(ctx, size, ftdc.NewBatchCollector(100))
	n := c.R.Range(1, 20)
	for i := range n {
		if err := col.Add(labelled(0, i, 0).Encode()); err != nil {
			c.Failf("add", "%v", err)
		}
	}
	bad := c.R.Bool()
	early := false
	if bad {
		early = col.Add(birch.DC.Elements(birch.EC.Int64("other", 1))) != nil
	}
	if c.R.Bool() {
		cancel()
	}
	var w plainWriter
	var err error
	if c.R.Bool() {
		_, err = col.Resolve()
	} else {
		err = ftdc.FlushCollector(col, &w)
	}
	if bad && !early && err == nil {
		c.Failf("no-error", "a sample that the collector refused behind the buffer was reported nowhere")
	}
	if !bad && err != nil {
		c.Failf("resolve", "%v", err)
	}
	c.Event(fmt.Sprintf("buffered errors: %v", bad))
	c.State(size, n, bad)
}
