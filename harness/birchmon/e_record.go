package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/tychoish/birch/x/ftdc"
	"github.com/tychoish/birch/x/ftdc/events"
	"github.com/tychoish/fun/dt/hdrhist"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	mon.Register(&mon.Property{
		ID:   "E02",
		Rule: "a history of events and other operations on an event collector over a real or failing FTDC collector, compared to the running sums; a case is non-trivial when the output is new",
		Assumptions: []string{
			"the intervals of an interval collector are judged by the earliest and latest time at which each call can have looked at the clock",
			"how often a random collector samples is judged at eight standard deviations",
		},
		Workloads: []mon.Workload{
			{Name: "histories", Quick: 6000, Thorough: 500000, Run: e02History},
			{Name: "interval", Quick: 300, Thorough: 6000, Run: e02Interval},
			{Name: "buffered", Quick: 1000, Thorough: 60000, Run: e02Buffered},
			{Name: "random", Quick: 60, Thorough: 2000, Run: e02Random},
			{Name: "synchronized", Quick: 150, Thorough: 10000, Race: true, Run: e02Concurrent},
		},
	})
	mon.Register(&mon.Property{
		ID:   "E03",
		Rule: "a history of iterations on a recorder; what it persists, and when, is compared to the running sums; a case is non-trivial when the sequence of persisted values is new",
		Assumptions: []string{
			"data is recorded within iterations, or before an EndIteration",
			"measured times are judged by the earliest and latest time at which each call can have looked at the clock",
			"histograms hold counts of up to 10 thousand and times of up to a minute",
		},
		Workloads: []mon.Workload{
			{Name: "histories", Quick: 50000, Thorough: 1500000, Run: e03History},
			{Name: "intervals", Quick: 400, Thorough: 8000, Run: e03Intervals},
			{Name: "histograms", Quick: 120, Thorough: 1500, Run: e03Histograms},
		},
	})
	mon.Register(&mon.Property{
		ID:   "E04",
		Rule: "goroutines use one synchronized or interval recorder, with random delays and under the race detector; the totals persisted are compared to what was recorded; a case is non-trivial when the sequence of persisted values is new",
		Assumptions: []string{
			"only the interval recorders and the synchronized ones are for several goroutines",
		},
		Workloads: []mon.Workload{
			{Name: "concurrent", Quick: 3000, Thorough: 30000, Race: true, Run: e04Concurrent},
			{Name: "tests", Quick: 3000, Thorough: 20000, Race: true, Run: e04Tests},
			{Name: "histograms", Quick: 30, Thorough: 300, Race: true, Run: e04Histograms},
			{Name: "background", Quick: 60, Thorough: 600, Serial: true, Run: e04Background},
		},
	})
}

// ---- collectors

var errCollect = errors.New("the collector fails")

// failingCollector refuses some of the samples.
type failingCollector struct {
	ftdc.Collector
	fail func() bool
}

func (f *failingCollector) Add(in any) error {
	if f.fail() {
		return errCollect
	}
	return f.Collector.Add(in)
}

func clonePerf(p *events.Performance) *events.Performance { out := *p; return &out }

func e02History(c *C) {
	r := c.R
	kind := r.IntN(6)
	step := mon.Pick(r, []int{1, 2, 3, 5, 10, 100})
	limit := mon.Pick(r, []int{1, 2, 5, 100, 1000})
	dynamic := r.Bool()
	newBase := func() ftdc.Collector {
		if dynamic {
			return ftdc.NewDynamicCollector(limit)
		}
		return ftdc.NewBatchCollector(limit)
	}
	failing := r.Chance(3)
	failed := false
	inner := &failingCollector{Collector: newBase(), fail: func() bool {
		failed = failing && r.Chance(4)
		return failed
	}}
	var col events.Collector
	var name string
	summing := true
	switch kind {
	case 0:
		name, col = "basic", events.NewBasicCollector(inner)
	case 1:
		name, col, summing = "passthrough", events.NewPassthroughCollector(inner), false
	case 2:
		name, col = fmt.Sprintf("sampling(%d)", step), events.NewSamplingCollector(inner, step)
	case 3:
		p := mon.Pick(r, []int{101, 1000, 0, -1})
		name, col = fmt.Sprintf("random(%d)", p), events.NewRandomSamplingCollector(inner, true, p)
		if p <= 0 {
			kind = 6
		}
	case 4:
		name, col = "interval(0)", events.NewIntervalCollector(inner, 0)
	default:
		name, col = "interval(1h)", events.NewIntervalCollector(inner, time.Hour)
	}
	if r.Chance(3) {
		name, col = "synchronized("+name+")", events.NewSynchronizedCollector(col)
	}
	c.Event("collector: " + name)
	var sum *events.Performance
	count := 0
	var want []*Doc
	var meta *Doc
	g := ref.NewGen(r)
	g.Budget = 60
	trace := []any{name}
	check := func(what string) {
		raw, err := col.Resolve()
		if len(want) == 0 {
			if err == nil && len(raw) != 0 {
				c.Failf("resolve", "%s: %d bytes of no samples", what, len(raw))
			}
			return
		}
		if err != nil {
			c.Failf("resolve", "%s: %v", what, err)
		}
		i := 0
		chunks := decodeFTDC(c, what, raw)
		for _, ch := range chunks {
			for _, s := range ch.Samples {
				if i >= len(want) {
					c.Failf("samples", "%s: more than %d samples", what, len(want))
				}
				if !ref.Equal(s, want[i]) {
					c.Note("got", "%s", hexs(s.Encode()))
					c.Note("want", "%s", hexs(want[i].Encode()))
					c.Failf("samples", "%s of %s: sample %d of %d is wrong: %s", what, name, i, len(want), diffAt(s.Encode(), want[i].Encode()))
				}
				i++
			}
		}
		if i != len(want) {
			c.Failf("samples", "%s of %s: %d samples, expected %d", what, name, i, len(want))
		}
		if meta != nil {
			if !bytes.Equal(chunks[0].Meta, meta.Encode()) {
				c.Failf("metadata", "%s of %s: the metadata is lost", what, name)
			}
		}
		c.EventN("samples compared", i)
	}
	ops := r.Range(1, 25)
	if r.Chance(80) {
		ops = r.Range(100, 1500)
	}
	for range ops {
		op := r.IntN(20)
		if ops > 25 && !r.Chance(10) {
			op = r.IntN(15)
		}
		switch {
		case op < 15:
			in := genPerf(r)
			if r.Chance(4) {
				in.ID = 0
			}
			keep := *in
			if sum == nil || !summing {
				sum = clonePerf(&keep)
			} else {
				addPerf(sum, keep)
			}
			persist := true
			switch kind {
			case 2:
				persist = count%step == 0
			case 5:
				persist = count == 0
			case 6:
				persist = false
			}
			count++
			failed = false
			err := col.AddEvent(in)
			switch {
			case persist && failed:
				if !errors.Is(err, errCollect) {
					c.Failf("error", "%s: AddEvent over a failing collector: %v", name, err)
				}
				c.Event("failures reported")
			case err != nil:
				c.Failf("add", "%s: AddEvent: %v", name, err)
			case persist:
				want = append(want, perfDoc(sum))
			}
			if *in != keep {
				c.Failf("changed", "%s: AddEvent changed the event: %+v, from %+v", name, *in, keep)
			}
			if r.Bool() {
				*in = *genPerf(r) // the caller reuses it
			}
			c.Event("events")
			trace = append(trace, keep.ID)
		case op == 15:
			if err := col.AddEvent(nil); err == nil {
				c.Failf("nil", "%s: AddEvent(nil) is accepted", name)
			}
		case op == 16:
			if err := col.Add(mon.Pick(r, []any{genPerf(r), map[string]int{"a": 1}, nil, 3})); err != nil {
				c.Failf("add", "%s: Add: %v", name, err)
			}
			trace = append(trace, "add")
		case op == 17:
			if info := col.Info(); info.SampleCount != len(want) {
				c.Failf("info", "%s: Info has %d samples of %d", name, info.SampleCount, len(want))
			}
			if len(want) > 0 {
				check("Resolve")
			}
			trace = append(trace, "resolve")
		case op == 18 && r.Chance(3):
			col.Reset()
			want, meta = nil, nil
			if info := col.Info(); info.SampleCount != 0 {
				c.Failf("info", "%s: Info has %d samples after Reset", name, info.SampleCount)
			}
			trace = append(trace, "reset")
		case op == 19 && len(want) == 0:
			meta = g.Doc()
			if err := col.SetMetadata(bsonBytes(meta.Encode())); err != nil {
				c.Failf("metadata", "%s: SetMetadata: %v", name, err)
			}
			trace = append(trace, "metadata")
		}
	}
	check("the output")
	c.State(trace...)
	c.Sample("%v", trace)
}

type call struct{ from, to time.Time }

func e02Interval(c *C) {
	r := c.R
	dur := time.Duration(r.Range(200, 3000)) * time.Microsecond
	rec := &snapCollector{}
	col := events.NewIntervalCollector(rec, dur)
	if r.Bool() {
		col = events.NewSynchronizedCollector(col)
	}
	var sum *events.Performance
	var last *call
	for range r.Range(5, 60) {
		in := genPerf(r)
		if sum == nil {
			sum = clonePerf(in)
		} else {
			addPerf(sum, *in)
		}
		n := len(rec.perf)
		from := time.Now()
		if err := col.AddEvent(in); err != nil {
			c.Failf("add", "AddEvent: %v", err)
		}
		now := &call{from, time.Now()}
		switch len(rec.perf) - n {
		case 0:
			if last == nil {
				c.Failf("first", "the first event isn't recorded")
			}
			if now.from.Sub(last.to) >= dur {
				c.Failf("late", "an event %s after the last sample isn't recorded, with an interval of %s", now.from.Sub(last.to), dur)
			}
			c.Event("skipped")
		case 1:
			if last != nil && now.to.Sub(last.from) < dur {
				c.Failf("early", "an event %s after the last sample is recorded, with an interval of %s", now.to.Sub(last.from), dur)
			}
			if got := rec.perf[n].p; got != *sum {
				c.Failf("sum", "the sample is %+v, expected %+v", got, *sum)
			}
			last = now
			c.Event("recorded")
			c.State(rec.perf[n].p)
		default:
			c.Failf("twice", "%d samples of one event", len(rec.perf)-n)
		}
		if !r.Chance(4) {
			time.Sleep(time.Duration(r.Int64N(int64(dur))))
		}
	}
	c.Sample("%d samples in intervals of %s", len(rec.perf), dur)
}

func e02Random(c *C) {
	r := c.R
	percent := r.Range(1, 100)
	n := r.Range(2000, 8000)
	rec := &snapCollector{}
	col := events.NewRandomSamplingCollector(rec, r.Bool(), percent)
	var sum *events.Performance
	for range n {
		in := genPerf(r)
		if sum == nil {
			sum = clonePerf(in)
		} else {
			addPerf(sum, *in)
		}
		k := len(rec.perf)
		if err := col.AddEvent(in); err != nil {
			c.Failf("add", "AddEvent: %v", err)
		}
		if len(rec.perf) > k+1 || len(rec.perf) == k+1 && rec.perf[k].p != *sum {
			c.Failf("sum", "the sample isn't the sum of all the events")
		}
	}
	p := float64(percent) / 100
	dev := 8*math.Sqrt(p*(1-p)/float64(n)) + 0.002
	if got := float64(len(rec.perf)) / float64(n); math.Abs(got-p) > dev {
		c.Failf("rate", "%.4f of %d events are recorded, rather than %.2f", got, n, p)
	}
	c.EventN("events", n)
	c.EventN("recorded", len(rec.perf))
	c.State(percent, len(rec.perf))
	c.Sample("%d%%: %d of %d", percent, len(rec.perf), n)
}

// e02Buffered: the errors of a buffered collector are reported through the
// event collector around it, and what it holds is flushed.
func e02Buffered(c *C) {
	r := c.R
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	failed, n := 0, r.Range(1, 12)
	always, some := r.Chance(3), r.Bool()
	inner := &failingCollector{Collector: ftdc.NewBatchCollector(r.Range(1, 20)), fail: func() bool {
		if !always && !(some && r.Chance(6)) {
			return false
		}
		failed++
		return true
	}}
	buffered := ftdc.NewBufferedCollector(ctx, r.IntN(20), inner)
	var col events.Collector
	kind := r.IntN(5)
	switch kind {
	case 0:
		col = events.NewBasicCollector(buffered)
	case 1:
		col = events.NewPassthroughCollector(buffered)
	case 2:
		col = events.NewSamplingCollector(buffered, 1)
	case 3:
		col = events.NewRandomSamplingCollector(buffered, true, 1000)
	default:
		col = events.NewIntervalCollector(buffered, 0)
	}
	var fc ftdc.Collector = col
	if r.Bool() {
		col = events.NewSynchronizedCollector(col)
		fc = col
	}
	sampled := r.Chance(3)
	if sampled {
		fc = ftdc.NewSamplingCollector(time.Hour, fc)
	}
	var want []*Doc
	var sum *events.Performance
	// the events are given before anything is awaited: the random source
	// is the buffer's from here on.
	ins := make([]*events.Performance, n)
	for i := range ins {
		ins[i] = genPerf(r)
		ins[i].Timestamp = time.UnixMilli(int64(i))
	}
	flush := r.Bool()
	for _, in := range ins {
		if sum == nil || kind == 1 {
			sum = clonePerf(in)
		} else {
			addPerf(sum, *in)
		}
		want = append(want, perfDoc(sum))
		if err := col.AddEvent(in); err != nil {
			c.Failf("add", "AddEvent: %v", err)
		}
	}
	var out []byte
	var err error
	if flush {
		var buf bytes.Buffer
		err = ftdc.FlushCollector(fc, &buf)
		out = buf.Bytes()
	} else {
		out, err = fc.Resolve()
	}
	if failed > 0 {
		if err == nil {
			c.Failf("error", "%d of %d samples were refused behind the buffer, but there's no error (flush: %v)", failed, n, flush)
		}
		c.Event("errors reported")
		c.State(kind, n, failed, flush)
		return
	}
	if err != nil {
		c.Failf("error", "an error without a refused sample: %v", err)
	}
	k := 0
	for _, ch := range decodeFTDC(c, "the output", out) {
		for _, s := range ch.Samples {
			if k >= n || string(s.Encode()) != string(want[k].Encode()) {
				c.Failf("sum", "sample %d of %d: %s", k, n, diffAt(s.Encode(), want[min(k, n-1)].Encode()))
			}
			k++
			c.StateBytes(s.Encode())
		}
	}
	if k != n {
		c.Failf("lost", "%d of %d samples are output", k, n)
	}
	c.EventN("events", n)
	c.Sample("%d events through a buffer", n)
}

// e02Concurrent: a synchronized collector sums up the events of all goroutines.
func e02Concurrent(c *C) {
	workers := c.R.Range(2, 5)
	each := c.R.Range(5, 60)
	var col events.Collector
	step := 1
	inner := ftdc.NewDynamicCollector(c.R.Range(1, 50))
	switch c.R.IntN(3) {
	case 0:
		col = events.NewBasicCollector(inner)
	case 1:
		step = c.R.Range(1, 5)
		col = events.NewSamplingCollector(inner, step)
	default:
		col = events.NewIntervalCollector(inner, 0)
	}
	col = events.NewSynchronizedCollector(col)
	rs := forks(c, workers+2)
	var total atomic.Int64
	start := make(chan struct{})
	done := make(chan struct{})
	stopped := make(chan struct{})
	flushes := c.R.Chance(2)
	var out bytes.Buffer
	for i := range workers {
		c.Go(func() {
			r := rs[i]
			<-start
			for j := range each {
				n := r.Int64N(1000)
				if err := col.AddEvent(&events.Performance{Timestamp: time.UnixMilli(int64(j)), ID: int64(i + 1), Counters: events.PerformanceCounters{Number: 1, Operations: n}}); err != nil {
					c.Report("add", "AddEvent: %v", err)
				}
				total.Add(n)
				pause(r)
			}
		})
	}
	for i := range 2 {
		go func() {
			defer func() { stopped <- struct{}{} }()
			r := rs[workers+i]
			<-start
			for {
				select {
				case <-done:
					return
				default:
				}
				switch r.IntN(5) {
				case 0:
					if _, err := col.Resolve(); err != nil && col.Info().SampleCount > 0 {
						_ = err
					}
				case 4:
					// what is flushed is output, and gone.
					if i > 0 || !flushes {
						break
					}
					if err := ftdc.FlushCollector(col, &out); err != nil {
						c.Report("flush", "FlushCollector: %v", err)
					}
					c.Event("flushed")
				case 1:
					_ = col.Info()
				case 2:
					_ = col.SetMetadata(map[string]int{"a": 1})
				default:
					_ = col.Add(3)
				}
				time.Sleep(time.Duration(r.IntN(300)) * time.Microsecond)
			}
		}()
	}
	close(start)
	c.Wait()
	close(done)
	<-stopped
	<-stopped
	if flushes {
		if err := ftdc.FlushCollector(col, &out); err != nil {
			c.Failf("flush", "FlushCollector: %v", err)
		}
	} else {
		raw, err := col.Resolve()
		if err != nil {
			c.Failf("resolve", "Resolve: %v", err)
		}
		out.Write(raw)
	}
	n, ops := int64(0), int64(-1)
	for _, ch := range decodeFTDC(c, "the output", out.Bytes()) {
		for _, s := range ch.Samples {
			co := field(s, "counters").D
			got := field(co, "n").I
			want := n + int64(step)
			if n == 0 {
				want = 1
			}
			if got != want {
				c.Failf("sum", "the sample after that of %d events is of %d, expected %d", n, got, want)
			}
			if o := field(co, "ops").I; o < ops {
				c.Failf("sum", "the sum of operations falls from %d to %d", ops, o)
			} else {
				ops = o
			}
			n = got
			c.StateBytes(s.Encode())
		}
	}
	all := int64(workers * each)
	if n > all || all-n >= int64(step) {
		c.Failf("lost", "the last sample has %d of %d events, with every %dth recorded", n, all, step)
	}
	if n == all && ops != total.Load() {
		c.Failf("lost", "the last sample has %d operations of %d", ops, total.Load())
	}
	c.EventN("events", int(all))
	c.Sample("%d events of %d goroutines, every %dth recorded", all, workers, step)
}

func field(d *Doc, k string) *Val {
	for _, e := range d.E {
		if e.K == k {
			return e.V
		}
	}
	return &Val{}
}

// ---- recorders

type snap struct {
	p  events.Performance
	at time.Time
}

// snapCollector keeps what is added as it is then.
type snapCollector struct {
	mu    sync.Mutex
	perf  []snap
	hdr   []*events.PerformanceHDR
	totC  []events.PerformanceHDR
	keep  bool // the histograms
	fail  func() bool
	fails int
	next  ftdc.Collector
}

func (s *snapCollector) SetMetadata(any) error    { return nil }
func (s *snapCollector) Resolve() ([]byte, error) { return nil, nil }
func (s *snapCollector) Reset()                   {}
func (s *snapCollector) Info() ftdc.CollectorInfo { return ftdc.CollectorInfo{} }
func (s *snapCollector) Add(in any) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fail != nil && s.fail() {
		s.fails++
		return errCollect
	}
	switch p := in.(type) {
	case *events.Performance:
		s.perf = append(s.perf, snap{*p, time.Now()})
	case *events.PerformanceHDR:
		h := *p
		if s.keep {
			for _, x := range []**hdrhist.Histogram{&h.Counters.Number, &h.Counters.Operations, &h.Counters.Size, &h.Counters.Errors, &h.Timers.Duration, &h.Timers.Total} {
				*x = hdrhist.Import((*x).Export())
			}
		}
		s.hdr = append(s.hdr, &h)
		s.perf = append(s.perf, snap{events.Performance{Timestamp: p.Timestamp, ID: p.ID, Gauges: p.Gauges,
			Counters: events.PerformanceCounters{Number: p.Counters.Number.TotalCount(), Operations: p.Counters.Operations.TotalCount(),
				Size: p.Counters.Size.TotalCount(), Errors: p.Counters.Errors.TotalCount()},
			Timers: events.PerformanceTimers{Duration: time.Duration(p.Timers.Duration.TotalCount()), Total: time.Duration(p.Timers.Total.TotalCount())},
		}, time.Now()})
	default:
		return fmt.Errorf("unexpected %T", in)
	}
	if s.next != nil {
		return s.next.Add(in)
	}
	return nil
}

func (s *snapCollector) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.perf)
}

// timer is a fake of testing.B.
type timer struct {
	running              bool
	starts, stops, reset int
}

func (t *timer) StartTimer() { t.running = true; t.starts++ }
func (t *timer) StopTimer()  { t.running = false; t.stops++ }
func (t *timer) ResetTimer() { t.reset++ }

// span bounds a sum of measured times.
type span struct{ lo, hi time.Duration }

func e03History(c *C) { e03Run(c, c.R.IntN(4), false) }

// e03Intervals are the recorders that persist on intervals, with real pauses.
func e03Intervals(c *C) { e03Run(c, 4+c.R.IntN(2), true) }

func e03Run(c *C, kind int, slow bool) {
	r := c.R
	rec := &snapCollector{}
	var real ftdc.Collector
	if r.Bool() {
		real = ftdc.NewDynamicCollector(r.Range(1, 100))
		rec.next = real
	}
	failing := !slow && r.Chance(4)
	if failing {
		rec.fail = func() bool { return r.Chance(5) }
	}
	if slow && r.Chance(6) {
		failing = true
		fr := fork(c)
		rec.fail = func() bool { return fr.Chance(4) }
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var rr events.Recorder
	var name string
	made := time.Now()
	interval := time.Hour
	switch kind {
	case 0:
		name, rr = "raw", events.NewRawRecorder(rec)
	case 1:
		name, rr, interval = "grouped(0)", events.NewGroupedRecorder(rec, 0), 0
	case 2:
		name, rr = "grouped(1h)", events.NewGroupedRecorder(rec, interval)
	case 3:
		name, rr = "single", events.NewSingleRecorder(rec)
	case 4:
		interval = time.Duration(r.Range(200, 3000)) * time.Microsecond
		name, rr = "grouped", events.NewGroupedRecorder(rec, interval)
	default:
		interval = time.Duration(r.Range(200, 3000)) * time.Microsecond
		if r.Chance(4) {
			interval = time.Hour
		}
		name, rr = "interval", events.NewIntervalRecorder(ctx, rec, interval)
	}
	sums := name == "interval"
	var tm *timer
	if r.Chance(3) {
		name, rr = "synchronized "+name, events.NewSynchronizedRecorder(rr)
	}
	if r.Chance(3) {
		tm = &timer{}
		name, rr = "timed "+name, events.NewShimRecorder(rr, tm)
	}
	c.Event("recorder: " + name)

	// the state since the last EndTest or Reset.
	var model events.Performance
	var total span
	var base int          // samples before
	var seen int          // samples checked
	var began *call       // of the iteration
	var oldFrom time.Time // the same, of the sample before
	var oldSet []time.Time
	var segFrom time.Time // no point since the last sample began before this
	var set []time.Time   // by SetTime, since the last sample
	var idSet bool        // by SetID
	var lastPersist *call // by EndIteration
	var dirty bool        // there's something to persist
	var failsBefore int   // of the collector
	var errsSince bool    // the collector failed since the last EndTest or Reset
	var starts, stops, rs int
	trace := []any{kind, interval}
	state := events.PerformanceGauges{}
	reset := func() {
		model = events.Performance{}
		total = span{}
		began, set, idSet, dirty = nil, nil, false, false
		lastPersist = &call{} // the next iteration is persisted
		errsSince = false
		oldFrom, oldSet = time.Time{}, nil
		segFrom = time.Now()
	}
	mark := func() {
		if segFrom.IsZero() {
			segFrom = time.Now()
		}
	}
	segFrom = time.Now()
	lastPersist = &call{made, segFrom}
	// look at the samples that were added in the call.
	look := func(op string, now call, must, may bool) int {
		rec.mu.Lock()
		perf := rec.perf[seen:]
		fails := rec.fails
		rec.mu.Unlock()
		added := len(perf)
		failed := fails > failsBefore
		failsBefore = fails
		if failed {
			errsSince = true
		}
		if !sums {
			if added+b2i(failed) > 1 || added > 0 && !may {
				c.Failf("samples", "%s: %s adds %d samples", name, op, added)
			}
			if must && added == 0 && !failed {
				c.Failf("samples", "%s: %s adds no sample", name, op)
			}
		}
		for i, s := range perf {
			if s.p.Timestamp.IsZero() {
				c.Failf("timestamp", "%s: a sample of %s has no timestamp", name, op)
			}
			ok := false
			for _, t := range set {
				ok = ok || t.Equal(s.p.Timestamp)
			}
			fresh := !s.p.Timestamp.Before(segFrom.Add(-time.Microsecond)) && !s.p.Timestamp.After(s.at.Add(time.Microsecond))
			// EndTest may repeat the point of the last EndIteration.
			again := op == "EndTest" && (!oldFrom.IsZero() && !s.p.Timestamp.Before(oldFrom.Add(-time.Microsecond)) && !s.p.Timestamp.After(s.at))
			for _, t := range oldSet {
				again = again || op == "EndTest" && t.Equal(s.p.Timestamp)
			}
			if len(set) > 0 && !sums {
				if !set[len(set)-1].Equal(s.p.Timestamp) && !again {
					c.Failf("timestamp", "%s: a sample of %s has the timestamp %v, expected %v", name, op, s.p.Timestamp, set[len(set)-1])
				}
			} else if !ok && !fresh && !again {
				c.Failf("timestamp", "%s: a sample of %s has the timestamp %v, expected one from %v to %v", name, op, s.p.Timestamp, segFrom, s.at)
			}
			if (!sums || interval == time.Hour) && idSet && s.p.ID != model.ID {
				c.Failf("id", "%s: a sample of %s has the ID %d, expected %d", name, op, s.p.ID, model.ID)
			}
			if !sums {
				if s.p.Gauges != state {
					c.Failf("gauges", "%s: a sample of %s has %+v, expected %+v", name, op, s.p.Gauges, state)
				}
				if s.p.Counters != model.Counters {
					c.Failf("counters", "%s: a sample of %s has %+v, expected %+v", name, op, s.p.Counters, model.Counters)
				}
				if s.p.Timers.Duration != model.Timers.Duration {
					c.Failf("duration", "%s: a sample of %s has a duration of %s, expected %s", name, op, s.p.Timers.Duration, model.Timers.Duration)
				}
				if t := s.p.Timers.Total; t < total.lo || t > total.hi {
					c.Failf("total", "%s: a sample of %s has a total of %s, expected %s to %s", name, op, t, total.lo, total.hi)
				}
			}
			c.State(name, op, s.p.Counters, s.p.Gauges, i)
			seen++
		}
		if !sums && (added > 0 || failed) {
			oldFrom, oldSet = segFrom, set
			segFrom, set = time.Time{}, nil
		}
		if failed && added == 0 {
			return -1
		}
		return added
	}
	ending := func(op string, dur time.Duration, now call) {
		model.Counters.Number++
		model.Timers.Duration += dur
		if began != nil {
			total.lo += now.from.Sub(began.to)
			total.hi += now.to.Sub(began.from)
		}
		must, may := false, false
		switch kind {
		case 0, 1:
			must, may = true, true
		case 2, 4:
			may = true
			if lastPersist != nil {
				must = now.from.Sub(lastPersist.to) >= interval
				may = now.to.Sub(lastPersist.from) >= interval
			}
		}
		n := look(op, now, must, may)
		if n < 0 {
			lastPersist = nil
			dirty = false
		} else if n > 0 {
			lastPersist = &now
			dirty = false
		} else {
			dirty = true
		}
		began = nil
	}
	timed := func(fn func()) call {
		from := time.Now()
		fn()
		return call{from, time.Now()}
	}
	amount := func() int64 {
		switch r.IntN(6) {
		case 0:
			return 0
		case 1:
			return r.Int64N(1 << 40)
		case 2:
			return -r.Int64N(100)
		}
		return r.Int64N(100)
	}
	duration := func() time.Duration {
		if r.Chance(5) {
			return time.Duration(r.Int64N(int64(time.Hour)))
		}
		return time.Duration(r.Int64N(int64(time.Second)))
	}
	body := func() {
		for range r.IntN(6) {
			op := r.IntN(11)
			v := amount()
			var now call
			switch op {
			case 0:
				now = timed(func() { rr.IncOperations(v) })
				model.Counters.Operations += v
			case 1:
				now = timed(func() { rr.IncIterations(v) })
				model.Counters.Number += v
			case 2:
				now = timed(func() { rr.IncSize(v) })
				model.Counters.Size += v
			case 3:
				now = timed(func() { rr.IncError(v) })
				model.Counters.Errors += v
			case 4:
				now = timed(func() { rr.SetState(v) })
				state.State = v
			case 5:
				now = timed(func() { rr.SetWorkers(v) })
				state.Workers = v
			case 6:
				b := r.Bool()
				now = timed(func() { rr.SetFailed(b) })
				state.Failed = b
			case 7:
				now = timed(func() { rr.SetID(v) })
				model.ID, idSet = v, true
			case 8:
				t := genTime(r)
				if t.IsZero() {
					continue
				}
				now = timed(func() { rr.SetTime(t) })
				set = append(set, t)
			case 9:
				if kind == 0 {
					continue // it replaces the total of the raw recorder
				}
				d := duration()
				now = timed(func() { rr.SetTotalDuration(d) })
				total.lo += d
				total.hi += d
			default:
				if kind == 0 {
					continue
				}
				d := duration()
				now = timed(func() { rr.SetDuration(d) })
				model.Timers.Duration += d
			}
			look("a setter", now, false, false)
			trace = append(trace, op, v)
			if slow && r.Chance(5) {
				time.Sleep(time.Duration(r.IntN(2000)) * time.Microsecond)
			}
		}
	}
	checkTimer := func(op string, running bool) {
		if tm == nil {
			return
		}
		if tm.starts != starts || tm.stops != stops || tm.reset != rs || tm.running != running {
			c.Failf("timer", "%s: after %s the timer has %d starts, %d stops, %d resets and is running: %t, expected %d, %d, %d and %t", name, op, tm.starts, tm.stops, tm.reset, tm.running, starts, stops, rs, running)
		}
	}
	segments := r.Range(1, 4)
	for range segments {
		n := r.IntN(6)
		for range n {
			mark()
			switch r.IntN(6) {
			case 0: // no BeginIteration, for what is processed later
				t := genTime(r)
				if !t.IsZero() && r.Bool() {
					rr.SetTime(t)
					set = append(set, t)
				}
				body()
				running := tm != nil && tm.running
				d := duration()
				now := timed(func() { rr.EndIteration(d) })
				stops++
				_ = running
				ending("EndIteration", d, now)
				trace = append(trace, "end", d)
				checkTimer("EndIteration", false)
			default:
				from := time.Now()
				rr.BeginIteration()
				began = &call{from, time.Now()}
				starts++
				checkTimer("BeginIteration", true)
				look("BeginIteration", *began, false, false)
				body()
				if slow {
					time.Sleep(time.Duration(r.IntN(1500)) * time.Microsecond)
				}
				d := duration()
				now := timed(func() { rr.EndIteration(d) })
				stops++
				ending("EndIteration", d, now)
				trace = append(trace, "iteration", d)
				checkTimer("EndIteration", false)
			}
			c.Event("iterations")
		}
		if r.Chance(4) { // one that isn't ended
			mark()
			from := time.Now()
			rr.BeginIteration()
			began = &call{from, time.Now()}
			starts++
			look("BeginIteration", *began, false, false)
			body()
			dirty = true
			trace = append(trace, "begin")
		}
		if slow && r.Chance(3) {
			time.Sleep(time.Duration(r.IntN(8000)) * time.Microsecond)
		}
		running := tm != nil && tm.running
		if r.Chance(5) {
			rr.Reset()
			rs++
			checkTimer("Reset", running)
			look("Reset", call{}, false, false)
			if sums {
				time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond)
				if k := rec.count(); interval < time.Hour && k != seen {
					// a tick that was in progress.
					look("Reset", call{}, false, false)
				}
			}
			reset()
			base = seen
			trace = append(trace, "reset")
			continue
		}
		// a single recorder always has a point; the others have one to persist.
		mark()
		must := kind == 3 || dirty
		hi := time.Duration(0)
		if began != nil { // may be measured until now
			hi = time.Since(began.from) + time.Millisecond
		}
		_ = hi
		now := call{from: time.Now()}
		err := rr.EndTest()
		now.to = time.Now()
		look("EndTest", now, must && !sums, true)
		checkTimer("EndTest", running)
		trace = append(trace, "test")
		switch {
		case errsSince && !errors.Is(err, errCollect):
			c.Failf("error", "%s: the collector failed and EndTest returns %v", name, err)
		case !errsSince && err != nil:
			c.Failf("error", "%s: EndTest: %v", name, err)
		}
		c.Event("tests ended")
		if sums && !errsSince {
			rec.mu.Lock()
			got := events.Performance{}
			for _, s := range rec.perf[base:seen] {
				got.Counters.Number += s.p.Counters.Number
				got.Counters.Operations += s.p.Counters.Operations
				got.Counters.Size += s.p.Counters.Size
				got.Counters.Errors += s.p.Counters.Errors
				got.Timers.Duration += s.p.Timers.Duration
				got.Timers.Total += s.p.Timers.Total
			}
			var last *snap
			if seen > base {
				last = &rec.perf[seen-1]
			}
			rec.mu.Unlock()
			if got.Counters != model.Counters || got.Timers.Duration != model.Timers.Duration {
				c.Failf("sum", "%s: the %d samples sum up to %+v and %s, expected %+v and %s", name, seen-base, got.Counters, got.Timers.Duration, model.Counters, model.Timers.Duration)
			}
			if t := got.Timers.Total; t < total.lo || t > total.hi {
				c.Failf("sum", "%s: the samples' total is %s, expected %s to %s", name, t, total.lo, total.hi)
			}
			if last != nil && last.p.Gauges != state {
				c.Failf("gauges", "%s: the last sample has %+v, expected %+v", name, last.p.Gauges, state)
			}
			if dirty && last == nil {
				c.Failf("samples", "%s: EndTest persists nothing", name)
			}
		}
		if sums {
			time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond)
			if k := rec.count(); k != seen {
				c.Failf("stopped", "%s: %d samples are added after EndTest", name, k-seen)
			}
		}
		reset()
		base = seen
	}
	if real != nil && seen > 0 {
		raw, err := real.Resolve()
		if err != nil {
			c.Failf("resolve", "Resolve: %v", err)
		}
		i := 0
		for _, ch := range decodeFTDC(c, "the output", raw) {
			for _, s := range ch.Samples {
				if i < len(rec.perf) && !bytes.Equal(s.Encode(), perfDoc(&rec.perf[i].p).Encode()) {
					c.Failf("collected", "%s: sample %d is collected differently: %s", name, i, diffAt(s.Encode(), perfDoc(&rec.perf[i].p).Encode()))
				}
				i++
			}
		}
		if i != seen {
			c.Failf("collected", "%s: %d samples are collected of %d", name, i, seen)
		}
	}
	c.EventN("samples", seen)
	c.State(trace...)
	c.Sample("%s: %d samples: %v", name, seen, trace)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- histogram recorders

type hdrModel struct{ n, ops, size, errs, dur, total *hdrhist.Histogram }

func newHdrModel() *hdrModel {
	count := func() *hdrhist.Histogram { return hdrhist.New(0, 10000, 5) }
	dur := func() *hdrhist.Histogram { return hdrhist.New(int64(time.Microsecond), int64(time.Minute), 5) }
	return &hdrModel{count(), count(), count(), count(), dur(), dur()}
}

func e03Histograms(c *C) {
	r := c.R
	rec := &snapCollector{keep: true}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var rr events.Recorder
	var name string
	kind := r.IntN(5)
	switch kind {
	case 0:
		name, rr = "histogram", events.NewHistogramRecorder(rec)
	case 1:
		name, rr = "grouped histogram (0)", events.NewHistogramGroupedRecorder(rec, 0)
	case 2:
		name, rr = "grouped histogram (1h)", events.NewHistogramGroupedRecorder(rec, time.Hour)
	case 3:
		name, rr = "single histogram", events.NewSingleHistogramRecorder(rec)
	default:
		d := time.Hour
		if r.Bool() {
			d = time.Duration(r.Range(15, 40)) * time.Millisecond
		}
		name, rr = "interval histogram", events.NewIntervalHistogramRecorder(ctx, rec, d)
	}
	if r.Chance(3) {
		name, rr = "synchronized "+name, events.NewSynchronizedRecorder(rr)
	}
	c.Event("recorder: " + name)
	state := events.PerformanceGauges{}
	base := 0
	for range r.Range(1, 2) {
		m := newHdrModel()
		var bad bool // out of range
		var known int64
		rec1 := func(h *hdrhist.Histogram, v int64) {
			if h.RecordValue(v) != nil {
				bad = true
			}
		}
		iterations := r.Range(1, 4)
		persisted := 0
		var id int64
		var set time.Time // since the last sample
		var times []time.Time
		from := time.Now()
		begun := 0
		longest := time.Duration(0)
		for range iterations {
			start := time.Now()
			begins := !r.Chance(5)
			if begins {
				begun++
				rr.BeginIteration()
			}
			for range r.IntN(6) {
				v := r.Int64N(10000)
				if r.Chance(20) {
					v = mon.Pick(r, []int64{0, 10000, 1 << 40, math.MaxInt64, -1})
				}
				switch r.IntN(11) {
				case 9:
					id = v
					rr.SetID(id)
				case 10:
					t := genTime(r)
					if t.IsZero() {
						continue
					}
					set, times = t, append(times, t)
					rr.SetTime(t)
				case 0:
					rr.IncOperations(v)
					rec1(m.ops, v)
				case 1:
					rr.IncIterations(v)
					rec1(m.n, v)
				case 2:
					rr.IncSize(v)
					rec1(m.size, v)
				case 3:
					rr.IncError(v)
					rec1(m.errs, v)
				case 4:
					rr.SetState(v)
					state.State = v
				case 5:
					rr.SetWorkers(v)
					state.Workers = v
				case 6:
					state.Failed = r.Bool()
					rr.SetFailed(state.Failed)
				case 7:
					d := r.Int64N(int64(time.Minute))
					rr.SetDuration(time.Duration(d))
					rec1(m.dur, d)
				default:
					d := r.Int64N(int64(time.Minute))
					rr.SetTotalDuration(time.Duration(d))
					rec1(m.total, d)
					known++
				}
			}
			d := r.Int64N(int64(time.Minute))
			if r.Chance(30) {
				d = int64(48 * time.Hour)
			}
			if r.Chance(4) {
				time.Sleep(time.Duration(r.IntN(30)) * time.Millisecond)
			}
			rr.EndIteration(time.Duration(d))
			if begins {
				longest = max(longest, time.Since(start))
			}
			rec1(m.n, 1)
			rec1(m.dur, d)
			k := rec.count()
			switch kind {
			case 0, 1:
				if k != base+persisted+1 {
					c.Failf("samples", "%s: %d samples after %d iterations", name, k-base, persisted+1)
				}
				persisted++
				rec.mu.Lock()
				at := rec.hdr[k-1].Timestamp
				rec.mu.Unlock()
				if !set.IsZero() && !at.Equal(set) {
					c.Failf("timestamp", "%s: the sample of an iteration has the timestamp %v, instead of %v", name, at, set)
				}
				if set.IsZero() && (at.Before(start.Add(-time.Microsecond)) || at.After(time.Now())) {
					c.Failf("timestamp", "%s: the sample of an iteration has the timestamp %v, instead of one from %v", name, at, start)
				}
				set = time.Time{}
			case 2: // the first of a test, and no other within the hour
				if k != base+1 {
					c.Failf("samples", "%s: %d samples within an hour", name, k-base)
				}
			case 3:
				if k != base {
					c.Failf("samples", "%s: %d samples before EndTest", name, k-base)
				}
			}
			c.Event("iterations")
		}
		err := rr.EndTest()
		if bad != (err != nil) {
			c.Failf("error", "%s: EndTest returns %v; values out of range: %t", name, err, bad)
		}
		rec.mu.Lock()
		got := rec.hdr[base:]
		rec.mu.Unlock()
		if len(got) == 0 {
			c.Failf("samples", "%s: no sample", name)
		}
		last := got[len(got)-1]
		if kind == 4 { // what the samples sum up to
			sum := newHdrModel()
			for _, s := range got {
				sum.n.Merge(s.Counters.Number)
				sum.ops.Merge(s.Counters.Operations)
				sum.size.Merge(s.Counters.Size)
				sum.errs.Merge(s.Counters.Errors)
				sum.dur.Merge(s.Timers.Duration)
				sum.total.Merge(s.Timers.Total)
			}
			cp := *last
			last = &cp
			last.Counters = events.PerformanceCountersHDR{Number: sum.n, Operations: sum.ops, Size: sum.size, Errors: sum.errs}
			last.Timers = events.PerformanceTimersHDR{Duration: sum.dur, Total: sum.total}
			// Merge knows values by what is equivalent to them.
		}
		for _, h := range []struct {
			what      string
			got, want *hdrhist.Histogram
		}{
			{"iterations", last.Counters.Number, m.n}, {"operations", last.Counters.Operations, m.ops}, {"sizes", last.Counters.Size, m.size},
			{"errors", last.Counters.Errors, m.errs}, {"durations", last.Timers.Duration, m.dur},
		} {
			if !h.got.Equals(h.want) {
				c.Failf("histogram", "%s: the histogram of %s has %d values from %d to %d, expected %d from %d to %d (or they differ inside)", name, h.what,
					h.got.TotalCount(), h.got.Min(), h.got.Max(), h.want.TotalCount(), h.want.Min(), h.want.Max())
			}
		}
		n := last.Timers.Total.TotalCount() - known
		if n != int64(begun) {
			c.Failf("total", "%s: %d times are measured of %d iterations", name, n, begun)
		}
		if most := last.Timers.Total.Max(); known == 0 && most > int64(longest)+int64(longest)/100+1000000 {
			c.Failf("total", "%s: an iteration of at most %v is measured as %v", name, longest, time.Duration(most))
		}
		if last.Gauges != state {
			c.Failf("gauges", "%s: %+v, expected %+v", name, last.Gauges, state)
		}
		for _, s := range got {
			known := false
			for _, t := range times {
				known = known || t.Equal(s.Timestamp)
			}
			if !known && (s.Timestamp.Before(from.Add(-time.Microsecond)) || s.Timestamp.After(time.Now())) {
				c.Failf("timestamp", "%s: the timestamp is %v, expected from %v", name, s.Timestamp, from)
			}
		}
		if kind < 4 && last.ID != id {
			c.Failf("id", "%s: the last sample has the ID %d, expected %d", name, last.ID, id)
		}
		if kind == 3 && !set.IsZero() && !last.Timestamp.Equal(set) {
			c.Failf("timestamp", "%s: the sample has the timestamp %v, instead of %v", name, last.Timestamp, set)
		}
		if kind == 0 && len(times) == 0 {
			for i := 2; i <= iterations && i <= len(got); i++ {
				if !got[i-1].Timestamp.After(got[i-2].Timestamp) {
					c.Failf("timestamp", "%s: sample %d has the timestamp %v, after %v", name, i-1, got[i-1].Timestamp, got[i-2].Timestamp)
				}
			}
		}
		base = rec.count()
		c.State(name, last.Counters.Number.TotalCount(), last.Counters.Operations.TotalCount(), last.Timers.Duration.Max(), state)
	}
	c.EventN("samples", base)
	c.Sample("%s: %d samples", name, base)
}

// ---- concurrency

func e04Concurrent(c *C) {
	rec := &snapCollector{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var rr events.Recorder
	var name string
	sums := false
	switch c.R.IntN(6) {
	case 0:
		name, rr = "raw", events.NewSynchronizedRecorder(events.NewRawRecorder(rec))
	case 1:
		name, rr = "grouped", events.NewSynchronizedRecorder(events.NewGroupedRecorder(rec, time.Duration(c.R.IntN(500))*time.Microsecond))
	case 2:
		name, rr = "single", events.NewSynchronizedRecorder(events.NewSingleRecorder(rec))
	case 3:
		name, rr, sums = "synchronized interval", events.NewSynchronizedRecorder(events.NewIntervalRecorder(ctx, rec, time.Duration(c.R.Range(100, 2000))*time.Microsecond)), true
	default:
		name, rr, sums = "interval", events.NewIntervalRecorder(ctx, rec, time.Duration(c.R.Range(100, 2000))*time.Microsecond), true
	}
	c.Event("recorder: " + name)
	base := 0
	for range c.R.Range(1, 2) {
		workers := c.R.Range(2, 5)
		each := c.R.Range(10, 120)
		rs := forks(c, workers)
		var n, ops, size, errs, dur atomic.Int64
		rr.BeginIteration()
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range workers {
			wg.Add(1)
			c.Go(func() {
				defer wg.Done()
				r := rs[i]
				<-start
				for range each {
					v := r.Int64N(1000)
					switch r.IntN(13) {
					case 0:
						rr.IncOperations(v)
						ops.Add(v)
					case 1:
						rr.IncIterations(v)
						n.Add(v)
					case 2:
						rr.IncSize(v)
						size.Add(v)
					case 3:
						rr.IncError(v)
						errs.Add(v)
					case 4:
						rr.SetState(v)
					case 5:
						rr.SetWorkers(v)
					case 6:
						rr.SetFailed(r.Bool())
					case 7:
						rr.SetID(v)
					case 8:
						rr.SetTime(time.Now())
					case 9:
						if name != "raw" {
							rr.SetDuration(time.Duration(v))
							dur.Add(v)
							rr.SetTotalDuration(time.Duration(v))
						}
					case 10:
						rr.BeginIteration()
					default:
						rr.EndIteration(time.Duration(v))
						n.Add(1)
						dur.Add(v)
					}
					pause(r)
				}
			})
		}
		close(start)
		wg.Wait()
		if c.Failed() {
			return
		}
		rr.BeginIteration()
		rr.SetState(7)
		rr.EndIteration(1)
		n.Add(1)
		dur.Add(1)
		rr.BeginIteration()
		if err := rr.EndTest(); err != nil {
			c.Failf("error", "%s: EndTest: %v", name, err)
		}
		rec.mu.Lock()
		perf := append([]snap(nil), rec.perf[base:]...)
		rec.mu.Unlock()
		got := events.Performance{}
		for i, s := range perf {
			if sums {
				got.Counters.Number += s.p.Counters.Number
				got.Counters.Operations += s.p.Counters.Operations
				got.Counters.Size += s.p.Counters.Size
				got.Counters.Errors += s.p.Counters.Errors
				got.Timers.Duration += s.p.Timers.Duration
			} else {
				g := s.p
				if g.Counters.Number < got.Counters.Number || g.Counters.Operations < got.Counters.Operations || g.Counters.Size < got.Counters.Size || g.Counters.Errors < got.Counters.Errors || g.Timers.Duration < got.Timers.Duration {
					c.Failf("falls", "%s: sample %d falls from %+v to %+v", name, i, got, g)
				}
				got = g
			}
			c.State(name, s.p.Counters, s.p.Timers.Duration)
		}
		want := events.PerformanceCounters{Number: n.Load(), Operations: ops.Load(), Size: size.Load(), Errors: errs.Load()}
		if got.Counters != want || got.Timers.Duration != time.Duration(dur.Load()) {
			c.Failf("totals", "%s: %d samples have %+v and %s in total, expected %+v and %s", name, len(perf), got.Counters, got.Timers.Duration, want, time.Duration(dur.Load()))
		}
		if g := perf[len(perf)-1].p.Gauges.State; g != 7 {
			c.Failf("gauges", "%s: the last sample has the state %d, expected 7", name, g)
		}
		if sums {
			time.Sleep(time.Duration(c.R.IntN(3000)) * time.Microsecond)
			if k := rec.count(); k != base+len(perf) {
				c.Failf("stopped", "%s: %d samples are added after EndTest", name, k-base-len(perf))
			}
		}
		base += len(perf)
		c.EventN("operations", workers*each)
		c.EventN("samples", len(perf))
	}
	c.Sample("%s: %d samples", name, base)
}

// e04Tests ends a test, or resets the recorder, while others record.
func e04Tests(c *C) {
	rec := &snapCollector{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var rr events.Recorder
	var name string
	exact := false
	every := time.Duration(c.R.Range(100, 2000)) * time.Microsecond
	switch c.R.IntN(6) {
	case 0:
		name, rr = "raw", events.NewSynchronizedRecorder(events.NewRawRecorder(rec))
	case 1:
		name, rr = "grouped", events.NewSynchronizedRecorder(events.NewGroupedRecorder(rec, every))
	case 2:
		name, rr, exact = "single", events.NewSynchronizedRecorder(events.NewSingleRecorder(rec)), true
	case 3:
		name, rr, exact = "synchronized interval", events.NewSynchronizedRecorder(events.NewIntervalRecorder(ctx, rec, every)), true
	default:
		name, rr, exact = "interval", events.NewIntervalRecorder(ctx, rec, every), true
	}
	reset := c.R.Chance(4)
	c.Event("recorder: " + name)
	workers := c.R.Range(2, 5)
	each := c.R.Range(5, 60)
	rs := forks(c, workers+1)
	var n, ops, dur atomic.Int64
	rr.BeginIteration()
	for i := range workers {
		c.Go(func() {
			r := rs[i]
			for range each {
				rr.BeginIteration()
				pause(r)
				v := r.Int64N(1000)
				rr.IncOperations(v)
				ops.Add(v)
				pause(r)
				rr.EndIteration(time.Duration(v))
				n.Add(1)
				dur.Add(v)
			}
		})
	}
	c.Go(func() {
		r := rs[workers]
		for range r.IntN(4) {
			time.Sleep(time.Duration(r.IntN(300)) * time.Microsecond)
		}
		if reset {
			rr.Reset()
			return
		}
		if err := rr.EndTest(); err != nil {
			c.Failf("error", "%s: EndTest: %v", name, err)
		}
	})
	c.Wait()
	if c.Failed() {
		return
	}
	rr.BeginIteration()
	rr.EndIteration(1)
	n.Add(1)
	dur.Add(1)
	if err := rr.EndTest(); err != nil {
		c.Failf("error", "%s: EndTest: %v", name, err)
	}
	rec.mu.Lock()
	perf := append([]snap(nil), rec.perf...)
	rec.mu.Unlock()
	var got, prev events.Performance
	for _, s := range perf {
		if !exact && s.p.Counters.Number >= prev.Counters.Number && s.p.Counters.Operations >= prev.Counters.Operations && s.p.Timers.Duration >= prev.Timers.Duration {
			// the next of the same test
			got.Counters.Number -= prev.Counters.Number
			got.Counters.Operations -= prev.Counters.Operations
			got.Timers.Duration -= prev.Timers.Duration
		}
		got.Counters.Number += s.p.Counters.Number
		got.Counters.Operations += s.p.Counters.Operations
		got.Timers.Duration += s.p.Timers.Duration
		prev = s.p
		c.State(name, s.p.Counters, s.p.Timers.Duration)
	}
	want := events.Performance{Counters: events.PerformanceCounters{Number: n.Load(), Operations: ops.Load()}, Timers: events.PerformanceTimers{Duration: time.Duration(dur.Load())}}
	more := got.Counters.Number > want.Counters.Number || got.Counters.Operations > want.Counters.Operations || got.Timers.Duration > want.Timers.Duration
	less := got.Counters.Number < want.Counters.Number || got.Counters.Operations < want.Counters.Operations || got.Timers.Duration < want.Timers.Duration
	if more || less && exact && !reset {
		c.Failf("totals", "%s: %d samples have %+v and %s in total, recorded were %+v and %s", name, len(perf), got.Counters, got.Timers.Duration, want.Counters, want.Timers.Duration)
	}
	c.EventN("operations", workers*each*3)
	c.EventN("samples", len(perf))
	c.Sample("%s: %d samples", name, len(perf))
}

func e04Histograms(c *C) {
	rec := &snapCollector{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var rr events.Recorder
	name, sums := "single histogram", false
	if c.R.Bool() {
		rr = events.NewSynchronizedRecorder(events.NewSingleHistogramRecorder(rec))
	} else {
		name, sums = "interval histogram", true
		rr = events.NewIntervalHistogramRecorder(ctx, rec, time.Duration(c.R.Range(30, 80))*time.Millisecond)
	}
	c.Event("recorder: " + name)
	workers := c.R.Range(2, 4)
	rs := forks(c, workers)
	var n, ops, size, errs, dur atomic.Int64
	rr.BeginIteration()
	for i := range workers {
		c.Go(func() {
			r := rs[i]
			for range r.Range(20, 200) {
				v := r.Int64N(1000)
				switch r.IntN(9) {
				case 0:
					rr.IncOperations(v)
					ops.Add(1)
				case 1:
					rr.IncIterations(v)
					n.Add(1)
				case 2:
					rr.IncSize(v)
					size.Add(1)
				case 3:
					rr.IncError(v)
					errs.Add(1)
				case 4:
					rr.SetState(v)
					rr.SetWorkers(v)
					rr.SetFailed(r.Bool())
				case 5:
					rr.SetID(v)
					rr.SetTime(time.Now())
				case 6:
					rr.SetDuration(time.Duration(v))
					rr.SetTotalDuration(time.Duration(v))
					dur.Add(1)
				case 7:
					rr.BeginIteration()
				default:
					rr.EndIteration(time.Duration(v))
					n.Add(1)
					dur.Add(1)
				}
				if r.Chance(4) {
					time.Sleep(time.Duration(r.IntN(1000)) * time.Microsecond)
				}
			}
		})
	}
	c.Wait()
	rr.BeginIteration()
	if err := rr.EndTest(); err != nil {
		c.Failf("error", "%s: EndTest: %v", name, err)
	}
	got := events.Performance{}
	for _, s := range rec.perf {
		if !sums {
			got = events.Performance{}
		}
		got.Counters.Number += s.p.Counters.Number
		got.Counters.Operations += s.p.Counters.Operations
		got.Counters.Size += s.p.Counters.Size
		got.Counters.Errors += s.p.Counters.Errors
		got.Timers.Duration += s.p.Timers.Duration
	}
	want := events.PerformanceCounters{Number: n.Load(), Operations: ops.Load(), Size: size.Load(), Errors: errs.Load()}
	if got.Counters != want || got.Timers.Duration != time.Duration(dur.Load()) {
		c.Failf("totals", "%s: %d samples have %+v and %d values in total, expected %+v and %d", name, len(rec.perf), got.Counters, got.Timers.Duration, want, dur.Load())
	}
	c.EventN("samples", len(rec.perf))
	c.State(name, want)
	c.Sample("%s: %d samples of %+v", name, len(rec.perf), want)
}

// e04Background: what the interval recorders run in the background works, and
// ends with the test or the context.
func e04Background(c *C) {
	r := c.R
	goroutines := runtime.NumGoroutine()
	rec := &snapCollector{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var rr events.Recorder
	name := "interval"
	interval := time.Duration(r.Range(200, 2000)) * time.Microsecond
	if r.Chance(8) {
		name, interval = "interval histogram", 30*time.Millisecond
		rr = events.NewIntervalHistogramRecorder(ctx, rec, interval)
	} else {
		rr = events.NewIntervalRecorder(ctx, rec, interval)
	}
	eventually := func(what string, ok func() bool) {
		deadline := time.Now().Add(25 * time.Second)
		for !ok() {
			if time.Now().After(deadline) {
				c.Failf("liveness", "%s: %s", name, what)
			}
			time.Sleep(200 * time.Microsecond)
		}
	}
	for round := range r.Range(1, 3) {
		before := rec.count()
		if r.Chance(6) {
			rr.IncOperations(1) // doesn't start it
			time.Sleep(3 * interval / 2)
			if k := rec.count(); k != before {
				c.Failf("early", "%s: %d samples before BeginIteration", name, k-before)
			}
			rr.Reset()
		}
		rr.BeginIteration()
		rr.IncOperations(3)
		if r.Bool() {
			rr.EndIteration(1)
		}
		ticks := r.Range(1, 3)
		eventually(fmt.Sprintf("no %d samples on intervals of %s in test %d", ticks, interval, round), func() bool { return rec.count() >= before+ticks })
		c.Event("samples on intervals awaited")
		switch r.IntN(3) {
		case 0:
			rr.Reset()
		default:
			if err := rr.EndTest(); err != nil {
				c.Failf("error", "%s: EndTest: %v", name, err)
			}
		}
		eventually("the background goroutine is still running 25 s after the end of the test", func() bool { return runtime.NumGoroutine() <= goroutines })
		k := rec.count()
		time.Sleep(interval + interval/2)
		if rec.count() != k {
			c.Failf("stopped", "%s: samples are added after the end of the test", name)
		}
		c.Event("tests ended")
	}
	rr.BeginIteration()
	time.Sleep(time.Duration(r.Int64N(int64(2 * interval))))
	cancel()
	eventually("the background goroutine is still running 25 s after its context was cancelled", func() bool { return runtime.NumGoroutine() <= goroutines })
	c.Event("contexts cancelled")
	c.State(name, interval, rec.count())
	c.Sample("%s: %d samples on intervals of %s", name, rec.count(), interval)
}
