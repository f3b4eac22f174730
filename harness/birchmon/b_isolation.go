package main

import (
	"bytes"
	"fmt"
	"io"
	"sync/atomic"

	"github.com/tychoish/birch"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	mon.Register(&mon.Property{
		ID:   "B08",
		Rule: "results (encodings, JSON, strings, exported values, maps, copies) are kept while more operations run on the same and on other documents, and while their owner overwrites them and what the documents were made of; a case is non-trivial when the shape of the document is new",
		Assumptions: []string{
			"documents read from a byte slice, and readers, may refer to that slice: only what is documented or written as a copy is expected to be one",
		},
		Workloads: []mon.Workload{
			{Name: "results", Quick: 20000, Thorough: 600000, Run: b08Results},
			{Name: "inputs", Quick: 60000, Thorough: 2000000, Run: b08Inputs},
			{Name: "copies", Quick: 30000, Thorough: 1000000, Run: b08Copies},
			{Name: "parallel-results", Quick: 600, Thorough: 15000, Race: true, Run: b08Parallel},
		},
	})
	mon.Register(&mon.Property{
		ID:   "B10",
		Rule: "goroutines read one document at the same time, in different ways and orders, under the race detector, and every result is compared to the model; a case is non-trivial when the shape of the document is new",
		Assumptions: []string{
			"the map view, the mutable views and conversions of nested documents that are still encoded are documented or written as lazy, and are left to single goroutines",
		},
		Workloads: []mon.Workload{
			{Name: "readers", Quick: 1500, Thorough: 40000, Race: true, Run: b10Readers},
			{Name: "live-documents", Quick: 1000, Thorough: 30000, Race: true, Run: b10Live},
			{Name: "shared-elements", Quick: 1000, Thorough: 30000, Race: true, Run: b10Shared},
		},
	})
}

type kept struct {
	name string
	live []byte
	snap []byte
}

func keep(name string, b []byte) kept { return kept{name, b, clone(b)} }

func (k *kept) check(c *C) {
	if !bytes.Equal(k.live, k.snap) {
		c.Failf("result-changed", "the result of %s changed after it was returned: %s", k.name, diffAt(k.live, k.snap))
	}
}

// results returned earlier don't change with later operations, and changing
// them doesn't change the document.
func b08Results(c *C) {
	r := c.R
	var docs []*birch.Document
	var models []*Doc
	for i := r.Range(1, 3); i > 0; i-- {
		g := ref.NewGen(r)
		g.Budget, g.Depth = min(g.Budget, 3000), min(g.Depth, 5)
		m := g.Doc()
		models = append(models, m)
		docs = append(docs, (&builder{r: r, live: r.Bool()}).doc(m))
	}
	c.State(models[0].Shape(), len(docs))
	c.Note("document", "%s", hexs(models[0].Encode()))
	results := []kept{}
	for n := r.Range(3, 14); n > 0; n-- {
		i := r.IntN(len(docs))
		d, m := docs[i], models[i]
		switch r.IntN(9) {
		case 0, 1:
			b, err := d.MarshalBSON()
			if err != nil || !bytes.Equal(b, m.Encode()) {
				c.Failf("encoding", "the document encodes differently: %v, %s", err, diffAt(b, m.Encode()))
			}
			results = append(results, keep("Document.MarshalBSON", b))
		case 2:
			b, err := d.MarshalJSON()
			if err != nil {
				c.Failf("json", "%v", err)
			}
			results = append(results, keep("Document.MarshalJSON", b))
		case 3:
			results = append(results, kept{"Document.String", []byte(d.String()), []byte(d.String())})
		case 4:
			if d.Len() == 0 {
				continue
			}
			e := d.ElementAt(uint(r.IntN(d.Len())))
			b, err := e.MarshalBSON()
			if err != nil {
				c.Failf("encoding", "%v", err)
			}
			results = append(results, keep("Element.MarshalBSON", b))
			if _, data, ok := e.Value().BinaryOK(); ok {
				results = append(results, keep("Value.Binary", data))
			}
			js, err := e.Value().MarshalJSON()
			if err != nil {
				c.Failf("json", "%v", err)
			}
			results = append(results, keep("Value.MarshalJSON", js))
		case 5:
			vals := []*birch.Value{}
			for e := range d.Iterator() {
				vals = append(vals, e.Value())
			}
			a := birch.NewArray(vals...)
			b, err := a.MarshalBSON()
			if err != nil {
				c.Failf("encoding", "%v", err)
			}
			if !bytes.Equal(b, m.EncodeArray()) {
				c.Failf("encoding", "the array encodes differently: %s", diffAt(b, m.EncodeArray()))
			}
			results = append(results, keep("Array.MarshalBSON", b))
			s := a.String()
			results = append(results, kept{"Array.String", []byte(s), []byte(s)})
			js, err := a.MarshalJSON()
			if err != nil {
				c.Failf("json", "%v", err)
			}
			results = append(results, keep("Array.MarshalJSON", js))
		case 6:
			var buf bytes.Buffer
			if _, err := d.WriteTo(&buf); err != nil {
				c.Failf("encoding", "%v", err)
			}
			results = append(results, keep("Document.WriteTo", buf.Bytes()))
		case 7: // the owner of a result overwrites it
			if len(results) == 0 {
				continue
			}
			j := r.IntN(len(results))
			k := results[j]
			results = append(results[:j], results[j+1:]...)
			for x := range k.live {
				k.live[x] ^= 0xff
			}
			// also beyond its length, in its capacity
			full := k.live[:cap(k.live)]
			for x := len(k.live); x < len(full); x++ {
				full[x] = 0xaa
			}
			c.Event("results overwritten")
		case 8:
			dm := d.Map()
			for k := range dm {
				dm[k] = birch.EC.String(k, "overwritten")
			}
			ex := d.ExportMap()
			for k := range ex {
				ex[k] = "overwritten"
			}
		}
		c.Event("results kept")
		for j := range results {
			results[j].check(c)
		}
	}
	for i := range docs {
		b, err := docs[i].MarshalBSON()
		if err != nil || !bytes.Equal(b, models[i].Encode()) {
			c.Failf("document-changed", "reading a document, or changing the results, changed it: %v, %s", err, diffAt(b, models[i].Encode()))
		}
	}
}

// the constructors copy what they are given.
func b08Inputs(c *C) {
	r := c.R
	g := ref.NewGen(r)
	g.Budget, g.Depth, g.MaxElems = 500, 2, 5
	data := r.Bytes(ref.Len(r, 500))
	sub := mon.Pick(r, []byte{0, 2, 4, 0x80})
	m := g.Doc()
	enc := m.Encode()
	c.StateBytes(append(clone(data), enc...))
	c.Note("input", "%s %s", hexs(data), hexs(enc))
	d1, d2, d3 := clone(data), clone(data), clone(data)
	r1, r2 := clone(enc), clone(enc)
	stream := clone(enc)
	sd := birch.DC.New()
	sr := bytes.NewReader(stream)
	if _, err := sd.ReadFrom(sr); err != nil {
		c.Failf("read", "%v", err)
	}
	rd, err := birch.NewFromIOReader(bytes.NewReader(stream))
	if err != nil {
		c.Failf("read", "%v", err)
	}
	doc := birch.DC.Elements(
		birch.EC.BinaryWithSubtype("a", d1, sub),
		birch.EC.Value("b", birch.VC.BinaryWithSubtype(d2, sub)),
		birch.EC.Binary("c", d3),
		birch.EC.SubDocumentFromReader("d", r1),
		birch.EC.Value("e", birch.VC.DocumentFromReader(r2)),
		birch.EC.SubDocument("f", sd),
		birch.EC.SubDocumentFromReader("g", rd),
	)
	want := (&Doc{}).
		Append("a", &Val{T: ref.Binary, Sub: sub, B: data}).
		Append("b", &Val{T: ref.Binary, Sub: sub, B: data}).
		Append("c", &Val{T: ref.Binary, B: data}).
		Append("d", &Val{T: ref.Document, D: m}).
		Append("e", &Val{T: ref.Document, D: m}).
		Append("f", &Val{T: ref.Document, D: m}).
		Append("g", &Val{T: ref.Document, D: m}).Encode()
	for _, b := range [][]byte{d1, d2, d3, r1, r2, stream} {
		for i := range b {
			b[i] ^= 0x55
		}
	}
	got, err := doc.MarshalBSON()
	if err != nil || !bytes.Equal(got, want) {
		c.Failf("input-kept", "changing what a document was made of changed it: %v, %s", err, diffAt(got, want))
	}
	c.EventN("inputs overwritten", 6)
	// what an accessor returns is the caller's.
	_, bin := doc.Lookup("a").Binary()
	for i := range bin {
		bin[i] ^= 0x55
	}
	got, err = doc.MarshalBSON()
	if err != nil || !bytes.Equal(got, want) {
		c.Failf("document-changed", "changing the bytes of a binary changed the document: %v, %s", err, diffAt(got, want))
	}
}

// copies of documents have elements of their own list, and copies of values
// and elements are set independently.
func b08Copies(c *C) {
	r := c.R
	g := ref.NewGen(r)
	g.Budget, g.Depth, g.MaxElems = 800, 2, 8
	m := g.Doc()
	c.State(m.Shape())
	c.Note("document", "%s", hexs(m.Encode()))
	b := &builder{r: r}
	d := b.doc(m)
	snap := func(what string, d *birch.Document, m *Doc) {
		got, err := d.MarshalBSON()
		if err != nil || !bytes.Equal(got, m.Encode()) {
			c.Failf("not-independent", "%s: the document encodes differently: %v, %s", what, err, diffAt(got, m.Encode()))
		}
		c.Event("independent copies")
	}
	var cp *birch.Document
	what := ""
	switch r.IntN(4) {
	case 0:
		cp, what = d.Copy(), "Copy"
	case 1:
		cp, what = d.Sorted(), "Sorted"
	case 2:
		cp, what = birch.DC.New().Extend(d), "Extend"
	case 3:
		cp, what = birch.DC.Elements(d.Elements().Copy()...), "Elements.Copy"
	}
	cm, err := ref.Decode(mustMarshal(c, cp))
	if err != nil {
		c.Failf("encoding", "%v", err)
	}
	// change one of them, and the other stays.
	change := func(d *birch.Document) {
		for n := r.Range(1, 4); n > 0; n-- {
			switch r.IntN(4) {
			case 0:
				d.Append(birch.EC.Int32("new", 1))
			case 1:
				d.Set(birch.EC.Int32("new", 2))
			case 2:
				if d.Len() > 0 {
					d.Delete(d.ElementAt(uint(r.IntN(d.Len()))).Key())
				}
			case 3:
				if d.Len() > 0 {
					d.Set(birch.EC.String(d.ElementAt(uint(r.IntN(d.Len()))).Key(), "other"))
				}
			}
		}
		if r.Chance(3) {
			d.Reset()
			d.Append(birch.EC.String("after", "reset"), birch.EC.String("after", "reset"))
		}
	}
	if r.Bool() {
		change(cp)
		snap("changing the result of "+what, d, m)
	} else {
		change(d)
		snap("changing the source of "+what, cp, cm)
	}
	// values and elements
	d2 := b.doc(m)
	for e := range d2.Iterator() {
		ec, vc := e.Copy(), e.Value().Copy()
		ec.SetValue(birch.VC.String("other"))
		vc.Set(birch.VC.Int64(12345))
		ec2 := e.Copy()
		ec2.Value().Set(birch.VC.Int64(12345))
	}
	snap("setting copies of elements and values", d2, m)
	// decoding into a document doesn't reach the one that shared its elements.
	d3 := b.doc(m)
	other := d3.Copy()
	if err := d3.UnmarshalBSON((&Doc{}).Append("x", &Val{T: ref.Null}).Encode()); err != nil {
		c.Failf("decode", "%v", err)
	}
	snap("decoding into the source of a copy", other, m)
	b.checkGuards(c)
}

func mustMarshal(c *C, d *birch.Document) []byte {
	b, err := d.MarshalBSON()
	if err != nil {
		c.Failf("encoding", "%v", err)
	}
	return b
}

// goroutines that each have their documents don't see each other's.
func b08Parallel(c *C) {
	type job struct {
		m   *Doc
		enc []byte
	}
	seeds := make([]*mon.Rand, 4)
	for i := range seeds {
		seeds[i] = mon.NewRand(int64(c.R.Uint64()), "parallel", i)
	}
	for _, r := range seeds {
		c.Go(func() {
			g := ref.NewGen(r)
			g.Budget, g.Depth, g.MaxElems = 600, 3, 6
			var jobs []job
			for i := 0; i < 4; i++ {
				m := g.Doc()
				g.Budget = 600
				jobs = append(jobs, job{m, m.Encode()})
			}
			var results []kept
			for n := 0; n < 20; n++ {
				j := mon.Pick(r, jobs)
				d := (&builder{r: r}).doc(j.m)
				b := mustMarshal(c, d)
				if !bytes.Equal(b, j.enc) {
					c.Failf("encoding", "a document encodes differently while others are encoded: %s", diffAt(b, j.enc))
				}
				results = append(results, keep("MarshalBSON", b))
				vals := []*birch.Value{}
				for e := range d.Iterator() {
					vals = append(vals, e.Value())
				}
				ab, err := birch.NewArray(vals...).MarshalBSON()
				if err != nil || !bytes.Equal(ab, j.m.EncodeArray()) {
					c.Failf("encoding", "an array encodes differently while others are encoded: %v %s", err, diffAt(ab, j.m.EncodeArray()))
				}
				results = append(results, keep("Array.MarshalBSON", ab))
				_ = birch.NewArray(vals...).String()
				js, err := d.MarshalJSON()
				if err != nil {
					c.Failf("json", "%v", err)
				}
				results = append(results, keep("MarshalJSON", js))
				_ = d.String()
				for i := range results {
					results[i].check(c)
				}
				c.Event("results kept")
			}
		})
	}
	c.Wait()
	c.State(c.Index)
}

// reads is what goroutines may do with a document at the same time.
func reads(c *C, r *mon.Rand, d *birch.Document, m *Doc, enc []byte, n int, live bool) {
	for ; n > 0; n-- {
		c.Event("concurrent reads")
		switch r.IntN(9) {
		case 0, 1:
			b, err := d.MarshalBSON()
			if err != nil || !bytes.Equal(b, enc) {
				c.Failf("read", "the document encodes differently: %v, %s", err, diffAt(b, enc))
			}
		case 2:
			if s, err := d.Validate(); err != nil || int(s) != len(enc) {
				c.Failf("read", "the document has the size %d, %v", s, err)
			}
		case 3:
			(&comparer{c: c}).doc("concurrent", d, m)
		case 4:
			if len(m.E) > 0 {
				k := mon.Pick(r, m.E).K
				(&comparer{c: c}).val("Lookup", d.Lookup(k), lookup(m, false, []string{k}))
			}
		case 5:
			if w, err := d.WriteTo(io.Discard); err != nil || int(w) != len(enc) {
				c.Failf("read", "WriteTo writes %d bytes, %v", w, err)
			}
		case 6:
			for e := range d.Iterator() {
				if !e.Equal(e.Copy()) {
					c.Failf("read", "an element isn't equal to itself")
				}
				if _, err := e.MarshalBSON(); err != nil {
					c.Failf("read", "%v", err)
				}
			}
		case 7:
			s := d.Sorted()
			if s.Len() != len(m.E) {
				c.Failf("read", "the sorted document has %d elements", s.Len())
			}
		case 8:
			if live {
				_ = d.String()
				_ = d.ExportMap()
				if _, err := d.MarshalJSON(); err != nil {
					c.Failf("read", "%v", err)
				}
				if len(m.E) > 0 {
					e := mon.Pick(r, m.E)
					if _, err := d.Search(e.K, "0"); err == nil && e.V.D == nil {
						if w := lookup(m, false, []string{e.K}); w != nil && w.D == nil {
							c.Failf("read", "Search finds an element in a value that has none")
						}
					}
				}
			} else if len(m.E) > 0 {
				e := mon.Pick(r, m.E)
				if x, err := birch.Reader(enc).RecursiveLookup(e.K); err != nil || x.Key() != e.K {
					c.Failf("read", "RecursiveLookup: %v", err)
				}
			}
		}
	}
}

func b10Run(c *C, live bool) {
	g := ref.NewGen(c.R)
	g.Budget, g.Depth, g.MaxElems = min(g.Budget, 1500), 3, min(g.MaxElems, 12)
	m := g.Doc()
	enc := m.Encode()
	c.State(m.Shape())
	c.Note("document", "%s", hexs(enc))
	d := (&builder{r: c.R, live: live, simple: live}).doc(m)
	var start atomic.Int32
	for i := 0; i < 4; i++ {
		r := mon.NewRand(int64(c.R.Uint64()), "reader", i)
		c.Go(func() {
			start.Add(1)
			for start.Load() < 4 {
			}
			reads(c, r, d, m, enc, 12, live)
		})
	}
	c.Wait()
}

func b10Readers(c *C) { b10Run(c, false) }
func b10Live(c *C)    { b10Run(c, true) }

// documents that share elements and values: each goroutine has its own
// document.
func b10Shared(c *C) {
	g := ref.NewGen(c.R)
	g.Budget, g.Depth, g.MaxElems = min(g.Budget, 1500), 3, min(g.MaxElems, 12)
	m := g.Doc()
	enc := m.Encode()
	c.State(m.Shape())
	c.Note("document", "%s", hexs(enc))
	d := (&builder{r: c.R}).doc(m)
	for i := 0; i < 4; i++ {
		r := mon.NewRand(int64(c.R.Uint64()), "sharer", i)
		mine := d.Copy()
		c.Go(func() {
			reads(c, r, mine, m, enc, 5, false)
			for n := 0; n < 5; n++ {
				mine.Append(birch.EC.Int32(fmt.Sprint("own", i), int32(n)))
				mine.Delete(fmt.Sprint("own", i))
				mine.Set(birch.EC.Int32("own", int32(i)))
				if v, ok := mine.Lookup("own").Int32OK(); !ok || v != int32(i) {
					c.Failf("read", "a copy has the value of another goroutine's")
				}
				if len(mine.Map()) == 0 {
					c.Failf("read", "the map of a copy is empty")
				}
				mine.Delete("own")
				c.Event("concurrent modifications of copies")
			}
			own := lookup(m, false, []string{"own"})
			if own == nil {
				reads(c, r, mine, m, enc, 5, false)
			}
		})
	}
	c.Wait()
}
