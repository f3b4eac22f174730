package main

import (
	"bytes"
	"encoding/json"
	"io"
	"runtime"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	mon.Register(&mon.Property{
		ID:   "B02",
		Rule: "valid documents damaged in their lengths, types, terminators and contents (and random bytes) go through every entry point that reads bytes; whatever is accepted is traversed and converted completely; a case is non-trivial when the pair (input, outcome of each entry point) is new",
		Assumptions: []string{
			"nesting is limited to what fits the goroutine stack: a document nested a million levels deep is out of scope",
		},
		Workloads: []mon.Workload{
			{Name: "damaged", Quick: 25000, Thorough: 2000000, Run: b02Damaged},
			{Name: "damaged-values", Quick: 25000, Thorough: 2000000, Run: b02Values},
			{Name: "exhaustive-truncation", Quick: 250, Thorough: 20000, Run: b02Truncation},
			{Name: "every-length-field", Quick: 250, Thorough: 20000, Run: b02Lengths},
			{Name: "random", Quick: 15000, Thorough: 500000, Run: b02Random},
			{Name: "memory", Quick: 1500, Thorough: 20000, Serial: true, Run: b02Memory},
		},
	})
	mon.Register(&mon.Property{
		ID:   "B03",
		Rule: "valid and damaged bytes are judged by every validating entry point and by an independent decoder written from the specification; a case is non-trivial when its input is new",
		Workloads: []mon.Workload{
			{Name: "damaged", Quick: 80000, Thorough: 2000000, Run: b03Damaged},
			{Name: "damaged-values", Quick: 80000, Thorough: 2000000, Run: b03Values},
			{Name: "every-length-field", Quick: 900, Thorough: 20000, Run: b03Lengths},
			{Name: "every-byte", Quick: 600, Thorough: 10000, Run: b03Bytes},
			{Name: "valid", Quick: 15000, Thorough: 300000, Run: b03Valid},
		},
	})
}

func damagedInput(r *mon.Rand) []byte {
	g := ref.NewGen(r)
	if r.Chance(2) {
		g.Budget = 200
	} else {
		g.Budget = min(g.Budget, 3000)
	}
	g.Depth = min(g.Depth, 30)
	b := g.Doc().Encode()
	b = ref.Mutate(r, b)
	if r.Bool() {
		ref.FixLength(b)
	}
	return b
}

// one value of one type, damaged within.
func damagedValue(r *mon.Rand, i int) []byte {
	g := ref.NewGen(r)
	g.Budget, g.Depth, g.MaxElems = 60, 2, 3
	v := g.ValOf(ref.AllTypes[i%len(ref.AllTypes)])
	body := ref.Mutate(r, v.EncodeValue())
	b := []byte{0, 0, 0, 0, v.T, 'k', 0}
	b = append(b, body...)
	if r.Chance(3) {
		b = append(b, ref.EncodeElem("z", &Val{T: ref.Int32, I: 5})...)
	}
	b = append(b, 0)
	return ref.FixLength(b)
}

func b02Damaged(c *C) { b02Check(c, damagedInput(c.R)) }
func b02Values(c *C)  { b02Check(c, damagedValue(c.R, c.Index)) }

func b02Truncation(c *C) {
	b := smallDoc(c.R).Encode()
	for i := 0; i < len(b); i++ {
		b02Check(c, clone(b[:i]))
		b02Check(c, ref.FixLength(clone(b[:i])))
	}
}

func smallDoc(r *mon.Rand) *Doc {
	g := ref.NewGen(r)
	g.Budget, g.Depth, g.MaxElems = 90, 2, 4
	return g.Doc()
}

var hostileLens = []int32{0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 14, 15, 0x7fffffff, 0x7ffffffe, 0x7ffffff0, -1, -2, -4, -5, -12, -2147483648, -2147483647, 1 << 30}

func everyLength(r *mon.Rand, fn func([]byte)) {
	b := smallDoc(r).Encode()
	for p := 0; p+4 <= len(b); p++ {
		cur := int32(uint32(b[p]) | uint32(b[p+1])<<8 | uint32(b[p+2])<<16 | uint32(b[p+3])<<24)
		if p > 0 && (cur < 0 || int(cur) > len(b)) && !r.Chance(10) {
			continue // not a length
		}
		for _, x := range append([]int32{cur - 1, cur + 1, cur - 2, cur + 2, cur + 4, cur - 4, int32(len(b) - p), int32(len(b) - p - 1), int32(len(b) - p + 1), int32(len(b) - p - 4), int32(len(b) - p - 5)}, hostileLens...) {
			m := clone(b)
			m[p], m[p+1], m[p+2], m[p+3] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
			fn(m)
		}
	}
}

func b02Lengths(c *C) { everyLength(c.R, func(b []byte) { b02Check(c, b) }) }

func b02Random(c *C) {
	b := c.R.Bytes(c.R.IntN(80))
	if c.R.Bool() {
		for i := range b {
			if c.R.Bool() {
				b[i] = mon.Pick(c.R, []byte{0, 0, 0, 1, 2, 3, 4, 5, 8, 12, 0x10, 0x0f, 'a'})
			}
		}
	}
	if c.R.Bool() {
		ref.FixLength(b)
	}
	b02Check(c, b)
}

// slack is the bytes in the middle of a larger buffer, whose other bytes must
// not matter.
func slack(r *mon.Rand, b []byte) []byte {
	buf := make([]byte, len(b)+64)
	copy(buf, b)
	fill := mon.Pick(r, []byte{0, 0xff, 1, 'x'})
	for i := len(b); i < len(buf); i++ {
		buf[i] = fill
	}
	return buf[:len(b)]
}

func b02Check(c *C, in []byte) {
	c.Note("input", "%s", hexs(in))
	c.Sample("%x", in)
	tight := clone(in)
	tight = tight[:len(tight):len(tight)]
	first := b02Outcome(c, tight, "exact capacity")
	loose := slack(c.R, in)
	second := b02Outcome(c, loose, "more capacity")
	if first != second {
		c.Failf("out-of-bounds", "the outcome depends on the bytes behind the input: %s, %s", first, second)
	}
	if !bytes.Equal(tight, in) || !bytes.Equal(loose, in) {
		c.Failf("input-changed", "reading changed the input")
	}
	c.StateBytes(append([]byte(first), in...))
}

func b02Outcome(c *C, in []byte, how string) string {
	out := make([]byte, 0, 16)
	rec := func(name string, err error) bool {
		if err != nil {
			out = append(out, 'E')
			c.Event(name + " rejected")
			return false
		}
		out = append(out, 'A')
		c.Event(name + " accepted")
		return true
	}
	check := func(name string, fn func()) {
		if p := mon.NoPanic(fn); p != nil {
			c.Failf("panic", "%s panicked on %x (%s): %v", name, in, how, p)
		}
	}

	check("Reader.Validate", func() { _, err := birch.Reader(in).Validate(); rec("Reader.Validate", err) })
	check("Reader.Iterator", func() {
		n := 0
		for e, err := range birch.Reader(in).Iterator() {
			if err != nil {
				out = append(out, 'E')
				break
			}
			if n++; n > len(in) {
				c.Failf("endless", "Reader.Iterator gives more elements than the input has bytes")
			}
			exerciseElem(e, 0)
			c.Event("elements read")
		}
		out = append(out, byte(n))
	})
	check("Reader.ElementAt", func() {
		for i := uint(0); i < 4; i++ {
			if e, err := birch.Reader(in).ElementAt(i); rec("Reader.ElementAt", err) {
				exerciseElem(e, 0)
			}
		}
	})
	check("Reader.RecursiveLookup", func() {
		for _, keys := range [][]string{{"k"}, {"a"}, {""}, {"0"}, {"k", "0"}, {"a", "b"}, {"k", "k", "k"}, {}} {
			if e, err := birch.Reader(in).RecursiveLookup(keys...); rec("Reader.RecursiveLookup", err) {
				exerciseElem(e, 0)
			}
		}
	})
	check("Reader.String", func() { _ = birch.Reader(in).String() })
	check("Reader.MarshalBSON", func() { _, err := birch.Reader(in).MarshalBSON(); rec("Reader.MarshalBSON", err) })
	check("ReadDocument", func() {
		if d, err := birch.ReadDocument(in); rec("ReadDocument", err) {
			exerciseDoc(c, d, in)
		}
	})
	check("Document.UnmarshalBSON", func() {
		d := birch.DC.New()
		if rec("UnmarshalBSON", d.UnmarshalBSON(in)) {
			exerciseDoc(c, d, nil)
		}
	})
	check("Document.ReadFrom", func() {
		d := birch.DC.New()
		if _, err := d.ReadFrom(bytes.NewReader(in)); rec("ReadFrom", err) {
			exerciseDoc(c, d, nil)
		}
	})
	check("NewFromIOReader", func() { _, err := birch.NewFromIOReader(bytes.NewReader(in)); rec("NewFromIOReader", err) })
	check("DCE.Reader", func() { _, err := birch.DCE.Reader(birch.Reader(in)); rec("DCE.Reader", err) })
	check("DCE.ReadFrom", func() { _, err := birch.DCE.ReadFrom(bytes.NewReader(in)); rec("DCE.ReadFrom", err) })
	check("DCE.Marshaler", func() { _, err := birch.DCE.Marshaler(birch.Reader(in)); rec("DCE.Marshaler", err) })
	check("VCE.Marshaler", func() { _, err := birch.VCE.Marshaler(birch.Reader(in)); rec("VCE.Marshaler", err) })
	check("ECE.Marshaler", func() { _, err := birch.ECE.Marshaler("k", birch.Reader(in)); rec("ECE.Marshaler", err) })
	// from marshalers that give anything.
	elem := func(name string, e *birch.Element, err error) {
		if rec(name, err) {
			exerciseLight(c, birch.DC.Elements(e))
		}
	}
	check("ECE.Marshaler", func() { e, err := birch.ECE.Marshaler("k", rawMarshaler(in)); elem("ECE.Marshaler", e, err) })
	check("ECE.Interface", func() { e, err := birch.ECE.Interface("k", rawMarshaler(in)); elem("ECE.Interface", e, err) })
	check("EC.Interface", func() { elem("EC.Interface", birch.EC.Interface("k", rawMarshaler(in)), nil) })
	check("ECE.Interface of a reader", func() {
		e, err := birch.ECE.Interface("k", birch.Reader(in))
		elem("ECE.Interface of a reader", e, err)
	})
	check("VCE.Marshaler of any", func() {
		if v, err := birch.VCE.Marshaler(rawMarshaler(in)); err == nil {
			elem("VCE.Marshaler of any", birch.EC.Value("k", v), nil)
		}
	})
	check("DCE.Marshaler of any", func() {
		if d, err := birch.DCE.Marshaler(rawMarshaler(in)); rec("DCE.Marshaler of any", err) {
			exerciseLight(c, d)
		}
	})
	check("DocumentMap.UnmarshalBSON", func() { rec("DocumentMap.UnmarshalBSON", birch.DocumentMap{}.UnmarshalBSON(in)) })
	return string(out)
}

// exerciseLight uses everything of some documents, and encodes all of them.
func exerciseLight(c *C, d *birch.Document) {
	if c.R.Chance(4) {
		exerciseDoc(c, d, nil)
		return
	}
	n, err := d.Validate()
	if err != nil {
		c.Failf("unusable", "an accepted document doesn't validate: %v", err)
	}
	enc, err := d.MarshalBSON()
	if err != nil || len(enc) != int(n) {
		c.Failf("unusable", "an accepted document of %d bytes encodes to %d: %v", n, len(enc), err)
	}
	if _, err := birch.ReadDocument(enc); err != nil {
		c.Failf("unusable", "the encoding of an accepted document is rejected: %v", err)
	}
}

// exerciseDoc uses everything of a document that was accepted.
func exerciseDoc(c *C, d *birch.Document, in []byte) {
	n, err := d.Validate()
	if err != nil {
		c.Failf("unusable", "an accepted document doesn't validate: %v", err)
	}
	enc, err := d.MarshalBSON()
	if err != nil {
		c.Failf("unusable", "an accepted document doesn't encode: %v", err)
	}
	if len(enc) != int(n) {
		c.Failf("unusable", "an accepted document of %d bytes encodes to %d", n, len(enc))
	}
	if in != nil && (len(enc) > len(in) || !bytes.Equal(enc, in[:len(enc)])) {
		c.Failf("unusable", "an accepted document encodes to other bytes: %s", diffAt(enc, in))
	}
	if _, err := birch.ReadDocument(enc); err != nil {
		c.Failf("unusable", "the encoding of an accepted document is rejected: %v", err)
	}
	count := 0
	for e := range d.Iterator() {
		exerciseElem(e, 0)
		count++
	}
	if count != d.Len() {
		c.Failf("unusable", "the iterator has %d of %d elements", count, d.Len())
	}
	for i := 0; i < d.Len(); i++ {
		e := d.ElementAt(uint(i))
		d.Lookup(e.Key())
		_, _ = d.Search(e.Key())
		_, _ = d.Search(e.Key(), "0", "k")
		if i > 20 {
			break
		}
	}
	_ = d.String()
	if js, err := d.MarshalJSON(); err == nil && !json.Valid(js) {
		c.Failf("unusable", "an accepted document gives invalid JSON: %.300q", js)
	}
	_ = d.ExportMap()
	_ = d.Map()
	_ = d.Sorted()
	_ = d.Copy()
	after, err := d.MarshalBSON()
	if err != nil {
		c.Failf("unusable", "after it was read, an accepted document doesn't encode: %v", err)
	}
	// parsing nested arrays in place may give their elements the keys that
	// arrays have.
	if len(after) == len(enc) && !bytes.Equal(after, enc) && canonical(enc) {
		c.Failf("unusable", "reading changed an accepted document: %s", diffAt(after, enc))
	}
	c.Event("accepted documents exercised")
}

func canonical(b []byte) bool {
	d, err := ref.Decode(b)
	return err == nil && bytes.Equal(d.Encode(), b)
}

func exerciseElem(e *birch.Element, depth int) {
	_ = e.Key()
	exerciseValue(e.Value(), depth)
	_ = e.String()
	_, _ = e.MarshalBSON()
	_, _ = e.Validate()
	_ = e.Equal(e)
	_, _ = e.WriteTo(io.Discard)
	_ = e.Copy()
}

func exerciseValue(v *birch.Value, depth int) {
	if depth > 40 {
		return
	}
	_ = v.Type()
	v.BinaryOK()
	v.BooleanOK()
	v.DBPointerOK()
	v.DateTimeOK()
	v.Decimal128OK()
	v.DoubleOK()
	v.Int32OK()
	v.Int64OK()
	v.IntOK()
	v.JavaScriptOK()
	v.ObjectIDOK()
	v.StringValueOK()
	v.TimeOK()
	v.TimestampOK()
	v.IsEmpty()
	if r, ok := v.ReaderDocumentOK(); ok {
		exerciseReader(r, depth)
	}
	if r, ok := v.ReaderArrayOK(); ok {
		exerciseReader(r, depth)
	}
	if _, r, ok := v.ReaderJavaScriptWithScopeOK(); ok {
		exerciseReader(r, depth)
	}
	_, _ = v.MarshalJSON()
	_ = v.Validate()
	_ = v.Copy()
	_ = v.Interface()
	switch v.Type() {
	case bsontype.Regex:
		v.Regex()
	case bsontype.Symbol:
		v.Symbol()
	case bsontype.DBPointer:
		v.DBPointer()
	case bsontype.String:
		_ = v.StringValue()
	case bsontype.Binary:
		v.Binary()
	case bsontype.JavaScript:
		v.JavaScript()
	case bsontype.Decimal128:
		_ = v.Decimal128().String()
	}
	if a, ok := v.MutableArrayOK(); ok {
		for x := range a.Iterator() {
			exerciseValue(x, depth+1)
		}
		_ = a.Interface()
		_, _ = a.Validate()
		_, _ = a.MarshalBSON()
	}
	if d, ok := v.MutableDocumentOK(); ok {
		for x := range d.Iterator() {
			exerciseValue(x.Value(), depth+1)
		}
		_, _ = d.MarshalBSON()
	}
	if _, d, ok := v.MutableJavaScriptWithScopeOK(); ok {
		for x := range d.Iterator() {
			exerciseValue(x.Value(), depth+1)
		}
	}
}

func exerciseReader(r birch.Reader, depth int) {
	_, _ = r.Validate()
	for e, err := range r.Iterator() {
		if err != nil {
			return
		}
		_ = e.Key()
		if depth < 3 {
			exerciseValue(e.Value(), depth+1)
		}
	}
}

// memory: what a hostile length claims must not be allocated.
func b02Memory(c *C) {
	g := ref.NewGen(c.R)
	g.Budget, g.Depth, g.MaxElems = 120, 2, 4
	b := g.Doc().Encode()
	if c.R.Chance(3) {
		b = (&Doc{}).Append("k", g.ValOf(ref.AllTypes[c.Index%len(ref.AllTypes)])).Encode()
	}
	// large claims in one of the places that may hold a length
	p := 0
	if c.R.Chance(2) {
		p = c.R.IntN(len(b) - 3)
	}
	x := mon.Pick(c.R, []uint32{0x7fffffff, 0x7ffffff0, 0x10000000, 0x3fffffff, 1 << 26})
	b[p], b[p+1], b[p+2], b[p+3] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
	c.Note("input", "%s", hexs(b))
	c.StateBytes(b)
	const limit = 8 << 20
	measure := func(name string, fn func()) {
		var before, after runtime.MemStats
		runtime.ReadMemStats(&before)
		if p := mon.NoPanic(fn); p != nil {
			c.Failf("panic", "%s panicked on %x: %v", name, b, p)
		}
		runtime.ReadMemStats(&after)
		if n := after.TotalAlloc - before.TotalAlloc; n > limit {
			c.Failf("memory", "%s allocated %d bytes for an input of %d bytes", name, n, len(b))
		}
		c.Event("allocations measured")
	}
	measure("ReadDocument", func() { _, _ = birch.ReadDocument(b) })
	measure("ReadFrom", func() { _, _ = birch.DC.New().ReadFrom(bytes.NewReader(b)) })
	measure("ReadFrom (chunks)", func() { _, _ = birch.DC.New().ReadFrom(&chunkReader{r: c.R, data: b, err: io.EOF}) })
	measure("NewFromIOReader", func() { _, _ = birch.NewFromIOReader(bytes.NewReader(b)) })
	measure("Reader", func() {
		_, _ = birch.Reader(b).Validate()
		for e, err := range birch.Reader(b).Iterator() {
			if err != nil {
				break
			}
			exerciseElem(e, 0)
		}
	})
}

func b03Damaged(c *C) { b03Check(c, damagedInput(c.R)) }
func b03Values(c *C)  { b03Check(c, damagedValue(c.R, c.Index)) }
func b03Lengths(c *C) { everyLength(c.R, func(b []byte) { b03Check(c, b) }) }

func b03Bytes(c *C) {
	b := smallDoc(c.R).Encode()
	for p := range b {
		for _, x := range []byte{0, 1, 2, 4, 5, 6, 8, 0x0f, 0x13, 0x14, 0x7f, 0x80, 0xfe, 0xff, b[p] + 1, b[p] - 1} {
			m := clone(b)
			m[p] = x
			b03Check(c, m)
		}
	}
}

func b03Valid(c *C) {
	b := ref.NewGen(c.R).Doc().Encode()
	b03Check(c, b)
}

func b03Check(c *C, in []byte) {
	c.Note("input", "%s", hexs(in))
	c.StateBytes(in)
	c.Sample("%x", in)
	_, size, werr := ref.DecodePrefix(in)
	if werr == nil {
		c.Event("inputs that are well formed")
	} else {
		c.Event("inputs that are malformed")
	}
	verdict := func(name string, ok bool, err error) {
		if (err == nil) != ok {
			if ok {
				c.Failf("rejects", "%s rejects well-formed bytes %x: %v", name, in, err)
			}
			c.Failf("accepts", "%s accepts malformed bytes %x (%v)", name, in, werr)
		}
	}
	n, err := birch.Reader(in).Validate()
	verdict("Reader.Validate", werr == nil, err)
	if err == nil && int(n) != size {
		c.Failf("size", "Reader.Validate says %d bytes of %d", n, size)
	}
	d, err := birch.ReadDocument(in)
	verdict("ReadDocument", werr == nil, err)
	if err == nil {
		n, err := d.Validate()
		if err != nil || int(n) != size {
			c.Failf("size", "Document.Validate says %d bytes of %d, %v", n, size, err)
		}
		for e := range d.Iterator() {
			eb, err := e.MarshalBSON()
			if err != nil {
				c.Failf("encode", "Element.MarshalBSON: %v", err)
			}
			if n, err := e.Validate(); err != nil || int(n) != len(eb) {
				c.Failf("size", "Element.Validate says %d bytes of %d, %v", n, len(eb), err)
			}
			if err := e.Value().Validate(); err != nil {
				c.Failf("rejects", "Value.Validate: %v", err)
			}
		}
	}
	verdict("UnmarshalBSON", werr == nil, birch.DC.New().UnmarshalBSON(in))
	_, err = birch.DC.New().ReadFrom(bytes.NewReader(in))
	verdict("ReadFrom", werr == nil, err)
	rd, err := birch.NewFromIOReader(bytes.NewReader(in))
	if err == nil {
		_, err = rd.Validate()
	}
	verdict("NewFromIOReader and Validate", werr == nil, err)
	var failed error
	for _, err := range birch.Reader(in).Iterator() {
		if err != nil {
			failed = err
			break
		}
	}
	verdict("Reader.Iterator", werr == nil, failed)
}
