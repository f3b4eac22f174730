package main

import (
	"bytes"
	"errors"
	"io"
	"strconv"

	"github.com/tychoish/birch"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	mon.Register(&mon.Property{
		ID:   "B01",
		Rule: "PRNG documents over all 21 types (boundary and dictionary lengths and values, wide, deep and long ones) are built by every public constructor, encoded and decoded by every path; a case is non-trivial when the shape (types, nesting and length classes) of its document is new",
		Workloads: []mon.Workload{
			{Name: "documents", Quick: 24000, Thorough: 600000, Run: b01Documents},
			{Name: "streams", Quick: 4000, Thorough: 80000, Run: b01Streams},
			{Name: "single-values", Quick: 30000, Thorough: 500000, Run: b01Single},
			{Name: "large", Quick: 40, Thorough: 2000, Run: b01Large},
			{Name: "sizes", Quick: 2200, Thorough: 9000, Run: b01Sizes},
		},
	})
}

func b01Documents(c *C) {
	want := ref.NewGen(c.R).Doc()
	b01Check(c, want)
}

// one value of each type in turn, with a key of any length, so that each type
// sees each boundary.
func b01Single(c *C) {
	g := ref.NewGen(c.R)
	g.Budget, g.Depth = 70000, 2
	if c.Index%4 != 0 {
		g.Budget = 3000
	}
	want := (&Doc{}).Append(g.Key(), g.ValOf(ref.AllTypes[c.Index%len(ref.AllTypes)]))
	if c.R.Chance(3) {
		want.Append(g.Key(), &Val{T: ref.Null})
	}
	b01Check(c, want)
}

// documents of many thousand elements, and of more than a megabyte.
func b01Large(c *C) {
	want := &Doc{}
	wrap := func(d *Doc, n int) *Doc {
		for i := range n {
			if c.R.Bool() {
				d = (&Doc{}).Append("d", &Val{T: ref.Document, D: d}).Append("n", &Val{T: ref.Int32, I: int64(i)})
			} else {
				d = (&Doc{}).Append("a", &Val{T: ref.Array, D: (&Doc{}).Append("0", &Val{T: ref.Document, D: d})})
			}
		}
		return d
	}
	switch c.Index % 3 {
	case 0, 1:
		vals := &Doc{}
		g := ref.NewGen(c.R)
		for i := range c.R.Range(1000, 20000) {
			k := "k"
			if c.Index%3 == 1 {
				k = strconv.Itoa(i)
			}
			v := &Val{T: ref.Int64, I: int64(c.R.Uint64())}
			if c.R.Chance(20) {
				g.Budget, g.Depth = 40, 1
				v = g.Val()
			}
			vals.Append(k, v)
		}
		if c.Index%3 == 1 {
			want.Append("a", &Val{T: ref.Array, D: vals})
		} else {
			want = vals
		}
		c.Event("documents of many elements")
	default:
		s := string(c.R.Bytes(mon.Pick(c.R, []int{1 << 16, 1 << 20, 1 << 22}) + c.R.IntN(100) - 50))
		switch c.R.IntN(3) {
		case 0:
			want.Append("s", &Val{T: ref.String, S: s})
		case 1:
			want.Append("b", &Val{T: ref.Binary, Sub: mon.Pick(c.R, []byte{0, 2, 0x80}), B: []byte(s)})
		default:
			want.Append("c", &Val{T: ref.CodeScope, S: s, D: (&Doc{}).Append("x", &Val{T: ref.String, S: s})})
		}
		want.Append("n", &Val{T: ref.Null})
		c.Event("documents of megabytes")
	}
	b01Check(c, wrap(want, c.R.IntN(4)))
}

// every size of document, array, string and binary, one after another.
func b01Sizes(c *C) {
	n := c.Index / 2
	want := &Doc{}
	switch c.Index % 2 {
	case 0:
		d, a := &Doc{}, &Doc{}
		for i := 0; i < n; i++ {
			d.Append("k", &Val{T: ref.Int32, I: int64(i)})
			a.Append(strconv.Itoa(i), &Val{T: ref.Int32, I: int64(i)})
		}
		want.Append("a", &Val{T: ref.Array, D: a}).Append("d", &Val{T: ref.Document, D: d})
	case 1:
		g := ref.Gen{R: c.R, Budget: 1 << 20}
		s := string(c.R.Bytes(n))
		want.Append("s", &Val{T: ref.String, S: s}).Append("b", &Val{T: ref.Binary, B: []byte(s)}).Append("o", &Val{T: ref.Binary, Sub: 2, B: []byte(s)}).
			Append(g.Key(), &Val{T: ref.JavaScript, S: s}).Append("y", &Val{T: ref.Symbol, S: s}).
			Append("p", &Val{T: ref.DBPointer, S: s}).
			Append("c", &Val{T: ref.CodeScope, S: s, D: (&Doc{}).Append("x", &Val{T: ref.String, S: s})})
		key := make([]byte, n)
		for i := range key {
			key[i] = 'a' + byte(i%26)
		}
		want.Append(string(key), &Val{T: ref.Null}).Append("r", &Val{T: ref.Regex, S: string(key), S2: "i"}).Append("q", &Val{T: ref.Regex, S: "i", S2: string(key)})
	}
	b01Check(c, want)
}

func b01Check(c *C, want *Doc) {
	enc := want.Encode()
	c.Note("document", "%s", hexs(enc))
	c.State(want.Shape())
	c.Sample("%x", enc)
	b := &builder{r: c.R}
	doc := b.doc(want)

	encodeAll(c, doc, enc)
	(&comparer{c: c, mutable: c.R.Bool()}).doc("built", doc, want)
	encodeAll(c, doc, enc)

	for i, e := range want.E {
		if i > 40 {
			break
		}
		el, err := doc.ElementAt(uint(i)).MarshalBSON()
		if err != nil {
			c.Failf("encode", "Element.MarshalBSON: %v", err)
		}
		if w := ref.EncodeElem(e.K, e.V); !bytes.Equal(el, w) {
			c.Failf("encode", "element %d encodes differently: %s", i, diffAt(el, w))
		}
		if n, err := doc.ElementAt(uint(i)).Validate(); err != nil || int(n) != len(el) {
			c.Failf("size", "Element.Validate: %d, %v; the encoding has %d bytes", n, err, len(el))
		}
		c.Event("element encodings")
	}

	decodeAll(c, enc, want)
	b.checkGuards(c)
}

func encodeAll(c *C, doc *birch.Document, enc []byte) {
	got, err := doc.MarshalBSON()
	if err != nil {
		c.Failf("encode", "MarshalBSON: %v", err)
	}
	if !bytes.Equal(got, enc) {
		c.Failf("encode", "MarshalBSON differs from the specification: %s", diffAt(got, enc))
	}
	c.Event("document encodings")
	n, err := doc.Validate()
	if err != nil || int(n) != len(enc) {
		c.Failf("size", "Document.Validate: %d, %v; the encoding has %d bytes", n, err, len(enc))
	}
	var buf bytes.Buffer
	prefix := c.R.Bytes(c.R.IntN(5))
	buf.Write(prefix)
	wn, err := doc.WriteTo(&buf)
	if err != nil || int(wn) != len(enc) || !bytes.Equal(buf.Bytes()[len(prefix):], enc) {
		c.Failf("encode", "WriteTo: %d, %v: %s", wn, err, diffAt(buf.Bytes()[len(prefix):], enc))
	}
	if got, err = birch.MarshalDocumentBSON(doc); err != nil || !bytes.Equal(got, enc) {
		c.Failf("encode", "MarshalDocumentBSON: %v", err)
	}
}

func decodeAll(c *C, enc []byte, want *Doc) {
	in := clone(enc)
	var docs []*birch.Document
	add := func(name string, d *birch.Document, err error) {
		if err != nil {
			c.Failf("decode", "%s: %v", name, err)
		}
		docs = append(docs, d)
	}
	d, err := birch.ReadDocument(in)
	add("ReadDocument", d, err)
	d = birch.DC.New()
	if c.R.Bool() { // into a document that isn't empty
		d.Append(birch.EC.String("before", "x"), birch.EC.Int32("and", 2))
	}
	add("UnmarshalBSON", d, d.UnmarshalBSON(in))
	d = birch.DC.New()
	n, err := d.ReadFrom(&chunkReader{r: c.R, data: in, err: io.EOF})
	if err == nil && int(n) != len(enc) {
		c.Failf("decode", "ReadFrom read %d of %d bytes", n, len(enc))
	}
	add("ReadFrom", d, err)
	switch c.R.IntN(4) {
	case 0:
		d, err = birch.DCE.Reader(birch.Reader(in))
		add("DCE.Reader", d, err)
	case 1:
		d, err = birch.DCE.ReadFrom(&chunkReader{r: c.R, data: in, err: io.EOF})
		add("DCE.ReadFrom", d, err)
	case 2:
		add("DC.Reader", birch.DC.Reader(birch.Reader(in)), nil)
	case 3:
		d, err = birch.DCE.Marshaler(birch.Reader(in))
		add("DCE.Marshaler", d, err)
	}
	for i, d := range docs {
		if i > 0 && len(enc) > 2000 && !c.R.Chance(3) {
			continue
		}
		(&comparer{c: c, mutable: i%2 == 0}).doc("decoded", d, want)
		encodeAll(c, d, enc)
	}
	r, err := birch.NewFromIOReader(&chunkReader{r: c.R, data: in, err: io.EOF})
	if err != nil {
		c.Failf("decode", "NewFromIOReader: %v", err)
	}
	if !bytes.Equal(r, enc) {
		c.Failf("decode", "NewFromIOReader: %s", diffAt(r, enc))
	}
	if sz, err := r.Validate(); err != nil || int(sz) != len(enc) {
		c.Failf("size", "Reader.Validate: %d, %v; the encoding has %d bytes", sz, err, len(enc))
	}
	if got, err := r.MarshalBSON(); err != nil || !bytes.Equal(got, enc) {
		c.Failf("encode", "Reader.MarshalBSON: %v", err)
	}
	(&comparer{c: c}).reader("reader", r, want)
	if !bytes.Equal(in, enc) {
		c.Failf("input-changed", "decoding changed its input: %s", diffAt(in, enc))
	}
	c.Event("documents decoded")
}

var errInjected = errors.New("injected failure")

type failingWriter struct {
	left  int
	short bool
	got   []byte
}

func (w *failingWriter) Write(p []byte) (int, error) {
	if len(p) <= w.left {
		w.left -= len(p)
		w.got = append(w.got, p...)
		return len(p), nil
	}
	n := w.left
	w.left = 0
	w.got = append(w.got, p[:n]...)
	if w.short {
		return n, io.ErrShortWrite
	}
	return n, errInjected
}

// documents that follow each other on a stream, and streams that fail.
func b01Streams(c *C) {
	n := c.R.Range(1, 5)
	var wants []*Doc
	var stream []byte
	var buf bytes.Buffer
	for i := 0; i < n; i++ {
		g := ref.NewGen(c.R)
		g.Budget = min(g.Budget, 6000)
		d := g.Doc()
		wants = append(wants, d)
		stream = append(stream, d.Encode()...)
		if _, err := (&builder{r: c.R}).doc(d).WriteTo(&buf); err != nil {
			c.Failf("encode", "WriteTo: %v", err)
		}
	}
	c.Note("stream", "%s", hexs(stream))
	c.StateBytes(stream)
	if !bytes.Equal(stream, buf.Bytes()) {
		c.Failf("encode", "the stream differs: %s", diffAt(buf.Bytes(), stream))
	}
	endErr := io.EOF
	cut := len(stream)
	faulty := c.R.Chance(2)
	if faulty {
		cut = c.R.IntN(len(stream))
		if c.R.Bool() {
			endErr = errInjected
		}
	}
	rd := &chunkReader{r: c.R, data: clone(stream[:cut]), err: endErr}
	off := 0
	for i := 0; i < n; i++ {
		var (
			d    = birch.DC.New()
			read int64
			err  error
		)
		size := len(wants[i].Encode())
		viaReader := c.R.Bool()
		var r birch.Reader
		if viaReader {
			r, err = birch.NewFromIOReader(rd)
		} else {
			read, err = d.ReadFrom(rd)
		}
		if off+size > cut {
			if err == nil {
				c.Failf("truncated", "document %d was read although the stream ended in it at byte %d of %d", i, cut-off, size)
			}
			// an injected failure is reported as it is, unless the document
			// was already known to be incomplete.
			c.Event("truncated streams reported")
			return
		}
		if err != nil {
			c.Failf("decode", "document %d: %v", i, err)
		}
		if viaReader {
			(&comparer{c: c}).reader("stream", r, wants[i])
		} else {
			if int(read) != size {
				c.Failf("decode", "ReadFrom says %d bytes, the document has %d", read, size)
			}
			(&comparer{c: c, mutable: true}).doc("stream", d, wants[i])
		}
		off += size
		c.Event("documents read from streams")
	}

	// a writer that fails
	d := (&builder{r: c.R}).doc(wants[0])
	enc := wants[0].Encode()
	w := &failingWriter{left: c.R.IntN(len(enc)), short: c.R.Bool()}
	if _, err := d.WriteTo(w); err == nil {
		c.Failf("writer-fault", "WriteTo succeeded although the writer failed")
	}
	c.Event("writer faults reported")
	w = &failingWriter{left: len(enc)}
	if m, err := d.WriteTo(w); err != nil || int(m) != len(enc) || !bytes.Equal(w.got, enc) {
		c.Failf("writer-fault", "WriteTo after a failure: %d, %v", m, err)
	}
}
