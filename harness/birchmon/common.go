package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"strconv"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"github.com/tychoish/birch/types"
	"verif/harness/mon"
	"verif/harness/ref"
)

type (
	C   = mon.Case
	Doc = ref.Doc
	Val = ref.Val
)

func hexs(b []byte) string {
	if len(b) > 2048 {
		return hex.EncodeToString(b[:2048]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

func diffAt(a, b []byte) string {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	lo := max(0, n-8)
	return fmt.Sprintf("lengths %d and %d, first difference at %d: ...%x and ...%x", len(a), len(b), n, a[lo:min(len(a), n+12)], b[lo:min(len(b), n+12)])
}

// builder makes birch documents of the model's, by every public way there is.
type builder struct {
	r      *mon.Rand
	simple bool // only the element constructors
	live   bool // no values backed by encoded documents
	// what the documents were made from, to see that it isn't changed.
	guards []guard
}

type guard struct {
	what      string
	buf, copy []byte
}

func (b *builder) guard(what string, buf []byte) []byte {
	b.guards = append(b.guards, guard{what, buf, append([]byte(nil), buf...)})
	return buf
}

func (b *builder) checkGuards(c *C) {
	for _, g := range b.guards {
		if !bytes.Equal(g.buf, g.copy) {
			c.Failf("input-changed", "the bytes given as %s were changed: %s", g.what, diffAt(g.buf, g.copy))
		}
	}
}

func (b *builder) doc(d *Doc) *birch.Document {
	if !b.simple && !b.live && b.r.Chance(8) {
		out, err := birch.ReadDocument(b.guard("a document", d.Encode()))
		if err != nil {
			panic(fmt.Sprintf("ReadDocument of a valid document: %v", err))
		}
		return out
	}
	out := birch.DC.Make(b.r.IntN(4))
	if b.r.Bool() {
		out = birch.DC.New()
	}
	if b.r.Chance(3) {
		elems := make([]*birch.Element, 0, len(d.E))
		for _, e := range d.E {
			elems = append(elems, b.elem(e.K, e.V))
		}
		if b.r.Bool() {
			return birch.DC.Elements(elems...)
		}
		return out.Append(elems...)
	}
	for _, e := range d.E {
		out.Append(b.elem(e.K, e.V))
	}
	return out
}

func (b *builder) array(d *Doc) *birch.Array {
	vals := make([]*birch.Value, 0, len(d.E))
	for _, e := range d.E {
		vals = append(vals, b.val(e.V))
	}
	switch b.r.IntN(3) {
	case 0:
		return birch.NewArray(vals...)
	case 1:
		return birch.MakeArray(b.r.IntN(4)).Append(vals...)
	default:
		out := birch.MakeArray(len(vals))
		for _, v := range vals {
			out.Append(v)
		}
		return out
	}
}

func (b *builder) val(v *Val) *birch.Value {
	if !b.simple && !b.live && b.r.Chance(10) {
		d, err := birch.ReadDocument(b.guard("a document", (&Doc{}).Append(b.key(), v).Encode()))
		if err != nil {
			panic(fmt.Sprintf("ReadDocument of a valid document: %v", err))
		}
		return d.ElementAt(0).Value()
	}
	if b.simple || b.r.Bool() {
		return b.elemEC(b.key(), v).Value()
	}
	vc := birch.VC
	switch v.T {
	case ref.Double:
		return vc.Double(v.F)
	case ref.String:
		return vc.String(v.S)
	case ref.Document:
		switch b.r.IntN(3) {
		case 0:
			return vc.DocumentFromElements(b.elems(v.D)...)
		case 1:
			if !b.live {
				return vc.DocumentFromReader(birch.Reader(b.guard("a reader", v.D.Encode())))
			}
		}
		return vc.Document(b.doc(v.D))
	case ref.Array:
		if b.r.Bool() {
			vals := []*birch.Value{}
			for _, e := range v.D.E {
				vals = append(vals, b.val(e.V))
			}
			return vc.ArrayFromValues(vals...)
		}
		return vc.Array(b.array(v.D))
	case ref.Binary:
		if v.Sub == 0 && b.r.Bool() {
			return vc.Binary(b.guard("a binary", clone(v.B)))
		}
		return vc.BinaryWithSubtype(b.guard("a binary", clone(v.B)), v.Sub)
	case ref.Undefined:
		return vc.Undefined()
	case ref.ObjectID:
		return vc.ObjectID(types.ObjectID(v.OID))
	case ref.Boolean:
		return vc.Boolean(v.I == 1)
	case ref.DateTime:
		return vc.DateTime(v.I)
	case ref.Null:
		return vc.Null()
	case ref.Regex:
		return vc.Regex(v.S, v.S2)
	case ref.DBPointer:
		return vc.DBPointer(v.S, types.ObjectID(v.OID))
	case ref.JavaScript:
		return vc.JavaScript(v.S)
	case ref.Symbol:
		return vc.Symbol(v.S)
	case ref.CodeScope:
		return vc.CodeWithScope(v.S, b.doc(v.D))
	case ref.Int32:
		return vc.Int32(int32(v.I))
	case ref.Timestamp:
		return vc.Timestamp(uint32(v.H), uint32(v.L))
	case ref.Int64:
		return vc.Int64(v.I)
	case ref.Decimal128:
		return vc.Decimal128(types.NewDecimal128(v.H, v.L))
	case ref.MinKey:
		return vc.MinKey()
	case ref.MaxKey:
		return vc.MaxKey()
	}
	panic("type")
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

func (b *builder) key() string {
	return mon.Pick(b.r, []string{"", "k", "key", "0", "a longer key than the others"})
}

func (b *builder) elems(d *Doc) []*birch.Element {
	out := []*birch.Element{}
	for _, e := range d.E {
		out = append(out, b.elem(e.K, e.V))
	}
	return out
}

func (b *builder) elem(k string, v *Val) *birch.Element {
	if !b.simple {
		switch b.r.IntN(6) {
		case 0, 1:
			return birch.EC.Value(k, b.val(v))
		case 2:
			if !b.live {
				d, err := birch.ReadDocument(b.guard("a document", (&Doc{}).Append("first", &Val{T: ref.Null}).Append(k, v).Encode()))
				if err != nil {
					panic(fmt.Sprintf("ReadDocument of a valid document: %v", err))
				}
				return d.ElementAt(1)
			}
		}
	}
	return b.elemEC(k, v)
}

func (b *builder) elemEC(k string, v *Val) *birch.Element {
	ec := birch.EC
	switch v.T {
	case ref.Double:
		return ec.Double(k, v.F)
	case ref.String:
		return ec.String(k, v.S)
	case ref.Document:
		switch b.r.IntN(4) {
		case 0:
			return ec.SubDocumentFromElements(k, b.elems(v.D)...)
		case 1:
			if !b.simple && !b.live {
				return ec.SubDocumentFromReader(k, birch.Reader(b.guard("a reader", v.D.Encode())))
			}
		}
		return ec.SubDocument(k, b.doc(v.D))
	case ref.Array:
		if b.r.Bool() {
			vals := []*birch.Value{}
			for _, e := range v.D.E {
				vals = append(vals, b.val(e.V))
			}
			return ec.ArrayFromElements(k, vals...)
		}
		return ec.Array(k, b.array(v.D))
	case ref.Binary:
		if v.Sub == 0 && b.r.Bool() {
			return ec.Binary(k, b.guard("a binary", clone(v.B)))
		}
		return ec.BinaryWithSubtype(k, b.guard("a binary", clone(v.B)), v.Sub)
	case ref.Undefined:
		return ec.Undefined(k)
	case ref.ObjectID:
		return ec.ObjectID(k, types.ObjectID(v.OID))
	case ref.Boolean:
		return ec.Boolean(k, v.I == 1)
	case ref.DateTime:
		return ec.DateTime(k, v.I)
	case ref.Null:
		return ec.Null(k)
	case ref.Regex:
		return ec.Regex(k, v.S, v.S2)
	case ref.DBPointer:
		return ec.DBPointer(k, v.S, types.ObjectID(v.OID))
	case ref.JavaScript:
		return ec.JavaScript(k, v.S)
	case ref.Symbol:
		return ec.Symbol(k, v.S)
	case ref.CodeScope:
		return ec.CodeWithScope(k, v.S, b.doc(v.D))
	case ref.Int32:
		return ec.Int32(k, int32(v.I))
	case ref.Timestamp:
		return ec.Timestamp(k, uint32(v.H), uint32(v.L))
	case ref.Int64:
		return ec.Int64(k, v.I)
	case ref.Decimal128:
		return ec.Decimal128(k, types.NewDecimal128(v.H, v.L))
	case ref.MinKey:
		return ec.MinKey(k)
	case ref.MaxKey:
		return ec.MaxKey(k)
	}
	panic("type")
}

// compare reads every value of a birch document through its accessors, and
// compares it to the model.
type comparer struct {
	c       *C
	mutable bool // through the accessors that parse nested documents in place
}

func (k *comparer) doc(path string, d *birch.Document, want *Doc) {
	if d == nil {
		k.c.Failf("value", "%s: nil document", path)
	}
	if d.Len() != len(want.E) {
		k.c.Failf("value", "%s: document has %d elements, expected %d", path, d.Len(), len(want.E))
	}
	i := 0
	for e := range d.Iterator() {
		if i >= len(want.E) {
			k.c.Failf("value", "%s: the iterator has more than %d elements", path, len(want.E))
		}
		k.elem(path+"/"+strconv.Itoa(i), e, want.E[i].K, want.E[i].V)
		i++
	}
	if i != len(want.E) {
		k.c.Failf("value", "%s: the iterator has %d elements, expected %d", path, i, len(want.E))
	}
}

func (k *comparer) reader(path string, r birch.Reader, want *Doc) {
	i := 0
	for e, err := range r.Iterator() {
		if err != nil {
			k.c.Failf("value", "%s: reader: %v", path, err)
		}
		if i >= len(want.E) {
			k.c.Failf("value", "%s: the reader has more than %d elements", path, len(want.E))
		}
		k.elem(path+"/"+strconv.Itoa(i), e, want.E[i].K, want.E[i].V)
		i++
	}
	if i != len(want.E) {
		k.c.Failf("value", "%s: the reader has %d elements, expected %d", path, i, len(want.E))
	}
}

func (k *comparer) array(path string, a *birch.Array, want *Doc) {
	if a == nil {
		k.c.Failf("value", "%s: nil array", path)
	}
	if a.Len() != len(want.E) {
		k.c.Failf("value", "%s: array has %d values, expected %d", path, a.Len(), len(want.E))
	}
	i := 0
	for v := range a.Iterator() {
		if i >= len(want.E) {
			k.c.Failf("value", "%s: the iterator has more than %d values", path, len(want.E))
		}
		k.val(path+"/"+strconv.Itoa(i), v, want.E[i].V)
		i++
	}
	if i != len(want.E) {
		k.c.Failf("value", "%s: the iterator has %d values, expected %d", path, i, len(want.E))
	}
}

func (k *comparer) elem(path string, e *birch.Element, key string, want *Val) {
	if e == nil {
		k.c.Failf("value", "%s: nil element", path)
	}
	if e.Key() != key {
		k.c.Failf("value", "%s: key %q, expected %q", path, e.Key(), key)
	}
	k.val(path, e.Value(), want)
}

func (k *comparer) val(path string, v *birch.Value, w *Val) {
	c := k.c
	if v == nil {
		c.Failf("value", "%s: nil value", path)
	}
	if v.Type() != bsontype.Type(w.T) {
		c.Failf("value", "%s: type %s, expected %s", path, v.Type(), bsontype.Type(w.T))
	}
	c.Event("value:" + v.Type().String())
	bad := func(got, want any) {
		c.Failf("value", "%s: %s is %.300q, expected %.300q", path, v.Type(), fmt.Sprint(got), fmt.Sprint(want))
	}
	switch w.T {
	case ref.Double:
		got, ok := v.DoubleOK()
		if !ok || math.Float64bits(got) != math.Float64bits(w.F) {
			bad(got, w.F)
		}
		if math.Float64bits(v.Double()) != math.Float64bits(w.F) {
			bad(v.Double(), w.F)
		}
	case ref.String:
		if got, ok := v.StringValueOK(); !ok || got != w.S {
			bad(got, w.S)
		}
		if got := v.StringValue(); got != w.S {
			bad(got, w.S)
		}
	case ref.Document:
		if k.mutable {
			d, ok := v.MutableDocumentOK()
			if !ok {
				bad("refused", "a document")
			}
			k.doc(path, d, w.D)
			return
		}
		r, ok := v.ReaderDocumentOK()
		if !ok {
			bad("refused", "a reader")
		}
		k.reader(path, r, w.D)
	case ref.Array:
		if k.mutable {
			a, ok := v.MutableArrayOK()
			if !ok {
				bad("refused", "an array")
			}
			k.array(path, a, w.D)
			return
		}
		r, ok := v.ReaderArrayOK()
		if !ok {
			bad("refused", "a reader")
		}
		k.reader(path, r, w.D)
	case ref.Binary:
		sub, b, ok := v.BinaryOK()
		if !ok || sub != w.Sub || !bytes.Equal(b, w.B) {
			bad(fmt.Sprintf("%d %x", sub, b), fmt.Sprintf("%d %x", w.Sub, w.B))
		}
	case ref.ObjectID:
		if got, ok := v.ObjectIDOK(); !ok || got != types.ObjectID(w.OID) {
			bad(got, w.OID)
		}
	case ref.Boolean:
		if got, ok := v.BooleanOK(); !ok || got != (w.I == 1) {
			bad(got, w.I)
		}
	case ref.DateTime:
		if got, ok := v.DateTimeOK(); !ok || got != w.I {
			bad(got, w.I)
		}
	case ref.Regex:
		if p, o := v.Regex(); p != w.S || o != w.S2 {
			bad(p+"/"+o, w.S+"/"+w.S2)
		}
	case ref.DBPointer:
		if ns, oid, ok := v.DBPointerOK(); !ok || ns != w.S || oid != types.ObjectID(w.OID) {
			bad(ns+oid.Hex(), w.S+types.ObjectID(w.OID).Hex())
		}
	case ref.JavaScript:
		if got, ok := v.JavaScriptOK(); !ok || got != w.S {
			bad(got, w.S)
		}
	case ref.Symbol:
		if got := v.Symbol(); got != w.S {
			bad(got, w.S)
		}
	case ref.CodeScope:
		if k.mutable {
			code, d, ok := v.MutableJavaScriptWithScopeOK()
			if !ok || code != w.S {
				bad(code, w.S)
			}
			k.doc(path, d, w.D)
			return
		}
		code, r, ok := v.ReaderJavaScriptWithScopeOK()
		if !ok || code != w.S {
			bad(code, w.S)
		}
		k.reader(path, r, w.D)
	case ref.Int32:
		if got, ok := v.Int32OK(); !ok || int64(got) != w.I {
			bad(got, w.I)
		}
		if got, ok := v.IntOK(); !ok || int64(got) != w.I {
			bad(got, w.I)
		}
	case ref.Timestamp:
		if t, i, ok := v.TimestampOK(); !ok || uint64(t) != w.H || uint64(i) != w.L {
			bad(fmt.Sprint(t, i), fmt.Sprint(w.H, w.L))
		}
	case ref.Int64:
		if got, ok := v.Int64OK(); !ok || got != w.I {
			bad(got, w.I)
		}
		if got, ok := v.IntOK(); !ok || int64(got) != w.I {
			bad(got, w.I)
		}
	case ref.Decimal128:
		got, ok := v.Decimal128OK()
		h, l := got.GetBytes()
		if !ok || h != w.H || l != w.L {
			bad(fmt.Sprintf("%x %x", h, l), fmt.Sprintf("%x %x", w.H, w.L))
		}
	}
}

// chunkReader gives the bytes in pieces of the sizes the PRNG picks.
type chunkReader struct {
	r     *mon.Rand
	data  []byte
	err   error // at the end
	calls int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	c.calls++
	if len(c.data) == 0 {
		return 0, c.err
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := 1
	switch c.r.IntN(4) {
	case 0:
		n = c.r.Range(1, 7)
	case 1:
		n = c.r.Range(1, 300)
	case 2:
		n = len(p)
	}
	n = min(n, len(p), len(c.data))
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && c.r.Chance(3) {
		return n, c.err
	}
	return n, nil
}

var errEOF = io.EOF
