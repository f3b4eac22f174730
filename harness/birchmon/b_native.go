package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/jsonx"
	"github.com/tychoish/birch/types"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	mon.Register(&mon.Property{
		ID:    "B14",
		Title: "Go values keep their value when converted to documents and back",
		Rule:  "a tree of Go values converted by every constructor that takes it, or a document exported to Go values; compared to the model",
		Assumptions: []string{
			"unsigned integers above the signed 64-bit range cannot be represented: null from the constructors without an error, an error from the others",
			"times are kept to the millisecond",
		},
		Workloads: []mon.Workload{
			{Name: "from-go", Quick: 40000, Thorough: 1500000, Run: nativeFrom},
			{Name: "to-go", Quick: 40000, Thorough: 1500000, Run: nativeTo},
			{Name: "unsupported", Quick: 8000, Thorough: 100000, Run: nativeUnsupported},
		},
	})
}

// native generates Go values with the value they stand for.
type native struct {
	r     *mon.Rand
	g     *ref.Gen
	depth int
	b     *builder
	// documents made from maps, whose order isn't determined.
	unordered map[*Doc]bool
	// integers that may be stored in either width.
	anyWidth map[*Val]bool
}

type badMarshaler struct{}

var errMarshal = errors.New("no marshaling")

func (badMarshaler) MarshalBSON() ([]byte, error) { return nil, errMarshal }

type badDocMarshaler struct{}

func (badDocMarshaler) MarshalDocument() (*birch.Document, error) { return nil, errMarshal }

type nilDocMarshaler struct{}

func (nilDocMarshaler) MarshalDocument() (*birch.Document, error) { return nil, nil }

type rawMarshaler []byte

func (m rawMarshaler) MarshalBSON() ([]byte, error) { return m, nil }

type docMarshaler struct{ d *birch.Document }

func (m docMarshaler) MarshalDocument() (*birch.Document, error) { return m.d, nil }

type stringer struct{ s string }

func (s stringer) String() string { return s.s }

func (n *native) time() (time.Time, int64) {
	ms := n.r.Int64N(8e12) - 4e12
	switch n.r.IntN(8) {
	case 0:
		ms = mon.Pick(n.r, []int64{0, 1, -1, 999, 1000, -999, -1000, -1001, 1e12})
	case 1:
		ms = n.r.Int64N(2e14) - 1e14
	}
	sub := n.r.Int64N(1e6)
	t := time.UnixMilli(ms).Add(time.Duration(sub))
	switch n.r.IntN(3) {
	case 0:
		t = t.UTC()
	case 1:
		t = t.In(time.FixedZone("x", n.r.IntN(40000)-20000))
	}
	return t, ms
}

func (n *native) intAny(i int64) *Val {
	v := &Val{T: ref.Int64, I: i}
	n.anyWidth[v] = true
	return v
}

func (n *native) keys(k int) []string {
	seen := map[string]bool{}
	out := []string{}
	large := n.depth <= 1 && n.r.Chance(40)
	if large {
		k = n.r.Range(10, 1<<n.r.Range(5, 11))
	}
	for i := range k {
		key := n.g.Key()
		if large {
			key = fmt.Sprint("key", i)
		}
		if !seen[key] {
			seen[key] = true
			out = append(out, key)
		}
	}
	return out
}

func arrayOf[T any](n *native, gen func() (T, *Val)) ([]T, *Val) {
	k := n.r.IntN(6)
	if n.r.Chance(20) {
		k = n.r.Range(9, 130)
	}
	out := make([]T, 0, k)
	d := &Doc{}
	for range k {
		t, v := gen()
		out = append(out, t)
		d.Append("", v)
	}
	return out, &Val{T: ref.Array, D: d}
}

func (n *native) value() (any, *Val) {
	n.depth++
	defer func() { n.depth-- }()
	r := n.r
	top := 34
	if n.depth > 4 {
		top = 16
	}
	switch r.IntN(top) {
	case 0:
		b := r.Bool()
		v := &Val{T: ref.Boolean}
		if b {
			v.I = 1
		}
		return b, v
	case 1:
		i := int8(ref.Int64v(r))
		return i, &Val{T: ref.Int32, I: int64(i)}
	case 2:
		i := int16(ref.Int64v(r))
		return i, &Val{T: ref.Int32, I: int64(i)}
	case 3:
		i := ref.Int32v(r)
		return i, &Val{T: ref.Int32, I: int64(i)}
	case 4:
		i := ref.Int64v(r)
		return i, &Val{T: ref.Int64, I: i}
	case 5:
		i := ref.Int64v(r)
		return int(i), n.intAny(i)
	case 6:
		i := uint8(ref.Int64v(r))
		return i, &Val{T: ref.Int32, I: int64(i)}
	case 7:
		i := uint16(ref.Int64v(r))
		return i, &Val{T: ref.Int32, I: int64(i)}
	case 8:
		i := uint32(ref.Int64v(r))
		return i, n.intAny(int64(i))
	case 9:
		i := uint64(ref.Int64v(r)) & math.MaxInt64
		return i, n.intAny(int64(i))
	case 10:
		i := uint(ref.Int64v(r)) & math.MaxInt64
		return i, n.intAny(int64(i))
	case 11:
		f := ref.Floatv(r)
		if r.Bool() {
			return f, &Val{T: ref.Double, F: f}
		}
		f32 := float32(f)
		if f32 != f32 {
			f32 = 1.5
		}
		return f32, &Val{T: ref.Double, F: float64(f32)}
	case 12, 13:
		s := n.g.Str(200, true)
		return s, &Val{T: ref.String, S: s}
	case 14:
		t, ms := n.time()
		return t, &Val{T: ref.DateTime, I: ms}
	case 15:
		v := n.g.ValOf(ref.Timestamp)
		return types.Timestamp{T: uint32(v.H), I: uint32(v.L)}, v
	case 16, 17:
		m, d := n.stringMap()
		return m, &Val{T: ref.Document, D: d}
	case 18:
		m, d := n.anyMap()
		return m, &Val{T: ref.Document, D: d}
	case 19:
		m := map[string]string{}
		d := &Doc{}
		for _, k := range n.keys(r.IntN(5)) {
			s := n.g.Str(40, true)
			m[k] = s
			d.Append(k, &Val{T: ref.String, S: s})
		}
		n.unordered[d] = true
		return m, &Val{T: ref.Document, D: d}
	case 20, 21:
		s, v := arrayOf(n, n.value)
		return s, v
	case 22:
		s, v := arrayOf(n, func() (string, *Val) { s := n.g.Str(40, true); return s, &Val{T: ref.String, S: s} })
		return s, v
	case 23:
		s, v := arrayOf(n, func() (int64, *Val) { i := ref.Int64v(r); return i, &Val{T: ref.Int64, I: i} })
		return s, v
	case 24:
		s, v := arrayOf(n, func() (int32, *Val) { i := ref.Int32v(r); return i, &Val{T: ref.Int32, I: int64(i)} })
		return s, v
	case 25:
		s, v := arrayOf(n, func() (float64, *Val) { f := ref.Floatv(r); return f, &Val{T: ref.Double, F: f} })
		return s, v
	case 26:
		s, v := arrayOf(n, func() (float32, *Val) {
			f := float32(r.NormFloat64() * 1e6)
			return f, &Val{T: ref.Double, F: float64(f)}
		})
		return s, v
	case 27:
		s, v := arrayOf(n, func() (int, *Val) { i := ref.Int64v(r); return int(i), n.intAny(i) })
		return s, v
	case 28:
		s, v := arrayOf(n, func() (time.Time, *Val) { t, ms := n.time(); return t, &Val{T: ref.DateTime, I: ms} })
		return s, v
	case 29:
		s, v := arrayOf(n, func() (time.Duration, *Val) {
			i := ref.Int64v(r)
			return time.Duration(i), &Val{T: ref.Int64, I: i}
		})
		return s, v
	case 30:
		d := n.g.Doc()
		switch r.IntN(6) {
		case 0:
			return birch.Reader(d.Encode()), &Val{T: ref.Document, D: d}
		case 1:
			return rawMarshaler(d.Encode()), &Val{T: ref.Document, D: d}
		case 2:
			return docMarshaler{n.b.doc(d)}, &Val{T: ref.Document, D: d}
		case 3:
			return n.b.elems(d), &Val{T: ref.Document, D: d}
		default:
			return n.b.doc(d), &Val{T: ref.Document, D: d}
		}
	case 31:
		v := n.g.Val()
		for v.T == ref.Null {
			v = n.g.Val()
		}
		return n.b.val(v), v
	case 32:
		s, v := arrayOf(n, func() (*birch.Value, *Val) { v := n.g.Val(); return n.b.val(v), v })
		return s, v
	default:
		d := &Doc{}
		jd := jsonx.DC.New()
		for _, k := range n.keys(r.IntN(4)) {
			k = "j" + k
			s := n.g.Str(20, false)
			jd.Append(jsonx.EC.String(k, s))
			d.Append(k, &Val{T: ref.String, S: s})
		}
		return jd, &Val{T: ref.Document, D: d}
	}
}

func (n *native) stringMap() (map[string]any, *Doc) {
	m := map[string]any{}
	d := &Doc{}
	for _, k := range n.keys(n.r.IntN(6)) {
		x, v := n.value()
		m[k] = x
		d.Append(k, v)
	}
	n.unordered[d] = true
	return m, d
}

func (n *native) anyMap() (map[any]any, *Doc) {
	m := map[any]any{}
	d := &Doc{}
	for i, k := range n.keys(n.r.IntN(6)) {
		x, v := n.value()
		switch n.r.IntN(4) {
		case 0:
			m[stringer{k}] = x
		case 1:
			k = fmt.Sprintf("%d", -1000-i)
			m[-1000-i] = x
		default:
			m[k] = x
		}
		d.Append(k, v)
	}
	n.unordered[d] = true
	return m, d
}

func (n *native) match(c *C, path string, want, got *Val) {
	if n.anyWidth[want] && (got.T == ref.Int32 || got.T == ref.Int64) {
		if got.I != want.I {
			c.Failf("value", "%s: the integer %d became %d", path, want.I, got.I)
		}
		return
	}
	if want.T != got.T {
		c.Failf("type", "%s: type %#x, expected %#x", path, got.T, want.T)
	}
	if want.T == ref.Double && want.F != want.F {
		if got.F == got.F {
			c.Failf("value", "%s: NaN became %v", path, got.F)
		}
		return
	}
	if want.D == nil {
		if !bytes.Equal(want.EncodeValue(), got.EncodeValue()) {
			c.Failf("value", "%s: the value is %s, expected %s", path, hexs(got.EncodeValue()), hexs(want.EncodeValue()))
		}
		return
	}
	if want.T == ref.CodeScope && want.S != got.S {
		c.Failf("value", "%s: the code is %q, expected %q", path, got.S, want.S)
	}
	n.matchDoc(c, path, want.D, got.D, want.T == ref.Array)
}

func (n *native) matchDoc(c *C, path string, want, got *Doc, array bool) {
	if len(want.E) != len(got.E) {
		c.Failf("length", "%s: %d elements, expected %d", path, len(got.E), len(want.E))
	}
	w, g := want.E, got.E
	if n.unordered[want] {
		w = append([]ref.Elem(nil), w...)
		g = append([]ref.Elem(nil), g...)
		sort.Slice(w, func(i, j int) bool { return w[i].K < w[j].K })
		sort.Slice(g, func(i, j int) bool { return g[i].K < g[j].K })
	}
	for i := range w {
		k := w[i].K
		if array {
			k = fmt.Sprint(i)
		}
		if g[i].K != k {
			c.Failf("key", "%s: key %q, expected %q", path, g[i].K, k)
		}
		n.match(c, path+"/"+k, w[i].V, g[i].V)
	}
}

func newNative(c *C) *native {
	g := ref.NewGen(c.R)
	g.Budget = min(g.Budget, 4000)
	return &native{r: c.R, g: g, unordered: map[*Doc]bool{}, anyWidth: map[*Val]bool{}, b: &builder{r: c.R, live: true}}
}

func (n *native) judge(c *C, how string, d *birch.Document, want *Doc) {
	if d == nil {
		c.Failf("nil", "%s gave no document", how)
	}
	raw, err := d.MarshalBSON()
	if err != nil {
		c.Failf("marshal", "%s: %v", how, err)
	}
	got, err := ref.Decode(raw)
	if err != nil {
		c.Failf("marshal", "%s: the encoding isn't valid: %v", how, err)
	}
	n.matchDoc(c, how, want, got, false)
	c.Event(how)
}

func one(k string, v *Val) *Doc { return (&Doc{}).Append(k, v) }

func nativeFrom(c *C) {
	n := newNative(c)
	x, v := n.value()
	k := n.g.Key()
	c.Note("go", "%T %.2000v", x, x)
	ec, vc, dc := birch.EC, birch.VC, birch.DC
	check := func(how string, e *birch.Element) {
		if e == nil {
			c.Failf("nil", "%s gave no element", how)
		}
		if e.Key() != k {
			c.Failf("key", "%s: key %q, expected %q", how, e.Key(), k)
		}
		n.judge(c, how, dc.Elements(e), one(k, v))
	}
	checkV := func(how string, val *birch.Value) {
		if val == nil {
			c.Failf("nil", "%s gave no value", how)
		}
		n.judge(c, how, dc.Elements(ec.Value(k, val)), one(k, v))
	}
	checkD := func(how string, d *birch.Document) { n.judge(c, how, d, v.D) }
	must := func(how string, err error) {
		if err != nil {
			c.Failf("refused", "%s refuses %T: %v", how, x, err)
		}
	}

	check("EC.Interface", ec.Interface(k, x))
	e, err := birch.ECE.Interface(k, x)
	must("ECE.Interface", err)
	check("ECE.Interface", e)
	checkV("VC.Interface", vc.Interface(x))
	val, err := birch.VCE.Interface(x)
	must("VCE.Interface", err)
	checkV("VCE.Interface", val)

	if w := n.g.Val(); w.T != ref.Null {
		one := one(k, w)
		el := n.b.elem(k, w)
		n.judge(c, "EC.Interface of an element", dc.Elements(ec.Interface(k, el)), one)
		n.judge(c, "VC.Interface of an element", dc.Elements(ec.Value(k, vc.Interface(el))), one)
		n.judge(c, "DC.Interface of an element", dc.Interface(el), one)
		e, err := birch.ECE.Interface(k, el)
		must("ECE.Interface of an element", err)
		n.judge(c, "ECE.Interface of an element", dc.Elements(e), one)
		d, err := birch.DCE.Interface(el)
		must("DCE.Interface of an element", err)
		n.judge(c, "DCE.Interface of an element", d, one)
	}

	switch t := x.(type) {
	case int:
		check("EC.Int", ec.Int(k, t))
		checkV("VC.Int", vc.Int(t))
	case time.Time:
		check("EC.Time", ec.Time(k, t))
		checkV("VC.Time", vc.Time(t))
	case map[string]any:
		checkD("DC.MapInterface", dc.MapInterface(t))
		checkD("DC.Interface", dc.Interface(t))
		d, err := birch.DCE.MapInterface(t)
		must("DCE.MapInterface", err)
		checkD("DCE.MapInterface", d)
		d, err = birch.DCE.Interface(t)
		must("DCE.Interface", err)
		checkD("DCE.Interface", d)
		checkV("VC.MapInterface", vc.MapInterface(t))
		val, err := birch.VCE.MapInterface(t)
		must("VCE.MapInterface", err)
		checkV("VCE.MapInterface", val)
	case map[any]any:
		checkD("DC.MapInterfaceInterface", dc.MapInterfaceInterface(t))
		checkD("DC.Interface", dc.Interface(t))
		d, err := birch.DCE.MapInterfaceInterface(t)
		must("DCE.MapInterfaceInterface", err)
		checkD("DCE.MapInterfaceInterface", d)
		d, err = birch.DCE.Interface(t)
		must("DCE.Interface", err)
		checkD("DCE.Interface", d)
		checkV("VC.MapInterfaceInterface", vc.MapInterfaceInterface(t))
	case map[string]string:
		checkD("DC.MapString", dc.MapString(t))
		checkD("DC.Interface", dc.Interface(t))
		d, err := birch.DCE.Interface(t)
		must("DCE.Interface", err)
		checkD("DCE.Interface", d)
		checkV("VC.MapString", vc.MapString(t))
	case []any:
		check("EC.SliceInterface", ec.SliceInterface(k, t))
		checkV("VC.SliceInterface", vc.SliceInterface(t))
		e, err := birch.ECE.SliceInterface(k, t)
		must("ECE.SliceInterface", err)
		check("ECE.SliceInterface", e)
		val, err := birch.VCE.SliceInterface(t)
		must("VCE.SliceInterface", err)
		checkV("VCE.SliceInterface", val)
	case []string:
		check("EC.SliceString", ec.SliceString(k, t))
		checkV("VC.SliceString", vc.SliceString(t))
	case []int64:
		check("EC.SliceInt64", ec.SliceInt64(k, t))
		checkV("VC.SliceInt64", vc.SliceInt64(t))
	case []int32:
		check("EC.SliceInt32", ec.SliceInt32(k, t))
		checkV("VC.SliceInt32", vc.SliceInt32(t))
	case []float64:
		check("EC.SliceFloat64", ec.SliceFloat64(k, t))
		checkV("VC.SliceFloat64", vc.SliceFloat64(t))
	case []float32:
		check("EC.SliceFloat32", ec.SliceFloat32(k, t))
		checkV("VC.SliceFloat32", vc.SliceFloat32(t))
	case []int:
		check("EC.SliceInt", ec.SliceInt(k, t))
		checkV("VC.SliceInt", vc.SliceInt(t))
	case []time.Time:
		check("EC.SliceTime", ec.SliceTime(k, t))
		checkV("VC.SliceTime", vc.SliceTime(t))
	case []time.Duration:
		check("EC.SliceDuration", ec.SliceDuration(k, t))
		checkV("VC.SliceDuration", vc.SliceDuration(t))
	case int64:
		check("EC.Duration", ec.Duration(k, time.Duration(t)))
		checkV("VC.Duration", vc.Duration(time.Duration(t)))
	case *birch.Document:
		checkD("DC.Interface", dc.Interface(t))
		d, err := birch.DCE.Interface(t)
		must("DCE.Interface", err)
		checkD("DCE.Interface", d)
		raw, err := birch.MarshalDocumentBSON(t)
		if err != nil || !bytes.Equal(raw, v.D.Encode()) {
			c.Failf("marshal", "MarshalDocumentBSON: %v, %s", err, diffAt(raw, v.D.Encode()))
		}
	case []*birch.Element:
		checkD("DC.Interface", dc.Interface(t))
		d, err := birch.DCE.Interface(t)
		must("DCE.Interface", err)
		checkD("DCE.Interface", d)
	case birch.Reader:
		checkD("DC.Interface", dc.Interface(t))
		d, err := birch.DCE.Interface(t)
		must("DCE.Interface", err)
		checkD("DCE.Interface", d)
		checkD("DC.Reader", dc.Reader(t))
		checkD("DC.ReadFrom", dc.ReadFrom(&chunkReader{r: c.R, data: t, err: errors.New("too far")}))
	case rawMarshaler:
		check("EC.Marshaler", ec.Marshaler(k, t))
		checkV("VC.Marshaler", vc.Marshaler(t))
		checkD("DC.Marshaler", dc.Marshaler(t))
		checkD("DC.Interface", dc.Interface(t))
		d, err := birch.DCE.Interface(t)
		must("DCE.Interface", err)
		checkD("DCE.Interface", d)
	case docMarshaler:
		check("EC.DocumentMarshaler", ec.DocumentMarshaler(k, t))
		checkV("VC.DocumentMarshaler", vc.DocumentMarshaler(t))
		checkD("DC.Interface", dc.Interface(t))
		d, err := birch.DCE.Interface(t)
		must("DCE.Interface", err)
		checkD("DCE.Interface", d)
		raw, err := birch.MarshalDocumentBSON(t)
		if err != nil || !bytes.Equal(raw, v.D.Encode()) {
			c.Failf("marshal", "MarshalDocumentBSON: %v, %s", err, diffAt(raw, v.D.Encode()))
		}
	}
	n.b.checkGuards(c)
	c.State(fmt.Sprintf("%T", x), one(k, v).Shape())
	c.Sample("%T %.200v", x, x)
}

func nativeUnsupported(c *C) {
	n := newNative(c)
	k := n.g.Key()
	x := mon.Pick(c.R, []any{make(chan int), func() {}, struct{ A int }{1}, complex(1, 2), uint64(math.MaxUint64), uint64(math.MaxInt64) + 1,
		uint(math.MaxInt64) + 1, badMarshaler{}, badDocMarshaler{}, nilDocMarshaler{}, birch.Reader{5, 0, 0}, errMarshal, &struct{}{}, [3]int{},
		(*jsonx.Document)(nil), (*birch.Document)(nil), jsonx.VC.Int(1), jsonx.AC.New(),
		jsonx.DC.Elements(jsonx.EC.Nil("a"), jsonx.EC.ObjectFromElements("b", jsonx.EC.Int64(mon.Pick(c.R, []string{"$oid", "$symbol", "$date", "$timestamp"}), 1)))})
	if i := uint64(ref.Int64v(c.R)); i > math.MaxInt64 && c.R.Bool() {
		x = i
	}
	c.Note("go", "%T %v", x, x)
	e := birch.EC.Interface(k, x)
	if e == nil || e.Key() != k || e.Value().Type() != ref.Null {
		c.Failf("null", "EC.Interface(%T) is %v, expected a null of the key %q", x, e, k)
	}
	if v := birch.VC.Interface(x); v == nil || v.Type() != ref.Null {
		c.Failf("null", "VC.Interface(%T) is %v, expected null", x, v)
	}
	if e, err := birch.ECE.Interface(k, x); err == nil {
		c.Failf("error", "ECE.Interface accepts %T: %v", x, e)
	}
	if v, err := birch.VCE.Interface(x); err == nil {
		c.Failf("error", "VCE.Interface accepts %T: %v", x, v)
	}
	if d, err := birch.DCE.MapInterface(map[string]any{"a": 1, k: x}); err == nil {
		c.Failf("error", "DCE.MapInterface accepts %T: %v", x, d)
	}
	if d, err := birch.DCE.MapInterfaceInterface(map[any]any{"a": 1, k: x}); err == nil {
		c.Failf("error", "DCE.MapInterfaceInterface accepts %T: %v", x, d)
	}
	if d, err := birch.ECE.SliceInterface(k, []any{1, x}); err == nil {
		c.Failf("error", "ECE.SliceInterface accepts %T: %v", x, d)
	}
	if d, err := birch.VCE.SliceInterface([]any{1, x}); err == nil {
		c.Failf("error", "VCE.SliceInterface accepts %T: %v", x, d)
	}
	if d, err := birch.DCE.Interface(x); err == nil {
		if d != nil {
			c.Failf("error", "DCE.Interface accepts %T: %v", x, d)
		}
	}
	switch t := x.(type) {
	case birch.Marshaler:
		if _, err := birch.ECE.Marshaler(k, t); err == nil {
			c.Failf("error", "ECE.Marshaler of a failing marshaler: %v", err)
		}
		if _, err := birch.DCE.Marshaler(t); err == nil {
			c.Failf("error", "DCE.Marshaler of a failing marshaler: %v", err)
		}
		if _, err := birch.VCE.Marshaler(t); err == nil {
			c.Failf("error", "VCE.Marshaler of a failing marshaler: %v", err)
		}
	case birch.DocumentMarshaler:
		_, bad := t.(badDocMarshaler)
		failed := func(err error) bool { return err != nil && (!bad || errors.Is(err, errMarshal)) }
		if _, err := birch.ECE.DocumentMarshaler(k, t); !failed(err) {
			c.Failf("error", "ECE.DocumentMarshaler of a failing marshaler: %v", err)
		}
		if _, err := birch.VCE.DocumentMarshaler(t); !failed(err) {
			c.Failf("error", "VCE.DocumentMarshaler of a failing marshaler: %v", err)
		}
		if p := mon.NoPanic(func() { birch.EC.DocumentMarshaler(k, t) }); p == nil {
			c.Failf("error", "EC.DocumentMarshaler of a failing marshaler doesn't panic")
		}
		if p := mon.NoPanic(func() { birch.VC.DocumentMarshaler(t) }); p == nil {
			c.Failf("error", "VC.DocumentMarshaler of a failing marshaler doesn't panic")
		}
		if _, err := birch.MarshalDocumentBSON(t); !failed(err) {
			c.Failf("error", "MarshalDocumentBSON of a failing marshaler: %v", err)
		}
	}
	if e := birch.EC.Interface(k, nil); e.Value().Type() != ref.Null {
		c.Failf("null", "EC.Interface(nil) is %v", e)
	}
	c.Event(fmt.Sprintf("%T", x))
	c.State(fmt.Sprintf("%T", x), k)
	c.Sample("%T", x)
}

// ---- to Go values

type goCheck struct{ c *C }

func (k goCheck) val(path string, got any, w *Val) {
	c := k.c
	bad := func() {
		c.Failf("export", "%s: exported as %T %.300v, of the value %s", path, got, got, hexs(ref.EncodeElem("", w)))
	}
	c.Event(fmt.Sprintf("export:%T", got))
	switch w.T {
	case ref.Double:
		if f, ok := got.(float64); !ok || math.Float64bits(f) != math.Float64bits(w.F) {
			bad()
		}
	case ref.String, ref.JavaScript, ref.Symbol:
		if s, ok := got.(string); !ok || s != w.S {
			bad()
		}
	case ref.Document:
		m, ok := got.(map[string]any)
		if !ok {
			bad()
		}
		k.doc(path, m, w.D)
	case ref.Array:
		s, ok := got.([]any)
		if !ok || len(s) != len(w.D.E) {
			bad()
		}
		for i := range s {
			k.val(fmt.Sprintf("%s/%d", path, i), s[i], w.D.E[i].V)
		}
	case ref.Binary:
		if b, ok := got.([]byte); !ok || !bytes.Equal(b, w.B) {
			bad()
		}
	case ref.ObjectID:
		if id, ok := got.(types.ObjectID); !ok || id != types.ObjectID(w.OID) {
			bad()
		}
	case ref.Boolean:
		if b, ok := got.(bool); !ok || b != (w.I == 1) {
			bad()
		}
	case ref.DateTime:
		if t, ok := got.(time.Time); !ok || t.UnixMilli() != w.I || t.Nanosecond()%1e6 != 0 {
			bad()
		}
	case ref.Regex:
		if got != any(types.Regex{Pattern: w.S, Options: w.S2}) {
			bad()
		}
	case ref.DBPointer:
		if got != any(types.DBPointer{DB: w.S, Pointer: types.ObjectID(w.OID)}) {
			bad()
		}
	case ref.CodeScope:
		if cs, ok := got.(types.CodeWithScope); !ok || cs.Code != w.S || !bytes.Equal(cs.Scope, w.D.Encode()) {
			bad()
		}
	case ref.Int32:
		if i, ok := got.(int32); !ok || int64(i) != w.I {
			bad()
		}
	case ref.Int64:
		if i, ok := got.(int64); !ok || i != w.I {
			bad()
		}
	case ref.Timestamp:
		if got != any(types.Timestamp{T: uint32(w.H), I: uint32(w.L)}) {
			bad()
		}
	case ref.Decimal128:
		d, ok := got.(types.Decimal128)
		if h, l := d.GetBytes(); !ok || h != w.H || l != w.L {
			bad()
		}
	default:
		if got != nil {
			bad()
		}
	}
}

func (k goCheck) doc(path string, m map[string]any, want *Doc) {
	last := map[string]*Val{}
	for _, e := range want.E {
		last[e.K] = e.V
	}
	if len(m) != len(last) {
		k.c.Failf("export", "%s: %d keys, expected %d", path, len(m), len(last))
	}
	for key, v := range last {
		got, ok := m[key]
		if !ok {
			k.c.Failf("export", "%s: no key %q", path, key)
		}
		k.val(path+"/"+key, got, v)
	}
}

type rawUnmarshaler struct{ raw []byte }

func (u *rawUnmarshaler) UnmarshalBSON(b []byte) error { u.raw = clone(b); return nil }

type docUnmarshaler struct{ d *birch.Document }

func (u *docUnmarshaler) UnmarshalDocument(d *birch.Document) error { u.d = d; return nil }

func nativeTo(c *C) {
	r := c.R
	g := ref.NewGen(r)
	want := g.Doc()
	b := &builder{r: r}
	doc := b.doc(want)
	enc := want.Encode()
	c.Note("document", "%s", hexs(enc))
	k := goCheck{c}
	k.doc("ExportMap", doc.ExportMap(), want)
	for i := range want.E {
		k.val("Interface", doc.ElementAt(uint(i)).Value().Interface(), want.E[i].V)
	}
	k.val("Array.Interface", b.array(want).Interface(), &Val{T: ref.Array, D: want})

	// other values of the target stay.
	sm := map[string]any{"\x01kept": 7}
	if err := doc.Unmarshal(sm); err != nil {
		c.Failf("unmarshal", "Unmarshal into a map: %v", err)
	}
	if sm["\x01kept"] != 7 {
		c.Failf("unmarshal", "Unmarshal dropped a value of the map it wrote to")
	}
	delete(sm, "\x01kept")
	k.doc("Unmarshal", sm, want)
	am := map[any]any{9: 7}
	if err := doc.Unmarshal(am); err != nil {
		c.Failf("unmarshal", "Unmarshal into a map: %v", err)
	}
	conv := map[string]any{}
	for key, v := range am {
		if s, ok := key.(string); ok {
			conv[s] = v
		} else if key != 9 || v != 7 {
			c.Failf("unmarshal", "Unmarshal wrote the key %v", key)
		}
	}
	if len(conv) != len(am)-1 {
		c.Failf("unmarshal", "Unmarshal dropped a value of the map it wrote to")
	}
	k.doc("Unmarshal", conv, want)
	strs := map[string]string{}
	if err := doc.Unmarshal(strs); err != nil {
		c.Failf("unmarshal", "Unmarshal into a map: %v", err)
	}
	wantStrs := map[string]string{}
	for _, e := range want.E {
		if e.V.T == ref.String {
			wantStrs[e.K] = e.V.S
		}
	}
	if !reflect.DeepEqual(strs, wantStrs) {
		c.Failf("unmarshal", "Unmarshal into a map of strings: %.300q, expected %.300q", fmt.Sprint(strs), fmt.Sprint(wantStrs))
	}
	ru := &rawUnmarshaler{}
	if err := doc.Unmarshal(ru); err != nil || !bytes.Equal(ru.raw, enc) {
		c.Failf("unmarshal", "Unmarshal into an unmarshaler: %v, %s", err, diffAt(ru.raw, enc))
	}
	du := &docUnmarshaler{}
	if err := doc.Unmarshal(du); err != nil || du.d == nil {
		c.Failf("unmarshal", "Unmarshal into a document unmarshaler: %v", err)
	}
	if raw, err := du.d.MarshalBSON(); err != nil || !bytes.Equal(raw, enc) {
		c.Failf("unmarshal", "Unmarshal into a document unmarshaler: %v, %s", err, diffAt(raw, enc))
	}
	prefix := g.Doc()
	target := b.doc(prefix)
	if err := doc.Unmarshal(target); err != nil {
		c.Failf("unmarshal", "Unmarshal into a document: %v", err)
	}
	both := &Doc{E: append(append([]ref.Elem{}, prefix.E...), want.E...)}
	if raw, err := target.MarshalBSON(); err != nil || !bytes.Equal(raw, both.Encode()) {
		c.Failf("unmarshal", "Unmarshal into a document: %v, %s", err, diffAt(raw, both.Encode()))
	}
	var n int
	if err := doc.Unmarshal(&n); err == nil {
		c.Failf("unmarshal", "Unmarshal into an integer reports no error")
	}
	// the map view and back.
	dm := birch.DocumentMap{}
	var err error
	if r.Bool() {
		err = dm.UnmarshalBSON(clone(enc))
	} else {
		err = doc.Unmarshal(dm)
	}
	if err != nil {
		c.Failf("map", "unmarshaling into a document map: %v", err)
	}
	last := map[string]*Val{}
	for _, e := range want.E {
		last[e.K] = e.V
	}
	if len(dm) != len(last) {
		c.Failf("map", "the document map has %d keys, expected %d", len(dm), len(last))
	}
	raw, err := dm.MarshalBSON()
	if err != nil {
		c.Failf("map", "marshaling the document map: %v", err)
	}
	back, err := ref.Decode(raw)
	if err != nil || len(back.E) != len(last) {
		c.Failf("map", "marshaling the document map: %v", err)
	}
	for _, e := range back.E {
		if last[e.K] == nil || !bytes.Equal(e.V.EncodeValue(), last[e.K].EncodeValue()) || e.V.T != last[e.K].T {
			c.Failf("map", "the key %q of the document map has another value", e.K)
		}
		delete(last, e.K)
	}
	if raw, err := doc.MarshalBSON(); err != nil || !bytes.Equal(raw, enc) {
		c.Failf("changed", "exporting changed the document: %v, %s", err, diffAt(raw, enc))
	}
	b.checkGuards(c)
	c.State(want.Shape())
	c.Sample("%s", hexs(enc))
}
