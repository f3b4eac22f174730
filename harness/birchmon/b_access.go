package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"github.com/tychoish/birch/types"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	mon.Register(&mon.Property{
		ID:   "B04",
		Rule: "values of every type, made by every constructor or decoded, are read through every accessor; a case is non-trivial when the pair (type, contents) is new",
		Workloads: []mon.Workload{
			{Name: "values", Quick: 300000, Thorough: 6000000, Run: b04Values},
			{Name: "times", Quick: 200000, Thorough: 3000000, Run: b04Times},
			{Name: "uninitialized", Quick: 20, Thorough: 20, Run: b04Uninit},
		},
	})
	mon.Register(&mon.Property{
		ID:   "B07",
		Rule: "every key, every index and every path of a document (and paths that don't exist) are looked up in the document, in its encoding and in the model; a case is non-trivial when the shape of the document is new",
		Workloads: []mon.Workload{
			{Name: "paths", Quick: 20000, Thorough: 800000, Run: b07Paths},
			{Name: "few-keys", Quick: 20000, Thorough: 800000, Run: b07FewKeys},
			{Name: "large", Quick: 400, Thorough: 20000, Run: b07Large},
		},
	})
	mon.Register(&mon.Property{
		ID:   "B09",
		Rule: "pairs of values and elements (equal ones built differently, and ones that differ in one place) are compared; a case is non-trivial when the pair of encodings is new",
		Workloads: []mon.Workload{
			{Name: "pairs", Quick: 400000, Thorough: 8000000, Run: b09Pairs},
			{Name: "neighbours", Quick: 400000, Thorough: 8000000, Run: b09Neighbours},
		},
	})
}

// accessor is one way to read a value: which types it is for, and how to call
// it (checked and unchecked).
type accessor struct {
	name  string
	types []byte
	ok    func(*birch.Value) (vals []any, ok bool)
	must  func(*birch.Value) []any
}

func vs(x ...any) []any { return x }

var accessors = []accessor{
	{"Double", []byte{ref.Double}, func(v *birch.Value) ([]any, bool) { a, ok := v.DoubleOK(); return vs(a), ok }, func(v *birch.Value) []any { return vs(v.Double()) }},
	{"StringValue", []byte{ref.String}, func(v *birch.Value) ([]any, bool) { a, ok := v.StringValueOK(); return vs(a), ok }, func(v *birch.Value) []any { return vs(v.StringValue()) }},
	{"ReaderDocument", []byte{ref.Document}, func(v *birch.Value) ([]any, bool) { a, ok := v.ReaderDocumentOK(); return vs(a), ok }, func(v *birch.Value) []any { return vs(v.ReaderDocument()) }},
	{"ReaderArray", []byte{ref.Array}, func(v *birch.Value) ([]any, bool) { a, ok := v.ReaderArrayOK(); return vs(a), ok }, func(v *birch.Value) []any { return vs(v.ReaderArray()) }},
	{"MutableDocument", []byte{ref.Document}, func(v *birch.Value) ([]any, bool) { a, ok := v.MutableDocumentOK(); return vs(a), ok }, func(v *birch.Value) []any { return vs(v.MutableDocument()) }},
	{"MutableArray", []byte{ref.Array}, func(v *birch.Value) ([]any, bool) { a, ok := v.MutableArrayOK(); return vs(a), ok }, func(v *birch.Value) []any { return vs(v.MutableArray()) }},
	{"Binary", []byte{ref.Binary}, func(v *birch.Value) ([]any, bool) { a, b, ok := v.BinaryOK(); return vs(a, b), ok }, func(v *birch.Value) []any { a, b := v.Binary(); return vs(a, b) }},
	{"ObjectID", []byte{ref.ObjectID}, func(v *birch.Value) ([]any, bool) { a, ok := v.ObjectIDOK(); return vs(a), ok }, func(v *birch.Value) []any { return vs(v.ObjectID()) }},
	{"Boolean", []byte{ref.Boolean}, func(v *birch.Value) ([]any, bool) { a, ok := v.BooleanOK(); return vs(a), ok }, func(v *birch.Value) []any { return vs(v.Boolean()) }},
	{"DateTime", []byte{ref.DateTime}, func(v *birch.Value) ([]any, bool) { a, ok := v.DateTimeOK(); return vs(a), ok }, func(v *birch.Value) []any { return vs(v.DateTime()) }},
	{"Time", []byte{ref.DateTime}, func(v *birch.Value) ([]any, bool) { a, ok := v.TimeOK(); return vs(a), ok }, func(v *birch.Value) []any { return vs(v.Time()) }},
	{"Regex", []byte{ref.Regex}, nil, func(v *birch.Value) []any { a, b := v.Regex(); return vs(a, b) }},
	{"DBPointer", []byte{ref.DBPointer}, func(v *birch.Value) ([]any, bool) { a, b, ok := v.DBPointerOK(); return vs(a, b), ok }, func(v *birch.Value) []any { a, b := v.DBPointer(); return vs(a, b) }},
	{"JavaScript", []byte{ref.JavaScript}, func(v *birch.Value) ([]any, bool) { a, ok := v.JavaScriptOK(); return vs(a), ok }, func(v *birch.Value) []any { return vs(v.JavaScript()) }},
	{"Symbol", []byte{ref.Symbol}, nil, func(v *birch.Value) []any { return vs(v.Symbol()) }},
	{"ReaderJavaScriptWithScope", []byte{ref.CodeScope}, func(v *birch.Value) ([]any, bool) {
		a, b, ok := v.ReaderJavaScriptWithScopeOK()
		return vs(a, b), ok
	}, func(v *birch.Value) []any { a, b := v.ReaderJavaScriptWithScope(); return vs(a, b) }},
	{"MutableJavaScriptWithScope", []byte{ref.CodeScope}, func(v *birch.Value) ([]any, bool) {
		a, b, ok := v.MutableJavaScriptWithScopeOK()
		return vs(a, b), ok
	}, func(v *birch.Value) []any { a, b := v.MutableJavaScriptWithScope(); return vs(a, b) }},
	{"Int32", []byte{ref.Int32}, func(v *birch.Value) ([]any, bool) { a, ok := v.Int32OK(); return vs(a), ok }, func(v *birch.Value) []any { return vs(v.Int32()) }},
	{"Int64", []byte{ref.Int64}, func(v *birch.Value) ([]any, bool) { a, ok := v.Int64OK(); return vs(a), ok }, func(v *birch.Value) []any { return vs(v.Int64()) }},
	{"Int", []byte{ref.Int32, ref.Int64}, func(v *birch.Value) ([]any, bool) { a, ok := v.IntOK(); return vs(a), ok }, func(v *birch.Value) []any { return vs(v.Int()) }},
	{"Timestamp", []byte{ref.Timestamp}, func(v *birch.Value) ([]any, bool) { a, b, ok := v.TimestampOK(); return vs(a, b), ok }, func(v *birch.Value) []any { a, b := v.Timestamp(); return vs(a, b) }},
	{"Decimal128", []byte{ref.Decimal128}, func(v *birch.Value) ([]any, bool) { a, ok := v.Decimal128OK(); return vs(a), ok }, func(v *birch.Value) []any { return vs(v.Decimal128()) }},
}

// is x what the model's value is, seen through an accessor.
func (a *accessor) matches(w *Val, x []any) string {
	switch y := x[0].(type) {
	case float64:
		if math.Float64bits(y) != math.Float64bits(w.F) {
			return fmt.Sprint(y)
		}
	case string:
		if y != w.S {
			return strconv.Quote(y)
		}
	case birch.Reader:
		want := w.D.Encode()
		if w.T == ref.Array {
			want = w.D.EncodeArray()
		}
		if !bytes.Equal(y, want) {
			return diffAt(y, want)
		}
	case *birch.Document:
		if enc, err := y.MarshalBSON(); err != nil || !bytes.Equal(enc, w.D.Encode()) {
			return fmt.Sprint(err, diffAt(enc, w.D.Encode()))
		}
	case *birch.Array:
		if enc, err := y.MarshalBSON(); err != nil || !bytes.Equal(enc, w.D.EncodeArray()) {
			return fmt.Sprint(err, diffAt(enc, w.D.EncodeArray()))
		}
	case byte:
		if y != w.Sub || !bytes.Equal(x[1].([]byte), w.B) {
			return fmt.Sprint(x...)
		}
	case types.ObjectID:
		if y != types.ObjectID(w.OID) {
			return y.Hex()
		}
	case bool:
		if y != (w.I == 1) {
			return fmt.Sprint(y)
		}
	case int64:
		if y != w.I {
			return fmt.Sprint(y)
		}
	case int32:
		if int64(y) != w.I {
			return fmt.Sprint(y)
		}
	case int:
		if int64(y) != w.I {
			return fmt.Sprint(y)
		}
	case uint32:
		if uint64(y) != w.H || uint64(x[1].(uint32)) != w.L {
			return fmt.Sprint(x...)
		}
	case time.Time:
		if y.UnixMilli() != w.I || !y.Equal(time.UnixMilli(w.I)) {
			return fmt.Sprint(y.UnixMilli())
		}
	case types.Decimal128:
		if h, l := y.GetBytes(); h != w.H || l != w.L {
			return fmt.Sprintf("%x %x", h, l)
		}
	default:
		return fmt.Sprintf("unexpected %T", y)
	}
	if len(x) == 2 {
		switch y := x[1].(type) {
		case string: // regex options
			if y != w.S2 {
				return strconv.Quote(y)
			}
		case types.ObjectID:
			if y != types.ObjectID(w.OID) {
				return y.Hex()
			}
		case birch.Reader:
			if !bytes.Equal(y, w.D.Encode()) {
				return diffAt(y, w.D.Encode())
			}
		case *birch.Document:
			if enc, err := y.MarshalBSON(); err != nil || !bytes.Equal(enc, w.D.Encode()) {
				return fmt.Sprint(err, diffAt(enc, w.D.Encode()))
			}
		}
	}
	return ""
}

func b04Values(c *C) {
	g := ref.NewGen(c.R)
	g.Depth, g.MaxElems, g.Budget = 2, 4, min(g.Budget, 3000)
	w := g.ValOf(ref.AllTypes[c.Index%len(ref.AllTypes)])
	enc := w.EncodeValue()
	c.StateBytes(append([]byte{w.T}, enc...))
	c.Note("value", "type %x, encoded %s", w.T, hexs(enc))
	c.Sample("%x %x", w.T, enc)
	b := &builder{r: c.R}
	key := g.Key()
	var v *birch.Value
	if c.R.Bool() {
		e := b.elem(key, w)
		if e.Key() != key {
			c.Failf("key", "the element has the key %q, expected %q", e.Key(), key)
		}
		v = e.Value()
	} else {
		v = b.val(w)
	}
	// the accessors in any order, as some of them parse in place.
	order := c.R.Perm(len(accessors))
	for _, i := range order {
		b04Accessor(c, &accessors[i], v, w)
	}
	if v.Type() != bsontype.Type(w.T) {
		c.Failf("type", "the value has the type %s, expected %s", v.Type(), bsontype.Type(w.T))
	}
	if err := v.Validate(); err != nil {
		c.Failf("validate", "the value is invalid: %v", err)
	}
	if empty, known := isEmpty(w); known && v.IsEmpty() != empty {
		c.Failf("empty", "IsEmpty is %t", !empty)
	}
	b.checkGuards(c)
	// nothing of this changed it.
	e := birch.EC.Value("k", v)
	got, err := e.MarshalBSON()
	if want := ref.EncodeElem("k", w); err != nil || !bytes.Equal(got, want) {
		c.Failf("changed", "after it was read, the value encodes differently: %v, %s", err, diffAt(got, want))
	}
}

func b04Accessor(c *C, a *accessor, v *birch.Value, w *Val) {
	mine := bytes.IndexByte(a.types, w.T) >= 0
	if a.ok != nil {
		x, ok := a.ok(v)
		c.Event("checked accesses")
		if ok != mine {
			c.Failf("checked", "%sOK of a %s says %t", a.name, bsontype.Type(w.T), ok)
		}
		if !mine {
			for _, y := range x {
				// decimals are returned with their bits.
				if d, isDec := y.(types.Decimal128); isDec {
					if h, l := d.GetBytes(); h != 0 || l != 0 {
						c.Failf("checked", "%sOK of a %s gives a value", a.name, bsontype.Type(w.T))
					}
					continue
				}
				if !reflect.ValueOf(y).IsZero() {
					c.Failf("checked", "%sOK of a %s gives %v", a.name, bsontype.Type(w.T), y)
				}
			}
		} else if bad := a.matches(w, x); bad != "" {
			c.Failf("value", "%sOK gives %.500s for %x", a.name, bad, w.EncodeValue())
		}
	}
	var x []any
	p := mon.NoPanic(func() { x = a.must(v) })
	c.Event("unchecked accesses")
	if mine {
		if p != nil {
			c.Failf("panic", "%s of a %s panics: %v", a.name, bsontype.Type(w.T), p)
		}
		if bad := a.matches(w, x); bad != "" {
			c.Failf("value", "%s gives %.500s for %x", a.name, bad, w.EncodeValue())
		}
	} else if p == nil {
		c.Failf("unchecked", "%s of a %s gives %v rather than panic", a.name, bsontype.Type(w.T), x)
	}
}

// isEmpty is what is documented: the zero value of the type, where nil-like
// ones aren't empty. (Undefined isn't decided.)
func isEmpty(w *Val) (empty, known bool) {
	switch w.T {
	case ref.Double:
		return w.F == 0, true
	case ref.String, ref.JavaScript, ref.Symbol, ref.Regex, ref.CodeScope, ref.DBPointer:
		return w.S == "", true
	case ref.Document, ref.Array:
		return len(w.D.E) == 0, true
	case ref.Binary:
		return len(w.B) == 0, true
	case ref.ObjectID:
		return w.OID == [12]byte{}, true
	case ref.Boolean, ref.DateTime, ref.Int32, ref.Int64:
		return w.I == 0, true
	case ref.Timestamp, ref.Decimal128:
		return w.H == 0 && w.L == 0, true
	case ref.Null, ref.MinKey, ref.MaxKey:
		return false, true
	}
	return false, false
}

func b04Times(c *C) {
	r := c.R
	// times from the constructors that take them: to the millisecond, for the
	// whole range of dates.
	ms := ref.Int64v(r)
	if r.Chance(2) {
		ms = int64(r.Uint64N(4e14)) - 2e14
	}
	sub := int64(r.IntN(1e6)) // below the millisecond: dropped
	t := time.UnixMilli(ms).Add(time.Duration(sub))
	switch r.IntN(3) {
	case 0:
		t = t.UTC()
	case 1:
		t = t.In(time.FixedZone("x", r.Range(-14, 14)*3600))
	}
	c.State(ms)
	c.Note("time", "%d ms and %d ns", ms, sub)
	for _, v := range []*birch.Value{birch.EC.Time("k", t).Value(), birch.VC.Time(t)} {
		if v.Type() != bsontype.DateTime {
			c.Failf("type", "the time has the type %s", v.Type())
		}
		got := v.DateTime()
		if got != t.UnixMilli() {
			c.Failf("value", "a time of %d ms has %d", t.UnixMilli(), got)
		}
		if back := v.Time(); !back.Equal(time.UnixMilli(t.UnixMilli())) {
			c.Failf("value", "a time of %d ms is read as %d", t.UnixMilli(), back.UnixMilli())
		}
		c.Event("times")
	}
	d := time.Duration(ref.Int64v(r))
	if got := birch.EC.Duration("k", d).Value().Int64(); got != int64(d) {
		c.Failf("value", "a duration of %d has %d", d, got)
	}
	if got := birch.VC.Duration(d).Int64(); got != int64(d) {
		c.Failf("value", "a duration of %d has %d", d, got)
	}
	i := int(ref.Int64v(r))
	for _, v := range []*birch.Value{birch.EC.Int("k", i).Value(), birch.VC.Int(i)} {
		if got := v.Int(); got != i {
			c.Failf("value", "the int %d is read as %d", i, got)
		}
		c.Event("ints of type " + v.Type().String())
	}
}

func b04Uninit(c *C) {
	for _, v := range []*birch.Value{nil, {}} {
		for i := range accessors {
			a := &accessors[i]
			if a.ok != nil {
				if p := mon.NoPanic(func() {
					if _, ok := a.ok(v); ok {
						c.Failf("uninitialized", "%sOK of an uninitialized value succeeds", a.name)
					}
				}); p != nil {
					c.Failf("uninitialized", "%sOK of an uninitialized value panics: %v", a.name, p)
				}
			}
			if p := mon.NoPanic(func() { a.must(v) }); p == nil {
				c.Failf("uninitialized", "%s of an uninitialized value doesn't panic", a.name)
			}
			c.Event("accesses of uninitialized values")
		}
	}
	c.State("uninitialized")
}

// lookup follows a path in the model: the first element with each key.
func lookup(d *Doc, array bool, path []string) *Val {
	for i, e := range d.E {
		k := e.K
		if array {
			k = strconv.Itoa(i)
		}
		if k != path[0] {
			continue
		}
		if len(path) == 1 {
			return e.V
		}
		if e.V.T != ref.Document && e.V.T != ref.Array {
			return nil
		}
		return lookup(e.V.D, e.V.T == ref.Array, path[1:])
	}
	return nil
}

func b07Paths(c *C) {
	g := ref.NewGen(c.R)
	g.Budget = min(g.Budget, 3000)
	g.Depth = min(g.Depth, 10)
	g.MaxElems = min(g.MaxElems, 60)
	b07(c, g.Doc())
}

// few keys: collisions and prefixes at every level.
func b07FewKeys(c *C) {
	keys := []string{"", "a", "aa", "b", "0", "1", "a.b", "A", "a "}
	var gen func(depth int) *Doc
	gen = func(depth int) *Doc {
		d := &Doc{}
		for n := c.R.IntN(6); n > 0; n-- {
			v := &Val{T: ref.Int32, I: int64(c.R.IntN(1000))}
			if depth > 0 {
				switch c.R.IntN(5) {
				case 0, 1:
					v = &Val{T: ref.Document, D: gen(depth - 1)}
				case 2:
					v = &Val{T: ref.Array, D: gen(depth - 1)}
					for i := range v.D.E {
						v.D.E[i].K = strconv.Itoa(i)
					}
				case 3:
					v = &Val{T: ref.CodeScope, S: "f", D: gen(depth - 1)}
				}
			}
			d.Append(mon.Pick(c.R, keys), v)
		}
		return d
	}
	b07(c, gen(3))
}

// b07Large is deep or wide.
func b07Large(c *C) {
	r := c.R
	m := &Doc{}
	at := m
	array := false
	put := func(v *Val) {
		k := strconv.Itoa(len(at.E))
		if !array {
			k = mon.Pick(r, []string{"a", "b", "c", k})
		}
		at.Append(k, v)
	}
	depth := r.IntN(3)
	if r.Bool() {
		depth = r.Range(3, 60)
	}
	for range depth {
		for range r.IntN(3) {
			put(&Val{T: ref.Int32, I: int64(r.IntN(1000))})
		}
		v := &Val{T: mon.Pick(r, []byte{ref.Document, ref.Array}), D: &Doc{}}
		put(v)
		at, array = v.D, v.T == ref.Array
	}
	for range r.Range(2, 1<<r.Range(2, 12)) {
		put(&Val{T: ref.Int32, I: int64(r.IntN(1000))})
		if !array {
			at.E[len(at.E)-1].K += strconv.Itoa(r.IntN(2000))
		}
	}
	b07(c, m)
}

func b07(c *C, m *Doc) {
	r := c.R
	enc := m.Encode()
	c.State(m.Shape())
	c.Note("document", "%s", hexs(enc))
	c.Sample("%x", enc)
	b := &builder{r: r}
	d := b.doc(m)
	rd := birch.Reader(enc)

	var paths [][]string
	var walk func(d *Doc, array bool, prefix []string)
	walk = func(d *Doc, array bool, prefix []string) {
		for i, e := range d.E {
			if len(paths) > 60 && len(prefix) < 8 {
				return
			}
			if len(d.E) > 60 && i > 0 && i < len(d.E)-1 && !r.Chance(len(d.E)/20) {
				continue
			}
			k := e.K
			if array {
				k = strconv.Itoa(i)
			}
			p := append(append([]string(nil), prefix...), k)
			paths = append(paths, p)
			switch r.IntN(6) {
			case 0:
				paths = append(paths, append(append([]string(nil), p...), mon.Pick(r, []string{"", "0", "a", "1"})))
			case 1:
				paths = append(paths, append(append([]string(nil), prefix...), k+"x"))
			case 3:
				// other spellings of an index.
				other := mon.Pick(r, []string{"+", "0", "-", " ", "00", "0x"}) + k
				paths = append(paths, append(append([]string(nil), prefix...), other))
			case 2:
				if k != "" {
					paths = append(paths, append(append([]string(nil), prefix...), k[:len(k)-1]))
				}
			}
			if e.V.D != nil {
				walk(e.V.D, e.V.T == ref.Array, p)
			}
		}
	}
	walk(m, false, nil)
	for _, k := range []string{"", "no such key", "0", "a"} {
		paths = append(paths, []string{k})
	}
	r.Shuffle(len(paths), func(i, j int) { paths[i], paths[j] = paths[j], paths[i] })
	cmp := &comparer{c: c}
	for _, p := range paths {
		want := lookup(m, false, p)
		found := func(name string, e *birch.Element, err error) {
			c.Event("lookups")
			if (e == nil) == (err == nil) {
				c.Failf("lookup", "%s(%q) gives the element %v and the error %v", name, p, e, err)
			}
			if (want != nil) != (err == nil) {
				c.Failf("lookup", "%s(%q): %v, but the document %s", name, p, err, map[bool]string{true: "has it", false: "doesn't have it"}[want != nil])
			}
			if want != nil {
				cmp.elem(fmt.Sprintf("%s(%q)", name, p), e, p[len(p)-1], want)
				c.Event("found")
			}
		}
		e, err := rd.RecursiveLookup(p...)
		found("RecursiveLookup", e, err)
		e, err = d.Search(p...)
		found("Search", e, err)
		if len(p) > 1 {
			continue
		}
		e, err = d.LookupElementErr(p[0])
		found("LookupElementErr", e, err)
		e = d.LookupElement(p[0])
		if (e == nil) != (want == nil) {
			c.Failf("lookup", "LookupElement(%q) gives %v", p, e)
		}
		v := d.Lookup(p[0])
		if (v == nil) != (want == nil) {
			c.Failf("lookup", "Lookup(%q) gives %v", p, v)
		}
		v2, err := d.LookupErr(p[0])
		if (v2 == nil) != (want == nil) || (err == nil) != (want != nil) {
			c.Failf("lookup", "LookupErr(%q) gives %v, %v", p, v2, err)
		}
		if want != nil {
			cmp.val("Lookup", v, want)
			cmp.val("LookupErr", v2, want)
			cmp.elem("LookupElement", e, p[0], want)
		}
		me, ok := d.Map()[p[0]]
		if ok != (want != nil) {
			c.Failf("lookup", "the map has %q: %t", p[0], ok)
		}
		if ok {
			cmp.elem("Map", me, p[0], want)
		}
	}
	for i := 0; i < len(m.E)+3; i++ {
		if i > 50 && i < len(m.E)-2 {
			continue
		}
		e, err := rd.ElementAt(uint(i))
		e2, ok := d.ElementAtOK(uint(i))
		if (err == nil) != (i < len(m.E)) || ok != (i < len(m.E)) {
			c.Failf("index", "element %d of %d: %v, %t", i, len(m.E), err, ok)
		}
		if i < len(m.E) {
			cmp.elem("ElementAt", e, m.E[i].K, m.E[i].V)
			cmp.elem("ElementAtOK", e2, m.E[i].K, m.E[i].V)
			cmp.elem("Document.ElementAt", d.ElementAt(uint(i)), m.E[i].K, m.E[i].V)
		}
		c.Event("indexes")
	}
	if _, ok := d.ElementAtOK(math.MaxUint); ok {
		c.Failf("index", "there is an element at the largest index")
	}
	if _, err := rd.ElementAt(math.MaxUint); err == nil {
		c.Failf("index", "there is an element at the largest index")
	}
}

// pairs that are equal by construction, however each is built, or that are
// unrelated.
func b09Pairs(c *C) {
	g := ref.NewGen(c.R)
	g.Budget, g.Depth, g.MaxElems = min(g.Budget, 2000), 3, 5
	a := g.ValOf(ref.AllTypes[c.Index%len(ref.AllTypes)])
	ka := g.Key()
	b, kb := a.Clone(), ka
	switch c.R.IntN(4) {
	case 0:
		b = g.ValOf(a.T)
	case 1:
		kb = g.Key()
	case 2:
		b = g.Val()
	}
	b09(c, ka, a, kb, b)
}

// a change in one place.
func b09Neighbours(c *C) {
	g := ref.NewGen(c.R)
	g.Budget, g.Depth, g.MaxElems = min(g.Budget, 800), 3, 4
	a := g.ValOf(ref.AllTypes[c.Index%len(ref.AllTypes)])
	b := a.Clone()
	tweak(c.R, b, g)
	b09(c, "k", a, "k", b)
}

func tweak(r *mon.Rand, v *Val, g *ref.Gen) {
	str := func(s string) string {
		switch {
		case s == "" || r.Chance(3):
			return s + "x"
		case r.Bool():
			return s[:len(s)-1]
		default:
			b := []byte(s)
			i := r.IntN(len(b))
			if b[i] ^= 1; b[i] == 0 {
				b[i] = 'q'
			}
			return string(b)
		}
	}
	switch v.T {
	case ref.Double:
		v.F = math.Float64frombits(math.Float64bits(v.F) ^ 1<<r.IntN(64))
	case ref.String, ref.JavaScript, ref.Symbol:
		v.S = str(v.S)
	case ref.Regex:
		if r.Bool() {
			v.S = str(v.S)
		} else {
			v.S2 = str(v.S2)
		}
	case ref.Binary:
		switch {
		case r.Chance(3):
			v.Sub = mon.Pick(r, []byte{0, 1, 3, 4, 5, 2, 0x80})
		case len(v.B) > 0 && r.Bool():
			v.B[r.IntN(len(v.B))] ^= 1 << r.IntN(8)
		case len(v.B) > 0 && r.Bool():
			v.B = v.B[:len(v.B)-1]
		default:
			v.B = append(v.B, 0)
		}
	case ref.ObjectID:
		v.OID[r.IntN(12)] ^= 1 << r.IntN(8)
	case ref.DBPointer:
		if r.Bool() {
			v.S = str(v.S)
		} else {
			v.OID[r.IntN(12)] ^= 1 << r.IntN(8)
		}
	case ref.Boolean:
		v.I ^= 1
	case ref.DateTime, ref.Int64:
		v.I ^= 1 << r.IntN(64)
	case ref.Int32:
		v.I = int64(int32(v.I) ^ 1<<r.IntN(32))
	case ref.Timestamp:
		if r.Bool() {
			v.H ^= 1 << r.IntN(32)
		} else {
			v.L ^= 1 << r.IntN(32)
		}
	case ref.Decimal128:
		if r.Bool() {
			v.H ^= 1 << r.IntN(64)
		} else {
			v.L ^= 1 << r.IntN(64)
		}
	case ref.Document, ref.Array, ref.CodeScope:
		if v.T == ref.CodeScope && r.Chance(3) {
			v.S = str(v.S)
			return
		}
		if len(v.D.E) == 0 || r.Chance(4) {
			v.D.Append(strconv.Itoa(len(v.D.E)), &Val{T: ref.Null})
			return
		}
		i := r.IntN(len(v.D.E))
		switch {
		case r.Chance(4) && len(v.D.E) > 1:
			v.D.E = append(v.D.E[:i], v.D.E[i+1:]...)
		case v.T != ref.Array && r.Chance(4):
			v.D.E[i].K += "x"
		case r.Chance(4) && len(v.D.E) > 1:
			j := r.IntN(len(v.D.E))
			v.D.E[i], v.D.E[j] = v.D.E[j], v.D.E[i]
		default:
			tweak(r, v.D.E[i].V, g)
		}
	default: // the types without a value
		v.T = mon.Pick(r, []byte{ref.Null, ref.Undefined, ref.MinKey, ref.MaxKey})
	}
}

func b09(c *C, ka string, a *Val, kb string, b *Val) {
	ea, eb := a.EncodeValue(), b.EncodeValue()
	c.StateBytes(append(append([]byte{a.T, b.T}, ea...), eb...))
	c.Note("values", "%x %s and %x %s", a.T, hexs(ea), b.T, hexs(eb))
	want := a.T == b.T && bytes.Equal(ea, eb)
	bl := &builder{r: c.R}
	va, vb := bl.val(a), bl.val(b)
	c.Event(fmt.Sprintf("values equal: %t", want))
	if va.Equal(vb) != want || vb.Equal(va) != want {
		c.Failf("value", "Value.Equal says %t and %t, expected %t", va.Equal(vb), vb.Equal(va), want)
	}
	if !va.Equal(va) || !va.Equal(va.Copy()) {
		c.Failf("reflexive", "a value isn't equal to itself")
	}
	if va.Equal(nil) || (*birch.Value)(nil).Equal(va) || !(*birch.Value)(nil).Equal(nil) {
		c.Failf("nil", "a value is equal to nil, or nil isn't equal to nil")
	}
	xa, xb := bl.elem(ka, a), bl.elem(kb, b)
	wante := want && ka == kb
	c.Event(fmt.Sprintf("elements equal: %t", wante))
	if xa.Equal(xb) != wante || xb.Equal(xa) != wante {
		c.Failf("element", "Element.Equal of the keys %q and %q says %t and %t, expected %t", ka, kb, xa.Equal(xb), xb.Equal(xa), wante)
	}
	if !xa.Equal(xa) || !xa.Equal(xa.Copy()) {
		c.Failf("reflexive", "an element isn't equal to itself")
	}
	if xa.Equal(nil) || (*birch.Element)(nil).Equal(xa) || !(*birch.Element)(nil).Equal(nil) {
		c.Failf("nil", "an element is equal to nil, or nil isn't equal to nil")
	}
	// parsing in place doesn't change what values are equal to.
	_ = va.Interface()
	if va.Equal(vb) != want {
		c.Failf("value", "after it was read, Value.Equal says %t", !want)
	}
	bl.checkGuards(c)
}
