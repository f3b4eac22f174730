package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/tychoish/birch"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	mon.Register(&mon.Property{
		ID:   "B05",
		Rule: "histories of operations on documents that share elements (appending, setting, deleting, extending, copying, sorting, resetting, replacing values, modifying nested documents, decoding into them) are applied to the code and to a model, and after every operation everything observable is compared; a case is non-trivial when the sequence of operations and document shapes is new",
		Assumptions: []string{
			"copies of documents are shallow, as documented: the elements are shared",
		},
		Workloads: []mon.Workload{
			{Name: "histories", Quick: 100000, Thorough: 3000000, Run: b05History},
			{Name: "long-histories", Quick: 1000, Thorough: 20000, Run: b05Long},
			{Name: "large", Quick: 800, Thorough: 20000, Run: b05Large},
		},
	})
	mon.Register(&mon.Property{
		ID:   "B06",
		Rule: "histories of operations on arrays (appending, setting, deleting, extending from arrays and documents, resetting, modifying nested values) are applied to the code and to a model, and after every operation everything observable is compared; a case is non-trivial when the sequence of operations and array shapes is new",
		Workloads: []mon.Workload{
			{Name: "histories", Quick: 100000, Thorough: 3000000, Run: b06History},
			{Name: "large", Quick: 800, Thorough: 20000, Run: b06Large},
			{Name: "lengths", Quick: 600, Thorough: 6000, Run: b06Lengths},
		},
	})
}

// mElem is an element of the model: documents share them as birch's do.
type mElem struct {
	k string
	v *mVal
	e *birch.Element // as it is known to the code (only at the top level)
}

// mVal is a value whose nested elements are shared too.
type mVal struct {
	w *Val // without D
	d *mDoc
}

type mDoc struct{ e []*mElem }

func toModel(w *Val) *mVal {
	out := &mVal{w: w}
	if w.D != nil {
		out.d = toModelDoc(w.D)
	}
	return out
}

func toModelDoc(d *Doc) *mDoc {
	out := &mDoc{}
	for _, e := range d.E {
		out.e = append(out.e, &mElem{k: e.K, v: toModel(e.V)})
	}
	return out
}

func (v *mVal) plain() *Val {
	w := *v.w
	if v.d != nil {
		w.D = v.d.plain(w.T == ref.Array)
	}
	return &w
}

func (d *mDoc) plain(array bool) *Doc {
	out := &Doc{}
	for i, e := range d.e {
		k := e.k
		if array {
			k = strconv.Itoa(i)
		}
		out.E = append(out.E, ref.Elem{K: k, V: e.v.plain()})
	}
	return out
}

func (d *mDoc) find(key string) int {
	for i, e := range d.e {
		if e.k == key {
			return i
		}
	}
	return -1
}

type docPair struct {
	d *birch.Document
	m *mDoc
}

type docHistory struct {
	c    *C
	r    *mon.Rand
	g    *ref.Gen
	b    *builder
	docs []*docPair
	log  strings.Builder
	keys []string
	max  int // extended to
}

func (h *docHistory) op(format string, args ...any) {
	fmt.Fprintf(&h.log, format+"; ", args...)
	h.c.Note("history", "%s", h.log.String())
}

func (h *docHistory) key() string {
	if h.r.Chance(8) {
		return h.g.Key()
	}
	return mon.Pick(h.r, h.keys)
}

func (h *docHistory) val() *Val {
	h.g.Budget = 200
	if h.r.Chance(3) {
		return &Val{T: ref.Int32, I: int64(h.r.IntN(3))}
	}
	v := h.g.Val()
	return v
}

// elemFor may give an element that the document has already.
func (h *docHistory) elemFor(p *docPair) *mElem {
	if len(p.m.e) > 0 && h.r.Chance(6) {
		h.c.Event("elements used again")
		return mon.Pick(h.r, p.m.e)
	}
	return h.elem()
}

func (h *docHistory) elem() *mElem {
	k, w := h.key(), h.val()
	e := h.b.elem(k, w)
	return &mElem{k: k, v: toModel(w), e: e}
}

func b05History(c *C) { b05Run(c, c.R.Range(2, 25)) }
func b05Long(c *C)    { b05Run(c, c.R.Range(200, 500)) }

func b05Run(c *C, n int) {
	h := &docHistory{c: c, r: c.R, g: ref.NewGen(c.R), b: &builder{r: c.R}, keys: []string{"a", "b", "c", "", "0", "aa", "key", "key2"}}
	h.g.Depth, h.g.MaxElems = 3, 4
	h.docs = []*docPair{{birch.DC.New(), &mDoc{}}}
	h.run(n)
}

// b05Large has documents of hundreds and thousands of elements, and uses the
// keys of some of them, wherever they are.
func b05Large(c *C) {
	r := c.R
	h := &docHistory{c: c, r: r, g: ref.NewGen(r), b: &builder{r: r}, max: 8000}
	h.g.Depth, h.g.MaxElems = 2, 4
	n := mon.Pick(r, []int{64, 128, 255, 256, 257, 300, 512, 1000, 1024, 2000, 4097})
	distinct := n
	if r.Chance(3) {
		distinct = r.Range(1, n)
	}
	m, es := &mDoc{}, []*birch.Element(nil)
	for i := range n {
		w := &Val{T: ref.Int32, I: int64(i)}
		if r.Chance(50) {
			w = h.val()
		}
		k := "k" + strconv.Itoa(i%distinct)
		e := h.b.elem(k, w)
		es = append(es, e)
		m.e = append(m.e, &mElem{k: k, v: toModel(w), e: e})
	}
	h.keys = []string{"k0", "k" + strconv.Itoa(distinct-1), "k" + strconv.Itoa(distinct), "", "k"}
	for range 20 {
		h.keys = append(h.keys, "k"+strconv.Itoa(r.IntN(distinct)))
	}
	h.op("%d elements, %d keys", n, distinct)
	h.docs = []*docPair{{birch.DC.Elements(es...), m}}
	h.run(r.Range(2, 15))
}

func (h *docHistory) run(n int) {
	c := h.c
	for i := 0; i < n; i++ {
		h.step()
		// not every document every time, so that caches are left in every state.
		if c.R.Chance(2) || i == n-1 {
			h.check(i == n-1)
		}
	}
	c.State(h.log.String())
	c.Sample("%s", h.log.String())
	h.b.checkGuards(c)
}

func (h *docHistory) step() {
	c, r := h.c, h.r
	p := mon.Pick(r, h.docs)
	id := 0
	for i := range h.docs {
		if h.docs[i] == p {
			id = i
		}
	}
	ret := func(name string, d *birch.Document) {
		if d != p.d {
			c.Failf("chain", "%s returns another document", name)
		}
	}
	c.Event("operations")
	switch r.IntN(22) {
	case 0, 1, 2: // append
		var es []*birch.Element
		for n := r.IntN(4); n > 0; n-- {
			e := h.elemFor(p)
			es = append(es, e.e)
			p.m.e = append(p.m.e, e)
		}
		h.op("d%d.Append %d", id, len(es))
		ret("Append", p.d.Append(es...))
	case 3:
		var es []*birch.Element
		for n := r.IntN(4); n > 0; n-- {
			if r.Chance(8) {
				es = append(es, nil)
				continue
			}
			e := h.elem()
			if r.Chance(3) {
				w := zeroOf(r)
				e = &mElem{k: e.k, v: toModel(w), e: h.b.elem(e.k, w)}
			}
			empty, known := isEmpty(e.v.plain())
			if !known {
				continue
			}
			es = append(es, e.e)
			if !empty {
				p.m.e = append(p.m.e, e)
			}
		}
		h.op("d%d.AppendOmitEmpty %d", id, len(es))
		ret("AppendOmitEmpty", p.d.AppendOmitEmpty(es...))
	case 4, 5, 6:
		e := h.elemFor(p)
		h.op("d%d.Set %q", id, e.k)
		if i := p.m.find(e.k); i >= 0 {
			p.m.e = append([]*mElem(nil), p.m.e...)
			p.m.e[i] = e
		} else {
			p.m.e = append(p.m.e, e)
		}
		ret("Set", p.d.Set(e.e))
	case 7, 8:
		k := h.key()
		h.op("d%d.Delete %q", id, k)
		got := p.d.Delete(k)
		i := p.m.find(k)
		if (got == nil) != (i < 0) {
			c.Failf("delete", "Delete(%q) returns %v, the key was at %d", k, got, i)
		}
		if i >= 0 {
			if got != p.m.e[i].e {
				c.Failf("delete", "Delete(%q) returns another element", k)
			}
			p.m.e = append(append([]*mElem(nil), p.m.e[:i]...), p.m.e[i+1:]...)
		}
	case 9:
		q := mon.Pick(r, h.docs)
		if len(p.m.e)+len(q.m.e) > max(200, h.max) {
			return
		}
		h.op("d%d.Extend", id)
		es := append([]*mElem(nil), q.m.e...)
		if r.Bool() {
			ret("Extend", p.d.Extend(q.d))
		} else if p != q {
			if err := p.d.UnmarshalDocument(q.d); err != nil {
				c.Failf("extend", "UnmarshalDocument: %v", err)
			}
		} else {
			return
		}
		p.m.e = append(append([]*mElem(nil), p.m.e...), es...)
	case 10:
		if r.Chance(2) {
			h.op("d%d.Reset", id)
			p.d.Reset()
			p.m.e = nil
		}
	case 11, 12: // another document of the same elements
		if len(h.docs) > 4 {
			h.docs = h.docs[1:]
		}
		q := &docPair{m: &mDoc{e: append([]*mElem(nil), p.m.e...)}}
		switch r.IntN(4) {
		case 0:
			h.op("d%d.Copy", id)
			q.d = p.d.Copy()
		case 1:
			h.op("d%d.Sorted", id)
			q.d = p.d.Sorted()
			h.sorted(q)
		case 2:
			h.op("DC.Elements(d%d.Elements.Copy)", id)
			q.d = birch.DC.Elements(p.d.Elements().Copy()...)
		case 3:
			h.op("new from map of d%d", id)
			dm := p.d.Map()
			if err := dm.Validate(); err != nil {
				c.Failf("map", "the map of a document is invalid: %v", err)
			}
			d, err := dm.Copy().MarshalDocument()
			if err != nil {
				c.Failf("map", "MarshalDocument of the map of a document: %v", err)
			}
			q.d = d
			// the order is the map's.
			q.m.e = nil
			seen := map[*birch.Element]bool{}
			for e := range d.Iterator() {
				i := p.m.find(e.Key())
				if i < 0 || p.m.e[i].e != e || seen[e] {
					c.Failf("map", "the map has an element with the key %q that isn't the document's first", e.Key())
				}
				seen[e] = true
				q.m.e = append(q.m.e, p.m.e[i])
			}
			for i, e := range p.m.e {
				if p.m.find(e.k) == i && !seen[e.e] {
					c.Failf("map", "the map misses the key %q", e.k)
				}
			}
		}
		if q.d == p.d {
			c.Failf("copy", "the copy is the document itself")
		}
		h.docs = append(h.docs, q)
	case 13: // replace the contents
		h.g.Budget = 300
		m := h.g.Doc()
		enc := m.Encode()
		h.op("d%d.Unmarshal %d", id, len(m.E))
		var err error
		if r.Bool() {
			err = p.d.UnmarshalBSON(h.b.guard("a document", enc))
		} else {
			_, err = p.d.ReadFrom(&chunkReader{r: r, data: enc})
		}
		if err != nil {
			c.Failf("unmarshal", "unmarshaling a valid document: %v", err)
		}
		p.m.e = toModelDoc(m).e
		h.adopt(p)
	case 14: // map: keep the cache, and what the caller does with the map
		h.op("d%d.Map", id)
		dm := p.d.Map()
		for k := range dm {
			delete(dm, k)
			break
		}
		dm["added"] = birch.EC.Null("added")
	case 15: // replace the value of an element, with the same key
		if len(p.m.e) == 0 {
			return
		}
		e := mon.Pick(r, p.m.e)
		w := h.val()
		h.op("d%d.SetValue %q", id, e.k)
		nv := h.b.elem(e.k, w).Value()
		if r.Bool() {
			e.e.SetValue(nv)
			e.v = toModel(w)
		} else {
			e.e.Value().Set(nv)
			*e.v = *toModel(w)
		}
	case 16, 17, 18: // modify what is nested
		h.nested(p, id)
	case 19:
		h.op("d%d.Append nil", id)
		if mon.NoPanic(func() { p.d.Append(nil) }) == nil {
			c.Failf("nil", "appending a nil element doesn't panic")
		}
		if mon.NoPanic(func() { p.d.Set(nil) }) == nil {
			c.Failf("nil", "setting a nil element doesn't panic")
		}
	case 20:
		h.op("d%d.ElementsOmitEmpty", id)
		var es []*birch.Element
		q := &docPair{m: &mDoc{}}
		for _, e := range p.m.e {
			empty, known := isEmpty(e.v.plain())
			if !known {
				continue
			}
			es = append(es, e.e)
			if !empty {
				q.m.e = append(q.m.e, e)
			}
		}
		q.d = birch.DC.ElementsOmitEmpty(es...)
		if len(h.docs) > 4 {
			h.docs = h.docs[1:]
		}
		h.docs = append(h.docs, q)
	case 21:
		h.op("d%d.json", id)
		_ = p.d.String()
		if _, err := p.d.MarshalJSON(); err != nil {
			c.Failf("json", "MarshalJSON: %v", err)
		}
		_ = p.d.ExportMap()
	}
}

func zeroOf(r *mon.Rand) *Val {
	t := mon.Pick(r, ref.AllTypes)
	v := &Val{T: t}
	if t == ref.Document || t == ref.Array || t == ref.CodeScope {
		v.D = &Doc{}
	}
	return v
}

// adopt learns the elements of a document that the code made.
func (h *docHistory) adopt(p *docPair) {
	i := 0
	for e := range p.d.Iterator() {
		if i >= len(p.m.e) {
			h.c.Failf("contents", "the document has more than %d elements", len(p.m.e))
		}
		p.m.e[i].e = e
		i++
	}
	if i != len(p.m.e) {
		h.c.Failf("contents", "the document has %d elements, expected %d", i, len(p.m.e))
	}
}

// nested goes to a nested document or array and changes it.
func (h *docHistory) nested(p *docPair, id int) {
	r, c := h.r, h.c
	var cands []*mElem
	for _, e := range p.m.e {
		if e.v.d != nil {
			cands = append(cands, e)
		}
	}
	if len(cands) == 0 {
		return
	}
	e := mon.Pick(r, cands)
	h.op("d%d.%q", id, e.k)
	v, m := e.e.Value(), e.v
	for {
		// deeper, or here
		var in []int
		for i, x := range m.d.e {
			if x.v.d != nil {
				in = append(in, i)
			}
		}
		if len(in) > 0 && r.Chance(2) {
			i := mon.Pick(r, in)
			h.op("[%d]", i)
			switch m.w.T {
			case ref.Array:
				x, err := v.MutableArray().Lookup(uint(i))
				if err != nil {
					c.Failf("nested", "Lookup(%d): %v", i, err)
				}
				v = x
			case ref.Document:
				v = v.MutableDocument().ElementAt(uint(i)).Value()
			default:
				_, d := v.MutableJavaScriptWithScope()
				v = d.ElementAt(uint(i)).Value()
			}
			m = m.d.e[i].v
			continue
		}
		break
	}
	c.Event("nested modifications")
	w := h.val()
	if m.w.T == ref.Array {
		a := v.MutableArray()
		n := len(m.d.e)
		switch {
		case n > 0 && r.Chance(3):
			i := r.IntN(n)
			h.op("array Delete %d", i)
			a.Delete(uint(i))
			m.d.e = append(append([]*mElem(nil), m.d.e[:i]...), m.d.e[i+1:]...)
		case n > 0 && r.Chance(3):
			i := r.IntN(n)
			h.op("array Set %d", i)
			a.Set(uint(i), h.b.val(w))
			m.d.e[i] = &mElem{v: toModel(w)}
		default:
			h.op("array Append")
			a.Append(h.b.val(w))
			m.d.e = append(m.d.e, &mElem{v: toModel(w)})
		}
		return
	}
	var d *birch.Document
	if m.w.T == ref.Document {
		d = v.MutableDocument()
	} else {
		_, d = v.MutableJavaScriptWithScope()
	}
	k := h.key()
	switch r.IntN(3) {
	case 0:
		h.op("Append %q", k)
		d.Append(h.b.elem(k, w))
		m.d.e = append(m.d.e, &mElem{k: k, v: toModel(w)})
	case 1:
		h.op("Set %q", k)
		d.Set(h.b.elem(k, w))
		if i := m.d.find(k); i >= 0 {
			m.d.e[i] = &mElem{k: k, v: toModel(w)}
		} else {
			m.d.e = append(m.d.e, &mElem{k: k, v: toModel(w)})
		}
	case 2:
		if len(m.d.e) > 0 {
			k = mon.Pick(r, m.d.e).k
		}
		h.op("Delete %q", k)
		d.Delete(k)
		if i := m.d.find(k); i >= 0 {
			m.d.e = append(append([]*mElem(nil), m.d.e[:i]...), m.d.e[i+1:]...)
		}
	}
}

// sorted checks that a document is the sorted permutation of the model's
// elements, and orders those likewise.
func (h *docHistory) sorted(q *docPair) {
	c := h.c
	nan := false
	sort.SliceStable(q.m.e, func(i, j int) bool {
		a, b := q.m.e[i], q.m.e[j]
		if a.k != b.k {
			return a.k < b.k
		}
		if a.v.w.T != b.v.w.T {
			return a.v.w.T < b.v.w.T
		}
		x, y := a.v.w, b.v.w
		switch x.T {
		case ref.Double:
			if math.IsNaN(x.F) || math.IsNaN(y.F) {
				nan = true
			}
			return x.F < y.F
		case ref.String:
			return x.S < y.S
		case ref.ObjectID:
			return bytes.Compare(x.OID[:], y.OID[:]) < 0
		case ref.DateTime, ref.Int32, ref.Int64:
			return x.I < y.I
		}
		return false
	})
	if !nan {
		c.Event("sorted documents")
		return // compared with the rest
	}
	want := map[*birch.Element]*mElem{}
	for _, e := range q.m.e {
		want[e.e] = e
	}
	q.m.e = nil
	for e := range q.d.Iterator() {
		if want[e] == nil {
			c.Failf("sorted", "Sorted has an element that isn't the document's")
		}
		q.m.e = append(q.m.e, want[e])
	}
}

func (h *docHistory) check(all bool) {
	c := h.c
	for i, p := range h.docs {
		if !all && h.r.Chance(3) {
			continue
		}
		c.Event("documents compared")
		plain := p.m.plain(false)
		if p.d.Len() != len(p.m.e) {
			c.Failf("contents", "d%d has %d elements, expected %d", i, p.d.Len(), len(p.m.e))
		}
		j := 0
		for e := range p.d.Iterator() {
			if e != p.m.e[j].e {
				c.Failf("contents", "d%d: element %d (%q) isn't the one that was put there (%q)", i, j, e.Key(), p.m.e[j].k)
			}
			if e.Key() != p.m.e[j].k {
				c.Failf("contents", "d%d: element %d has the key %q, expected %q", i, j, e.Key(), p.m.e[j].k)
			}
			j++
		}
		if j != len(p.m.e) {
			c.Failf("contents", "d%d: the iterator has %d elements, expected %d", i, j, len(p.m.e))
		}
		want := plain.Encode()
		got, err := p.d.MarshalBSON()
		if err != nil || !bytes.Equal(got, want) {
			c.Failf("contents", "d%d encodes differently: %v, %s", i, err, diffAt(got, want))
		}
		if n, err := p.d.Validate(); err != nil || int(n) != len(want) {
			c.Failf("contents", "d%d has the size %d, expected %d, %v", i, n, len(want), err)
		}
		for _, k := range h.keys {
			x := p.m.find(k)
			e := p.d.LookupElement(k)
			if (e == nil) != (x < 0) || e != nil && e != p.m.e[x].e {
				c.Failf("lookup", "d%d: the lookup of %q finds the wrong element", i, k)
			}
		}
		if h.r.Bool() {
			dm := p.d.Map()
			distinct := map[string]bool{}
			for x, e := range p.m.e {
				if distinct[e.k] {
					continue
				}
				distinct[e.k] = true
				if dm[e.k] != e.e {
					c.Failf("map", "d%d: the map has another element for %q than the document has first (at %d)", i, e.k, x)
				}
			}
			if len(dm) != len(distinct) {
				c.Failf("map", "d%d: the map has %d keys, expected %d", i, len(dm), len(distinct))
			}
			c.Event("maps compared")
		}
	}
}

type arrPair struct {
	a *birch.Array
	m []*mVal
}

func b06Lengths(c *C) {
	// lengths around where the keys get longer.
	n := mon.Pick(c.R, []int{0, 1, 9, 10, 11, 12, 99, 100, 101, 102, 255, 256, 257, 999, 1000, 1001, 1002, 1024, 1025, 10000, 10001})
	n += c.R.Range(-1, 1)
	n = max(0, n)
	a := birch.MakeArray(c.R.IntN(n + 1))
	m := &Doc{}
	for i := 0; i < n; i++ {
		a.Append(birch.VC.Int32(int32(i)))
		m.Append("", &Val{T: ref.Int32, I: int64(i)})
	}
	if n > 0 && c.R.Bool() {
		i := c.R.IntN(n)
		a.Delete(uint(i))
		m.E = append(m.E[:i], m.E[i+1:]...)
	}
	c.Note("length", "%d", len(m.E))
	c.State(n)
	c.Event("lengths")
	got, err := a.MarshalBSON()
	if err != nil || !bytes.Equal(got, m.EncodeArray()) {
		c.Failf("contents", "an array of %d encodes differently: %v, %s", len(m.E), err, diffAt(got, m.EncodeArray()))
	}
	d := birch.DC.Elements(birch.EC.Array("k", a))
	want := (&Doc{}).Append("k", &Val{T: ref.Array, D: m}).Encode()
	got, err = d.MarshalBSON()
	if err != nil || !bytes.Equal(got, want) {
		c.Failf("contents", "an array of %d in a document encodes differently: %v, %s", len(m.E), err, diffAt(got, want))
	}
}

func b06History(c *C) { b06Run(c, 0) }

func b06Large(c *C) {
	b06Run(c, mon.Pick(c.R, []int{64, 100, 128, 255, 256, 257, 300, 512, 1000, 1024, 2000, 4097}))
}

func b06Run(c *C, size int) {
	r := c.R
	h := &docHistory{c: c, r: c.R, g: ref.NewGen(c.R), b: &builder{r: c.R}, keys: []string{"a", "b", "0", "1"}}
	h.g.Depth, h.g.MaxElems = 3, 4
	arrs := []*arrPair{{birch.MakeArray(r.IntN(3)), nil}}
	if r.Chance(3) { // one that was decoded
		h.g.Budget = 200
		w := h.g.ValOf(ref.Array)
		d, err := birch.ReadDocument((&Doc{}).Append("k", w).Encode())
		if err != nil {
			c.Failf("decode", "%v", err)
		}
		p := &arrPair{a: d.ElementAt(0).Value().MutableArray()}
		for _, e := range w.D.E {
			p.m = append(p.m, toModel(e.V))
		}
		h.op("decoded %d", len(p.m))
		arrs = append(arrs, p)
	}
	if size > 0 {
		h.max = 8000
		p := arrs[0]
		for i := range size {
			w := &Val{T: ref.Int32, I: int64(i)}
			if r.Chance(50) {
				w = h.val()
			}
			p.a.Append(h.b.val(w))
			p.m = append(p.m, toModel(w))
		}
		h.op("%d values", size)
	}
	n := r.Range(2, 20)
	for step := 0; step < n; step++ {
		p := mon.Pick(r, arrs)
		id := 0
		for i := range arrs {
			if arrs[i] == p {
				id = i
			}
		}
		ret := func(name string, a *birch.Array) {
			if a != p.a {
				c.Failf("chain", "%s returns another array", name)
			}
		}
		c.Event("operations")
		vals := func() (bv []*birch.Value, mv []*mVal) {
			for n := r.IntN(4); n > 0; n-- {
				w := h.val()
				bv = append(bv, h.b.val(w))
				mv = append(mv, toModel(w))
			}
			return
		}
		switch r.IntN(11) {
		case 0, 1:
			bv, mv := vals()
			h.op("a%d.Append %d", id, len(bv))
			ret("Append", p.a.Append(bv...))
			p.m = append(p.m, mv...)
		case 2, 3:
			w := h.val()
			i := r.IntN(len(p.m) + 2)
			h.op("a%d.Set %d", id, i)
			pn := mon.NoPanic(func() { ret("Set", p.a.Set(uint(i), h.b.val(w))) })
			if (pn != nil) != (i >= len(p.m)) {
				c.Failf("set", "Set(%d) of %d values: panic %v", i, len(p.m), pn)
			}
			if pn == nil {
				p.m = append([]*mVal(nil), p.m...)
				p.m[i] = toModel(w)
			}
		case 4, 5:
			i := r.IntN(len(p.m) + 2)
			h.op("a%d.Delete %d", id, i)
			got := p.a.Delete(uint(i))
			if (got == nil) != (i >= len(p.m)) {
				c.Failf("delete", "Delete(%d) of %d values returns %v", i, len(p.m), got)
			}
			if got != nil {
				(&comparer{c: c}).val("Delete", got, p.m[i].plain())
				p.m = append(append([]*mVal(nil), p.m[:i]...), p.m[i+1:]...)
			}
		case 6:
			if len(arrs) > 3 {
				arrs = arrs[1:]
			}
			bv, mv := vals()
			h.op("NewArray %d", len(bv))
			arrs = append(arrs, &arrPair{birch.NewArray(bv...), mv})
		case 7:
			q := mon.Pick(r, arrs)
			if len(p.m)+len(q.m) > max(200, h.max) {
				continue
			}
			h.op("a%d.Extend", id)
			ret("Extend", p.a.Extend(q.a))
			p.m = append(append([]*mVal(nil), p.m...), q.m...)
		case 8:
			h.g.Budget = 200
			m := h.g.Doc()
			h.op("a%d.ExtendFromDocument %d", id, len(m.E))
			ret("ExtendFromDocument", p.a.ExtendFromDocument(h.b.doc(m)))
			for _, e := range m.E {
				p.m = append(p.m, toModel(e.V))
			}
		case 9:
			if r.Chance(2) {
				h.op("a%d.Reset", id)
				p.a.Reset()
				p.m = nil
			}
		case 10: // the read-only uses
			h.op("a%d.read", id)
			_ = p.a.String()
			_ = p.a.Interface()
			if _, err := p.a.MarshalJSON(); err != nil {
				c.Failf("json", "%v", err)
			}
		}
		for i, p := range arrs {
			if step < n-1 && r.Bool() {
				continue
			}
			c.Event("arrays compared")
			md := &Doc{}
			for _, v := range p.m {
				md.Append("", v.plain())
			}
			want := md.EncodeArray()
			got, err := p.a.MarshalBSON()
			if err != nil || !bytes.Equal(got, want) {
				c.Failf("contents", "a%d encodes differently: %v, %s", i, err, diffAt(got, want))
			}
			if n, err := p.a.Validate(); err != nil || int(n) != len(want) {
				c.Failf("contents", "a%d has the size %d, expected %d, %v", i, n, len(want), err)
			}
			(&comparer{c: c, mutable: r.Bool()}).array(fmt.Sprintf("a%d", i), p.a, md)
			for j := 0; j < len(p.m)+2; j++ {
				v, err := p.a.Lookup(uint(j))
				e, err2 := p.a.LookupElemdent(uint(j))
				if (err == nil) != (j < len(p.m)) || (err2 == nil) != (j < len(p.m)) || (v != nil) != (err == nil) || (e != nil) != (err == nil) {
					c.Failf("lookup", "a%d: the lookup of %d of %d: %v, %v", i, j, len(p.m), err, err2)
				}
				if v != nil {
					(&comparer{c: c}).val("Lookup", v, md.E[j].V)
					(&comparer{c: c}).val("LookupElement", e.Value(), md.E[j].V)
				}
			}
			if _, err := p.a.Lookup(math.MaxUint); err == nil {
				c.Failf("lookup", "a%d has a value at the largest index", i)
			}
			// as a part of a document
			d := birch.DC.Elements(birch.EC.Int32("x", 1), birch.EC.Array("k", p.a), birch.EC.Int32("y", 2))
			wd := (&Doc{}).Append("x", &Val{T: ref.Int32, I: 1}).Append("k", &Val{T: ref.Array, D: md}).Append("y", &Val{T: ref.Int32, I: 2}).Encode()
			got, err = d.MarshalBSON()
			if err != nil || !bytes.Equal(got, wd) {
				c.Failf("contents", "a document with a%d encodes differently: %v, %s", i, err, diffAt(got, wd))
			}
		}
	}
	c.State(h.log.String())
	c.Sample("%s", h.log.String())
	h.b.checkGuards(c)
}
