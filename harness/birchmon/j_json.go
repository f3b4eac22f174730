package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/jsonx"
	"github.com/tychoish/birch/types"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	mon.Register(&mon.Property{
		ID:    "J01",
		Title: "Documents survive the conversion to JSON and back",
		Rule:  "a document with every type of value, written as JSON and read back; every value compared to the model",
		Assumptions: []string{
			"strings are valid UTF-8", "nested documents don't start with a reserved extended JSON key",
			"integers are plain JSON numbers, so their width isn't kept", "decimals are canonical",
		},
		Workloads: []mon.Workload{
			{Name: "roundtrip", Quick: 40000, Thorough: 1500000, Run: jsonRoundTrip},
			{Name: "large", Quick: 120, Thorough: 5000, Run: jsonRoundTripLarge},
		},
	})
	mon.Register(&mon.Property{
		ID:    "J02",
		Title: "JSON output is well-formed and says what the document holds",
		Rule:  "the JSON of a document, parsed by an independent strict parser, against the model",
		Workloads: []mon.Workload{
			{Name: "output", Quick: 60000, Thorough: 1500000, Run: jsonOutput},
			{Name: "large", Quick: 120, Thorough: 5000, Run: jsonOutputLarge},
		},
	})
	mon.Register(&mon.Property{
		ID:          "J03",
		Title:       "JSON is read exactly: every valid text, no invalid one",
		Rule:        "a JSON text in one of its many spellings, or a damaged one; acceptance and values against an independent strict parser",
		Assumptions: []string{"the value of strings that aren't Unicode (unpaired surrogates, bytes that aren't UTF-8) isn't determined"},
		Workloads: []mon.Workload{
			{Name: "valid", Quick: 100000, Thorough: 2500000, Run: jsonValid},
			{Name: "damaged", Quick: 200000, Thorough: 5000000, Run: jsonDamaged},
			{Name: "extended", Quick: 100000, Thorough: 2500000, Run: jsonExtended},
			{Name: "forms", Quick: 30000, Thorough: 1000000, Run: jsonForms},
			{Name: "large", Quick: 150, Thorough: 6000, Run: jsonLarge},
		},
	})
	mon.Register(&mon.Property{
		ID:    "J04",
		Title: "JSON trees built in memory hold and write what was put in",
		Rule:  "a tree built through the constructors, read through every accessor, written and read back",
		Workloads: []mon.Workload{
			{Name: "build", Quick: 300000, Thorough: 1500000, Run: jsonBuild},
			{Name: "large", Quick: 150, Thorough: 6000, Run: jsonBuildLarge},
		},
	})
}

var reserved = map[string]bool{"$minKey": true, "$maxKey": true, "$numberDecimal": true, "$numberDouble": true, "$timestamp": true, "$symbol": true,
	"$code": true, "$dbPointer": true, "$regularExpression": true, "$date": true, "$oid": true, "$undefined": true, "$binary": true, "$scope": true,
	"$numberLong": true, "$numberInt": true, "$uuid": true, "$dbRef": true, "$ref": true, "$regex": true}

func jsonGen(r *mon.Rand) *ref.Gen {
	g := ref.NewGen(r)
	g.ValidUTF8 = true
	if g.Budget > 60000 {
		g.Budget = 60000
	}
	return g
}

// plain makes a document one that JSON can represent.
func plain(d *Doc) *Doc {
	if len(d.E) > 0 && strings.HasPrefix(d.E[0].K, "$") {
		d.E[0].K = "_" + d.E[0].K
	}
	for i := range d.E {
		d.E[i].K = strings.ToValidUTF8(d.E[i].K, "?")
		v := d.E[i].V
		v.S, v.S2 = strings.ToValidUTF8(v.S, "?"), strings.ToValidUTF8(v.S2, "?")
		if v.T == ref.Decimal128 {
			if dec, ok := decimalOf(types.NewDecimal128(v.H, v.L)); ok {
				v.H, v.L = dec.bits()
			} else if v.H>>58&0x1f == 0x1f {
				v.H, v.L = 0x1f<<58, 0
			} else if v.H>>58&0x1f == 0x1e {
				v.H, v.L = v.H>>63<<63|0x1e<<58, 0
			} else {
				v.H, v.L = v.H>>63<<63|uint64(6176)<<49, v.L
			}
		}
		if v.D != nil {
			plain(v.D)
		}
	}
	return d
}

func sameJSONVal(c *C, path string, want, got *Val) {
	intlike := func(t byte) bool { return t == ref.Int32 || t == ref.Int64 }
	if intlike(want.T) && intlike(got.T) {
		if want.I != got.I {
			c.Failf("value", "%s: the integer %d came back as %d", path, want.I, got.I)
		}
		return
	}
	if want.T != got.T {
		c.Failf("type", "%s: the type %#x came back as %#x", path, want.T, got.T)
	}
	if want.T == ref.Double && want.F != want.F && got.F != got.F {
		return
	}
	if want.D != nil {
		if want.S != got.S {
			c.Failf("value", "%s: %q came back as %q", path, want.S, got.S)
		}
		sameJSONDoc(c, path, want.D, got.D, want.T == ref.Array)
		return
	}
	if !bytes.Equal(want.EncodeValue(), got.EncodeValue()) {
		c.Failf("value", "%s: type %#x: %s came back as %s", path, want.T, hexs(want.EncodeValue()), hexs(got.EncodeValue()))
	}
}

func sameJSONDoc(c *C, path string, want, got *Doc, array bool) {
	if len(want.E) != len(got.E) {
		c.Failf("length", "%s: %d elements came back as %d", path, len(want.E), len(got.E))
	}
	for i := range want.E {
		if !array && want.E[i].K != got.E[i].K {
			c.Failf("key", "%s: key %q came back as %q", path, want.E[i].K, got.E[i].K)
		}
		sameJSONVal(c, fmt.Sprintf("%s/%.40q", path, want.E[i].K), want.E[i].V, got.E[i].V)
	}
}

func decoded(c *C, how string, d *birch.Document) *Doc {
	raw, err := d.MarshalBSON()
	if err != nil {
		c.Failf("encode", "%s: %v", how, err)
	}
	out, err := ref.Decode(raw)
	if err != nil {
		c.Failf("encode", "%s: the document isn't valid BSON: %v", how, err)
	}
	return out
}

func jsonRoundTrip(c *C) {
	d := plain(jsonGen(c.R).Doc())
	if c.R.Chance(3) {
		dollars(c.R, d)
	}
	jsonRoundTripOf(c, d)
}

// dollars gives some documents first keys that are like those of extended
// JSON, and aren't.
func dollars(r *mon.Rand, d *Doc) {
	if len(d.E) > 0 && r.Chance(3) {
		d.E[0].K = mon.Pick(r, []string{"$", "$foo", "$set", "$oids", "$Oid", "$dat", "$numberLong", "$numberInt", "$uuid", "$ref", "$id", "$regex", "$options", "$scope", "$key", "$$date", "$ date"})
	}
	for _, e := range d.E {
		if e.V.T == ref.Document || e.V.T == ref.CodeScope {
			dollars(r, e.V.D)
		}
	}
}

func jsonRoundTripLarge(c *C) { jsonRoundTripOf(c, plain(largeDoc(c))) }

func jsonRoundTripOf(c *C, want *Doc) {
	r := c.R
	b := &builder{r: r}
	doc := b.doc(want)
	c.Note("document", "%s", hexs(want.Encode()))
	text, err := doc.MarshalJSON()
	if err != nil {
		c.Failf("marshal", "MarshalJSON: %v", err)
	}
	c.Note("json", "%s", text)
	if std, err := json.Marshal(doc); err != nil {
		c.Failf("marshal", "json.Marshal: %v", err)
	} else if r.Chance(4) {
		text = std
	}
	back := birch.DC.New()
	keep := clone(text)
	switch r.IntN(3) {
	case 0:
		err = json.Unmarshal(text, back)
	case 1:
		var jd *jsonx.Document
		if jd, err = jsonx.DCE.Bytes(text); err == nil {
			back, err = birch.DCE.JSONX(jd)
		}
	default:
		err = back.UnmarshalJSON(text)
	}
	if err != nil {
		c.Failf("unmarshal", "reading back %.300s: %v", text, err)
	}
	if !bytes.Equal(keep, text) {
		c.Failf("input-changed", "reading changed the text")
	}
	sameJSONDoc(c, "document", want, decoded(c, "document", back), false)

	// arrays and single values.
	arr := b.array(want)
	text, err = arr.MarshalJSON()
	if err != nil {
		c.Failf("marshal", "MarshalJSON of an array: %v", err)
	}
	ba := birch.MakeArray(0)
	if err := ba.UnmarshalJSON(text); err != nil {
		c.Failf("unmarshal", "reading back the array %.300s: %v", text, err)
	}
	sameJSONDoc(c, "array", want, decoded(c, "array", birch.DC.Elements(birch.EC.Array("a", ba))).E[0].V.D, true)
	if len(want.E) > 0 {
		e := want.E[r.IntN(len(want.E))]
		text, err := b.val(e.V).MarshalJSON()
		if err != nil {
			c.Failf("marshal", "MarshalJSON of a value: %v", err)
		}
		bv := birch.VC.Null()
		if err := bv.UnmarshalJSON(text); err != nil {
			c.Failf("unmarshal", "reading back the value %.300s: %v", text, err)
		}
		got := decoded(c, "value", birch.DC.Elements(birch.EC.Value("v", bv))).E[0].V
		sameJSONVal(c, "value", e.V, got)
		c.Event(fmt.Sprintf("value %#x", e.V.T))
	}
	// reading appends to what is there.
	if r.Chance(10) {
		pre := birch.DC.Elements(birch.EC.Int32("first", 1))
		text, _ := doc.MarshalJSON()
		if err := pre.UnmarshalJSON(text); err != nil || pre.Len() != len(want.E)+1 || pre.ElementAt(0).Key() != "first" {
			c.Failf("append", "reading into a document with an element: %d elements, %v", pre.Len(), err)
		}
	}
	b.checkGuards(c)
	c.EventN("elements", len(want.E))
	c.State(want.Shape())
	c.Sample("%s", text)
}

func obj(v *ref.JVal, keys ...string) []*ref.JVal {
	if v.K != '{' || len(v.Ks) != len(keys) {
		return nil
	}
	for i, k := range keys {
		if v.Ks[i] != k {
			return nil
		}
	}
	return v.A
}

func jsonSays(c *C, path string, w *Val, j *ref.JVal) {
	bad := func() {
		c.Failf("output", "%s: type %#x %s is written %.300s", path, w.T, hexs(w.EncodeValue()), j.Text(nil))
	}
	str := func(v *ref.JVal, s string) bool { return v.K == '"' && v.S == s }
	one := func(key string) *ref.JVal {
		a := obj(j, key)
		if a == nil {
			bad()
		}
		return a[0]
	}
	ok := true
	switch w.T {
	case ref.Double:
		if math.IsNaN(w.F) || math.IsInf(w.F, 0) {
			s := "NaN"
			if math.IsInf(w.F, 1) {
				s = "Infinity"
			} else if math.IsInf(w.F, -1) {
				s = "-Infinity"
			}
			ok = str(one("$numberDouble"), s)
			break
		}
		f, valid := j.Float()
		ok = j.K == '0' && valid && math.Float64bits(f) == math.Float64bits(w.F)
	case ref.String:
		ok = str(j, w.S)
	case ref.Document:
		if j.K != '{' {
			bad()
		}
		jsonSaysDoc(c, path, w.D, j)
	case ref.Array:
		if j.K != '[' || len(j.A) != len(w.D.E) {
			bad()
		}
		for i, e := range w.D.E {
			jsonSays(c, path+"/"+strconv.Itoa(i), e.V, j.A[i])
		}
	case ref.Binary:
		a := obj(one("$binary"), "base64", "subType")
		ok = a != nil && str(a[0], base64.StdEncoding.EncodeToString(w.B)) && str(a[1], hex.EncodeToString([]byte{w.Sub}))
	case ref.Undefined:
		v := one("$undefined")
		ok = v.K == 'b' && v.B
	case ref.ObjectID:
		ok = str(one("$oid"), hex.EncodeToString(w.OID[:]))
	case ref.Boolean:
		ok = j.K == 'b' && j.B == (w.I == 1)
	case ref.DateTime:
		v := one("$date")
		if a := obj(v, "$numberLong"); a != nil {
			ok = str(a[0], strconv.FormatInt(w.I, 10))
		} else {
			t, err := time.Parse(time.RFC3339Nano, v.S)
			ok = v.K == '"' && err == nil && t.UnixMilli() == w.I && t.Nanosecond()%1e6 == 0
		}
	case ref.Null:
		ok = j.K == 'n'
	case ref.Regex:
		a := obj(one("$regularExpression"), "pattern", "options")
		ok = a != nil && str(a[0], w.S) && str(a[1], w.S2)
	case ref.DBPointer:
		a := obj(one("$dbPointer"), "$ref", "$id")
		ok = a != nil && str(a[0], w.S) && str(a[1], hex.EncodeToString(w.OID[:]))
	case ref.JavaScript:
		ok = str(one("$code"), w.S)
	case ref.Symbol:
		ok = str(one("$symbol"), w.S)
	case ref.CodeScope:
		a := obj(j, "$code", "$scope")
		if a == nil || !str(a[0], w.S) || a[1].K != '{' {
			bad()
		}
		jsonSaysDoc(c, path+"/$scope", w.D, a[1])
	case ref.Int32, ref.Int64:
		n, valid := j.Integer()
		ok = j.K == '0' && valid && n == w.I
	case ref.Timestamp:
		a := obj(one("$timestamp"), "t", "i")
		if a == nil {
			bad()
		}
		t, ok1 := a[0].Integer()
		i, ok2 := a[1].Integer()
		ok = ok1 && ok2 && uint64(t) == w.H && uint64(i) == w.L
	case ref.Decimal128:
		v := one("$numberDecimal")
		d, canon := decimalOf(types.NewDecimal128(w.H, w.L))
		if !canon {
			ok = v.K == '"'
			break
		}
		neg, sig, exp, valid := parseText(v.S)
		ok = v.K == '"' && valid && sameDecimal(neg, sig, exp, d.neg, d.sig, d.exp)
	case ref.MinKey, ref.MaxKey:
		key := "$minKey"
		if w.T == ref.MaxKey {
			key = "$maxKey"
		}
		n, valid := one(key).Integer()
		ok = valid && n == 1
	}
	if !ok {
		bad()
	}
	c.Event(fmt.Sprintf("type %#x", w.T))
}

func jsonSaysDoc(c *C, path string, d *Doc, j *ref.JVal) {
	if j.K != '{' || len(j.A) != len(d.E) {
		c.Failf("output", "%s: %d elements are written as %.300s", path, len(d.E), j.Text(nil))
	}
	for i, e := range d.E {
		if j.Ks[i] != e.K {
			c.Failf("output", "%s: the key %q is written %q", path, e.K, j.Ks[i])
		}
		jsonSays(c, fmt.Sprintf("%s/%.40q", path, e.K), e.V, j.A[i])
	}
}

func toUTF8(d *Doc) *Doc {
	for i := range d.E {
		d.E[i].K = strings.ToValidUTF8(d.E[i].K, "?")
		v := d.E[i].V
		v.S, v.S2 = strings.ToValidUTF8(v.S, "?"), strings.ToValidUTF8(v.S2, "?")
		if v.D != nil {
			toUTF8(v.D)
		}
	}
	return d
}

func jsonOutput(c *C) { jsonOutputOf(c, toUTF8(jsonGen(c.R).Doc())) }

func jsonOutputLarge(c *C) { jsonOutputOf(c, toUTF8(largeDoc(c))) }

func jsonOutputOf(c *C, want *Doc) {
	b := &builder{r: c.R}
	doc := b.doc(want)
	c.Note("document", "%s", hexs(want.Encode()))
	text, err := doc.MarshalJSON()
	if err != nil {
		c.Failf("marshal", "MarshalJSON: %v", err)
	}
	c.Note("json", "%s", text)
	j, err := ref.ParseJSON(text)
	if err != nil || !json.Valid(text) {
		c.Failf("invalid", "the output isn't JSON: %.400s", text)
	}
	jsonSaysDoc(c, "document", want, j)
	again, err := doc.MarshalJSON()
	if err != nil || !bytes.Equal(again, text) {
		c.Failf("stable", "the second output differs: %v, %s", err, diffAt(text, again))
	}
	if raw, err := doc.MarshalBSON(); err != nil || !bytes.Equal(raw, want.Encode()) {
		c.Failf("changed", "writing JSON changed the document: %v, %s", err, diffAt(raw, want.Encode()))
	}
	text, err = b.array(want).MarshalJSON()
	if err != nil {
		c.Failf("marshal", "MarshalJSON of an array: %v", err)
	}
	if j, err = ref.ParseJSON(text); err != nil {
		c.Failf("invalid", "the output isn't JSON: %.400s", text)
	}
	jsonSays(c, "array", &Val{T: ref.Array, D: want}, j)
	for i := 0; i < len(want.E) && i < 4; i++ {
		text, err := b.val(want.E[i].V).MarshalJSON()
		if err != nil {
			c.Failf("marshal", "MarshalJSON of a value: %v", err)
		}
		if j, err = ref.ParseJSON(text); err != nil {
			c.Failf("invalid", "the output isn't JSON: %.400s", text)
		}
		jsonSays(c, "value", want.E[i].V, j)
	}
	b.checkGuards(c)
	c.State(want.Shape())
	c.Sample("%s", text)
}

// ---- reading

func jsonTree(c *C, path string, v *jsonx.Value, j *ref.JVal) {
	if v == nil {
		c.Failf("tree", "%s: no value for %.200s", path, j.Text(nil))
	}
	bad := func() { c.Failf("tree", "%s: %.200s is read as %s %.200v", path, j.Text(nil), v.Type(), v.Interface()) }
	ok := true
	switch j.K {
	case 'n':
		ok = v.Type() == jsonx.Null
	case 'b':
		b, is := v.BooleanOK()
		ok = is && b == j.B && v.Type() == jsonx.Bool && v.Boolean() == j.B
	case '"':
		s, is := v.StringValueOK()
		ok = is && (s == j.S || j.Bad) && v.Type() == jsonx.String && (v.StringValue() == j.S || j.Bad)
	case '0':
		if n, is := j.Integer(); is {
			got, is := v.IntOK()
			ok = is && int64(got) == n && v.Type() == jsonx.NumberInteger && int64(v.Int()) == n
			break
		}
		f, _ := j.Float()
		got, is := v.Float64OK()
		ok = is && math.Float64bits(got) == math.Float64bits(f) && v.Type() == jsonx.NumberDouble
	case '[':
		a, is := v.ArrayOK()
		if !is || v.Type() != jsonx.ArrayValue || v.Array() != a {
			bad()
		}
		jsonTreeArray(c, path, a, j)
	case '{':
		d, is := v.DocumentOK()
		if !is || v.Type() != jsonx.ObjectValue || v.Document() != d {
			bad()
		}
		jsonTreeDoc(c, path, d, j)
	}
	if !ok {
		bad()
	}
}

func jsonTreeArray(c *C, path string, a *jsonx.Array, j *ref.JVal) {
	if a.Len() != len(j.A) {
		c.Failf("tree", "%s: %d values are read as %d", path, len(j.A), a.Len())
	}
	i := 0
	for v := range a.Iterator() {
		jsonTree(c, fmt.Sprintf("%s/%d", path, i), v, j.A[i])
		i++
	}
	if i != len(j.A) {
		c.Failf("tree", "%s: the iterator has %d of %d values", path, i, len(j.A))
	}
}

func jsonTreeDoc(c *C, path string, d *jsonx.Document, j *ref.JVal) {
	if d.Len() != len(j.A) {
		c.Failf("tree", "%s: %d keys are read as %d", path, len(j.A), d.Len())
	}
	i := 0
	for e := range d.Iterator() {
		if e.Key() != j.Ks[i] && !j.Bad {
			c.Failf("tree", "%s: the key %q is read as %q", path, j.Ks[i], e.Key())
		}
		if d.KeyAtIndex(i) != e.Key() || d.ElementAtIndex(i) != e {
			c.Failf("tree", "%s: the element at %d isn't the one of the iterator", path, i)
		}
		jsonTree(c, fmt.Sprintf("%s/%.40q", path, j.Ks[i]), e.Value(), j.A[i])
		i++
	}
	if i != len(j.A) {
		c.Failf("tree", "%s: the iterator has %d of %d elements", path, i, len(j.A))
	}
	if d.KeyAtIndex(i) != "" || d.ElementAtIndex(i) != nil {
		c.Failf("tree", "%s: there is an element after the last", path)
	}
}

// bsonOf is what plain JSON (without reserved keys) is as BSON.
func bsonOf(j *ref.JVal) *Val {
	switch j.K {
	case 'n':
		return &Val{T: ref.Null}
	case 'b':
		v := &Val{T: ref.Boolean}
		if j.B {
			v.I = 1
		}
		return v
	case '"':
		return &Val{T: ref.String, S: j.S}
	case '0':
		if n, ok := j.Integer(); ok {
			return &Val{T: ref.Int64, I: n}
		}
		f, _ := j.Float()
		return &Val{T: ref.Double, F: f}
	case '[':
		d := &Doc{}
		for i, x := range j.A {
			d.Append(strconv.Itoa(i), bsonOf(x))
		}
		return &Val{T: ref.Array, D: d}
	default:
		d := &Doc{}
		for i, x := range j.A {
			d.Append(j.Ks[i], bsonOf(x))
		}
		return &Val{T: ref.Document, D: d}
	}
}

// special tells whether reading it as BSON may give something else than its structure.
func special(j *ref.JVal, top bool) bool {
	if j.K == '{' && !top && len(j.Ks) > 0 && strings.HasPrefix(j.Ks[0], "$") {
		return true
	}
	for i, x := range j.A {
		if j.K == '{' && strings.Contains(j.Ks[i], "\x00") {
			return true
		}
		if special(x, false) {
			return true
		}
	}
	return false
}

// judgeJSON reads the text as everything, and compares acceptance and values.
func judgeJSON(c *C, text []byte) (valid bool) {
	keep := clone(text)
	j, perr := ref.ParseJSON(text)
	readable := perr == nil && !j.OutOfRange()
	show := func() string { return fmt.Sprintf("%.300q", text) }
	judge := func(how string, err error, want bool) bool {
		if (err == nil) != want {
			if want {
				c.Failf("refused", "%s refuses the JSON %s: %v", how, show(), err)
			}
			c.Failf("accepted", "%s accepts %s, which isn't what it reads", how, show())
		}
		return want
	}
	// by bytes or from a reader, with an error or a panic.
	reader := func() io.Reader { return &chunkReader{r: c.R, data: text, err: errEOF} }
	must := func(read func()) (err error) {
		if p := mon.NoPanic(read); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
		return err
	}
	var val *jsonx.Value
	var arr *jsonx.Array
	var doc *jsonx.Document
	var err error
	how := c.R.IntN(4)
	switch how {
	case 0:
		val, err = jsonx.VCE.Reader(reader())
	case 1:
		err = must(func() { val = jsonx.VC.Bytes(text) })
	case 2:
		err = must(func() { val = jsonx.VC.Reader(reader()) })
	default:
		val, err = jsonx.VCE.Bytes(text)
	}
	if judge("jsonx.Value", err, readable) {
		jsonTree(c, "value", val, j)
	}
	switch how {
	case 0:
		arr, err = jsonx.ACE.Reader(reader())
	case 1:
		err = must(func() { arr = jsonx.AC.Bytes(text) })
	case 2:
		err = must(func() { arr = jsonx.AC.Reader(reader()) })
	default:
		arr, err = jsonx.ACE.Bytes(text)
	}
	if judge("jsonx.Array", err, readable && j.K == '[') {
		jsonTreeArray(c, "array", arr, j)
	}
	switch how {
	case 0:
		doc, err = jsonx.DCE.Reader(reader())
	case 1:
		err = must(func() { doc = jsonx.DC.Bytes(text) })
	case 2:
		err = must(func() { doc = jsonx.DC.Reader(reader()) })
	default:
		doc, err = jsonx.DCE.Bytes(text)
	}
	if judge("jsonx.Document", err, readable && j.K == '{') {
		jsonTreeDoc(c, "document", doc, j)
	}
	if c.R.Chance(4) {
		// what can't be read to its end isn't the text.
		failing := func() io.Reader {
			return &chunkReader{r: c.R, data: text[:c.R.IntN(len(text)+1)], err: errFault}
		}
		_, err1 := jsonx.VCE.Reader(failing())
		_, err2 := jsonx.ACE.Reader(failing())
		_, err3 := jsonx.DCE.Reader(failing())
		if err1 == nil || err2 == nil || err3 == nil {
			c.Failf("fault", "a reader of %s fails, and there is no error: %v, %v, %v", show(), err1, err2, err3)
		}
	}

	if perr == nil && (special(j, j.K == '{') || j.AnyBad()) {
		// reading it as BSON has rules of its own: what is accepted must be a valid document.
		// (reserved binary subtypes are refused when it is encoded.)
		valid := func(d *birch.Document) {
			if raw, err := d.MarshalBSON(); err == nil {
				if _, err := ref.Decode(raw); err != nil {
					c.Failf("encode", "reading %s gives a document that isn't valid BSON: %v", show(), err)
				}
				c.Event("special")
			}
		}
		d := birch.DC.New()
		if err := d.UnmarshalJSON(text); err == nil && !j.AnyBad() {
			valid(d)
		}
		v := birch.VC.Null()
		if err := v.UnmarshalJSON(text); err == nil && !j.AnyBad() {
			valid(birch.DC.Elements(birch.EC.Value("v", v)))
		}
		a := birch.MakeArray(0)
		_ = a.UnmarshalJSON(text)
		return true
	}
	d := birch.DC.New()
	err = d.UnmarshalJSON(text)
	if judge("Document", err, readable && j.K == '{') {
		sameJSONDoc(c, "document", bsonOf(j).D, decoded(c, "document", d), false)
	}
	a := birch.MakeArray(0)
	err = a.UnmarshalJSON(text)
	if judge("Array", err, readable && j.K == '[') {
		sameJSONVal(c, "array", bsonOf(j), decoded(c, "array", birch.DC.Elements(birch.EC.Array("v", a))).E[0].V)
	}
	v := birch.VC.Null()
	err = v.UnmarshalJSON(text)
	if perr == nil && special(j, false) {
		// an object with a reserved key.
	} else if judge("Value", err, readable) {
		sameJSONVal(c, "value", bsonOf(j), decoded(c, "value", birch.DC.Elements(birch.EC.Value("v", v))).E[0].V)
	}
	if !bytes.Equal(keep, text) {
		c.Failf("input-changed", "reading changed the text %s", show())
	}
	return perr == nil
}

func genJSON(r *mon.Rand) *ref.JVal {
	g := jsonGen(r)
	depth := 5
	if r.Chance(40) {
		depth = 60
	}
	if r.Chance(4) {
		return g.JSON(depth)
	}
	return g.JSONObject(depth)
}

// longString has escapes or other characters here and there.
func longString(r *mon.Rand) string {
	n := r.Range(2, 1<<18)
	if r.Bool() {
		n = 1<<r.Range(8, 17) + r.Range(-2, 2)
	}
	b := bytes.Repeat([]byte("abcdefg "), n/8+1)[:n]
	if r.Bool() {
		for range r.Range(1, 20) {
			b[r.IntN(n)] = mon.Pick(r, []byte("\\\"\n\x01\x1f\x7f/"))
		}
	}
	return string(b)
}

// largeJSON is deep, wide, or has long strings.
func largeJSON(c *C) *ref.JVal {
	r := c.R
	g := jsonGen(r)
	scalar := func() *ref.JVal { g.Budget = 50; return g.JSON(0) }
	key := func() string { return strings.Trim(g.Key(), "$\x00") }
	j := &ref.JVal{K: mon.Pick(r, []byte("[{"))}
	put := func(o *ref.JVal, v *ref.JVal) {
		if o.K == '{' {
			o.Ks = append(o.Ks, key())
		}
		o.A = append(o.A, v)
	}
	switch r.IntN(3) {
	case 0: // deep
		depth := r.Range(50, 1500)
		at := j
		objects := r.Bool()
		for range depth {
			if r.Chance(4) {
				put(at, scalar())
			}
			next := &ref.JVal{K: '['}
			if objects && r.Chance(3) || r.Chance(10) {
				next.K = '{'
			}
			put(at, next)
			if r.Chance(4) {
				put(at, scalar())
			}
			at = next
		}
		put(at, scalar())
		c.Event("deep")
	case 1: // wide
		at := j
		for range r.IntN(3) {
			next := &ref.JVal{K: mon.Pick(r, []byte("[{"))}
			put(at, next)
			at = next
		}
		for range r.Range(100, 1<<r.Range(8, 14)) {
			put(at, scalar())
		}
		put(j, scalar())
		c.Event("wide")
	default:
		for range r.Range(1, 3) {
			put(j, scalar())
			put(j, &ref.JVal{K: '"', S: longString(r)})
			if j.K == '{' && r.Bool() {
				put(j, scalar())
				j.Ks[len(j.Ks)-1] = longString(r)
			}
		}
		c.Event("long")
	}
	return j
}

func noNuls(j *ref.JVal) *ref.JVal {
	for i, x := range j.A {
		if j.K == '{' {
			j.Ks[i] = strings.ReplaceAll(j.Ks[i], "\x00", "")
		}
		noNuls(x)
	}
	return j
}

// largeDoc has the same, and long values of every type that can be.
func largeDoc(c *C) *Doc {
	r := c.R
	d := &Doc{}
	if r.Chance(4) {
		for range r.Range(1, 4) {
			v := &Val{T: mon.Pick(r, []byte{ref.Binary, ref.JavaScript, ref.Symbol, ref.CodeScope, ref.Regex, ref.DBPointer, ref.String}), S: longString(r)}
			switch v.T {
			case ref.Binary:
				v.B, v.S = []byte(v.S), ""
			case ref.CodeScope:
				v.D = &Doc{}
				v.D.Append("s", &Val{T: ref.String, S: longString(r)})
			case ref.Regex:
				v.S2 = longString(r)
			}
			d.Append(fmt.Sprint("k", len(d.E)), v)
		}
		c.Event("long values")
		return d
	}
	j := noNuls(largeJSON(c))
	if j.K == '{' {
		return bsonOf(j).D
	}
	d.Append("a", bsonOf(j))
	return d
}

func jsonLarge(c *C) {
	j := largeJSON(c)
	var spell *mon.Rand
	if c.R.Bool() {
		spell = c.R
	}
	text := j.Text(spell)
	if !judgeJSON(c, text) {
		panic("valid")
	}
	if !utf8.Valid(text) {
		panic("utf8")
	}
	c.StateBytes(text)
	c.Sample("%.200s", text)
	// without its end, it isn't.
	if cut := text[:c.R.IntN(len(text))]; judgeJSON(c, cut) && !json.Valid(cut) {
		panic("cut")
	}
}

// jsonBuildLarge builds them as jsonx values.
func jsonBuildLarge(c *C) {
	j := largeJSON(c)
	var build func(j *ref.JVal) *jsonx.Value
	build = func(j *ref.JVal) *jsonx.Value {
		switch j.K {
		case 'n':
			return jsonx.VC.Nil()
		case 'b':
			return jsonx.VC.Boolean(j.B)
		case '"':
			return jsonx.VC.String(j.S)
		case '[':
			a := jsonx.AC.New()
			for _, x := range j.A {
				a.Append(build(x))
			}
			return jsonx.VC.Array(a.Copy())
		case '{':
			d := jsonx.DC.New()
			for i, x := range j.A {
				d.Append(jsonx.EC.Value(j.Ks[i], build(x)))
			}
			return jsonx.VC.Object(d.Copy())
		}
		if n, ok := j.Integer(); ok {
			return jsonx.VC.Int(int(n))
		}
		f, _ := j.Float()
		if math.IsInf(f, 0) {
			f = 1
			j.N = "1.0"
		}
		return jsonx.VC.Float64(f)
	}
	v := build(j)
	jsonTree(c, "built", v, j)
	text, err := v.MarshalJSON()
	if err != nil {
		c.Failf("marshal", "%v", err)
	}
	got, err := ref.ParseJSON(text)
	if err != nil {
		c.Failf("invalid", "the output isn't JSON: %.300s", text)
	}
	back, err := jsonx.VCE.Bytes(text)
	if err != nil {
		c.Failf("reread", "%v", err)
	}
	jsonTree(c, "written", back, got)
	jsonTree(c, "read back", back, j)
	c.StateBytes(text)
	c.Sample("%.200s", text)
}

func jsonValid(c *C) {
	j := genJSON(c.R)
	text := j.Text(c.R)
	c.Note("json", "%s", text)
	if got, err := ref.ParseJSON(text); err != nil || !json.Valid(text) || got.K != j.K {
		panic(fmt.Sprintf("the generated text isn't JSON: %s", text))
	}
	if !judgeJSON(c, text) {
		panic("valid")
	}
	c.Event("valid")
	c.StateBytes(text)
	c.Sample("%s", text)
}

func jsonDamaged(c *C) {
	r := c.R
	var text []byte
	switch r.IntN(12) {
	case 0:
		n := r.IntN(20)
		for range n {
			text = append(text, mon.Pick(r, []byte(`{}[]:,"\0123456789.eE+-truefalsn ul/u`+"\t\n\x00\xff")))
		}
	case 1:
		text = r.Bytes(r.IntN(30))
	default:
		text = genJSON(r).Text(r)
		if len(text) > 3000 {
			text = text[:3000]
		}
		if r.Bool() {
			text = ref.Mutate(r, text)
		} else {
			for range r.Range(1, 2) {
				if len(text) == 0 {
					break
				}
				i := r.IntN(len(text))
				switch r.IntN(4) {
				case 0: // drop
					text = append(clone(text[:i]), text[i+1:]...)
				case 1: // insert
					text = append(append(clone(text[:i]), mon.Pick(r, []byte(`{}[]:,"\019.eE+-tfn u`+"\t\x1f\x00\x7f"))), text[i:]...)
				case 2: // replace
					text = clone(text)
					text[i] = mon.Pick(r, []byte(`{}[]:,"\019.eE+-tfn u`+"\t\x1f\x00\x7f"))
				default: // cut
					text = clone(text[:i])
				}
			}
		}
	}
	c.Note("json", "%q", text)
	valid := judgeJSON(c, text)
	c.Event(fmt.Sprintf("valid:%v", valid))
	c.StateBytes(text)
	c.Sample("%.200q valid: %v", text, valid)
}

// jsonExtended reads objects with the reserved keys, right and wrong: nothing
// panics, and what is accepted is a valid document.
func jsonExtended(c *C) {
	r := c.R
	g := jsonGen(r)
	g.Budget = 400
	keys := []string{"$minKey", "$maxKey", "$numberDecimal", "$numberDouble", "$timestamp", "$symbol", "$code", "$dbPointer", "$regularExpression", "$date", "$oid", "$undefined", "$binary", "$scope", "$numberLong"}
	subs := []string{"t", "i", "$ref", "$id", "pattern", "options", "base64", "subType", "$numberLong", "$scope", "$code", "$oid"}
	var leaf func(depth int) *ref.JVal
	leaf = func(depth int) *ref.JVal {
		switch r.IntN(9) {
		case 0:
			return &ref.JVal{K: '"', S: mon.Pick(r, []string{"", "1", "00", "80", "0123456789abcdef01234567", "NaN", "Infinity", "-1", "1.5", "2020-01-01T00:00:00Z", "2020-01-01T00:00:00.123Z", "AAAA", "A", "zz", "100", "a\x00b", "9999-12-31T23:59:59.999Z", "-9223372036854775808"})}
		case 1:
			return &ref.JVal{K: '0', N: mon.Pick(r, []string{"0", "1", "-1", "4294967295", "4294967296", "1.5", "1e300", "9223372036854775807"})}
		case 2, 3, 4:
			if depth <= 0 {
				return &ref.JVal{K: 'n'}
			}
			o := &ref.JVal{K: '{'}
			for range r.IntN(4) {
				o.Ks = append(o.Ks, mon.Pick(r, subs))
				o.A = append(o.A, leaf(depth-1))
			}
			return o
		default:
			return g.JSON(1)
		}
	}
	special := func(depth int) *ref.JVal {
		o := &ref.JVal{K: '{'}
		o.Ks = append(o.Ks, mon.Pick(r, keys))
		o.A = append(o.A, leaf(depth))
		for r.Chance(3) {
			o.Ks = append(o.Ks, mon.Pick(r, append(keys, "x", "$scope", "$scope")))
			o.A = append(o.A, leaf(depth))
		}
		return o
	}
	top := &ref.JVal{K: '{'}
	for range r.Range(1, 3) {
		top.Ks = append(top.Ks, g.Key())
		top.A = append(top.A, special(2))
	}
	if r.Chance(6) {
		top = special(2)
	}
	if r.Chance(6) {
		top = &ref.JVal{K: '[', A: []*ref.JVal{special(2), special(1)}}
	}
	text := top.Text(nil)
	c.Note("json", "%s", text)
	judgeJSON(c, text)

	// timestamps and object ids say what the text says, or are refused.
	t, i := ref.Int64v(r), ref.Int64v(r)
	if r.Bool() {
		t, i = int64(r.Uint32()), int64(r.Uint32())
	}
	text = fmt.Appendf(nil, `{"x":{"$timestamp":{"t":%d,"i":%d}}}`, t, i)
	d := birch.DC.New()
	err := d.UnmarshalJSON(text)
	fits := t >= 0 && t <= math.MaxUint32 && i >= 0 && i <= math.MaxUint32
	if (err == nil) != fits {
		c.Failf("timestamp", "%s: %v", text, err)
	}
	if err == nil {
		sameJSONDoc(c, string(text), one("x", &Val{T: ref.Timestamp, H: uint64(t), L: uint64(i)}), decoded(c, "timestamp", d), false)
	}
	c.Event("extended")
	c.StateBytes(top.Text(nil))
	c.Sample("%s", top.Text(nil))
}

// jform writes a document in one of the spellings of extended JSON, and keeps
// the objects that stand for values.
type jform struct {
	r        *mon.Rand
	specials []*ref.JVal
}

func jstr(s string) *ref.JVal { return &ref.JVal{K: '"', S: s} }

// special is the object of the key, with an object of pairs, in any order, or
// the value.
func (f *jform) special(key string, value *ref.JVal, pairs ...any) *ref.JVal {
	if value == nil {
		value = &ref.JVal{K: '{'}
		flip := f.r.Bool()
		for i := 0; i < len(pairs); i += 2 {
			if flip {
				value.Ks, value.A = append([]string{pairs[i].(string)}, value.Ks...), append([]*ref.JVal{pairs[i+1].(*ref.JVal)}, value.A...)
			} else {
				value.Ks, value.A = append(value.Ks, pairs[i].(string)), append(value.A, pairs[i+1].(*ref.JVal))
			}
		}
	}
	o := &ref.JVal{K: '{', Ks: []string{key}, A: []*ref.JVal{value}}
	f.specials = append(f.specials, o)
	return o
}

func (f *jform) hex(b []byte) string {
	s := hex.EncodeToString(b)
	if f.r.Chance(3) {
		s = strings.ToUpper(s)
	}
	return s
}

func (f *jform) val(w *Val) *ref.JVal {
	r := f.r
	num := func(n int64) *ref.JVal { return &ref.JVal{K: '0', N: strconv.FormatInt(n, 10)} }
	switch w.T {
	case ref.Double:
		switch {
		case math.IsNaN(w.F):
			return f.special("$numberDouble", jstr("NaN"))
		case math.IsInf(w.F, 0):
			s := "Infinity"
			if w.F < 0 {
				s = "-Infinity"
			}
			return f.special("$numberDouble", jstr(s))
		case r.Chance(4):
			return f.special("$numberDouble", jstr(strconv.FormatFloat(w.F, mon.Pick(r, []byte("geE")), -1, 64)))
		}
		return &ref.JVal{K: '0', N: jfloat(w.F, 64)}
	case ref.String:
		return jstr(w.S)
	case ref.Document:
		return f.doc(w.D)
	case ref.Array:
		j := &ref.JVal{K: '['}
		for _, e := range w.D.E {
			j.A = append(j.A, f.val(e.V))
		}
		return j
	case ref.Binary:
		return f.special("$binary", nil, "base64", jstr(base64.StdEncoding.EncodeToString(w.B)), "subType", jstr(f.hex([]byte{w.Sub})))
	case ref.Undefined:
		return f.special("$undefined", &ref.JVal{K: 'b', B: true})
	case ref.ObjectID:
		return f.special("$oid", jstr(f.hex(w.OID[:])))
	case ref.Boolean:
		return &ref.JVal{K: 'b', B: w.I == 1}
	case ref.DateTime:
		t := time.UnixMilli(w.I)
		if y := t.UTC().Year(); y < 1 || y > 9998 || r.Chance(4) {
			return f.special("$date", nil, "$numberLong", jstr(strconv.FormatInt(w.I, 10)))
		}
		t = t.In(mon.Pick(r, []*time.Location{time.UTC, time.FixedZone("", 3600*r.Range(-12, 14)), time.FixedZone("", 60*r.Range(-719, 719))}))
		return f.special("$date", jstr(t.Format(mon.Pick(r, []string{time.RFC3339Nano, "2006-01-02T15:04:05.000Z07:00", "2006-01-02T15:04:05.000000Z07:00"}))))
	case ref.Null:
		return &ref.JVal{K: 'n'}
	case ref.Regex:
		return f.special("$regularExpression", nil, "pattern", jstr(w.S), "options", jstr(w.S2))
	case ref.DBPointer:
		return f.special("$dbPointer", nil, "$ref", jstr(w.S), "$id", jstr(f.hex(w.OID[:])))
	case ref.JavaScript:
		return f.special("$code", jstr(w.S))
	case ref.Symbol:
		return f.special("$symbol", jstr(w.S))
	case ref.CodeScope:
		o := f.special("$code", jstr(w.S))
		if scope := f.doc(w.D); r.Chance(3) {
			o.Ks, o.A = []string{"$scope", "$code"}, []*ref.JVal{scope, o.A[0]}
		} else {
			o.Ks, o.A = append(o.Ks, "$scope"), append(o.A, scope)
		}
		return o
	case ref.Int32, ref.Int64:
		return num(w.I)
	case ref.Timestamp:
		return f.special("$timestamp", nil, "t", num(int64(w.H)), "i", num(int64(w.L)))
	case ref.Decimal128:
		s := "NaN"
		if d, ok := decimalOf(types.NewDecimal128(w.H, w.L)); ok {
			s = fmt.Sprintf("%vE%d", d.sig, d.exp)
			if d.neg {
				s = "-" + s
			}
		} else if w.H>>58&0x1f == 0x1e {
			s = mon.Pick(r, []string{"Inf", "Infinity", "inf", "INFINITY"})
			if w.H>>63 == 1 {
				s = "-" + s
			}
		}
		return f.special("$numberDecimal", jstr(s))
	case ref.MinKey:
		return f.special("$minKey", num(1))
	case ref.MaxKey:
		return f.special("$maxKey", num(1))
	}
	panic(w.T)
}

func (f *jform) doc(d *Doc) *ref.JVal {
	j := &ref.JVal{K: '{'}
	for _, e := range d.E {
		j.Ks, j.A = append(j.Ks, e.K), append(j.A, f.val(e.V))
	}
	return j
}

// misfit replaces a part of an object that stands for a value by something
// that can't be there.
func misfit(r *mon.Rand, o *ref.JVal) bool {
	num := func(s string) *ref.JVal { return &ref.JVal{K: '0', N: s} }
	others := []*ref.JVal{{K: 'n'}, {K: 'b', B: true}, num("1"), {K: '{'}, {K: '['}, {K: '[', A: []*ref.JVal{jstr("1")}}}
	text := func(bad ...string) *ref.JVal {
		if len(bad) > 0 && r.Bool() {
			return jstr(mon.Pick(r, bad))
		}
		return mon.Pick(r, others)
	}
	hexes := []string{"", "0123456789abcdef0123456", "0123456789abcdef012345678", "0123456789abcdef0123456g", "zz", " 123456789abcdef01234567"}
	in := &o.A[0]
	// the part of the inner object, or the whole.
	part := func(parts map[string]func() *ref.JVal, whole ...*ref.JVal) {
		if (*in).K != '{' || r.Chance(4) {
			*in = mon.Pick(r, append([]*ref.JVal{{K: 'n'}, {K: 'b'}, num("0"), {K: '['}}, whole...))
			return
		}
		i := r.IntN(len((*in).Ks))
		(*in).A[i] = parts[(*in).Ks[i]]()
	}
	switch key := o.Ks[0]; key {
	case "$numberDecimal":
		*in = text("", "zz", "1.2.3", "--1", "1e", ".", "E5", "1 ")
	case "$numberDouble":
		*in = text("", "zz", "1.2.3", "--1", "1e", ".", "e5", "1 ")
	case "$oid":
		*in = text(hexes...)
	case "$symbol":
		*in = text()
	case "$code", "$scope":
		i := r.IntN(len(o.Ks))
		if o.Ks[i] == "$code" {
			o.A[i] = text()
		} else {
			o.A[i] = mon.Pick(r, []*ref.JVal{{K: 'n'}, {K: 'b'}, num("1"), {K: '['}, jstr(""), jstr("x"), {K: '{', Ks: []string{"$undefined"}, A: []*ref.JVal{{K: 'b', B: true}}}})
		}
	case "$date":
		if (*in).K == '{' {
			part(map[string]func() *ref.JVal{"$numberLong": func() *ref.JVal {
				return text("", "zz", "9223372036854775808", "-9223372036854775809", "1.5", "1e3", " 1", "0x10")
			}}, jstr("1"))
		} else {
			*in = text("", "zz", "2020-01-01", "2020-13-01T00:00:00Z", "2020-01-01T00:00:00", "2020-02-30T00:00:00Z", "0")
		}
	case "$timestamp":
		bad := func() *ref.JVal {
			return mon.Pick(r, append([]*ref.JVal{jstr("1"), jstr(""), num("-1"), num("4294967296"), num("1.5"), num("1e300"), num("99999999999999999999")}, others[0], others[1], others[3], others[4]))
		}
		part(map[string]func() *ref.JVal{"t": bad, "i": bad}, jstr("1"), jstr(""))
	case "$dbPointer":
		part(map[string]func() *ref.JVal{"$ref": func() *ref.JVal { return text() }, "$id": func() *ref.JVal { return text(hexes...) }}, jstr("a"), jstr("0123456789abcdef01234567"))
	case "$regularExpression":
		bad := func() *ref.JVal { return text("a\x00b", "\x00") }
		part(map[string]func() *ref.JVal{"pattern": bad, "options": bad}, jstr("a"))
	case "$binary":
		part(map[string]func() *ref.JVal{"base64": func() *ref.JVal { return text("A", "AA", "AAA", "A===", "*AAA", "AAAA=") }, "subType": func() *ref.JVal { return text("", "zz", "100", "-1", "0x1", " 1") }})
	default:
		return false
	}
	return true
}

// jsonForms reads the objects that stand for values, in any spelling, and
// refuses them when they have other keys or lack one.
func jsonForms(c *C) {
	r := c.R
	g := jsonGen(r)
	if g.Budget > 3000 {
		g.Budget = 3000
	}
	want := plain(g.Doc())
	f := &jform{r: r}
	tree := f.doc(want)
	read := func(text []byte) (*birch.Document, error) {
		d := birch.DC.New()
		switch r.IntN(4) {
		case 0:
			return d, json.Unmarshal(text, d)
		case 1:
			jd, err := jsonx.DCE.Bytes(text)
			if err != nil {
				return nil, err
			}
			return birch.DCE.JSONX(jd)
		case 2:
			a := birch.MakeArray(1)
			if err := a.UnmarshalJSON(append(append([]byte("["), text...), ']')); err != nil {
				return nil, err
			}
			v, err := a.Lookup(0)
			if err != nil {
				c.Failf("array", "%v", err)
			}
			if doc, ok := v.MutableDocumentOK(); ok {
				return doc, nil
			}
			c.Failf("array", "%.300q in an array is read as a value of the type %s", text, v.Type())
			return nil, nil
		default:
			return d, d.UnmarshalJSON(text)
		}
	}
	text := tree.Text(r)
	c.Note("json", "%q", text)
	doc, err := read(text)
	if err != nil {
		c.Failf("refused", "%.300q: %v", text, err)
	}
	sameJSONDoc(c, "document", want, decoded(c, "document", doc), false)
	c.EventN("extended objects", len(f.specials))
	c.StateBytes(text)
	c.Sample("%.200q", text)
	if len(f.specials) == 0 {
		return
	}

	o := mon.Pick(r, f.specials)
	in := o.A[0]
	if r.Bool() {
		if !misfit(r, o) {
			return
		}
		c.Event("refused: a wrong value")
		text = tree.Text(r)
		c.Note("json", "%q", text)
		if _, err := read(text); err == nil {
			c.Failf("accepted", "%.600q has an object with the keys %q and contents that can't be theirs", text, o.Ks)
		}
		return
	}
	extra, n := mon.Pick(r, []string{"x", "", "$x", "t", "$date", "$oid", "a.b"}), 3
	if in.K != '{' || len(o.Ks) > 1 {
		n = 1
	}
	switch r.IntN(n) {
	case 0: // after the others
		o.Ks, o.A = append(o.Ks, extra), append(o.A, mon.Pick(r, []*ref.JVal{{K: 'n'}, jstr("y"), {K: '{'}, {K: '0', N: "1"}}))
		c.Event("refused: another key")
	case 1: // another inside
		i := r.IntN(len(in.Ks) + 1)
		in.Ks = append(in.Ks[:i:i], append([]string{extra + "y"}, in.Ks[i:]...)...)
		in.A = append(in.A[:i:i], append([]*ref.JVal{{K: '0', N: "1"}}, in.A[i:]...)...)
		c.Event("refused: another key inside")
	default:
		i := r.IntN(len(in.Ks))
		in.Ks = append(in.Ks[:i:i], in.Ks[i+1:]...)
		in.A = append(in.A[:i:i], in.A[i+1:]...)
		c.Event("refused: a missing key")
	}
	text = tree.Text(r)
	c.Note("json", "%q", text)
	if _, err := read(text); err == nil {
		c.Failf("accepted", "%.600q has an object with the keys %q of a value and others, or lacks one", text, o.Ks)
	}
}

// ---- building

type jbuild struct {
	r *mon.Rand
	g *ref.Gen
	// the numbers that were given as floating point ones.
	doubles map[*ref.JVal]bool
}

func (b jbuild) double(v *jsonx.Value, j *ref.JVal) (*jsonx.Value, *ref.JVal) {
	b.doubles[j] = true
	return v, j
}

func (b jbuild) val(depth int) (*jsonx.Value, *ref.JVal) {
	r := b.r
	n := 14
	if depth <= 0 {
		n = 10
	}
	switch r.IntN(n) {
	case 0:
		return jsonx.VC.Nil(), &ref.JVal{K: 'n'}
	case 1:
		x := r.Bool()
		return jsonx.VC.Boolean(x), &ref.JVal{K: 'b', B: x}
	case 2:
		x := ref.Int64v(r)
		return jsonx.VC.Int(int(x)), &ref.JVal{K: '0', N: strconv.FormatInt(x, 10)}
	case 3:
		x := ref.Int32v(r)
		return jsonx.VC.Int32(x), &ref.JVal{K: '0', N: strconv.FormatInt(int64(x), 10)}
	case 4:
		x := ref.Int64v(r)
		return jsonx.VC.Int64(x), &ref.JVal{K: '0', N: strconv.FormatInt(x, 10)}
	case 5:
		x := ref.Floatv(r)
		if math.IsNaN(x) || math.IsInf(x, 0) {
			x = 0.5
		}
		return b.double(jsonx.VC.Float64(x), &ref.JVal{K: '0', N: jfloat(x, 64)})
	case 6:
		x := float32(r.NormFloat64() * math.Pow(10, float64(r.IntN(60)-30)))
		return b.double(jsonx.VC.Float32(x), &ref.JVal{K: '0', N: jfloat(float64(x), 32)})
	case 7, 8, 9:
		s := b.g.Str(100, true)
		return jsonx.VC.String(s), &ref.JVal{K: '"', S: s}
	case 10, 11:
		vals, j := []*jsonx.Value{}, &ref.JVal{K: '['}
		for range r.IntN(6) {
			v, x := b.val(depth - 1)
			vals, j.A = append(vals, v), append(j.A, x)
		}
		switch r.IntN(3) {
		case 0:
			return jsonx.VC.ArrayFromElements(vals...), j
		case 1:
			return jsonx.VC.Array(jsonx.AC.Elements(vals...)), j
		}
		a := jsonx.AC.New()
		for _, v := range vals {
			a.Append(v)
		}
		return jsonx.VC.Array(a), j
	default:
		elems, j := b.elems(depth)
		switch r.IntN(3) {
		case 0:
			return jsonx.VC.ObjectFromElements(elems...), j
		case 1:
			return jsonx.VC.Object(jsonx.DC.Elements(elems...)), j
		}
		d := jsonx.DC.Make(r.IntN(4))
		for _, e := range elems {
			d.Append(e)
		}
		return jsonx.VC.Object(d), j
	}
}

func jfloat(x float64, bits int) string {
	s := strconv.FormatFloat(x, 'g', -1, bits)
	if !strings.ContainsAny(s, ".e") {
		s += ".0"
	}
	return s
}

func (b jbuild) elems(depth int) ([]*jsonx.Element, *ref.JVal) {
	elems, j := []*jsonx.Element{}, &ref.JVal{K: '{'}
	for range b.r.IntN(7) {
		k := strings.ToValidUTF8(b.g.Key(), "?")
		var e *jsonx.Element
		var x *ref.JVal
		ec := jsonx.EC
		switch b.r.IntN(10) {
		case 0:
			s := b.g.Str(40, true)
			e, x = ec.String(k, s), &ref.JVal{K: '"', S: s}
		case 1:
			v := b.r.Bool()
			e, x = ec.Boolean(k, v), &ref.JVal{K: 'b', B: v}
		case 2:
			v := ref.Int64v(b.r)
			e, x = ec.Int64(k, v), &ref.JVal{K: '0', N: strconv.FormatInt(v, 10)}
			if b.r.Bool() {
				e = ec.Int(k, int(v))
			}
		case 3:
			v := ref.Int32v(b.r)
			e, x = ec.Int32(k, v), &ref.JVal{K: '0', N: strconv.FormatInt(int64(v), 10)}
		case 4:
			v := b.r.NormFloat64()
			e, x = ec.Float64(k, v), &ref.JVal{K: '0', N: jfloat(v, 64)}
			if b.r.Bool() {
				e, x = ec.Float32(k, float32(v)), &ref.JVal{K: '0', N: jfloat(float64(float32(v)), 32)}
			}
			b.doubles[x] = true
		case 5:
			e, x = ec.Nil(k), &ref.JVal{K: 'n'}
		case 6:
			sub, j := b.elems(depth - 1)
			if depth <= 0 {
				sub, j = nil, &ref.JVal{K: '{'}
			}
			e, x = ec.ObjectFromElements(k, sub...), j
			if b.r.Bool() {
				e = ec.Object(k, jsonx.DC.Elements(sub...))
			}
		case 7:
			v, j := b.val(depth - 1)
			x = &ref.JVal{K: '[', A: []*ref.JVal{j}}
			e = ec.ArrayFromElements(k, v)
			if b.r.Bool() {
				e = ec.Array(k, jsonx.AC.Elements(v))
			}
		default:
			v, j := b.val(depth - 1)
			e, x = ec.Value(k, v), j
		}
		elems = append(elems, e)
		j.Ks, j.A = append(j.Ks, k), append(j.A, x)
	}
	return elems, j
}

// sameJSON compares two JSON values as written.
func sameJSON(c *C, path string, got, want *ref.JVal) {
	bad := func() { c.Failf("written", "%s: %.300s is written as %.300s", path, want.Text(nil), got.Text(nil)) }
	if got.K != want.K || got.B != want.B || got.S != want.S || len(got.A) != len(want.A) {
		bad()
	}
	if want.K == '0' {
		n, isInt := want.Integer()
		m, gotInt := got.Integer()
		f, _ := want.Float()
		h, _ := got.Float()
		if isInt != gotInt || isInt && n != m || !isInt && math.Float64bits(f) != math.Float64bits(h) {
			bad()
		}
	}
	for i := range want.A {
		if want.K == '{' && got.Ks[i] != want.Ks[i] {
			bad()
		}
		sameJSON(c, path+"/"+strconv.Itoa(i), got.A[i], want.A[i])
	}
}

func jsonBuild(c *C) {
	r := c.R
	b := jbuild{r, jsonGen(r), map[*ref.JVal]bool{}}
	b.g.Budget = min(b.g.Budget, 2000)
	elems, j := b.elems(4)
	doc := jsonx.DC.New()
	if r.Bool() {
		doc = jsonx.DC.Elements(elems...)
	} else {
		for _, e := range elems {
			doc.Append(e)
		}
	}
	cp := doc.Copy()
	if !special(j, true) {
		b.converted(c, doc, j)
	}
	for k, d := range []*jsonx.Document{doc, cp} {
		text, err := d.MarshalJSON()
		if err != nil {
			c.Failf("marshal", "writing %.300s: %v", j.Text(nil), err)
		}
		c.Note("json", "%s", text)
		got, err := ref.ParseJSON(text)
		if err != nil {
			c.Failf("invalid", "the output isn't JSON: %.300s", text)
		}
		sameJSON(c, "document", got, j)
		back, err := jsonx.DCE.Bytes(text)
		if err != nil {
			c.Failf("reread", "reading back %.300s: %v", text, err)
		}
		jsonTreeDoc(c, "read back", back, got)
		if k == 0 {
			// the copy has elements of its own.
			doc.Append(jsonx.EC.Nil("\x01more"))
			if cp.Len() != len(elems) || doc.Len() != len(elems)+1 {
				c.Failf("copy", "appending to a document changed its copy")
			}
			other := cp.Copy()
			other.Append(jsonx.EC.Nil("\x01other"))
			cp.Copy().Append(jsonx.EC.Nil("\x01third"))
			if doc.KeyAtIndex(len(elems)) != "\x01more" || other.KeyAtIndex(len(elems)) != "\x01other" {
				c.Failf("copy", "appending to a copy changed the document")
			}
		}
	}
	for i, e := range elems {
		if cp.ElementAtIndex(i) == e || doc.ElementAtIndex(i) != e || doc.KeyAtIndex(i) != e.Key() || cp.KeyAtIndex(i) != e.Key() {
			c.Failf("index", "the element at %d isn't the one that was put there", i)
		}
		if v, ok := e.ValueOK(); !ok || v != e.Value() {
			c.Failf("index", "the value of the element at %d", i)
		}
		b.access(c, e.Value(), j.A[i])
	}
	// a value on its own, and an array.
	v, jv := b.val(3)
	text, err := v.MarshalJSON()
	if err != nil {
		c.Failf("marshal", "writing %.300s: %v", jv.Text(nil), err)
	}
	got, err := ref.ParseJSON(text)
	if err != nil {
		c.Failf("invalid", "the output isn't JSON: %.300s", text)
	}
	sameJSON(c, "value", got, jv)
	if a, ok := v.ArrayOK(); ok {
		ac := a.Copy()
		a.Append(jsonx.VC.Nil())
		if ac.Len() != len(jv.A) || a.Len() != len(jv.A)+1 {
			c.Failf("copy", "appending to an array changed its copy")
		}
		// copies have memory of their own for what is appended.
		full := jsonx.AC.Make(len(jv.A) + 4)
		for e := range ac.Iterator() {
			full.Append(e)
		}
		fc := full.Copy()
		full.Append(jsonx.VC.Int(1))
		fc.Append(jsonx.VC.String("x"))
		wrote, err1 := full.MarshalJSON()
		wroteCopy, err2 := fc.MarshalJSON()
		if err1 != nil || err2 != nil {
			c.Failf("marshal", "writing %.300s: %v, %v", jv.Text(nil), err1, err2)
		}
		one, err1 := ref.ParseJSON(wrote)
		two, err2 := ref.ParseJSON(wroteCopy)
		if err1 != nil || err2 != nil {
			c.Failf("invalid", "the output isn't JSON: %.300s, %.300s", wrote, wroteCopy)
		}
		if len(one.A) != len(jv.A)+1 || one.A[len(jv.A)].K == '"' || len(two.A) != len(jv.A)+1 || two.A[len(jv.A)].K != '"' {
			c.Failf("copy", "appending to an array and to its copy: %.300s, %.300s", wrote, wroteCopy)
		}
		text, err := ac.MarshalJSON()
		if err != nil {
			c.Failf("marshal", "writing %.300s: %v", jv.Text(nil), err)
		}
		got, err := ref.ParseJSON(text)
		if err != nil {
			c.Failf("invalid", "the output isn't JSON: %.300s", text)
		}
		sameJSON(c, "array", got, jv)
	}
	for _, f := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
		if text, err := jsonx.DC.Elements(jsonx.EC.Float64("x", f)).MarshalJSON(); err == nil {
			c.Failf("invalid", "the number %v is written as %s", f, text)
		}
	}
	c.Event("built")
	c.StateBytes(j.Text(nil))
	c.Sample("%s", j.Text(nil))
}

// access checks that exactly the accessors of the value's type give it, and
// what it converts to.
func (b jbuild) access(c *C, v *jsonx.Value, j *ref.JVal) {
	bad := func(format string, args ...any) {
		c.Failf("access", "the accessors of %.200s (%v): %s", j.Text(nil), v.Type(), fmt.Sprintf(format, args...))
	}
	dbl := b.doubles[j]
	s, sok := v.StringValueOK()
	a, aok := v.ArrayOK()
	d, dok := v.DocumentOK()
	t, bok := v.BooleanOK()
	n, nok := v.IntOK()
	f, fok := v.Float64OK()
	if sok != (j.K == '"') || aok != (j.K == '[') || dok != (j.K == '{') || bok != (j.K == 'b') || nok != (j.K == '0' && !dbl) || fok != (j.K == '0' && dbl) {
		bad("string %v, array %v, document %v, boolean %v, integer %v, number %v", sok, aok, dok, bok, nok, fok)
	}
	for _, x := range []struct {
		ok  bool
		get func() any
		val any
	}{
		{sok, func() any { return v.StringValue() }, s}, {aok, func() any { return v.Array() }, a}, {dok, func() any { return v.Document() }, d},
		{bok, func() any { return v.Boolean() }, t}, {nok, func() any { return v.Int() }, n}, {fok, func() any { return v.Float64() }, f},
	} {
		var got any
		p := mon.NoPanic(func() { got = x.get() })
		if (p == nil) != x.ok || x.ok && got != x.val {
			bad("%v, %v, with %v and panic %v", x.val, x.ok, got, p)
		}
	}
	switch {
	case sok && s != j.S, bok && t != j.B:
		bad("%q, %v", s, t)
	case nok:
		if want, ok := j.Integer(); !ok || int64(n) != want {
			bad("%d", n)
		}
	case fok:
		want, _ := j.Float()
		if _, single := v.Interface().(float32); single && float32(f) != float32(want) || !single && f != want {
			bad("%v", f)
		}
	case aok:
		i := 0
		for x := range a.Iterator() {
			b.access(c, x, j.A[i])
			i++
		}
	case dok:
		for i := range d.Len() {
			b.access(c, d.ElementAtIndex(i).Value(), j.A[i])
		}
	}
	c.Event("kind " + v.Type().String())
}

// bson is what the tree is as BSON, with the numbers as they were given.
func (b jbuild) bson(j *ref.JVal) *Val {
	switch j.K {
	case '0':
		if b.doubles[j] {
			f, _ := j.Float()
			return &Val{T: ref.Double, F: f}
		}
	case '[', '{':
		w := bsonOf(j)
		for i, x := range j.A {
			w.D.E[i].V = b.bson(x)
		}
		return w
	}
	return bsonOf(j)
}

// single makes a model's numbers those of single precision that they were
// written from, where that's what another's are.
func single(w, got *Doc) {
	for i := range w.E {
		if i >= len(got.E) {
			return
		}
		v, o := w.E[i].V, got.E[i].V
		if v.T == ref.Double && o.T == ref.Double && float64(float32(o.F)) == o.F && float32(v.F) == float32(o.F) {
			v.F = o.F
		}
		if v.D != nil && o.D != nil {
			single(v.D, o.D)
		}
	}
}

// converted compares a tree to what it is converted to.
func (b jbuild) converted(c *C, d *jsonx.Document, j *ref.JVal) {
	var got *birch.Document
	var err error
	switch b.r.IntN(3) {
	case 0:
		got, err = birch.DCE.JSONX(d)
	case 1:
		got = birch.DC.JSONX(d)
	default:
		e, e2 := birch.ECE.Interface("k", d)
		if err = e2; err == nil {
			got = e.Value().MutableDocument()
		}
	}
	if err != nil {
		c.Failf("convert", "%.300s can't be converted: %v", j.Text(nil), err)
	}
	out, want := decoded(c, "converted", got), b.bson(j).D
	single(want, out)
	sameJSONDoc(c, "converted", want, out, false)
	c.Event("converted")
}
