package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/tychoish/birch/elements"
	"github.com/tychoish/birch/types"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	mon.Register(&mon.Property{
		ID:    "B11",
		Title: "Object identifiers are unique, dated and parse exactly",
		Rule:  "a set of identifiers drawn concurrently, or one text given to the parsers",
		Assumptions: []string{
			"fewer than 2^24 identifiers are generated within a second, as the format allows for",
			"the clock isn't set back while a case runs",
		},
		Workloads: []mon.Workload{
			{Name: "generate", Quick: 24, Thorough: 200, Race: true, Run: oidGenerate},
			{Name: "generate-many", Quick: 6, Thorough: 40, Serial: true, Run: oidGenerateMany},
			{Name: "dates", Quick: 4, Thorough: 20, Serial: true, Run: oidDates},
			{Name: "text", Quick: 300000, Thorough: 6000000, Run: oidText},
		},
	})
	mon.Register(&mon.Property{
		ID:    "B12",
		Title: "128-bit decimals convert exactly to and from text",
		Rule:  "a decimal (significand and exponent) or a text, against arbitrary precision arithmetic",
		Workloads: []mon.Workload{
			{Name: "format", Quick: 700000, Thorough: 15000000, Run: decFormat},
			{Name: "parse", Quick: 700000, Thorough: 15000000, Run: decParse},
			{Name: "garbage", Quick: 700000, Thorough: 15000000, Run: decGarbage},
		},
	})
	mon.Register(&mon.Property{
		ID:    "B13",
		Title: "Low-level encoders write exactly the value, inside the buffer",
		Rule:  "a value, a key, an offset and a buffer length; every byte of the buffer is compared to the model",
		Workloads: []mon.Workload{
			{Name: "encode", Quick: 500000, Thorough: 10000000, Run: elementsEncode},
		},
	})
}

// ---- B11

func oidGenerate(c *C) {
	n, per := c.R.Range(2, 12), c.R.Range(50, 2000)
	var mu sync.Mutex
	seen := map[types.ObjectID]int{}
	for g := 0; g < n; g++ {
		c.Go(func() {
			mine := make([]types.ObjectID, per)
			before := time.Now().Unix()
			for i := range mine {
				mine[i] = types.NewObjectID()
			}
			after := time.Now().Unix()
			for _, id := range mine {
				at := int64(uint32(id[0])<<24 | uint32(id[1])<<16 | uint32(id[2])<<8 | uint32(id[3]))
				if at < before || at > after {
					c.Failf("time", "an identifier generated between %d and %d is dated %d (%s)", before, after, at, id.Hex())
				}
			}
			mu.Lock()
			defer mu.Unlock()
			for _, id := range mine {
				if o, ok := seen[id]; ok {
					c.Failf("unique", "two identifiers generated by this process are the same: %s (goroutines %d and %d)", id.Hex(), o, g)
				}
				seen[id] = g
			}
		})
	}
	c.Wait()
	c.EventN("identifiers", len(seen))
	c.State(n, per)
	c.Sample("%d goroutines, %d identifiers each", n, per)
}

func oidGenerateMany(c *C) {
	const g, per = 8, 50000
	all := make([][]types.ObjectID, g)
	var start sync.WaitGroup
	start.Add(g)
	for i := range all {
		c.Go(func() {
			out := make([]types.ObjectID, per)
			start.Done()
			start.Wait()
			for j := range out {
				out[j] = types.NewObjectID()
			}
			all[i] = out
		})
	}
	c.Wait()
	seen := make(map[types.ObjectID]struct{}, g*per)
	for _, out := range all {
		for _, id := range out {
			if _, ok := seen[id]; ok {
				c.Failf("unique", "two identifiers generated by this process are the same: %s", id.Hex())
			}
			seen[id] = struct{}{}
			if !bytes.Equal(id[4:9], all[0][0][4:9]) {
				c.Failf("process", "identifiers of the same process have different process parts: %s and %s", id.Hex(), all[0][0].Hex())
			}
		}
	}
	c.EventN("identifiers", len(seen))
	c.State(c.Index)
	c.Sample("%d goroutines, %d identifiers each", g, per)
}

// oidDates looks at the dates of identifiers around the end of a second.
func oidDates(c *C) {
	n := 0
	for end := time.Now().Add(1100 * time.Millisecond); time.Now().Before(end); n++ {
		before := time.Now().Unix()
		id := types.NewObjectID()
		after := time.Now().Unix()
		at := int64(uint32(id[0])<<24 | uint32(id[1])<<16 | uint32(id[2])<<8 | uint32(id[3]))
		if at < before || at > after {
			c.Failf("time", "an identifier generated between %d and %d is dated %d (%s)", before, after, at, id.Hex())
		}
		time.Sleep(time.Millisecond)
	}
	c.EventN("identifiers", n)
	c.State(c.Index)
	c.Sample("%d identifiers in 1.1 s", n)
}

func isHex24(s string) bool {
	if len(s) != 24 {
		return false
	}
	for _, ch := range []byte(s) {
		if !(ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'f' || ch >= 'A' && ch <= 'F') {
			return false
		}
	}
	return true
}

func hexOID(s string) (id types.ObjectID) {
	b, _ := hex.DecodeString(s)
	copy(id[:], b)
	return id
}

func oidText(c *C) {
	r := c.R
	var id types.ObjectID
	copy(id[:], r.Bytes(12))
	if r.Chance(8) {
		for i := range id {
			id[i] = byte(mon.Pick(r, []int{0, 0xff, 0x7f, '$', '"'}))
		}
	}
	if r.Chance(50) {
		id = types.NilObjectID
	}
	want := hex.EncodeToString(id[:])
	if got := id.Hex(); got != want {
		c.Failf("hex", "Hex of %x is %q", id[:], got)
	}
	if got := id.String(); got != `ObjectID("`+want+`")` {
		c.Failf("string", "String of %x is %q", id[:], got)
	}
	if id.IsZero() != (want == strings.Repeat("0", 24)) {
		c.Failf("zero", "IsZero of %s is %v", want, id.IsZero())
	}
	js, err := json.Marshal(id)
	if err != nil || string(js) != `"`+want+`"` {
		c.Failf("json", "JSON of %s is %q, %v", want, js, err)
	}
	c.Event("formatted")

	// a text, near or far from a valid one.
	s := want
	switch r.IntN(8) {
	case 0:
		s = strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if r.Bool() {
				b[i] = strings.ToUpper(s)[i]
			}
		}
		s = string(b)
	case 2:
		b := []byte(s)
		b[r.IntN(len(b))] = mon.Pick(r, []byte("gGxX/:@`{ \x00\xff-+_."))
		s = string(b)
	case 3:
		s = s[:r.IntN(len(s))]
	case 4:
		s += want[:r.Range(1, 24)]
	case 5:
		s = hex.EncodeToString(r.Bytes(r.IntN(20)))
	case 6:
		s = string(r.Bytes(r.Range(0, 30)))
	}
	valid := isHex24(s)
	c.Note("text", "%q", s)
	got, err := types.ObjectIDFromHex(s)
	if (err == nil) != valid || valid && got != hexOID(s) || !valid && got != types.NilObjectID {
		c.Failf("parse", "ObjectIDFromHex(%q) is %x, %v", s, got[:], err)
	}
	var must types.ObjectID
	p := mon.NoPanic(func() { must = types.MustObjectIDFromHex(s) })
	if (p == nil) != valid || valid && must != hexOID(s) {
		c.Failf("must", "MustObjectIDFromHex(%q) is %x, panic %v", s, must[:], p)
	}
	c.Event(fmt.Sprintf("parsed:%v", valid))

	// JSON: a string or an $oid object.
	quoted, _ := json.Marshal(s)
	if json.Valid(quoted) {
		text := string(quoted)
		switch r.IntN(3) {
		case 0:
			text = `{"$oid":` + text + `}`
		case 1:
			text = ` { "$oid" : ` + text + ` } `
		}
		var back string
		_ = json.Unmarshal(quoted, &back)
		valid = isHex24(back)
		if len(text) != 12 { // twelve bytes are taken as they are
			var out types.ObjectID
			err := out.UnmarshalJSON([]byte(text))
			if (err == nil) != valid || valid && out != hexOID(back) {
				c.Failf("json-parse", "UnmarshalJSON(%s) is %x, %v", text, out[:], err)
			}
			c.Event(fmt.Sprintf("json:%v", valid))
		}
	}
	// any bytes.
	junk := r.Bytes(r.IntN(40))
	if r.Bool() {
		junk = ref.Mutate(r, []byte(`{"$oid":"`+want+`"}`))
	}
	c.Note("junk", "%q", junk)
	var out types.ObjectID
	if err := out.UnmarshalJSON(junk); err == nil && len(junk) != 12 {
		var a any
		_ = json.Unmarshal(junk, &a)
		str, ok := a.(string)
		if m, is := a.(map[string]any); is {
			str, ok = m["$oid"].(string)
		}
		if !ok || !isHex24(str) || out != hexOID(str) {
			c.Failf("json-parse", "UnmarshalJSON(%q) is %x", junk, out[:])
		}
	}
	c.StateBytes([]byte(s))
	c.Sample("%q (valid: %v)", s, valid)
}

// ---- B12

var (
	ten    = big.NewInt(10)
	pow34  = new(big.Int).Exp(ten, big.NewInt(34), nil)
	maxSig = new(big.Int).Sub(pow34, big.NewInt(1))
)

type decimal struct {
	neg bool
	sig *big.Int
	exp int
}

func (d decimal) bits() (h, l uint64) {
	l = new(big.Int).And(d.sig, new(big.Int).SetUint64(^uint64(0))).Uint64()
	h = new(big.Int).Rsh(d.sig, 64).Uint64() | uint64(d.exp+6176)<<49
	if d.neg {
		h |= 1 << 63
	}
	return h, l
}

// decimalOf decodes a finite decimal with a significand below 10^34.
func decimalOf(d types.Decimal128) (decimal, bool) {
	h, l := d.GetBytes()
	if h>>61&3 == 3 {
		return decimal{}, false
	}
	sig := new(big.Int).SetUint64(h & (1<<49 - 1))
	sig.Lsh(sig, 64)
	sig.Or(sig, new(big.Int).SetUint64(l))
	out := decimal{neg: h>>63 == 1, sig: sig, exp: int(h>>49&(1<<14-1)) - 6176}
	return out, sig.Cmp(maxSig) <= 0 && out.exp <= 6111
}

// same compares values, by bringing the significands to one exponent.
func sameDecimal(aNeg bool, a *big.Int, aExp int, bNeg bool, b *big.Int, bExp int) bool {
	if aNeg != bNeg {
		return false
	}
	if a.Sign() == 0 || b.Sign() == 0 {
		return a.Sign() == b.Sign()
	}
	if aExp < bExp {
		a, b, aExp, bExp = b, a, bExp, aExp
	}
	if aExp-bExp > 20000 {
		return false
	}
	return new(big.Int).Mul(a, new(big.Int).Exp(ten, big.NewInt(int64(aExp-bExp)), nil)).Cmp(b) == 0
}

// holdable is whether a decimal has exactly the value.
func holdable(sig *big.Int, exp int) bool {
	if sig.Sign() == 0 {
		return true
	}
	a, m := new(big.Int).Set(sig), new(big.Int)
	for {
		q, _ := new(big.Int).QuoRem(a, ten, m)
		if m.Sign() != 0 {
			break
		}
		a = q
		exp++
	}
	for ; a.Cmp(maxSig) <= 0 && exp > 6111; exp-- {
		a.Mul(a, ten)
	}
	return a.Cmp(maxSig) <= 0 && exp >= -6176 && exp <= 6111
}

func genSig(r *mon.Rand) *big.Int {
	n := r.Range(0, 34)
	if r.Chance(4) {
		n = mon.Pick(r, []int{1, 8, 9, 10, 17, 18, 19, 27, 28, 33, 34})
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + byte(r.IntN(10))
	}
	switch r.IntN(5) {
	case 0:
		for i := range b {
			b[i] = '9'
		}
	case 1:
		for i := range b {
			if i > 0 {
				b[i] = '0'
			}
		}
	case 2: // zeros at the end
		for i := n - r.IntN(n+1); i < n; i++ {
			b[i] = '0'
		}
	}
	out := new(big.Int)
	if n > 0 {
		out.SetString(string(b), 10)
	}
	if r.Chance(12) {
		out.SetUint64(1).Lsh(out, uint(r.IntN(113)))
		if r.Bool() {
			out.Sub(out, big.NewInt(1))
		}
	}
	if out.Cmp(maxSig) > 0 {
		out.Set(maxSig)
	}
	return out
}

func genExp(r *mon.Rand) int {
	switch r.IntN(5) {
	case 0:
		return r.Range(-6176, 6111)
	case 1:
		return mon.Pick(r, []int{-6176, -6175, 6111, 6110, 0, 1, -1})
	default:
		return r.Range(-45, 45)
	}
}

// parseText is the value of [+-]digits[.digits][E[+-]digits].
func parseText(s string) (neg bool, sig *big.Int, exp int, ok bool) {
	if s != "" && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	mant := s
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		e := s[i+1:]
		mant = s[:i]
		if e != "" && (e[0] == '+' || e[0] == '-') {
			e = e[1:]
		}
		if e == "" || strings.Trim(e, "0123456789") != "" {
			return
		}
		n, err := strconv.ParseInt(strings.TrimPrefix(s[i+1:], "+"), 10, 32)
		if err != nil {
			return
		}
		exp = int(n)
	}
	whole, frac, dot := strings.Cut(mant, ".")
	if whole+frac == "" || strings.Trim(whole+frac, "0123456789") != "" {
		return
	}
	_ = dot
	exp -= len(frac)
	sig, ok = new(big.Int).SetString(whole+frac, 10)
	return
}

func decFormat(c *C) {
	r := c.R
	d := decimal{neg: r.Bool(), sig: genSig(r), exp: genExp(r)}
	h, l := d.bits()
	c.Note("decimal", "%v %s E%d (%x %x)", d.neg, d.sig, d.exp, h, l)
	v := types.NewDecimal128(h, l)
	if gh, gl := v.GetBytes(); gh != h || gl != l {
		c.Failf("bits", "the bits %x %x came back as %x %x", h, l, gh, gl)
	}
	s := v.String()
	neg, sig, exp, ok := parseText(s)
	if !ok {
		c.Failf("text", "String of %v %s E%d is %q: not a number", d.neg, d.sig, d.exp, s)
	}
	if !sameDecimal(neg, sig, exp, d.neg, d.sig, d.exp) {
		c.Failf("value", "String of %v %s E%d is %q: another value", d.neg, d.sig, d.exp, s)
	}
	back, err := types.ParseDecimal128(s)
	if err != nil {
		c.Failf("reparse", "String of %v %s E%d is %q, which doesn't parse: %v", d.neg, d.sig, d.exp, s, err)
	}
	if gh, gl := back.GetBytes(); gh != h || gl != l {
		c.Failf("identity", "%v %s E%d is written %q, read as %x %x, not %x %x", d.neg, d.sig, d.exp, s, gh, gl, h, l)
	}
	// the special values.
	sign := uint64(0)
	if d.neg {
		sign = 1 << 63
	}
	inf := map[bool]string{true: "-Infinity", false: "Infinity"}[d.neg]
	if got := types.NewDecimal128(0x1E<<58|sign, 0).String(); got != inf {
		c.Failf("special", "String of the infinity is %q, not %q", got, inf)
	}
	if p, err := types.ParseDecimal128(inf); err != nil || p != types.NewDecimal128(0x1E<<58|sign, 0) {
		c.Failf("special", "%q is read as %x", inf, p)
	}
	if got := types.NewDecimal128(0x1F<<58|sign, 0).String(); got != "NaN" {
		c.Failf("special", "String of NaN is %q", got)
	}
	c.Event("formatted")
	c.State(len(d.sig.String()), d.exp, d.neg)
	c.Sample("%s", s)
}

func genDecText(r *mon.Rand) string {
	var sb strings.Builder
	sb.WriteString(mon.Pick(r, []string{"", "-", "+", ""}))
	if r.Chance(4) {
		sb.WriteString(strings.Repeat("0", r.IntN(12)))
	}
	digits := genSig(r).String()
	if r.Chance(6) {
		digits += strings.Repeat("0", r.IntN(40))
	}
	if r.Chance(40) {
		digits += strings.Repeat("0", r.Range(6000, 7000))
	}
	if r.Chance(12) {
		n := r.Range(30, 45)
		digits = ""
		for range n {
			digits += string('0' + byte(r.IntN(10)))
		}
	}
	switch r.IntN(4) {
	case 0:
		i := r.Range(0, len(digits))
		digits = digits[:i] + "." + digits[i:]
	case 1:
		n := r.IntN(12)
		if r.Chance(20) {
			n = r.Range(6130, 6250)
		}
		digits = "0." + strings.Repeat("0", n) + digits
	}
	sb.WriteString(digits)
	switch r.IntN(4) {
	case 0:
		fmt.Fprintf(&sb, "%s%d", mon.Pick(r, []string{"E", "e"}), genExp(r))
	case 1:
		fmt.Fprintf(&sb, "%s%+d", mon.Pick(r, []string{"E", "e"}), genExp(r))
	case 2:
		if r.Chance(3) {
			fmt.Fprintf(&sb, "E%d", mon.Pick(r, []int{6145, 6144, 6143, 6112, 6120, -6177, -6180, -6200, -6210, 9999, -9999, 10000, 99999, 100000, -100000, 1 << 20}))
		}
	}
	return sb.String()
}

func judgeDecimal(c *C, s string) (accepted bool) {
	c.Note("text", "%.7200q", s)
	show := s
	if len(show) > 120 {
		show = fmt.Sprintf("%s...(%d)...%s", show[:60], len(show), show[len(show)-20:])
	}
	got, err := types.ParseDecimal128(s)
	neg, sig, exp, ok := parseText(s)
	if err == nil && !ok {
		// the special values have no digits.
		switch strings.ToLower(strings.TrimLeft(s, "+-")) {
		case "nan", "inf", "infinity":
			if h, _ := got.GetBytes(); h>>61&3 == 3 {
				return true
			}
		}
		c.Failf("accepted", "%q is read as %s", show, got)
	}
	if err == nil {
		d, canon := decimalOf(got)
		if !canon {
			c.Failf("canonical", "%q is read as a decimal that isn't valid (%s)", show, got)
		}
		if !sameDecimal(neg, sig, exp, d.neg, d.sig, d.exp) {
			c.Failf("value", "%q is read as %v %s E%d: another value", show, d.neg, d.sig, d.exp)
		}
		return true
	}
	return false
}

func decParse(c *C) {
	s := genDecText(c.R)
	accepted := judgeDecimal(c, s)
	neg, sig, exp, ok := parseText(s)
	// what fits without rounding, with digits around the dot, must be read, and keeps its exponent.
	body := strings.TrimLeft(s, "+-")
	mant, _, _ := strings.Cut(strings.ToUpper(body), "E")
	plain := ok && !strings.HasPrefix(mant, ".") && !strings.HasSuffix(mant, ".")
	if plain && sig.Cmp(maxSig) <= 0 && exp >= -6176 && exp <= 6111 && len(s) < 5000 {
		if !accepted {
			c.Failf("refused", "%q has at most 34 digits and an exponent in range, and is refused", s)
		}
		got, _ := types.ParseDecimal128(s)
		d, _ := decimalOf(got)
		if d.exp != exp || d.neg != neg || d.sig.Cmp(sig) != 0 {
			c.Failf("exact", "%q is read as %v %s E%d, not with the exponent %d", s, d.neg, d.sig, d.exp, exp)
		}
		c.Event("exact")
	}
	if plain && !accepted && len(s) < 300 && holdable(sig, exp) {
		_, e, _ := strings.Cut(strings.ToUpper(body), "E")
		whole, frac, _ := strings.Cut(mant, ".")
		if len(strings.TrimLeft(e, "+-")) <= 4 && (frac == "" || len(strings.TrimLeft(whole, "0")) <= 34) {
			c.Failf("refused", "%q is exactly a decimal, and is refused", s)
		}
	}
	c.Event(fmt.Sprintf("accepted:%v", accepted))
	c.StateBytes([]byte(s))
	c.Sample("%.100q accepted: %v", s, accepted)
}

func decGarbage(c *C) {
	r := c.R
	var s string
	switch r.IntN(3) {
	case 0:
		n := r.IntN(20)
		b := make([]byte, n)
		for i := range b {
			b[i] = mon.Pick(r, []byte("0123456789.eE+-nNaAiIfFtTyY 0_x"))
		}
		s = string(b)
	case 1:
		s = string(ref.Mutate(r, []byte(genDecText(r))))
	default:
		s = mon.Pick(r, []string{"", "-", "+", ".", "E", "e5", "1E", "1E+", "1e-", "--1", "+-1", "1..2", "NaN", "nan", "-NaN", "inf", "-INF", "Infinity", "infinit", "Nope", "N", "Inf1", "1 ", " 1", ".5", "5.", "-.", "-.5", "+.", "0x1", "1_0", "00", "-0", "0E+9999", "0E-9999", "\x00", "1\x00"})
	}
	accepted := judgeDecimal(c, s)
	c.Event(fmt.Sprintf("accepted:%v", accepted))
	c.StateBytes([]byte(s))
	c.Sample("%.100q accepted: %v", s, accepted)
}

// ---- B13

type encoder struct {
	name string
	want []byte
	run  func(start uint, w []byte) (int, error)
}

func elementsEncode(c *C) {
	r := c.R
	g := ref.NewGen(r)
	t := mon.Pick(r, ref.AllTypes)
	v := g.ValOf(t)
	key := g.Key()
	if r.Chance(6) {
		key = g.Str(300, false)
	}
	var encs []encoder
	add := func(name string, want []byte, run func(uint, []byte) (int, error)) {
		encs = append(encs, encoder{name, want, run})
	}
	both := func(name string, enc func(uint, []byte) (int, error), elem func(uint, []byte) (int, error)) {
		add(name+".Encode", v.EncodeValue(), enc)
		add(name+".Element", ref.EncodeElem(key, v), elem)
	}
	oid := v.OID
	var sub []byte
	if v.D != nil {
		sub = v.D.Encode()
		if t == ref.Array {
			sub = v.D.EncodeArray()
		}
	}
	subCopy := clone(sub)
	binCopy := clone(v.B)
	dec := types.NewDecimal128(v.H, v.L)
	switch t {
	case ref.Double:
		both("Double", func(s uint, w []byte) (int, error) { return elements.Double.Encode(s, w, v.F) },
			func(s uint, w []byte) (int, error) { return elements.Double.Element(s, w, key, v.F) })
	case ref.String:
		both("String", func(s uint, w []byte) (int, error) { return elements.String.Encode(s, w, v.S) },
			func(s uint, w []byte) (int, error) { return elements.String.Element(s, w, key, v.S) })
	case ref.Document:
		both("Document", func(s uint, w []byte) (int, error) { return elements.Document.Encode(s, w, sub) },
			func(s uint, w []byte) (int, error) { return elements.Document.Element(s, w, key, sub) })
	case ref.Array:
		both("Array", func(s uint, w []byte) (int, error) { return elements.Array.Encode(s, w, sub) },
			func(s uint, w []byte) (int, error) { return elements.Array.Element(s, w, key, sub) })
	case ref.Binary:
		both("Binary", func(s uint, w []byte) (int, error) { return elements.Binary.Encode(s, w, v.B, v.Sub) },
			func(s uint, w []byte) (int, error) { return elements.Binary.Element(s, w, key, v.B, v.Sub) })
	case ref.ObjectID:
		both("ObjectID", func(s uint, w []byte) (int, error) { return elements.ObjectID.Encode(s, w, oid) },
			func(s uint, w []byte) (int, error) { return elements.ObjectID.Element(s, w, key, oid) })
	case ref.Boolean:
		both("Boolean", func(s uint, w []byte) (int, error) { return elements.Boolean.Encode(s, w, v.I == 1) },
			func(s uint, w []byte) (int, error) { return elements.Boolean.Element(s, w, key, v.I == 1) })
	case ref.DateTime:
		both("DateTime", func(s uint, w []byte) (int, error) { return elements.DateTime.Encode(s, w, v.I) },
			func(s uint, w []byte) (int, error) { return elements.DateTime.Element(s, w, key, v.I) })
	case ref.Regex:
		both("Regex", func(s uint, w []byte) (int, error) { return elements.Regex.Encode(s, w, v.S, v.S2) },
			func(s uint, w []byte) (int, error) { return elements.Regex.Element(s, w, key, v.S, v.S2) })
	case ref.DBPointer:
		both("DBPointer", func(s uint, w []byte) (int, error) { return elements.DBPointer.Encode(s, w, v.S, oid) },
			func(s uint, w []byte) (int, error) { return elements.DBPointer.Element(s, w, key, v.S, oid) })
	case ref.JavaScript:
		both("JavaScript", func(s uint, w []byte) (int, error) { return elements.JavaScript.Encode(s, w, v.S) },
			func(s uint, w []byte) (int, error) { return elements.JavaScript.Element(s, w, key, v.S) })
	case ref.Symbol:
		both("Symbol", func(s uint, w []byte) (int, error) { return elements.Symbol.Encode(s, w, v.S) },
			func(s uint, w []byte) (int, error) { return elements.Symbol.Element(s, w, key, v.S) })
	case ref.CodeScope:
		both("CodeWithScope", func(s uint, w []byte) (int, error) { return elements.CodeWithScope.Encode(s, w, v.S, sub) },
			func(s uint, w []byte) (int, error) { return elements.CodeWithScope.Element(s, w, key, v.S, sub) })
	case ref.Int32:
		both("Int32", func(s uint, w []byte) (int, error) { return elements.Int32.Encode(s, w, int32(v.I)) },
			func(s uint, w []byte) (int, error) { return elements.Int32.Element(s, w, key, int32(v.I)) })
	case ref.Timestamp:
		both("Timestamp", func(s uint, w []byte) (int, error) {
			return elements.Timestamp.Encode(s, w, uint32(v.H), uint32(v.L))
		}, func(s uint, w []byte) (int, error) {
			return elements.Timestamp.Element(s, w, key, uint32(v.H), uint32(v.L))
		})
	case ref.Int64:
		both("Int64", func(s uint, w []byte) (int, error) { return elements.Int64.Encode(s, w, v.I) },
			func(s uint, w []byte) (int, error) { return elements.Int64.Element(s, w, key, v.I) })
	case ref.Decimal128:
		both("Decimal128", func(s uint, w []byte) (int, error) { return elements.Decimal128.Encode(s, w, dec) },
			func(s uint, w []byte) (int, error) { return elements.Decimal128.Element(s, w, key, dec) })
	default:
		add("CString.Encode", append([]byte(key), 0), func(s uint, w []byte) (int, error) { return elements.CString.Encode(s, w, key) })
		b := byte(r.IntN(256))
		add("Byte.Encode", []byte{b}, func(s uint, w []byte) (int, error) { return elements.Byte.Encode(s, w, b) })
	}
	for _, e := range encs {
		need := len(e.want)
		start := r.IntN(20)
		if r.Bool() {
			start = 0
		}
		size := start + need
		switch r.IntN(6) {
		case 0, 1:
		case 2, 3:
			size += r.IntN(40)
		case 4:
			size -= r.IntN(need) + 1
		default:
			size = r.IntN(start + need + 1)
		}
		size = max(size, 0)
		// the buffer lies in a larger one: nothing may be written beyond it.
		pad := r.IntN(24)
		big := r.Bytes(size + pad)
		orig := clone(big)
		w := big[:size]
		c.Note(e.name, "type %d, offset %d, buffer %d of %d, needs %d; value %s", t, start, size, size+pad, need, hexs(e.want))
		n, err := e.run(uint(start), w)
		fits := size >= start+need
		lo, hi := start, start+need
		if fits {
			if err != nil || n != need {
				c.Failf("length", "%s at %d of %d bytes reports %d, %v; the value has %d bytes", e.name, start, size, n, err, need)
			}
			if !bytes.Equal(big[lo:hi], e.want) {
				c.Failf("bytes", "%s wrote other bytes than the value: %s", e.name, diffAt(big[lo:hi], e.want))
			}
		} else {
			if err == nil {
				c.Failf("short", "%s wrote %d bytes at %d of a buffer of %d without an error", e.name, n, start, size)
			}
			if n < 0 || n > max(0, size-start) {
				c.Failf("length", "%s at %d of %d bytes reports that it wrote %d", e.name, start, size, n)
			}
			if err != elements.ErrTooSmall {
				c.Failf("error", "%s into a short buffer: %v", e.name, err)
			}
			hi = max(lo, size)
		}
		lo, hi = min(lo, len(big)), min(hi, len(big))
		if !bytes.Equal(big[:lo], orig[:lo]) || !bytes.Equal(big[hi:], orig[hi:]) {
			c.Failf("outside", "%s at %d changed bytes outside of the %d of the value", e.name, start, need)
		}
		c.Event(fmt.Sprintf("%s fits:%v", e.name, fits))
		c.State(e.name, start, size-start-need)
		c.Sample("%s at %d of %d: %s", e.name, start, size, hexs(e.want))
	}
	if !bytes.Equal(sub, subCopy) || !bytes.Equal(v.B, binCopy) {
		c.Failf("input-changed", "the bytes to encode were changed")
	}
}
