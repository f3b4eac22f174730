package ref

import (
	"math"
	"strconv"
	"strings"

	"verif/harness/mon"
)

// Gen generates documents: small and large, wide and deep, with values at the
// boundaries of their types and with the literals of the code under test.
type Gen struct {
	R          *mon.Rand
	Budget     int // bytes that may still be generated
	Depth      int // levels of nesting that may still be generated
	MaxElems   int
	Types      []byte // allowed types
	UniqueKeys bool
	ValidUTF8  bool // only valid UTF-8 in strings
}

func NewGen(r *mon.Rand) *Gen {
	g := &Gen{R: r, Budget: 4096, Depth: 6, MaxElems: 12, Types: AllTypes}
	switch r.IntN(40) {
	case 0: // long
		g.Budget, g.MaxElems, g.Depth = 300000, 40, 3
	case 1: // wide
		g.Budget, g.MaxElems, g.Depth = 200000, 3000, 2
	case 2: // deep
		g.Budget, g.MaxElems, g.Depth = 20000, 3, 120
	case 3, 4, 5, 6, 7, 8:
		g.Budget, g.MaxElems = 600, 4
	}
	return g
}

var boundaryLens = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 32767, 32768, 65535, 65536, 65537}

// Len is a length between 0 and limit.
func Len(r *mon.Rand, limit int) int {
	if limit <= 0 {
		return 0
	}
	var n int
	switch r.IntN(12) {
	case 0, 1, 2, 3, 4:
		n = r.IntN(10)
	case 5:
		n = mon.Pick(r, boundaryLens)
	case 6, 7:
		d := mon.Pick(r, DictInts())
		n = int(d) + r.Range(-1, 1)
		if r.Chance(4) {
			n = int(d) * r.Range(2, 5)
		}
	case 8:
		n = r.IntN(300)
	default:
		n = r.IntN(40)
	}
	if n < 0 || n > limit {
		n = r.IntN(min(limit, 20) + 1)
	}
	return n
}

var specialInts = []int64{0, 1, -1, 2, -2, 9, 10, 99, 100, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
	math.MaxInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1,
	1 << 53, 1<<53 + 1, -(1 << 53), math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 1e9, 1e12, 1e15, 1e18}

func Int64v(r *mon.Rand) int64 {
	switch r.IntN(6) {
	case 0:
		return mon.Pick(r, specialInts)
	case 1:
		d := mon.Pick(r, DictInts()) + int64(r.Range(-1, 1))
		if r.Chance(3) {
			return -d
		}
		return d
	case 2:
		return int64(r.Range(-100, 100))
	case 3: // a single bit, or its neighbours
		return int64(uint64(1)<<r.IntN(64)) + int64(r.Range(-1, 1))
	case 4:
		return int64(r.Uint64()) >> r.IntN(64)
	default:
		return int64(r.Uint64())
	}
}

func Int32v(r *mon.Rand) int32 {
	switch r.IntN(3) {
	case 0:
		return int32(r.Uint32())
	default:
		v := Int64v(r)
		if v > math.MaxInt32 || v < math.MinInt32 {
			return int32(r.Uint32()) >> r.IntN(32)
		}
		return int32(v)
	}
}

var specialFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 0.1, -0.1, 1.5, 1e21, 1e20, 999999999999999999999, 1e-6, 1e-7, 1e300, math.MaxFloat64, -math.MaxFloat64,
	math.SmallestNonzeroFloat64, 2.2250738585072014e-308, math.Inf(1), math.Inf(-1), math.NaN(), 1 << 53, 1<<53 + 2, 123456789.123456789, math.Pi, 100, 1e6, 1e15, 1e16, 1e17,
	math.MaxInt32, math.MaxInt64, math.MinInt64, math.MaxFloat32, math.SmallestNonzeroFloat32}

func Floatv(r *mon.Rand) float64 {
	switch r.IntN(6) {
	case 0, 1:
		return mon.Pick(r, specialFloats)
	case 2:
		return math.Float64frombits(r.Uint64())
	case 3:
		return float64(Int64v(r))
	case 4:
		return float64(r.Range(-1000, 1000)) / 8
	default:
		return r.NormFloat64() * math.Pow(10, float64(r.Range(-20, 20)))
	}
}

const alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-."

func asciiString(r *mon.Rand, n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteByte(alphabet[r.IntN(len(alphabet))])
	}
	return sb.String()
}

var trickyRunes = []rune{0, 1, 7, 8, 9, 10, 11, 12, 13, 0x1f, ' ', '"', '\'', '\\', '/', '$', '.', '<', '>', '&', '%', '#', '{', '}', '[', ']', ':', ',', 0x7f, 0x80, 0xff, 'é', 0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff}

// Str is a string; withNul allows null bytes in it.
func (g *Gen) Str(limit int, withNul bool) string {
	r := g.R
	n := Len(r, limit)
	var s string
	switch r.IntN(10) {
	case 0, 1:
		s = mon.Pick(r, DictStrs())
		if r.Chance(6) {
			s += mon.Pick(r, DictStrs())
		}
		if g.ValidUTF8 {
			s = strings.ToValidUTF8(s, "?")
		}
	case 2, 3: // tricky characters
		var sb strings.Builder
		for sb.Len() < n {
			c := mon.Pick(r, trickyRunes)
			if c == 0 && !withNul {
				continue
			}
			sb.WriteRune(c)
		}
		s = sb.String()
	case 4: // any runes
		var sb strings.Builder
		for sb.Len() < n {
			c := rune(r.IntN(0x11000))
			if c == 0 && !withNul || c >= 0xd800 && c < 0xe000 {
				continue
			}
			sb.WriteRune(c)
		}
		s = sb.String()
	case 5: // any bytes
		b := r.Bytes(n)
		if !withNul {
			for i := range b {
				if b[i] == 0 {
					b[i] = 'x'
				}
			}
		}
		s = string(b)
		if g.ValidUTF8 {
			s = asciiString(r, n)
		}
	case 6: // numbers
		s = strconv.FormatInt(Int64v(r), 10)
	default:
		s = asciiString(r, n)
	}
	return s
}

func (g *Gen) spend(n int) { g.Budget -= n }

func (g *Gen) Key() string {
	r := g.R
	switch r.IntN(8) {
	case 0:
		return g.Str(300, false)
	case 1:
		return strconv.Itoa(r.IntN(20))
	case 2:
		return ""
	case 3:
		return mon.Pick(r, []string{"a", "b", "c", "a.b", "a.b.c", ".", "..", "a.", ".a"})
	case 4:
		s := mon.Pick(r, DictStrs())
		if g.ValidUTF8 {
			s = strings.ToValidUTF8(s, "?")
		}
		return s
	default:
		return asciiString(r, r.Range(1, 8))
	}
}

func (g *Gen) Doc() *Doc {
	d := &Doc{}
	if g.Budget <= 0 {
		return d
	}
	r := g.R
	n := r.IntN(min(g.MaxElems, 12) + 1)
	if g.MaxElems > 12 && r.Chance(2) {
		n = Len(r, g.MaxElems)
		if r.Chance(3) {
			n = r.IntN(g.MaxElems + 1)
		}
	}
	seen := map[string]bool{}
	for i := 0; i < n && g.Budget > 0; i++ {
		k := g.Key()
		if i > 0 && !g.UniqueKeys && r.Chance(12) {
			k = d.E[r.IntN(len(d.E))].K
		}
		if g.UniqueKeys {
			for seen[k] {
				k += strconv.Itoa(r.IntN(1000))
			}
			seen[k] = true
		}
		g.spend(len(k) + 2)
		d.E = append(d.E, Elem{k, g.Val()})
	}
	return d
}

func (g *Gen) sub(array bool) *Doc {
	g.Depth--
	defer func() { g.Depth++ }()
	d := g.Doc()
	if array {
		for i := range d.E {
			d.E[i].K = strconv.Itoa(i)
		}
	}
	return d
}

func (g *Gen) Val() *Val {
	t := mon.Pick(g.R, g.Types)
	// keep deep documents deep.
	if g.Depth > 10 && g.R.Chance(2) {
		for _, x := range g.Types {
			if x == Document {
				t = mon.Pick(g.R, []byte{Document, Document, Array, CodeScope})
				break
			}
		}
	}
	return g.ValOf(t)
}

func (g *Gen) ValOf(t byte) *Val {
	r := g.R
	if g.Depth <= 0 && (t == Document || t == Array || t == CodeScope) {
		return g.scalarFallback()
	}
	v := &Val{T: t}
	limit := min(g.Budget, 70000)
	switch t {
	case Double:
		v.F = Floatv(r)
	case String, JavaScript, Symbol:
		v.S = g.Str(limit, true)
	case Document:
		v.D = g.sub(false)
	case Array:
		v.D = g.sub(true)
	case Binary:
		v.Sub = mon.Pick(r, []byte{0, 0, 1, 2, 2, 3, 4, 5, 0x80, 0xff})
		if r.Chance(6) {
			v.Sub = byte(r.Range(0x80, 0xff))
		}
		v.B = r.Bytes(Len(r, limit))
	case ObjectID, DBPointer:
		copy(v.OID[:], r.Bytes(12))
		switch r.IntN(8) {
		case 0:
			v.OID = [12]byte{}
		case 1:
			v.OID = [12]byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}
		case 2:
			for i := range v.OID {
				v.OID[i] = 0xff
			}
		}
		if t == DBPointer {
			v.S = g.Str(limit, true)
		}
	case Boolean:
		v.I = int64(r.IntN(2))
	case DateTime:
		v.I = Int64v(r)
		if r.Chance(3) {
			v.I = int64(r.Uint64N(4e12)) - 1e12
		}
	case Regex:
		v.S, v.S2 = g.Str(limit, false), g.Str(min(limit, 300), false)
		if r.Chance(2) {
			v.S2 = mon.Pick(r, []string{"", "i", "im", "imsx", "x"})
		}
	case CodeScope:
		v.S = g.Str(limit, true)
		v.D = g.sub(false)
	case Int32:
		v.I = int64(Int32v(r))
	case Timestamp:
		v.H, v.L = uint64(uint32(Int64v(r))), uint64(uint32(Int64v(r)))
	case Int64:
		v.I = Int64v(r)
	case Decimal128:
		v.H, v.L = r.Uint64(), r.Uint64()
		switch r.IntN(4) {
		case 0:
			v.H, v.L = uint64(Int64v(r)), uint64(Int64v(r))
		case 1: // a small number with a small exponent
			v.H, v.L = uint64(6176+r.Range(-40, 40))<<49, uint64(r.IntN(100000))
		}
	}
	g.spend(len(v.S) + len(v.B) + 8)
	return v
}

func (g *Gen) scalarFallback() *Val {
	for i := 0; i < 20; i++ {
		if t := mon.Pick(g.R, g.Types); t != Document && t != Array && t != CodeScope {
			return g.ValOf(t)
		}
	}
	return &Val{T: Null}
}

// Mutate damages bytes: the fields that hold lengths and types more often than
// others.
func Mutate(r *mon.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	n := 1
	if r.Chance(3) {
		n = r.Range(2, 6)
	}
	for i := 0; i < n; i++ {
		switch r.IntN(12) {
		case 0: // truncate
			if len(b) > 0 {
				b = b[:r.IntN(len(b))]
			}
		case 1: // extend
			b = append(b, r.Bytes(r.Range(1, 9))...)
		case 2: // flip a bit
			if len(b) > 0 {
				b[r.IntN(len(b))] ^= 1 << r.IntN(8)
			}
		case 3: // a random byte
			if len(b) > 0 {
				b[r.IntN(len(b))] = byte(r.Uint32())
			}
		case 4: // an interesting byte
			if len(b) > 0 {
				b[r.IntN(len(b))] = mon.Pick(r, []byte{0, 1, 0x7f, 0x80, 0xff, 2, 4, 5})
			}
		case 5, 6: // an interesting 32 bit length, little endian
			if len(b) >= 4 {
				p := r.IntN(len(b) - 3)
				x := uint32(mon.Pick(r, []int64{0, 1, 2, 3, 4, 5, 6, 12, 13, 14, -1, -2, -4, -5, math.MaxInt32, math.MinInt32, math.MaxInt32 - 3, int64(len(b)), int64(len(b) - p), int64(len(b) - p - 4), int64(len(b) - p - 5), int64(len(b)-p) + 1}))
				b[p], b[p+1], b[p+2], b[p+3] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
			}
		case 7, 8: // change a length a little
			if len(b) >= 4 {
				p := r.IntN(len(b) - 3)
				if r.Chance(4) {
					p = 0
				}
				x := uint32(b[p]) | uint32(b[p+1])<<8 | uint32(b[p+2])<<16 | uint32(b[p+3])<<24
				x += uint32(r.Range(-6, 6))
				b[p], b[p+1], b[p+2], b[p+3] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
			}
		case 9: // change a type
			if len(b) > 5 {
				b[r.IntN(len(b)-5)+4] = mon.Pick(r, AllTypes)
			}
		case 10: // delete a part
			if len(b) > 1 {
				p := r.IntN(len(b))
				q := min(len(b), p+r.Range(1, 8))
				b = append(b[:p:p], b[q:]...)
			}
		case 11: // duplicate a part
			if len(b) > 1 && len(b) < 1<<16 {
				p := r.IntN(len(b))
				q := min(len(b), p+r.Range(1, 16))
				b = append(b[:q:q], append(append([]byte(nil), b[p:q]...), b[q:]...)...)
			}
		}
	}
	return b
}

// FixLength makes the outermost length right, so that damage is found deeper.
func FixLength(b []byte) []byte {
	if len(b) >= 4 {
		x := uint32(len(b))
		b[0], b[1], b[2], b[3] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
	}
	return b
}
