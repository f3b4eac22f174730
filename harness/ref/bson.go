// Package ref is an independent model of BSON: values, an encoder, a strict
// decoder and a validator, written from the specification. It shares no code
// with the implementation that it judges.
package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
)

const (
	Double     = 0x01
	String     = 0x02
	Document   = 0x03
	Array      = 0x04
	Binary     = 0x05
	Undefined  = 0x06
	ObjectID   = 0x07
	Boolean    = 0x08
	DateTime   = 0x09
	Null       = 0x0A
	Regex      = 0x0B
	DBPointer  = 0x0C
	JavaScript = 0x0D
	Symbol     = 0x0E
	CodeScope  = 0x0F
	Int32      = 0x10
	Timestamp  = 0x11
	Int64      = 0x12
	Decimal128 = 0x13
	MinKey     = 0xFF
	MaxKey     = 0x7F
)

var AllTypes = []byte{
	Double, String, Document, Array, Binary, Undefined, ObjectID, Boolean, DateTime, Null, Regex,
	DBPointer, JavaScript, Symbol, CodeScope, Int32, Timestamp, Int64, Decimal128, MinKey, MaxKey,
}

// Val is a value: which fields are used depends on the type.
type Val struct {
	T    byte
	F    float64  // double
	I    int64    // int32, int64, datetime, boolean
	S    string   // string, javascript, symbol, regex pattern, code, namespace
	S2   string   // regex options
	B    []byte   // binary
	Sub  byte     // binary subtype
	H, L uint64   // decimal128; timestamp: H is the time, L the increment
	OID  [12]byte // objectid, dbpointer
	D    *Doc     // document, array (keys are ignored by the encoder), scope
}

type Elem struct {
	K string
	V *Val
}

type Doc struct{ E []Elem }

func (d *Doc) Append(k string, v *Val) *Doc { d.E = append(d.E, Elem{k, v}); return d }

func (d *Doc) Clone() *Doc {
	if d == nil {
		return nil
	}
	out := &Doc{E: make([]Elem, len(d.E))}
	for i, e := range d.E {
		out.E[i] = Elem{e.K, e.V.Clone()}
	}
	return out
}

func (v *Val) Clone() *Val {
	c := *v
	c.D = v.D.Clone()
	c.B = append([]byte(nil), v.B...)
	return &c
}

func le32(b []byte, x uint32) []byte { return binary.LittleEndian.AppendUint32(b, x) }
func le64(b []byte, x uint64) []byte { return binary.LittleEndian.AppendUint64(b, x) }

func (d *Doc) Encode() []byte { return d.append(nil, false) }

// EncodeArray encodes the document as an array: the keys are the indexes.
func (d *Doc) EncodeArray() []byte { return d.append(nil, true) }

func (d *Doc) append(b []byte, array bool) []byte {
	start := len(b)
	b = le32(b, 0)
	for i, e := range d.E {
		k := e.K
		if array {
			k = strconv.Itoa(i)
		}
		b = append(b, e.V.T)
		b = append(b, k...)
		b = append(b, 0)
		b = e.V.append(b)
	}
	b = append(b, 0)
	binary.LittleEndian.PutUint32(b[start:], uint32(len(b)-start))
	return b
}

func appendString(b []byte, s string) []byte {
	b = le32(b, uint32(len(s)+1))
	b = append(b, s...)
	return append(b, 0)
}

// EncodeValue is the encoding of the value alone.
func (v *Val) EncodeValue() []byte { return v.append(nil) }

// EncodeElem is the encoding of an element.
func EncodeElem(k string, v *Val) []byte {
	b := append([]byte{v.T}, k...)
	b = append(b, 0)
	return v.append(b)
}

func (v *Val) append(b []byte) []byte {
	switch v.T {
	case Double:
		return le64(b, math.Float64bits(v.F))
	case String, JavaScript, Symbol:
		return appendString(b, v.S)
	case Document:
		return v.D.append(b, false)
	case Array:
		return v.D.append(b, true)
	case Binary:
		if v.Sub == 2 {
			b = le32(b, uint32(len(v.B)+4))
			b = append(b, v.Sub)
			b = le32(b, uint32(len(v.B)))
			return append(b, v.B...)
		}
		b = le32(b, uint32(len(v.B)))
		b = append(b, v.Sub)
		return append(b, v.B...)
	case ObjectID:
		return append(b, v.OID[:]...)
	case Boolean:
		return append(b, byte(v.I))
	case DateTime, Int64:
		return le64(b, uint64(v.I))
	case Regex:
		b = append(b, v.S...)
		b = append(b, 0)
		b = append(b, v.S2...)
		return append(b, 0)
	case DBPointer:
		b = appendString(b, v.S)
		return append(b, v.OID[:]...)
	case CodeScope:
		start := len(b)
		b = le32(b, 0)
		b = appendString(b, v.S)
		b = v.D.append(b, false)
		binary.LittleEndian.PutUint32(b[start:], uint32(len(b)-start))
		return b
	case Int32:
		return le32(b, uint32(int32(v.I)))
	case Timestamp:
		b = le32(b, uint32(v.L))
		return le32(b, uint32(v.H))
	case Decimal128:
		b = le64(b, v.L)
		return le64(b, v.H)
	case Undefined, Null, MinKey, MaxKey:
		return b
	}
	panic(fmt.Sprintf("type %x", v.T))
}

// Equal compares values by what they encode to (so doubles by their bits).
func Equal(a, b *Doc) bool { return string(a.Encode()) == string(b.Encode()) }

var ErrMalformed = errors.New("malformed")

const MaxDepth = 2000

// Decode reads the document at the start of the bytes.
func Decode(b []byte) (*Doc, error) {
	d, n, err := decodeDoc(b, 0)
	if err != nil {
		return nil, err
	}
	if n != len(b) {
		return nil, fmt.Errorf("%w: trailing bytes", ErrMalformed)
	}
	return d, nil
}

// DecodePrefix allows bytes after the document.
func DecodePrefix(b []byte) (*Doc, int, error) { return decodeDoc(b, 0) }

func decodeDoc(b []byte, depth int) (*Doc, int, error) {
	if depth > MaxDepth {
		return nil, 0, fmt.Errorf("%w: depth", ErrMalformed)
	}
	if len(b) < 5 {
		return nil, 0, fmt.Errorf("%w: short document", ErrMalformed)
	}
	n := int(int32(binary.LittleEndian.Uint32(b)))
	if n < 5 || n > len(b) {
		return nil, 0, fmt.Errorf("%w: document length %d", ErrMalformed, n)
	}
	total := n
	b = b[4:n]
	d := &Doc{}
	for {
		if len(b) == 0 {
			return nil, 0, fmt.Errorf("%w: no terminator", ErrMalformed)
		}
		t := b[0]
		b = b[1:]
		if t == 0 {
			if len(b) != 0 {
				return nil, 0, fmt.Errorf("%w: data after the terminator", ErrMalformed)
			}
			return d, total, nil
		}
		k, rest, err := cstring(b)
		if err != nil {
			return nil, 0, err
		}
		b = rest
		v, used, err := decodeVal(t, b, depth)
		if err != nil {
			return nil, 0, err
		}
		b = b[used:]
		d.E = append(d.E, Elem{k, v})
	}
}

func cstring(b []byte) (string, []byte, error) {
	i := strings.IndexByte(string(b), 0)
	if i < 0 {
		return "", nil, fmt.Errorf("%w: cstring", ErrMalformed)
	}
	return string(b[:i]), b[i+1:], nil
}

func lstring(b []byte) (string, int, error) {
	if len(b) < 5 {
		return "", 0, fmt.Errorf("%w: string", ErrMalformed)
	}
	n := int(int32(binary.LittleEndian.Uint32(b)))
	if n < 1 || n > len(b)-4 {
		return "", 0, fmt.Errorf("%w: string length", ErrMalformed)
	}
	if b[4+n-1] != 0 {
		return "", 0, fmt.Errorf("%w: string terminator", ErrMalformed)
	}
	return string(b[4 : 4+n-1]), 4 + n, nil
}

func decodeVal(t byte, b []byte, depth int) (*Val, int, error) {
	v := &Val{T: t}
	fixed := 0
	switch t {
	case Double, DateTime, Timestamp, Int64:
		fixed = 8
	case ObjectID:
		fixed = 12
	case Boolean:
		fixed = 1
	case Int32:
		fixed = 4
	case Decimal128:
		fixed = 16
	}
	if len(b) < fixed {
		return nil, 0, fmt.Errorf("%w: value", ErrMalformed)
	}
	switch t {
	case Double:
		v.F = math.Float64frombits(binary.LittleEndian.Uint64(b))
	case DateTime, Int64:
		v.I = int64(binary.LittleEndian.Uint64(b))
	case Timestamp:
		v.L = uint64(binary.LittleEndian.Uint32(b))
		v.H = uint64(binary.LittleEndian.Uint32(b[4:]))
	case ObjectID:
		copy(v.OID[:], b)
	case Boolean:
		if b[0] > 1 {
			return nil, 0, fmt.Errorf("%w: boolean", ErrMalformed)
		}
		v.I = int64(b[0])
	case Int32:
		v.I = int64(int32(binary.LittleEndian.Uint32(b)))
	case Decimal128:
		v.L = binary.LittleEndian.Uint64(b)
		v.H = binary.LittleEndian.Uint64(b[8:])
	case Undefined, Null, MinKey, MaxKey:
	case String, JavaScript, Symbol:
		s, n, err := lstring(b)
		if err != nil {
			return nil, 0, err
		}
		v.S = s
		return v, n, nil
	case Document, Array:
		d, n, err := decodeDoc(b, depth+1)
		if err != nil {
			return nil, 0, err
		}
		v.D = d
		return v, n, nil
	case Binary:
		if len(b) < 5 {
			return nil, 0, fmt.Errorf("%w: binary", ErrMalformed)
		}
		n := int(int32(binary.LittleEndian.Uint32(b)))
		if n < 0 || n > len(b)-5 {
			return nil, 0, fmt.Errorf("%w: binary length", ErrMalformed)
		}
		v.Sub = b[4]
		if v.Sub > 5 && v.Sub < 0x80 { // reserved
			return nil, 0, fmt.Errorf("%w: reserved binary subtype", ErrMalformed)
		}
		data := b[5 : 5+n]
		if v.Sub == 2 {
			if n < 4 || int(int32(binary.LittleEndian.Uint32(data))) != n-4 {
				return nil, 0, fmt.Errorf("%w: old binary", ErrMalformed)
			}
			data = data[4:]
		}
		v.B = append([]byte(nil), data...)
		return v, 5 + n, nil
	case Regex:
		s, rest, err := cstring(b)
		if err != nil {
			return nil, 0, err
		}
		s2, rest, err := cstring(rest)
		if err != nil {
			return nil, 0, err
		}
		v.S, v.S2 = s, s2
		return v, len(b) - len(rest), nil
	case DBPointer:
		s, n, err := lstring(b)
		if err != nil {
			return nil, 0, err
		}
		if len(b) < n+12 {
			return nil, 0, fmt.Errorf("%w: dbpointer", ErrMalformed)
		}
		v.S = s
		copy(v.OID[:], b[n:])
		return v, n + 12, nil
	case CodeScope:
		if len(b) < 4 {
			return nil, 0, fmt.Errorf("%w: code with scope", ErrMalformed)
		}
		n := int(int32(binary.LittleEndian.Uint32(b)))
		if n < 14 || n > len(b) {
			return nil, 0, fmt.Errorf("%w: code with scope length", ErrMalformed)
		}
		in := b[4:n]
		s, used, err := lstring(in)
		if err != nil {
			return nil, 0, err
		}
		d, dn, err := decodeDoc(in[used:], depth+1)
		if err != nil {
			return nil, 0, err
		}
		if used+dn != len(in) {
			return nil, 0, fmt.Errorf("%w: code with scope length", ErrMalformed)
		}
		v.S, v.D = s, d
		return v, n, nil
	default:
		return nil, 0, fmt.Errorf("%w: type %x", ErrMalformed, t)
	}
	return v, fixed, nil
}

// Depth is the number of nested documents.
func (d *Doc) Depth() int {
	m := 0
	for _, e := range d.E {
		if e.V.D != nil {
			m = max(m, e.V.D.Depth())
		}
	}
	return m + 1
}

// Shape abstracts a document: the types in order, and lengths in classes.
func (d *Doc) Shape() string {
	var sb strings.Builder
	d.shape(&sb, 0)
	return sb.String()
}

func class(n int) byte {
	c := byte('a')
	for n > 0 {
		c++
		n >>= 1
	}
	return c
}

func (d *Doc) shape(sb *strings.Builder, depth int) {
	if sb.Len() > 4096 {
		return
	}
	sb.WriteByte('{')
	for i, e := range d.E {
		if i > 64 {
			sb.WriteByte('+')
			sb.WriteByte(class(len(d.E)))
			break
		}
		sb.WriteByte(e.V.T)
		sb.WriteByte(class(len(e.K)))
		switch e.V.T {
		case String, JavaScript, Symbol, CodeScope, DBPointer:
			sb.WriteByte(class(len(e.V.S)))
		case Binary:
			sb.WriteByte(e.V.Sub)
			sb.WriteByte(class(len(e.V.B)))
		}
		if e.V.D != nil {
			e.V.D.shape(sb, depth+1)
		}
	}
	sb.WriteByte('}')
}
