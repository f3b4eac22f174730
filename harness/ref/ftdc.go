package ref

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
)

// An FTDC reader and writer that share nothing with the code under test.

type FTDCChunk struct {
	ID      int64
	Meta    []byte // of the metadata document right before the chunk
	HasMeta bool
	Ref     *Doc
	Deltas  int
	Samples []*Doc // with everything that's not a metric left out
}

func isMetricType(t byte) bool {
	switch t {
	case Boolean, Double, Int32, Int64, DateTime, Timestamp:
		return true
	}
	return false
}

// FTDCValues are the numbers recorded of a document, and which of them are doubles.
func FTDCValues(d *Doc) (vals []int64, dbl []bool) {
	for _, e := range d.E {
		switch v := e.V; v.T {
		case Document, Array:
			a, b := FTDCValues(v.D)
			vals, dbl = append(vals, a...), append(dbl, b...)
		case Timestamp:
			vals, dbl = append(vals, int64(v.H), int64(v.L)), append(dbl, false, false)
		case Double:
			vals, dbl = append(vals, int64(math.Float64bits(v.F))), append(dbl, true)
		default:
			if isMetricType(v.T) {
				vals, dbl = append(vals, v.I), append(dbl, false)
			}
		}
	}
	return vals, dbl
}

// FTDCFill makes a document of the shape with the numbers, and without
// everything that's not a metric.
func FTDCFill(d *Doc, vals []int64) (*Doc, []int64) { return ftdcFill(d, vals, false) }

func ftdcFill(d *Doc, vals []int64, array bool) (*Doc, []int64) {
	out := &Doc{}
	for _, e := range d.E {
		k := e.K
		if array {
			k = strconv.Itoa(len(out.E))
		}
		switch v := e.V; v.T {
		case Document, Array:
			var in *Doc
			in, vals = ftdcFill(v.D, vals, v.T == Array)
			out.Append(k, &Val{T: v.T, D: in})
		case Timestamp:
			out.Append(k, &Val{T: Timestamp, H: uint64(uint32(vals[0])), L: uint64(uint32(vals[1]))})
			vals = vals[2:]
		case Double:
			out.Append(k, &Val{T: Double, F: math.Float64frombits(uint64(vals[0]))})
			vals = vals[1:]
		case Boolean:
			n := int64(0)
			if vals[0] != 0 {
				n = 1
			}
			out.Append(k, &Val{T: Boolean, I: n})
			vals = vals[1:]
		case Int32:
			out.Append(k, &Val{T: Int32, I: int64(int32(vals[0]))})
			vals = vals[1:]
		default:
			if isMetricType(v.T) {
				out.Append(k, &Val{T: v.T, I: vals[0]})
				vals = vals[1:]
			}
		}
	}
	return out, vals
}

func numOf(v *Val) (int64, bool) {
	switch v.T {
	case Int32, Int64:
		return v.I, true
	case Double:
		return int64(v.F), v.F == math.Trunc(v.F)
	}
	return 0, false
}

// FTDCDecode reads a stream of FTDC documents.
func FTDCDecode(data []byte) ([]FTDCChunk, error) {
	var out []FTDCChunk
	var cur FTDCChunk
	for len(data) > 0 {
		if len(data) < 5 {
			return out, errors.New("short document")
		}
		n := int(binary.LittleEndian.Uint32(data))
		if n < 5 || n > len(data) {
			return out, errors.New("short document")
		}
		d, err := Decode(data[:n])
		if err != nil {
			return out, err
		}
		data = data[n:]
		var t, payload, doc *Val
		for _, e := range d.E {
			switch e.K {
			case "_id":
				if e.V.T == DateTime {
					cur.ID = e.V.I
				}
			case "type":
				t = e.V
			case "data":
				payload = e.V
			case "doc":
				doc = e.V
			}
		}
		if t == nil {
			continue
		}
		switch n, ok := numOf(t); {
		case ok && n == 0:
			cur.HasMeta = true
			if doc != nil && doc.T == Document {
				cur.Meta = doc.D.Encode()
			}
			continue
		case !ok || n != 1:
			continue
		}
		if payload == nil || payload.T != Binary || len(payload.B) < 4 {
			return out, errors.New("no data")
		}
		z, err := zlib.NewReader(bytes.NewReader(payload.B[4:]))
		if err != nil {
			return out, err
		}
		raw, err := io.ReadAll(z)
		if err != nil {
			return out, err
		}
		if int(binary.LittleEndian.Uint32(payload.B)) != len(raw) {
			return out, fmt.Errorf("the declared size of the data is %d, it has %d bytes", binary.LittleEndian.Uint32(payload.B), len(raw))
		}
		if err := cur.decode(raw); err != nil {
			return out, err
		}
		out = append(out, cur)
		cur = FTDCChunk{}
	}
	return out, nil
}

func (c *FTDCChunk) decode(raw []byte) error {
	if len(raw) < 5 {
		return errors.New("no reference document")
	}
	n := int(binary.LittleEndian.Uint32(raw))
	if n < 5 || n+8 > len(raw) {
		return errors.New("short reference document")
	}
	var err error
	if c.Ref, err = Decode(raw[:n]); err != nil {
		return err
	}
	start, dbl := FTDCValues(c.Ref)
	if m := int(binary.LittleEndian.Uint32(raw[n:])); m != len(start) {
		return fmt.Errorf("%d metrics, the document has %d", m, len(start))
	}
	c.Deltas = int(binary.LittleEndian.Uint32(raw[n+4:]))
	raw = raw[n+8:]
	series := make([][]int64, len(start))
	next := func() (uint64, error) {
		v, k := binary.Uvarint(raw)
		if k <= 0 {
			return 0, errors.New("bad integer")
		}
		raw = raw[k:]
		return v, nil
	}
	var zeroes uint64
	for i := range start {
		s := []int64{start[i]}
		for range c.Deltas {
			var v uint64
			if zeroes > 0 {
				zeroes--
			} else {
				if v, err = next(); err != nil {
					return err
				}
				if v == 0 {
					if zeroes, err = next(); err != nil {
						return err
					}
				}
			}
			if dbl[i] {
				s = append(s, int64(v))
			} else {
				s = append(s, s[len(s)-1]+int64(v))
			}
		}
		series[i] = s
	}
	if len(raw) > 0 {
		return fmt.Errorf("%d bytes after the data", len(raw))
	}
	if zeroes > 0 {
		return errors.New("more zeroes than samples")
	}
	for j := range c.Deltas + 1 {
		vals := make([]int64, len(series))
		for i := range series {
			vals[i] = series[i][j]
		}
		d, _ := FTDCFill(c.Ref, vals)
		c.Samples = append(c.Samples, d)
	}
	return nil
}

// FTDCEncode writes samples of one shape as one chunk.
func FTDCEncode(id int64, typ *Val, samples []*Doc) []byte {
	var raw bytes.Buffer
	raw.Write(samples[0].Encode())
	_, dbl := FTDCValues(samples[0])
	var all [][]int64
	for _, s := range samples {
		v, _ := FTDCValues(s)
		all = append(all, v)
	}
	raw.Write(binary.LittleEndian.AppendUint32(nil, uint32(len(dbl))))
	raw.Write(binary.LittleEndian.AppendUint32(nil, uint32(len(samples)-1)))
	zeroes := uint64(0)
	flush := func() {
		if zeroes > 0 {
			raw.Write(binary.AppendUvarint([]byte{0}, zeroes-1))
			zeroes = 0
		}
	}
	for i := range dbl {
		for j := 1; j < len(all); j++ {
			v := uint64(all[j][i])
			if !dbl[i] {
				v -= uint64(all[j-1][i])
			}
			if v == 0 {
				zeroes++
				continue
			}
			flush()
			raw.Write(binary.AppendUvarint(nil, v))
		}
	}
	flush()
	return FTDCChunkDoc(id, typ, raw.Bytes()).Encode()
}

// FTDCChunkDoc is the document of a chunk with the uncompressed data.
func FTDCChunkDoc(id int64, typ *Val, raw []byte) *Doc {
	var z bytes.Buffer
	z.Write(binary.LittleEndian.AppendUint32(nil, uint32(len(raw))))
	w := zlib.NewWriter(&z)
	_, _ = w.Write(raw)
	_ = w.Close()
	return (&Doc{}).Append("_id", &Val{T: DateTime, I: id}).Append("type", typ).Append("data", &Val{T: Binary, B: z.Bytes()})
}
