package ref

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/harness/mon"
)

// JVal is a JSON value.
type JVal struct {
	K   byte // 'n' null, 'b' boolean, '0' number, '"' string, '[' array, '{' object
	B   bool
	N   string // the number, as written
	S   string
	A   []*JVal
	Ks  []string // the keys of an object
	Bad bool     // a string that isn't Unicode: its value isn't determined
}

type jparser struct {
	b     []byte
	i     int
	depth int
	bad   bool
}

var errJSON = errors.New("not JSON")

// ParseJSON is a strict parser of RFC 8259.
func ParseJSON(b []byte) (*JVal, error) {
	p := &jparser{b: b}
	p.space()
	v, err := p.value()
	if err != nil {
		return nil, err
	}
	p.space()
	if p.i != len(b) {
		return nil, errJSON
	}
	return v, nil
}

func (p *jparser) space() {
	for p.i < len(p.b) && (p.b[p.i] == ' ' || p.b[p.i] == '\t' || p.b[p.i] == '\n' || p.b[p.i] == '\r') {
		p.i++
	}
}

func (p *jparser) peek() byte {
	if p.i < len(p.b) {
		return p.b[p.i]
	}
	return 0
}

func (p *jparser) lit(s string) bool {
	if strings.HasPrefix(string(p.b[p.i:min(len(p.b), p.i+len(s))]), s) {
		p.i += len(s)
		return true
	}
	return false
}

func (p *jparser) value() (*JVal, error) {
	p.depth++
	defer func() { p.depth-- }()
	switch c := p.peek(); {
	case p.lit("null"):
		return &JVal{K: 'n'}, nil
	case p.lit("true"):
		return &JVal{K: 'b', B: true}, nil
	case p.lit("false"):
		return &JVal{K: 'b'}, nil
	case c == '"':
		s, bad, err := p.str()
		return &JVal{K: '"', S: s, Bad: bad}, err
	case c == '-' || c >= '0' && c <= '9':
		n, err := p.num()
		return &JVal{K: '0', N: n}, err
	case c == '[':
		p.i++
		out := &JVal{K: '['}
		p.space()
		if p.peek() == ']' {
			p.i++
			return out, nil
		}
		for {
			p.space()
			v, err := p.value()
			if err != nil {
				return nil, err
			}
			out.A = append(out.A, v)
			p.space()
			switch p.peek() {
			case ',':
				p.i++
			case ']':
				p.i++
				return out, nil
			default:
				return nil, errJSON
			}
		}
	case c == '{':
		p.i++
		out := &JVal{K: '{'}
		p.space()
		if p.peek() == '}' {
			p.i++
			return out, nil
		}
		for {
			p.space()
			if p.peek() != '"' {
				return nil, errJSON
			}
			k, bad, err := p.str()
			if err != nil {
				return nil, err
			}
			out.Bad = out.Bad || bad
			p.space()
			if p.peek() != ':' {
				return nil, errJSON
			}
			p.i++
			p.space()
			v, err := p.value()
			if err != nil {
				return nil, err
			}
			out.Ks = append(out.Ks, k)
			out.A = append(out.A, v)
			p.space()
			switch p.peek() {
			case ',':
				p.i++
			case '}':
				p.i++
				return out, nil
			default:
				return nil, errJSON
			}
		}
	}
	return nil, errJSON
}

func (p *jparser) digits() int {
	n := 0
	for p.i < len(p.b) && p.b[p.i] >= '0' && p.b[p.i] <= '9' {
		p.i++
		n++
	}
	return n
}

func (p *jparser) num() (string, error) {
	start := p.i
	if p.peek() == '-' {
		p.i++
	}
	if p.peek() == '0' {
		p.i++
	} else if p.digits() == 0 {
		return "", errJSON
	}
	if p.peek() == '.' {
		p.i++
		if p.digits() == 0 {
			return "", errJSON
		}
	}
	if c := p.peek(); c == 'e' || c == 'E' {
		p.i++
		if c := p.peek(); c == '+' || c == '-' {
			p.i++
		}
		if p.digits() == 0 {
			return "", errJSON
		}
	}
	return string(p.b[start:p.i]), nil
}

func (p *jparser) hex4() (rune, bool) {
	if p.i+4 > len(p.b) {
		return 0, false
	}
	n, err := strconv.ParseUint(string(p.b[p.i:p.i+4]), 16, 32)
	if err != nil || strings.ContainsAny(string(p.b[p.i:p.i+4]), "+-_xX") {
		return 0, false
	}
	p.i += 4
	return rune(n), true
}

func (p *jparser) str() (string, bool, error) {
	p.i++
	var out []byte
	bad := false
	for {
		if p.i >= len(p.b) {
			return "", bad, errJSON
		}
		c := p.b[p.i]
		p.i++
		switch {
		case c == '"':
			return string(out), bad || !utf8.Valid(out), nil
		case c < 0x20:
			return "", bad, errJSON
		case c != '\\':
			out = append(out, c)
		default:
			e := p.peek()
			p.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r, ok := p.hex4()
				if !ok {
					return "", bad, errJSON
				}
				if r >= 0xd800 && r < 0xdc00 && p.i+6 <= len(p.b) && p.b[p.i] == '\\' && p.b[p.i+1] == 'u' {
					save := p.i
					p.i += 2
					low, ok := p.hex4()
					if ok && low >= 0xdc00 && low < 0xe000 {
						r = 0x10000 + (r-0xd800)<<10 + (low - 0xdc00)
					} else {
						p.i = save
					}
				}
				if r >= 0xd800 && r < 0xe000 {
					bad = true
				}
				out = utf8.AppendRune(out, r)
			default:
				return "", bad, errJSON
			}
		}
	}
}

// Integer tells whether the number is written as an integer in the 64-bit range.
func (v *JVal) Integer() (int64, bool) {
	n, err := strconv.ParseInt(v.N, 10, 64)
	return n, err == nil
}

func (v *JVal) Float() (float64, bool) {
	f, err := strconv.ParseFloat(v.N, 64)
	return f, err == nil
}

// AnyBad tells whether something in the value isn't determined.
func (v *JVal) AnyBad() bool {
	if v.Bad {
		return true
	}
	for _, x := range v.A {
		if x.AnyBad() {
			return true
		}
	}
	return false
}

// OutOfRange tells whether the value has a number beyond the doubles.
func (v *JVal) OutOfRange() bool {
	if v.K == '0' {
		if _, ok := v.Integer(); ok {
			return false
		}
		_, ok := v.Float()
		return !ok
	}
	for _, x := range v.A {
		if x.OutOfRange() {
			return true
		}
	}
	return false
}

// Text writes the value in one of the many ways it can be written.
func (v *JVal) Text(r *mon.Rand) []byte { return v.write(r, nil) }

func sp(r *mon.Rand, b []byte) []byte {
	if r != nil && r.Chance(6) {
		for range r.Range(1, 3) {
			b = append(b, mon.Pick(r, []byte(" \t\n\r")))
		}
	}
	return b
}

func (v *JVal) write(r *mon.Rand, b []byte) []byte {
	b = sp(r, b)
	switch v.K {
	case 'n':
		b = append(b, "null"...)
	case 'b':
		b = strconv.AppendBool(b, v.B)
	case '0':
		b = append(b, v.N...)
	case '"':
		b = WriteJSONString(r, b, v.S)
	case '[':
		b = append(b, '[')
		for i, x := range v.A {
			if i > 0 {
				b = append(b, ',')
			}
			b = x.write(r, b)
		}
		b = append(sp(r, b), ']')
	case '{':
		b = append(b, '{')
		for i, x := range v.A {
			if i > 0 {
				b = append(b, ',')
			}
			b = sp(r, b)
			b = WriteJSONString(r, b, v.Ks[i])
			b = append(sp(r, b), ':')
			b = x.write(r, b)
		}
		b = append(sp(r, b), '}')
	}
	return sp(r, b)
}

// WriteJSONString writes the string with the escapes it needs, and others if
// there is a PRNG.
func WriteJSONString(r *mon.Rand, b []byte, s string) []byte {
	b = append(b, '"')
	esc := 0
	if r != nil {
		esc = mon.Pick(r, []int{0, 0, 0, 3, 20})
	}
	for _, c := range s {
		force := esc > 0 && r.Chance(esc)
		short := strings.IndexRune("\"\\/\b\f\n\r\t", c)
		switch {
		case short >= 0 && (r == nil || !r.Chance(4)) && (c != '/' || force):
			b = append(b, '\\', "\"\\/bfnrt"[short])
		case c < 0x20 || c == '"' || c == '\\' || force:
			f := "\\u%04x"
			if r != nil && r.Bool() {
				f = "\\u%04X"
			}
			if c >= 0x10000 {
				b = fmt.Appendf(b, f+f, 0xd800+(c-0x10000)>>10, 0xdc00+(c-0x10000)&0x3ff)
			} else {
				b = fmt.Appendf(b, f, c)
			}
		default:
			b = utf8.AppendRune(b, c)
		}
	}
	return append(b, '"')
}

// Number is a JSON number.
func (g *Gen) Number() string {
	r := g.R
	switch r.IntN(8) {
	case 0, 1, 2:
		return strconv.FormatInt(Int64v(r), 10)
	case 3:
		return strconv.FormatFloat(r.NormFloat64()*1000, 'f', r.IntN(8), 64)
	case 4:
		f := Floatv(r)
		if f != f || f > 1e308 || f < -1e308 {
			f = 1.25
		}
		s := strconv.FormatFloat(f, mon.Pick(r, []byte("eEgG")), -1, 64)
		return s
	case 5:
		return mon.Pick(r, []string{"0", "-0", "0.0", "-0.0", "1e5", "1E+5", "1e-5", "0e0", "0e10", "1.0", "100", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "2147483647", "2147483648", "-2147483648", "-2147483649", "1e308", "4.9e-324", "123456789012345678901234567890", "0.1", "1.7976931348623157e308"})
	case 6:
		return strconv.FormatInt(Int64v(r), 10) + mon.Pick(r, []string{".0", ".5", "e0", "E+0", "e2", ".25e-3"})
	default:
		return strconv.Itoa(r.IntN(300))
	}
}

// JSON is a JSON value.
func (g *Gen) JSON(depth int) *JVal {
	r := g.R
	g.spend(8)
	n := 9
	if depth <= 0 || g.Budget < 0 {
		n = 6
	}
	switch r.IntN(n) {
	case 0:
		return &JVal{K: 'n'}
	case 1:
		return &JVal{K: 'b', B: r.Bool()}
	case 2, 3:
		return &JVal{K: '0', N: g.Number()}
	case 4, 5:
		return &JVal{K: '"', S: g.Str(100, true)}
	case 6:
		out := &JVal{K: '['}
		for range r.IntN(6) {
			out.A = append(out.A, g.JSON(depth-1))
		}
		return out
	default:
		return g.JSONObject(depth)
	}
}

// JSONObject is a JSON object.
func (g *Gen) JSONObject(depth int) *JVal {
	out := &JVal{K: '{'}
	n := g.R.IntN(6)
	if g.R.Chance(30) {
		n = g.R.Range(10, 80)
	}
	for range n {
		k := g.Key()
		if !utf8.ValidString(k) {
			k = "k"
		}
		out.Ks = append(out.Ks, k)
		out.A = append(out.A, g.JSON(depth-1))
	}
	return out
}
