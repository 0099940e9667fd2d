package ref

import (
	"encoding/base64"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
)

// How sure the model is about the number a text denotes.
type Sure int

const (
	Exact Sure = iota // exactly this value and type
	Value             // this numeric value, any type
	NaN               // not a number
	Any               // only totality is specified
)

var (
	reDec   = regexp.MustCompile(`^[+-]?[0-9]+$`)
	reHex   = regexp.MustCompile(`^-?0[xX][0-9a-fA-F]+$`)
	reHexDc = regexp.MustCompile(`^(-?)0[xX]([0-9a-fA-F]+)x(-?)([0-9a-fA-F]+)$`)
	reFloat = regexp.MustCompile(`^([+-]?)([0-9]+\.?[0-9]*|\.[0-9]+)([eE]([+-]?[0-9]+))?$`)
	reGrey  = regexp.MustCompile(`^[+-]?(inf|infinity|0x[0-9a-f_]*\.?[0-9a-f_]*(p[+-]?[0-9_]+)?|[0-9a-fx.+-]*_[0-9a-fx._+-]*)$`)
)

// The settings of the library, as the model knows them. They change between explorations only, or in
// explorations on a single goroutine.
var (
	B64Prefix = "base64,"
	ExtPrefix = "data:application/x-msgpack-ext;"
	DecDelim  = byte('x')
)

var reHexDcOf = map[byte]*regexp.Regexp{'x': reHexDc}

// SetDecDelim changes DecDelim.
func SetDecDelim(d byte) {
	DecDelim = d
	if reHexDcOf[d] == nil {
		reHexDcOf[d] = regexp.MustCompile(`^(-?)0[xX]([0-9a-fA-F]+)` + regexp.QuoteMeta(string(d)) + `(-?)([0-9a-fA-F]+)$`)
	}
}

func hexDec() *regexp.Regexp { return reHexDcOf[DecDelim] }

// ParseNum is the number denoted by a text.
func ParseNum(s string) (*V, Sure) {
	switch {
	case s == "" || s == "null":
		return VLong(0), Exact
	case reDec.MatchString(s):
		n, _ := new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
		if n.IsInt64() {
			return VLong(n.Int64()), Exact
		}
		f, _ := new(big.Rat).SetInt(n).Float64()
		if math.IsInf(f, 0) {
			return nil, Any
		}
		return VDouble(f), Exact
	case reHex.MatchString(s):
		n, _ := new(big.Int).SetString(strings.Replace(strings.ToLower(s), "0x", "", 1), 16)
		return VBig(n), Exact
	case hexDec().MatchString(s):
		m := hexDec().FindStringSubmatch(s)
		n, _ := new(big.Int).SetString(m[1]+m[2], 16)
		e, _ := new(big.Int).SetString(m[3]+m[4], 16)
		if !e.IsInt64() || e.Int64() < math.MinInt32 || e.Int64() > math.MaxInt32 {
			return nil, NaN
		}
		if e.Sign() == 0 {
			return VDec(n, 0), Value
		}
		return VDec(n, int32(e.Int64())), Exact
	case reFloat.MatchString(s):
		m := reFloat.FindStringSubmatch(s)
		if m[4] != "" {
			if e, err := strconv.Atoi(m[4]); err != nil || e > 5000 || e < -5000 {
				return nil, Any
			}
		}
		t := s
		if strings.HasSuffix(m[2], ".") {
			t = strings.Replace(s, ".", "", 1)
		}
		r, ok := new(big.Rat).SetString(t)
		if !ok {
			panic("model can not read the number " + s)
		}
		f, _ := r.Float64()
		if math.IsInf(f, 0) {
			return nil, Any
		}
		if m[1] == "-" && f == 0 {
			f = math.Copysign(0, -1)
		}
		return VDouble(f), Exact
	case reGrey.MatchString(strings.ToLower(s)):
		return nil, Any
	}
	return nil, NaN
}

// Text is the text form of a scalar; doubles excepted, whose text is only constrained by value.
func (v *V) Text() string {
	switch v.K {
	case Null:
		return "null"
	case Bool:
		return strconv.FormatBool(v.B)
	case Long:
		return strconv.FormatInt(v.I, 10)
	case Big:
		return BigText(v.N)
	case Dec:
		return DecText(v.N, v.E)
	case Utf8:
		return v.S
	case Raw:
		return B64Prefix + base64.RawStdEncoding.EncodeToString([]byte(v.S))
	case Ext:
		return ExtPrefix + B64Prefix + base64.RawStdEncoding.EncodeToString([]byte(v.S))
	}
	panic("no text form")
}

// Float is the value of a double.
func (v *V) Float() float64 { return math.Float64frombits(v.F) }

// Finite reports whether a number is neither NaN nor infinite.
func (v *V) Finite() bool {
	return v.K != Double || !math.IsNaN(v.Float()) && !math.IsInf(v.Float(), 0)
}

func (v *V) IsNumber() bool { return v.K == Long || v.K == Double || v.K == Big || v.K == Dec }

// Rat is the exact value of a finite number; only for moderate exponents.
func (v *V) Rat() *big.Rat {
	switch v.K {
	case Long:
		return new(big.Rat).SetInt64(v.I)
	case Double:
		return new(big.Rat).SetFloat64(v.Float())
	case Big:
		return new(big.Rat).SetInt(v.N)
	case Dec:
		r := new(big.Rat).SetInt(v.N)
		e := int64(v.E)
		if e < 0 {
			e = -e
		}
		if e > 100000 {
			panic("exponent out of the bounds of the model")
		}
		p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(e), nil))
		if v.E < 0 {
			p.Inv(p)
		}
		return r.Mul(r, p)
	}
	panic("not a number")
}

// Magnitude is the decimal exponent of the first digit of a decimal, very small for zero.
func (v *V) Magnitude() int64 {
	if v.N.Sign() == 0 {
		return math.MinInt32
	}
	return int64(v.E) + int64(len(new(big.Int).Abs(v.N).String()))
}
