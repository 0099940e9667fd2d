package props

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

func init() {
	All["C16"] = C16
	All["C17"] = C17
}

// shortest is the decimal written by the shortest text that denotes a double.
func shortest(f float64) *big.Rat {
	r, _ := new(big.Rat).SetString(strconv.FormatFloat(f, 'e', -1, 64))
	return r
}

func trunc(r *big.Rat) *big.Int { return new(big.Int).Quo(r.Num(), r.Denom()) }
func floor(r *big.Rat) *big.Int { return new(big.Int).Div(r.Num(), r.Denom()) }

// The conversions return the admissible results; none when only totality is specified.
func toLong(v *ref.V) []int64 {
	if v.K == ref.Long {
		return []int64{v.I}
	}
	if !v.Finite() {
		return nil
	}
	t := trunc(v.Rat())
	if !t.IsInt64() {
		return nil
	}
	return []int64{t.Int64()}
}

func toDouble(v *ref.V) float64 {
	if v.K == ref.Double {
		return v.Float()
	}
	f, _ := v.Rat().Float64()
	return f
}

func toBig(v *ref.V) []*big.Int {
	if !v.Finite() {
		return []*big.Int{new(big.Int)}
	}
	r := v.Rat()
	if v.K == ref.Dec && r.Sign() < 0 && !r.IsInt() {
		return []*big.Int{floor(r), trunc(r)}
	}
	return []*big.Int{trunc(r)}
}

func toDec(v *ref.V) *big.Rat {
	if !v.Finite() {
		return new(big.Rat)
	}
	if v.K == ref.Double {
		return shortest(v.Float())
	}
	return v.Rat()
}

func sameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || math.IsNaN(a) && math.IsNaN(b) || a == 0 && b == 0
}

// arith checks one addition or subtraction.
func arith(a, b *ref.V, sub bool, r value.Number) string {
	if r == nil {
		return "the result is nil"
	}
	g := ref.Observe(r)
	if g.K != a.K {
		return fmt.Sprintf("the result %s is not of the type of the left operand", g.Short())
	}
	if r.IsNaN() != (g.K == ref.Double && math.IsNaN(g.Float())) {
		return "IsNaN of the result is wrong"
	}
	switch a.K {
	case ref.Long:
		ls := toLong(b)
		for _, l := range ls {
			w := a.I + l
			if sub {
				w = a.I - l
			}
			if g.I == w {
				return ""
			}
		}
		if len(ls) == 0 {
			return ""
		}
		return fmt.Sprintf("the result is %s", g.Short())
	case ref.Double:
		w := a.Float() + toDouble(b)
		if sub {
			w = a.Float() - toDouble(b)
		}
		if !sameFloat(w, g.Float()) {
			return fmt.Sprintf("the result is %v, expected %v", g.Float(), w)
		}
	case ref.Big:
		for _, n := range toBig(b) {
			w := new(big.Int).Add(a.N, n)
			if sub {
				w.Sub(a.N, n)
			}
			if w.Cmp(g.N) == 0 {
				return ""
			}
		}
		return fmt.Sprintf("the result is %s", g.Short())
	case ref.Dec:
		w := new(big.Rat).Add(a.Rat(), toDec(b))
		if sub {
			w.Sub(a.Rat(), toDec(b))
		}
		if w.Cmp(g.Rat()) != 0 {
			return fmt.Sprintf("the result is %s, expected %s", g.Short(), w.RatString())
		}
	}
	return ""
}

func checkConversions(v *ref.V, n value.Number) string {
	if n.IsNaN() != (v.K == ref.Double && math.IsNaN(v.Float())) {
		return "IsNaN is wrong"
	}
	l, d, b, dec := n.Long(), n.Double(), n.BigInt(), n.Decimal()
	if ls := toLong(v); len(ls) == 1 && l != ls[0] {
		return fmt.Sprintf("as long it is %d, expected %d", l, ls[0])
	}
	if w := toDouble(v); !sameFloat(d, w) {
		return fmt.Sprintf("as double it is %v, expected %v", d, w)
	}
	if v.K == ref.Double && math.Float64bits(d) != v.F && !math.IsNaN(d) {
		return fmt.Sprintf("as double it is %v", d)
	}
	ok := false
	for _, w := range toBig(v) {
		ok = ok || w.Cmp(b) == 0
	}
	if !ok {
		return fmt.Sprintf("as big integer it is %s, expected %s", b, toBig(v)[0])
	}
	g := ref.VDec(dec.Coefficient(), dec.Exponent())
	if w := toDec(v); w.Cmp(g.Rat()) != 0 {
		return fmt.Sprintf("as decimal it is %s, expected %s", g.Short(), w.RatString())
	}
	return ""
}

func numberAlphabet(c *kit.Ctx) []*ref.V {
	var out []*ref.V
	var ints []*big.Int
	seen := map[string]bool{}
	add := func(n *big.Int) {
		if !seen[n.String()] {
			seen[n.String()] = true
			ints = append(ints, n)
		}
	}
	for _, k := range []uint{0, 1, 3, 7, 31, 32, 52, 53, 54, 62, 63, 64, 65, 100} {
		for d := int64(-1); d <= 1; d++ {
			n := new(big.Int).Lsh(big.NewInt(1), k)
			n.Add(n, big.NewInt(d))
			add(n)
			add(new(big.Int).Neg(n))
		}
	}
	for _, i := range []int64{10, 99, 1000000007, 1234567890123456789} {
		add(big.NewInt(i))
		add(big.NewInt(-i))
	}
	// close to the middle between two doubles
	for _, k := range []uint{54, 63, 64, 65, 66, 80, 127, 200, 1023} {
		for d := int64(-1); d <= 1; d++ {
			for odd := int64(1); odd <= 3; odd += 2 {
				n := new(big.Int).Lsh(big.NewInt(1), k)
				half := new(big.Int).Lsh(big.NewInt(odd), k-53)
				n.Add(n, half).Add(n, big.NewInt(d))
				add(n)
				add(new(big.Int).Neg(n))
			}
		}
	}
	top := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 1024), new(big.Int).Lsh(big.NewInt(1), 970))
	add(top)
	add(new(big.Int).Sub(top, big.NewInt(1)))
	add(new(big.Int).Neg(top))
	e40, _ := new(big.Int).SetString("1234567890123456789012345678901234567890", 10)
	add(e40)
	for i, n := range ints {
		if n.IsInt64() {
			out = append(out, ref.VLong(n.Int64()))
		}
		out = append(out, ref.VBig(n))
		f, _ := new(big.Float).SetInt(n).Float64()
		out = append(out, ref.VDouble(f))
		exps := []int32{0, -1, 2, -19, 25}
		if !c.Thorough() {
			exps = []int32{exps[i%5], -1}
		}
		for _, e := range exps {
			out = append(out, ref.VDec(n, e))
		}
	}
	for _, b := range ref.DoubleBits() {
		out = append(out, ref.VDoubleBits(b))
	}
	for _, f := range []float64{-0.5, -1.5, -2.5, 0.49999999999999994, 2.2250738585072014e-308, 9223372036854774784, -9223372036854775808, 9.5e18, 1e19, -1e19, 4.35, 1.005, 1e15 + 0.3} {
		out = append(out, ref.VDouble(f))
	}
	for _, n := range []int64{5, -5, 15, -15, 25, 49, -49, 51, 99, -99, 0} {
		for _, e := range []int32{-1, -2, -3, 1, 3, 18, 19, 63, 64, 65, -63, -64, -330, 308, 309, 330} {
			out = append(out, ref.VDec(big.NewInt(n), e))
		}
	}
	if c.Thorough() {
		for _, i := range ref.IntBoundaries() {
			out = append(out, ref.VLong(i))
		}
		for _, n := range ref.BigInts() {
			if len(n.Bytes()) < 40 {
				out = append(out, ref.VBig(n))
			}
		}
	}
	return out
}

// C16: every ordered pair of an alphabet of numbers, added and subtracted; every conversion.
func C16(c *kit.Ctx) {
	vs := numberAlphabet(c)
	c.Bound("numbers", len(vs))
	c.Bound("pairs", "all ordered pairs, both operations")
	c.Sample("%s with %s", vs[3].Short(), vs[len(vs)/2].Short())
	c.Par("conversions", len(vs), func(w *kit.W, i int) {
		v := vs[i]
		w.NewState()
		w.Step(func() string { return "conversions of " + v.Short() })
		for round := 0; round < 2; round++ { // conversions do not disturb each other
			n := ref.Scalar(v).(value.Number)
			if m := checkConversions(v, n); m != "" {
				w.Fail("%s", m)
			}
			if m := checkConversions(v, n); m != "" {
				w.Fail("when asked again %s", m)
			}
			if !ref.Same(ref.Observe(n), v) {
				w.Fail("changed to %s", ref.Observe(n).Short())
			}
			w.Trace()
		}
		if v.K != ref.Double || v.Finite() || true {
			x, err := value.Unpack(v.Encode(), true)
			if err != nil {
				w.Fail("decoding fails: %v", err)
			}
			if m := checkConversions(v, x.(value.Number)); m != "" {
				w.Fail("decoded, %s", m)
			}
			w.Trace()
		}
	})
	ints := ref.IntBoundaries()
	c.Par("integer-conversions", len(ints), func(w *kit.W, i int) {
		for _, v := range []*ref.V{ref.VLong(ints[i]), ref.VDouble(float64(ints[i])), ref.VBig(big.NewInt(ints[i])), ref.VDec(big.NewInt(ints[i]), 0), ref.VDec(new(big.Int).Mul(big.NewInt(ints[i]), big.NewInt(1000)), -3)} {
			w.NewState()
			w.Step(func() string { return "conversions of " + v.Short() })
			if m := checkConversions(v, ref.Scalar(v).(value.Number)); m != "" {
				w.Fail("%s", m)
			}
			w.Trace()
		}
	})
	// very long ones
	var long []*ref.V
	for _, k := range []uint{1, 64, 1000, 2047, 2048, 4095, 4096, 5000, 8192, 10007, uint(c.Pick(20000, 70000))} {
		for d := int64(-1); d <= 1; d++ {
			n := new(big.Int).Lsh(big.NewInt(1), k)
			n.Add(n, big.NewInt(d))
			m := new(big.Int).Div(n, big.NewInt(3)) // bits alternate
			for _, x := range []*big.Int{n, m} {
				long = append(long, ref.VBig(x), ref.VBig(new(big.Int).Neg(x)), ref.VDec(x, int32(d)*3))
			}
		}
	}
	c.Bound("long_numbers", fmt.Sprintf("%d of up to %d bits, all ordered pairs", len(long), c.Pick(20000, 70000)))
	c.Par("long-numbers", len(long), func(w *kit.W, i int) {
		for j := range long {
			a, b := ref.Scalar(long[i]).(value.Number), ref.Scalar(long[j]).(value.Number)
			w.NewState()
			w.Step(func() string { return fmt.Sprintf("%s and %s", long[i].Short(), long[j].Short()) })
			if m := arith(long[i], long[j], false, a.Add(b)); m != "" {
				w.Fail("sum: %s", m)
			}
			if m := arith(long[i], long[j], true, a.Subtract(b)); m != "" {
				w.Fail("difference: %s", m)
			}
			w.Trace()
		}
	})
	c.Par("pairs", len(vs), func(w *kit.W, i int) {
		a := ref.Scalar(vs[i]).(value.Number)
		for j := range vs {
			b := ref.Scalar(vs[j]).(value.Number)
			for op := 0; op < 2; op++ {
				w.NewState()
				w.Step(func() string { return fmt.Sprintf("%s %s %s", vs[i].Short(), []string{"+", "-"}[op], vs[j].Short()) })
				var r value.Number
				if op == 0 {
					r = a.Add(b)
				} else {
					r = a.Subtract(b)
				}
				w.Trace()
				if m := arith(vs[i], vs[j], op == 1, r); m != "" {
					w.Fail("%s", m)
				}
				if !ref.Same(ref.Observe(a), vs[i]) || !ref.Same(ref.Observe(b), vs[j]) {
					w.Fail("changed the operands to %s and %s", ref.Observe(a).Short(), ref.Observe(b).Short())
				}
				// a chain of operations on the result leaves all of them alone
				g := ref.Observe(r)
				r.Add(r).Subtract(a).Add(b)
				b.Add(r)
				if !ref.Same(ref.Observe(a), vs[i]) || !ref.Same(ref.Observe(b), vs[j]) || !ref.Same(ref.Observe(r), g) {
					w.Fail("following operations changed the operands or the result to %s, %s, %s", ref.Observe(a).Short(), ref.Observe(b).Short(), ref.Observe(r).Short())
				}
			}
		}
	})
	// one operand used with itself and with the shared constants
	c.Par("same-operand", len(vs), func(w *kit.W, i int) {
		a := ref.Scalar(vs[i]).(value.Number)
		w.NewState()
		w.Step(func() string { return "sums of " + vs[i].Short() + " with itself and the constants" })
		if m := arith(vs[i], vs[i], false, a.Add(a)); m != "" {
			w.Fail("added to itself: %s", m)
		}
		if m := arith(vs[i], vs[i], true, a.Subtract(a)); m != "" {
			w.Fail("subtracted from itself: %s", m)
		}
		for k, n := range []value.Number{value.Zero, value.One, value.Nan} {
			v := ref.Observe(n)
			if k < 2 && !ref.Same(v, ref.VLong(int64(k))) || k == 2 && !n.IsNaN() {
				w.Fail("the constant %d is %s", k, v.Short())
			}
			if m := arith(vs[i], v, false, a.Add(n)); m != "" {
				w.Fail("plus constant %d: %s", k, m)
			}
			if m := arith(v, vs[i], true, n.Subtract(a)); m != "" {
				w.Fail("constant %d minus it: %s", k, m)
			}
			w.Trace()
		}
	})
}

// C17: every string up to a length over the alphabet of number texts, every short byte string,
// and the text form of every scalar.
func C17(c *kit.Ctx) {
	alphabet := "019aFfxX-+.en_iEpPu \x00"
	maxLen := c.Pick(5, 6)
	c.Bound("number_texts", fmt.Sprintf("all strings of up to %d characters over %q", maxLen, alphabet))
	parse := func(w *kit.W, s string) {
		v, sure := ref.ParseNum(s)
		n := value.ParseNumber(s)
		w.Trace()
		if m := numberIs(n, v, sure); m != "" {
			w.Fail("%s", m)
		}
	}
	n := len(alphabet)
	c.Par("all-number-texts", n*n+1, func(w *kit.W, i int) {
		buf := make([]byte, 0, maxLen)
		step := func() string { return fmt.Sprintf("ParseNumber(%q)", buf) }
		if i == n*n {
			for k := -1; k < n; k++ {
				buf = buf[:0]
				if k >= 0 {
					buf = append(buf, alphabet[k])
				}
				w.NewState()
				w.Step(step)
				parse(w, string(buf))
			}
			return
		}
		buf = append(buf, alphabet[i/n], alphabet[i%n])
		var rec func()
		rec = func() {
			w.NewState()
			w.Step(step)
			parse(w, string(buf))
			if len(buf) == maxLen {
				return
			}
			for k := 0; k < n; k++ {
				buf = append(buf, alphabet[k])
				rec()
				buf = buf[:len(buf)-1]
			}
		}
		rec()
	})
	// longer numbers, assembled from parts on the boundaries of the types
	signs := []string{"", "-", "+", "--", "-+"}
	heads := []string{"", "0x", "0X", "0", "00", "0x0", "0x00", " "}
	bodies := []string{"", "0", "1", "7f", "80", "ff", "100", "1234567890abcdef", "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999", "999999999999999999999999999999999", "7fffffffffffffff", "8000000000000000", "8000000000000001", "ffffffffffffffff", "10000000000000000", "1" + strings.Repeat("0", 308), "1" + strings.Repeat("0", 309), "2" + strings.Repeat("0", 308), strings.Repeat("f", 99), strings.Repeat("a", 600), strings.Repeat("9", 600), "g", "1g", "0b1", "0o7"}
	tails := []string{"", ".", ".0", ".5", ".e5", "e5", "e-5", "E+5", "e400", "e-400", "e99999999999", ".123456789012345678901234567890", "x", "x0", "x1", "x-1", "x7fffffff", "x80000000", "x-7fffffff", "x-80000000", "x-80000001", "x07fffffff", "x0000000001", "xffffffff", "xfffffffff", "x00ffffffff", "xffffffffffffffffffff", "x-", "x--1", "x1x1", "x1.5", "p5", "_1", "X1", " ", "\n", "\x00", "f"}
	c.Bound("assembled_texts", len(signs)*len(heads)*len(bodies)*len(tails))
	c.Par("assembled-number-texts", len(signs)*len(heads)*len(bodies), func(w *kit.W, i int) {
		h := signs[i%len(signs)] + heads[i/len(signs)%len(heads)] + bodies[i/len(signs)/len(heads)]
		for _, t := range tails {
			w.NewState()
			w.Step(func() string { return fmt.Sprintf("ParseNumber(%q)", h+t) })
			parse(w, h+t)
		}
	})
	// digits of every length, every first and last digit, hexadecimal or not
	longest := c.Pick(300, 1100)
	c.Bound("digit_lengths", fmt.Sprintf("all up to %d, every first digit, three fillings, a digit or a mistake at the end", longest))
	c.Par("long-digits", longest, func(w *kit.W, i int) {
		n := longest - i
		for _, first := range "0123456789abcdefABCDEF" {
			for _, fill := range []string{"0", "9", "7a31F"} {
				body := string(first) + strings.Repeat(fill, n)[:n]
				for _, t := range []string{"0x" + body, "-0x" + body, "0X" + body + "1", "0x" + body + "g", "0x" + body + "x-3", "-0x" + body + "x1f", body, "-" + body, "+" + body, body + "." + body, body + "e2"} {
					w.NewState()
					w.Step(func() string { return fmt.Sprintf("ParseNumber(%q)", t) })
					parse(w, t)
				}
			}
		}
	})
	// all byte strings of up to 2 bytes (3 in the thorough tier), through every parser
	c.Bound("byte_strings", fmt.Sprintf("all of up to %d bytes", c.Pick(2, 3)))
	c.Par("byte-strings", 257, func(w *kit.W, i int) {
		one := func(s string) {
			w.NewState()
			w.Step(func() string { return fmt.Sprintf("parsing %q", s) })
			parse(w, s)
			checkTexts(w, s)
		}
		if i == 256 {
			one("")
			return
		}
		one(string([]byte{byte(i)}))
		for k := 0; k < 256; k++ {
			one(string([]byte{byte(i), byte(k)}))
			if c.Thorough() {
				for m := 0; m < 256; m++ {
					one(string([]byte{byte(i), byte(k), byte(m)}))
				}
			}
		}
	})
	// everything that starts like a blob
	b64 := "AQz+/=-_ \n"
	c.Par("blob-texts", len(b64)+1, func(w *kit.W, i int) {
		var rec func(s string, left int)
		rec = func(s string, left int) {
			w.NewState()
			w.Step(func() string { return fmt.Sprintf("parsing %q", "base64,"+s) })
			x := value.ParseString("base64," + s)
			value.ParseNumber("base64," + s)
			value.ParseBoolean("base64," + s)
			w.Trace()
			if x == nil {
				w.Fail("gives nil")
			}
			if g := ref.Observe(x); g.K == ref.Utf8 && g.S != "base64,"+s {
				w.Fail("gives the other text %s", g.Short())
			}
			if left > 0 {
				for _, ch := range b64 {
					rec(s+string(ch), left-1)
				}
			}
		}
		if i == len(b64) {
			rec("", 0)
		} else {
			rec(b64[i:i+1], c.Pick(4, 5))
		}
	})
	for _, p := range []string{"base64", "base64;", "Base64,", " base64,", "BASE64,AA", "data:application/x-msgpack-ext;base64,AAAA", "base6"} {
		c.Par("prefixes-"+p, 1, func(w *kit.W, i int) { checkTexts(w, p) })
	}
	// the text form of every scalar
	vs := ref.Scalars(c.Pick(300, 70000))
	c.Bound("scalars", len(vs))
	c.Par("text-forms", len(vs), func(w *kit.W, i int) {
		v := vs[i]
		if v.K == ref.Ext || v.K == ref.Null {
			return
		}
		w.NewState()
		w.Step(func() string { return "text form of " + v.Short() })
		x := ref.Scalar(v)
		text, bad := scalarText(v, x)
		if bad != "" {
			w.Fail("%s", bad)
		}
		if x.String() != text {
			w.Fail("is %q, expected %q", x.String(), text)
		}
		w.Trace()
		switch {
		case v.K == ref.Bool:
			if g := value.ParseBoolean(text); bool(g.Boolean()) != v.B {
				w.Fail("parses to %v", g)
			}
		case v.K == ref.Utf8 || v.K == ref.Raw:
			checkTexts(w, v.S)
		case v.K == ref.Double:
			g := ref.Observe(value.ParseNumber(text))
			if d := v.Float(); math.IsNaN(d) {
				if g.K != ref.Double || !math.IsNaN(g.Float()) {
					w.Fail("NaN parses to %s", g.Short())
				}
			} else if math.IsInf(d, 0) {
				if g.K != ref.Double || g.Float() != d {
					w.Fail("infinity parses to %s", g.Short())
				}
			} else if !g.Finite() || g.K == ref.Double && g.Float() != d || g.K != ref.Double && g.Rat().Cmp(v.Rat()) != 0 {
				w.Fail("parses to %s", g.Short())
			}
		default:
			g := ref.Observe(value.ParseNumber(text))
			if v.K == ref.Dec && v.E == 0 {
				if !g.Finite() || g.K == ref.Double || g.Rat().Cmp(v.Rat()) != 0 {
					w.Fail("parses to %s", g.Short())
				}
			} else if !ref.Same(g, v) {
				w.Fail("parses to %s", g.Short())
			}
		}
	})
	// decimals: every exponent around the byte boundaries
	c.Par("decimal-text-forms", 600, func(w *kit.W, i int) {
		for _, base := range []int64{0, 256, 65536, 1 << 24, math.MaxInt32 - 299} {
			for _, sg := range []int64{1, -1} {
				e := (base + int64(i) - 300) * sg
				if e < math.MinInt32 || e > math.MaxInt32 || e == 0 {
					continue
				}
				for _, m := range []int64{0, 1, -1, 255, -256, 123456789} {
					v := ref.VDec(big.NewInt(m), int32(e))
					w.NewState()
					w.Step(func() string { return "text form of " + v.Short() })
					text := ref.Scalar(v).String()
					w.Trace()
					if g := ref.Observe(value.ParseNumber(text)); !ref.Same(g, v) {
						w.Fail("%q parses to %s", text, g.Short())
					}
				}
			}
		}
	})
	// doubles: every power of two and of ten with neighbours
	c.Par("double-text-forms", 2098+640, func(w *kit.W, i int) {
		f := math.Ldexp(1, i-1074)
		if i >= 2098 {
			f, _ = strconv.ParseFloat(fmt.Sprintf("1e%d", i-2098-325), 64)
		}
		for d := -2; d <= 2; d++ {
			for _, sg := range []uint64{0, 1 << 63} {
				b := (math.Float64bits(f)+uint64(int64(d)))&^(1<<63) | sg
				v := ref.VDoubleBits(b)
				if !v.Finite() {
					continue
				}
				w.NewState()
				w.Step(func() string { return fmt.Sprintf("text form of %v", v.Float()) })
				text := ref.Scalar(v).String()
				g := ref.Observe(value.ParseNumber(text))
				w.Trace()
				if !g.Finite() || g.K == ref.Double && g.Float() != v.Float() || g.K != ref.Double && g.Rat().Cmp(v.Rat()) != 0 {
					w.Fail("%q parses to %s", text, g.Short())
				}
			}
		}
	})
}

// checkTexts: s as text and as blob parses back from its text form; booleans are total.
func checkTexts(w *kit.W, s string) {
	value.ParseBoolean(s)
	if !strings.HasPrefix(s, "base64,") {
		if g := ref.Observe(value.ParseString(value.Utf8(s).String())); g.K != ref.Utf8 || g.S != s {
			w.Fail("the text %q parses back to %s", s, g.Short())
		}
	}
	r := value.Raw([]byte(s), true)
	if g := ref.Observe(value.ParseString(r.String())); g.K != ref.Raw || g.S != s {
		w.Fail("the blob %q has the text form %q and parses back to %s", s, r.String(), g.Short())
	}
}
