package ref

import (
	"math"
	"math/big"
	"sort"
	"strings"
)

func fill(n int, seed byte) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)*7 + seed + byte(i>>8)
	}
	return string(b)
}

func ascii(n int, seed byte) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + (byte(i)*7+seed+byte(i>>8))%26
	}
	return string(b)
}

// IntBoundaries: every power of two and its neighbours, both signs.
func IntBoundaries() []int64 {
	seen := map[int64]bool{}
	var out []int64
	add := func(i int64) {
		if !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	for k := 0; k < 63; k++ {
		for d := int64(-2); d <= 2; d++ {
			add(int64(1)<<k + d)
			add(-(int64(1) << k) + d)
		}
	}
	for d := int64(0); d < 3; d++ {
		add(math.MaxInt64 - d)
		add(math.MinInt64 + d)
	}
	for i := int64(-140); i < 270; i++ {
		add(i)
	}
	for _, i := range []int64{0x0102030405060708, -0x0102030405060708, 0x01020304, -0x01020304, 0x0102, -0x0102, 1234567890123456789} {
		add(i)
	}
	return out
}

func DoubleBits() []uint64 {
	var out []uint64
	for _, f := range []float64{0, math.Copysign(0, -1), 1, -1, 0.1, -0.1, 123.456, 1e21, 1e20, 1e-7, 1e300, -1e300,
		math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.MaxFloat32, math.Pi,
		1 << 53, 1<<53 + 2, 1 << 62, 1 << 63, -(1 << 63), 1 << 64, 0.5, 1.5, 2.5, 1e-5, 16777217, 16777216, 3.4e38} {
		out = append(out, math.Float64bits(f))
	}
	out = append(out, 0x7ff8000000000001, 0x7ff8000000000000, 0xfff8000000000000, 0x7ff0000000000001, 0x0102030405060708, 0x8070605040302010)
	for k := uint(0); k < 64; k += 7 {
		out = append(out, uint64(1)<<k)
	}
	return out
}

func BigInts() []*big.Int {
	var out []*big.Int
	add := func(n *big.Int) { out = append(out, n, new(big.Int).Neg(n)) }
	out = append(out, big.NewInt(0))
	for _, k := range []uint{0, 1, 7, 8, 15, 16, 31, 32, 55, 56, 57, 62, 63, 64, 65, 112, 119, 120, 121, 127, 128, 255, 256} {
		one := new(big.Int).Lsh(big.NewInt(1), k)
		for d := int64(-1); d <= 1; d++ {
			n := new(big.Int).Add(one, big.NewInt(d))
			if n.Sign() != 0 {
				add(n)
			}
		}
	}
	for _, n := range []int{246, 247, 248, 254, 255, 256, 257, 2030, 2040, 2048} {
		add(new(big.Int).SetBytes([]byte("\x01" + fill(n-1, 3))))
	}
	return out
}

func LenBoundaries(max int) []int {
	var out []int
	for i := 0; i <= 40; i++ {
		out = append(out, i)
	}
	for _, n := range []int{127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072} {
		if n <= max {
			out = append(out, n)
		}
	}
	return out
}

var Exponents = []int32{0, 1, -1, 3, -3, 15, -16, 127, -127, 128, -128, 255, 256, -256, 65535, 65536, -65536, 16777216, -16777217, math.MaxInt32, -math.MaxInt32}

// Scalars on every size and range boundary.
func Scalars(maxLen int) []*V {
	out := []*V{VNull, VTrue, VFalse}
	for _, i := range IntBoundaries() {
		out = append(out, VLong(i))
	}
	for _, b := range DoubleBits() {
		out = append(out, VDoubleBits(b))
	}
	for _, n := range BigInts() {
		out = append(out, VBig(n))
	}
	for _, n := range append(BigInts()[:60], new(big.Int).SetBytes([]byte("\x01"+fill(249, 3)))) {
		for _, e := range []int32{0, -3, 5} {
			out = append(out, VDec(n, e))
		}
	}
	for _, e := range Exponents {
		out = append(out, VDec(big.NewInt(123567), e), VDec(big.NewInt(-1), e), VDec(new(big.Int), e))
	}
	for _, n := range LenBoundaries(maxLen) {
		out = append(out, VUtf8(ascii(n, 1)), VRaw(fill(n, 2)))
		out = append(out, VExt([]byte{0, 3, 127, 128, 255}[n%5], fill(n, 4)))
	}
	for i := 0; i < 256; i++ {
		if i != 1 && i != 2 {
			out = append(out, VExt(byte(i), "x"), VExt(byte(i), ""), VExt(byte(i), "abc"))
		}
		out = append(out, VUtf8(string([]byte{byte(i)})), VRaw(string([]byte{byte(i)})))
	}
	for _, s := range SpecialStrings {
		out = append(out, VUtf8(s), VRaw(s))
	}
	return out
}

var SpecialStrings = []string{"null", "true", "nan", "0x10", "base64,", "base64,AAAA", "base64,!!", "\x00", "\"", "\\", "a\"b\\c", "\u2028", "é", "日本", "\U0001F600", "\xff\xfe", "a\xffb", "\xed\xa0\x80", "\x7f", "\x1b\n\t\r", "1", "-1", "1.5", "data:application/x-msgpack-ext;base64,AA", " ", "</script>"}

// Tokens are pieces of text that readers and writers of text are tempted to treat specially.
var Tokens = append([]string{"\ufeff", "\xef\xbb", "\ufffe", "0x", "0X1f", "0b1", "0o7", "base64:", "BASE64,", "data:", "NaN", "nil", "false", "Null", "inf", "+Inf", "-0", "+1", "1e5", "1_000", ".5", "5.",
	"\t", "\n", "\r\n", "\v", "\f", "\u0085", "\u00a0", "\u200b", "\u2029", "\u3000", "\u0301", "e\u0301", "\u00df", "\u0130", "\u212a", "\U0010ffff", "\ufffd", "\uffff", "\ud7ff", "\ue000",
	"\x80", "\xbf", "\xc0\x80", "\xc2", "\xe2\x82", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xfe", "\xff", "\xc3\xa9", "&", "<", ">", "'", "`", "{", "}", "[", "]", ",", ":", "%", "%s", "%00", "\\u0041", "\\n", "=", "==", "+", "-", "_", "/", "#", "$", "\x00\x00", "A", "a", "Z", "9", "\x01", "\x1f"}, SpecialStrings...)

// Texts are all tokens and all pairs of them, and multi byte characters across length boundaries.
func Texts() []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for _, a := range Tokens {
		add(a)
		for _, b := range Tokens {
			add(a + b)
		}
	}
	for _, n := range []int{30, 31, 32, 254, 255, 256, 511, 512, 4095, 4096, 65534, 65535, 65536} {
		for _, ch := range []string{"\u00e9", "\u65e5", "\U0001F600", "\ufeff", "\xff", "\x00", " ", "\n", "="} {
			for d := -4; d <= 4; d++ {
				if n+d >= 0 {
					add(ascii(n+d, 9) + ch)
				}
			}
			add(ch + ascii(n-len(ch), 9))
			add(strings.Repeat(ch, n/len(ch)))
		}
	}
	return out
}

// TwoBitInts are all +-(2^k+2^j+d).
func TwoBitInts() []int64 {
	var out []int64
	for k := uint(2); k < 63; k++ {
		for j := uint(1); j < k; j++ {
			for d := int64(-1); d <= 1; d++ {
				n := int64(1)<<k + int64(1)<<j + d
				out = append(out, n, -n)
			}
		}
	}
	return out
}

// AllExponents are doubles of every exponent with the mantissas that matter for rounding.
func AllExponents() []uint64 {
	var out []uint64
	for e := uint64(0); e < 2048; e++ {
		for _, m := range []uint64{0, 1, 1 << 51, 1<<52 - 1, 1<<52 - 1<<29, 1 << 28, 0x5555555555555} {
			out = append(out, e<<52|m, 1<<63|e<<52|m)
		}
	}
	return out
}

// SmallLeaves is the leaf alphabet of the tree enumeration.
func SmallLeaves() []*V {
	return []*V{VNil, VNull, VTrue, VLong(0), VLong(-33), VDouble(1.5), VBig(big.NewInt(-300)), VDec(big.NewInt(123), -2),
		VUtf8(""), VUtf8("k"), VRaw("\x00\xff"), VExt(5, "z")}
}

var treeMapKeys = []string{"", "a", "b"}
var treeIdxKeys = []int{-1, 0, 2}

// Trees enumerates every tree with exactly n nodes over the leaf alphabet: lists of any arity,
// maps and sparse lists with every non-decreasing key assignment from a small key alphabet
// (duplicate keys included when dup).
func Trees(n int, leaves []*V, dup bool) []*V {
	memo := map[int][]*V{}
	fmemo := map[[2]int][][]*V{}
	var trees func(n int) []*V
	var forest func(n, k int) [][]*V // k trees with n nodes in total
	forest = func(n, k int) [][]*V {
		key := [2]int{n, k}
		if r, ok := fmemo[key]; ok {
			return r
		}
		var r [][]*V
		if k == 0 {
			if n == 0 {
				r = [][]*V{nil}
			}
		} else {
			for a := 1; a <= n-(k-1); a++ {
				for _, t := range trees(a) {
					for _, rest := range forest(n-a, k-1) {
						f := make([]*V, 0, k)
						f = append(append(f, t), rest...)
						r = append(r, f)
					}
				}
			}
		}
		fmemo[key] = r
		return r
	}
	trees = func(n int) []*V {
		if r, ok := memo[n]; ok {
			return r
		}
		var r []*V
		if n == 1 {
			r = append(r, leaves...)
			r = append(r, VList(), VMap(nil, nil), VSparse(nil, nil))
		} else if n > 1 {
			for k := 1; k <= n-1; k++ {
				for _, f := range forest(n-1, k) {
					r = append(r, VList(f...))
					for _, ks := range monotone(k, len(treeMapKeys), dup) {
						sk := make([]string, k)
						ik := make([]int, k)
						for i, x := range ks {
							sk[i], ik[i] = treeMapKeys[x], treeIdxKeys[x]
						}
						r = append(r, VMap(sk, f), VSparse(ik, f))
					}
				}
			}
		}
		memo[n] = r
		return r
	}
	return trees(n)
}

// monotone: all non-decreasing (dup) or increasing sequences of length k over 0..m-1.
func monotone(k, m int, dup bool) [][]int {
	var out [][]int
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		if len(cur) == k {
			out = append(out, append([]int(nil), cur...))
			return
		}
		for x := from; x < m; x++ {
			nx := x + 1
			if dup {
				nx = x
			}
			rec(nx, append(cur, x))
		}
	}
	rec(0, nil)
	return out
}

// BigContainers: containers whose counts lie on the header boundaries.
func BigContainers(maxLen int) []*V {
	var out []*V
	for _, n := range LenBoundaries(maxLen) {
		l := &V{K: List}
		s := &V{K: Sparse}
		m := &V{K: Map}
		for i := 0; i < n; i++ {
			e := VLong(int64(i % 200))
			if i%5 == 3 {
				e = VUtf8(ascii(i%4, 0))
			}
			l.L = append(l.L, e)
			s.L = append(s.L, e)
			m.L = append(m.L, e)
			s.IK = append(s.IK, i*2-3)
			m.SK = append(m.SK, key6(i))
		}
		out = append(out, l, s, m)
	}
	return out
}

func key6(i int) string {
	const d = "0123456789abcdefghijklmnopqrstuvwxyz"
	var b [4]byte
	for j := 3; j >= 0; j-- {
		b[j] = d[i%36]
		i /= 36
	}
	return string(b[:])
}

// Nested returns containers nested depth times around a leaf, one per kind and alternating.
func Nested(depth int) []*V {
	var out []*V
	for k := 0; k < 4; k++ {
		v := VLong(7)
		for i := 0; i < depth; i++ {
			switch (k + i*(k/3)) % 3 {
			case 0:
				v = VList(v)
			case 1:
				v = VMap([]string{"k"}, []*V{v})
			case 2:
				v = VSparse([]int{3}, []*V{v})
			}
		}
		out = append(out, v)
	}
	return out
}

// AdvKeys are distinct keys that different orders and equalities treat differently (case,
// length first, numeric, collation, normal forms, signed bytes, terminators), in byte order.
func AdvKeys() []string {
	ks := []string{"", "\x00", "\x00\x00", "\x00a", " ", "  ", " a", "!", "\"", "$", "%", "+1", "-", "-0", "-1", "-10", "-2", ".", "/",
		"0", "00", "01", "0x10", "1", "1.5", "10", "100", "11", "12", "1e1", "2", "20", "9", "99", "9223372036854775807", "9223372036854775808",
		"A", "AA", "Aa", "Ab", "B", "K", "Z", "[", "\\", "]", "^", "_", "_a", "`", "a", "a\x00", "a\x00b", "a b", "aA", "aB", "aa", "aaa", "ab", "a~", "b", "i", "k", "nan", "nil", "null", "ss", "true", "z", "{", "}", "~",
		"e\u0301", "\u00e9", "\u00c9", "\u00df", "\u0130", "\u0131", "\u017f", "\u212a", "\u65e5\u672c", "\U0001F600", "\ufffd", "\uffff", "\x7f", "\x80", "\xc3", "\xed\xa0\x80", "\xff", "\xff\x00", "\xff\xff",
		strings.Repeat("a", 300), strings.Repeat("a", 300) + "b", strings.Repeat("a", 299) + "B", strings.Repeat("a", 31), strings.Repeat("a", 32),
		"abcdefg", "abcdefgh", "abcdefgh\x00", "abcdefgha", "abcdefghab", "abcdefghb", "abcdefghi", "abcdefgz", "abcdefghabcdefg", "abcdefghabcdefgh", "abcdefghabcdefgha", "abcdefghabcdefghb", "abcdefghbbcdefgh"}
	sort.Strings(ks)
	return ks
}

// PrefixKeys: seven distinct keys with a common prefix of n bytes.
func PrefixKeys(n int) []string {
	p := ascii(n, 3)
	ks := []string{p + "b", p + "aa", p, p + "a", p + "\x00", p + "a" + p, p + "\xff"}
	if n > 0 {
		ks[5] = p[:n-1] + "~" + p
	}
	return ks
}

// SpecialKeyMaps: maps and sparse lists with unusual keys.
func SpecialKeyMaps() []*V {
	var out []*V
	for _, k := range SpecialStrings {
		out = append(out, VMap([]string{k}, []*V{VLong(1)}))
	}
	for _, n := range LenBoundaries(70000) {
		out = append(out, VMap([]string{ascii(n, 5)}, []*V{VTrue}))
		out = append(out, VMap([]string{strings.Repeat("\xff", n)}, []*V{VNil}))
	}
	for _, i := range IntBoundaries() {
		out = append(out, VSparse([]int{int(i)}, []*V{VUtf8("v")}))
		if i > math.MinInt64+1000 {
			out = append(out, VSparse([]int{int(i) - 1000, int(i)}, []*V{VNil, VTrue}))
		}
	}
	adv := AdvKeys()
	for i := range adv {
		out = append(out, VMap([]string{adv[i]}, []*V{VLong(1)}))
		for j := i + 1; j < len(adv); j++ {
			out = append(out, VMap([]string{adv[i], adv[j]}, []*V{VLong(1), VLong(2)}))
		}
	}
	var all []*V
	for i := range adv {
		all = append(all, VLong(int64(i)))
	}
	out = append(out, VMap(adv, all))
	idx := []int{math.MinInt64, math.MinInt64 + 1, -1 << 40, -1<<32 - 1, -1 << 32, -1<<32 + 1, -1<<31 - 1, -1 << 31, -129, -128, -33, -32, -1, 0, 1, 127, 128, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40, math.MaxInt64 - 1, math.MaxInt64}
	for i := range idx {
		for j := i + 1; j < len(idx); j++ {
			out = append(out, VSparse([]int{idx[i], idx[j]}, []*V{VLong(1), VLong(2)}))
		}
	}
	// text keys that look like integers stay text
	out = append(out, VMap([]string{"0", "1", "10", "2"}, []*V{VLong(1), VLong(2), VLong(3), VLong(4)}))
	return out
}
