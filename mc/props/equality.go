package props

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

func init() { All["C15"] = C15 }

// precision is the difference of equal doubles, a setting.
var precision = 1e-5

type verdict int

const (
	no verdict = iota
	yes
	maybe // too close to the tolerance of doubles for the model to say
)

// equalNumbers is the equality of numbers; moderate exponents only, others by magnitude.
func equalNumbers(a, b *ref.V) verdict {
	nan := func(v *ref.V) bool { return v.K == ref.Double && math.IsNaN(v.Float()) }
	if nan(a) || nan(b) {
		return no
	}
	if !a.Finite() || !b.Finite() {
		if a.K == b.K && a.Float() == b.Float() {
			return yes
		}
		return no
	}
	if big, ok := huge(a, b); ok {
		return big
	}
	d := new(big.Rat).Sub(a.Rat(), b.Rat())
	d.Abs(d)
	if a.K != ref.Double && b.K != ref.Double {
		if d.Sign() == 0 {
			return yes
		}
		return no
	}
	// a double is compared with the nearest double of the other number
	fa, _ := a.Rat().Float64()
	fb, _ := b.Rat().Float64()
	if math.IsInf(fa, 0) || math.IsInf(fb, 0) {
		return no
	}
	switch diff := math.Abs(fa - fb); {
	case diff < precision*0.9999999:
		return yes
	case diff > precision*1.0000001:
		return no
	}
	return maybe
}

// huge decides pairs with decimals of exponents too large to be written out.
func huge(a, b *ref.V) (verdict, bool) {
	is := func(v *ref.V) bool { return v.K == ref.Dec && (v.E > 2000 || v.E < -2000) }
	if !is(a) && !is(b) {
		return no, false
	}
	if !is(a) {
		a, b = b, a
	}
	// a is huge
	if a.N.Sign() == 0 {
		z := *a
		z.E = 0
		return equalNumbers(&z, b), true
	}
	tiny := a.Magnitude() < -1000
	if !is(b) {
		if tiny && b.K == ref.Double && math.Abs(b.Float()) < 0.9e-5 {
			return yes, true
		}
		if tiny && b.K == ref.Double && math.Abs(b.Float()) < 1.1e-5 {
			return maybe, true
		}
		if a.Magnitude() > -1000 && a.Magnitude() < 1000 {
			return maybe, true
		}
		return no, true
	}
	if b.N.Sign() == 0 {
		return no, true
	}
	// both huge: equal when scaling one by the difference of the exponents gives the other
	d := int64(a.E) - int64(b.E)
	if d < 0 {
		a, b, d = b, a, -d
	}
	if d > 5000 {
		return no, true
	}
	s := new(big.Int).Exp(big.NewInt(10), big.NewInt(d), nil)
	if s.Mul(s, a.N).Cmp(b.N) == 0 {
		return yes, true
	}
	return no, true
}

func and(a, b verdict) verdict {
	switch {
	case a == no || b == no:
		return no
	case a == maybe || b == maybe:
		return maybe
	}
	return yes
}

func modelEqual(a, b *ref.V) verdict {
	nul := func(v *ref.V) bool { return v.K == ref.Nil || v.K == ref.Null }
	str := func(v *ref.V) bool { return v.K == ref.Utf8 || v.K == ref.Raw }
	lst := func(v *ref.V) bool { return v.K == ref.List || v.K == ref.Sparse }
	as := func(ok bool) verdict {
		if ok {
			return yes
		}
		return no
	}
	all := func() verdict {
		r := yes
		for i := range a.L {
			if r = and(r, modelEqual(a.L[i], b.L[i])); r == no {
				return no
			}
		}
		return r
	}
	switch {
	case nul(a) || nul(b):
		return as(nul(a) && nul(b))
	case a.IsNumber() && b.IsNumber():
		return equalNumbers(a, b)
	case str(a) && str(b):
		return as(a.S == b.S)
	case a.K == ref.Bool && b.K == ref.Bool:
		return as(a.B == b.B)
	case a.K == ref.Ext && b.K == ref.Ext:
		return as(a.S == b.S)
	case a.K == ref.Map && b.K == ref.Map:
		if len(a.L) != len(b.L) {
			return no
		}
		for i := range a.SK {
			if a.SK[i] != b.SK[i] {
				return no
			}
		}
		return all()
	case a.K == ref.Sparse && b.K == ref.Sparse:
		if len(a.L) != len(b.L) {
			return no
		}
		for i := range a.IK {
			if a.IK[i] != b.IK[i] {
				return no
			}
		}
		return all()
	case lst(a) && lst(b):
		// at least one dense: element by element
		n, m := length(a), length(b)
		if n != m {
			return no
		}
		r := yes
		for i := 0; i < n; i++ {
			r = and(r, modelEqual(at(a, i), at(b, i)))
		}
		return r
	}
	return no
}

func length(v *ref.V) int {
	if v.K == ref.List {
		return len(v.L)
	}
	if n := len(v.IK); n > 0 && v.IK[n-1] >= 0 {
		return v.IK[n-1] + 1
	}
	return 0
}

func at(v *ref.V, i int) *ref.V {
	if j := first(v, i, ""); j >= 0 {
		return v.L[j]
	}
	return ref.VNull
}

func equalityAlphabet(c *kit.Ctx) []*ref.V {
	out := []*ref.V{ref.VNil, ref.VNull, ref.VTrue, ref.VFalse}
	var nums []*ref.V
	for _, i := range []int64{0, 1, -1, 2, 10, 255, 256, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1} {
		nums = append(nums, ref.VLong(i), ref.VBig(bigInt(i)), ref.VDec(bigInt(i), 0), ref.VDouble(float64(i)))
	}
	ten := big.NewInt(10)
	nums = append(nums, ref.VDec(ten, -1), ref.VDec(big.NewInt(100), -2), ref.VDec(big.NewInt(1), 1), ref.VDec(big.NewInt(0), 5), ref.VDec(big.NewInt(0), -5),
		ref.VDec(big.NewInt(15), -1), ref.VDouble(1.5), ref.VDec(big.NewInt(1), -1), ref.VDouble(0.1), ref.VDouble(0.3), ref.VDec(big.NewInt(3), -1),
		ref.VDouble(math.Copysign(0, -1)), ref.VDouble(1+5e-6), ref.VDouble(1-5e-6), ref.VDouble(1+2e-5), ref.VDec(big.NewInt(1000005), -6), ref.VDec(big.NewInt(100002), -5),
		ref.VDec(big.NewInt(1), -6), ref.VDouble(1e-6), ref.VDec(big.NewInt(1), -4), ref.VDouble(1e-4), ref.VDouble(-1e-6), ref.VDec(big.NewInt(-1), -4),
		ref.VDouble(math.NaN()), ref.VDouble(math.Inf(1)), ref.VDouble(math.Inf(-1)), ref.VDouble(math.MaxFloat64), ref.VDouble(1e300), ref.VDouble(-1e300), ref.VDouble(math.SmallestNonzeroFloat64),
		ref.VDec(big.NewInt(1), 300), ref.VDec(big.NewInt(1), 400), ref.VDec(big.NewInt(-1), 400), ref.VDec(big.NewInt(1), -400), ref.VDec(big.NewInt(10), 399), ref.VDec(big.NewInt(100), -402), ref.VDec(big.NewInt(10), -401),
		ref.VDec(big.NewInt(1), math.MaxInt32), ref.VDec(big.NewInt(1), -math.MaxInt32), ref.VDec(big.NewInt(10), math.MaxInt32-1), ref.VDec(big.NewInt(0), math.MaxInt32))
	two64 := new(big.Int).Lsh(big.NewInt(1), 64)
	two70 := new(big.Int).Lsh(big.NewInt(1), 70)
	e300 := new(big.Int).Exp(ten, big.NewInt(300), nil)
	e400 := new(big.Int).Exp(ten, big.NewInt(400), nil)
	for _, n := range []*big.Int{two64, two70, e300, e400} {
		n1 := new(big.Int).Add(n, big.NewInt(1))
		nums = append(nums, ref.VBig(n), ref.VBig(n1), ref.VBig(new(big.Int).Neg(n)), ref.VDec(n, 0), ref.VDec(n1, 0))
	}
	nums = append(nums, ref.VDouble(math.Ldexp(1, 64)), ref.VDouble(math.Ldexp(1, 70)), ref.VDouble(math.Ldexp(1, 63)))
	out = append(out, nums...)
	for _, s := range []string{"", "a", "b", "ab", "a\x00", "null", "true", "1", "0x1", "\xff", "base64,YQ", "[]", "{}"} {
		out = append(out, ref.VUtf8(s), ref.VRaw(s))
	}
	for _, e := range []*ref.V{ref.VExt(5, "a"), ref.VExt(5, "b"), ref.VExt(6, "a"), ref.VExt(5, ""), ref.VExt(1, "a"), ref.VExt(97, "")} {
		if e.S[0] != 1 {
			out = append(out, e)
		}
	}
	// containers: dense, sparse and maps of few elements that are equal under different types, holes, duplicates, negative indexes
	small := []*ref.V{ref.VNil, ref.VNull, ref.VLong(1), ref.VBig(big.NewInt(1)), ref.VDouble(1), ref.VDec(ten, -1), ref.VUtf8("a"), ref.VRaw("a"), ref.VLong(2), ref.VDouble(math.NaN()), ref.VFalse}
	out = append(out, ref.VList(), ref.VSparse(nil, nil), ref.VMap(nil, nil))
	for _, e := range small {
		out = append(out, ref.VList(e), ref.VSparse([]int{0}, []*ref.V{e}), ref.VSparse([]int{1}, []*ref.V{e}), ref.VSparse([]int{-1}, []*ref.V{e}),
			ref.VMap([]string{"a"}, []*ref.V{e}), ref.VMap([]string{"0"}, []*ref.V{e}), ref.VList(e, ref.VLong(1)), ref.VList(ref.VNull, e), ref.VList(ref.VList(e)))
	}
	l1, l2 := ref.VLong(1), ref.VLong(2)
	for _, ks := range [][]int{{0, 0}, {0, 1}, {1, 1}, {-1, 0}, {-1, -1}, {0, 2}, {1, 2}} {
		out = append(out, ref.VSparse(ks, []*ref.V{l1, l2}), ref.VSparse(ks, []*ref.V{l2, l1}), ref.VSparse(ks, []*ref.V{l1, ref.VNull}))
	}
	for _, ks := range [][]string{{"a", "a"}, {"a", "b"}, {"", "a"}, {"0", "1"}} {
		out = append(out, ref.VMap(ks, []*ref.V{l1, l2}), ref.VMap(ks, []*ref.V{l2, l1}), ref.VMap(ks, []*ref.V{l1, ref.VNull}), ref.VMap(ks, []*ref.V{ref.VDouble(1), ref.VBig(big.NewInt(2))}))
	}
	out = append(out, ref.VList(l1, l2), ref.VList(l2, l1), ref.VList(l1, l2, ref.VNull), ref.VList(l1, ref.VNil, l2), ref.VList(ref.VNull, ref.VNull),
		ref.VList(ref.VMap([]string{"x"}, []*ref.V{l1})), ref.VList(ref.VMap([]string{"x"}, []*ref.V{ref.VDouble(1)})), ref.VMap([]string{"x"}, []*ref.V{ref.VList(l1, ref.VSparse([]int{3}, []*ref.V{l2}))}),
		ref.VMap([]string{"x"}, []*ref.V{ref.VList(l1, ref.VSparse([]int{3}, []*ref.V{ref.VDec(big.NewInt(20), -1)}))}), ref.VSparse([]int{0, 1, 3}, []*ref.V{l1, ref.VMap([]string{"x"}, []*ref.V{l1}), ref.VNull}),
		ref.VList(l1, ref.VMap([]string{"x"}, []*ref.V{l1}), ref.VNull, ref.VNull))
	// long containers that differ in one place
	for n := 12; n <= 14; n++ {
		for d := -1; d < n; d += 4 {
			l, s, m := &ref.V{K: ref.List}, &ref.V{K: ref.Sparse}, &ref.V{K: ref.Map}
			for i := 0; i < n; i++ {
				e := ref.VLong(int64(i))
				if i == d {
					e = ref.VLong(-5)
				}
				l.L, s.L, m.L = append(l.L, e), append(s.L, e), append(m.L, e)
				s.IK = append(s.IK, i)
				m.SK = append(m.SK, fmt.Sprintf("%03d", i))
			}
			out = append(out, l, s, m)
		}
	}
	// containers of many lengths whose elements are equal under different types, or not even to themselves
	forms := []func(i int) *ref.V{
		func(i int) *ref.V { return ref.VLong(int64(i)) },
		func(i int) *ref.V { return ref.VDouble(float64(i)) },
		func(i int) *ref.V { return ref.VDec(big.NewInt(int64(10*i)), -1) },
		func(i int) *ref.V { return ref.VBig(big.NewInt(int64(i))) },
		func(i int) *ref.V { return ref.VDouble(math.NaN()) },
		func(i int) *ref.V { return []*ref.V{ref.VNil, ref.VNull}[i%2] },
		func(i int) *ref.V { return ref.VNull },
		func(i int) *ref.V { return []*ref.V{ref.VUtf8("t"), ref.VRaw("t")}[i%2] },
		func(i int) *ref.V { return ref.VUtf8("t") },
	}
	for _, n := range []int{4, 5, 8, 9, 16, 17, 33, 65, 130}[:c.Pick(7, 9)] {
		for f, mk := range forms {
			l, s, m := &ref.V{K: ref.List}, &ref.V{K: ref.Sparse}, &ref.V{K: ref.Map}
			for i := 0; i < n; i++ {
				e := mk(i)
				l.L, s.L, m.L = append(l.L, e), append(s.L, e), append(m.L, e)
				s.IK = append(s.IK, i)
				m.SK = append(m.SK, fmt.Sprintf("%03d", i))
			}
			out = append(out, l)
			if f < 2 || f > 3 {
				out = append(out, m)
			}
			if f < 2 {
				out = append(out, s)
			}
		}
		// equal except for the last element
		last := &ref.V{K: ref.List}
		for i := 0; i < n; i++ {
			last.L = append(last.L, ref.VDouble(float64(i)))
		}
		last.L[n-1] = ref.VNull
		out = append(out, last)
	}
	leaves := []*ref.V{ref.VNil, ref.VLong(1), ref.VRaw("1"), ref.VDouble(1), ref.VUtf8("1")}
	for n := 1; n <= 3; n++ {
		out = append(out, ref.Trees(n, leaves[:c.Pick(3, 5)], true)...)
	}
	return out
}

// C15: every ordered pair of an alphabet of values, in every pair of flavours.
func C15(c *kit.Ctx) {
	vs := equalityAlphabet(c)
	var xs [][]value.Value
	flav := make([]string, ref.NFlavours)
	for f := range flav {
		flav[f] = ref.FlavourName(f)
	}
	for _, v := range vs {
		var x []value.Value
		if !v.IsContainer() {
			x = append(x, ref.Scalar(v))
			if v.K != ref.Nil {
				y, err := value.Unpack(v.Encode(), false)
				if err == nil {
					x = append(x, y)
				}
			}
		} else {
			for f := 0; f < ref.NFlavours; f++ {
				if f != ref.FDecoded || !v.HasEmptySparse() {
					x = append(x, ref.Build(v, f))
				}
			}
		}
		xs = append(xs, x)
	}
	c.Bound("values", len(vs))
	c.Bound("pairs", "all ordered pairs of values, each in all pairs of flavours (immutable, mutable, grown, unsorted, decoded)")
	c.Sample("%s with %s", vs[10].Short(), vs[len(vs)/2].Short())
	c.Par("pairs", len(vs), func(w *kit.W, i int) {
		for j := range vs {
			w.NewState()
			want := modelEqual(vs[i], vs[j])
			for fa, a := range xs[i] {
				for fb, b := range xs[j] {
					w.Step(func() string {
						return fmt.Sprintf("%s (%d) compared with %s (%d)", vs[i].Short(), fa, vs[j].Short(), fb)
					})
					w.Trace()
					got := value.Equal(a, b)
					if a != nil && a.Equal(b) != got {
						w.Fail("the method gives %v, the function %v", !got, got)
					}
					if back := value.Equal(b, a); back != got {
						w.Fail("gives %v, in the other direction %v", got, back)
					}
					if want != maybe && got != (want == yes) {
						w.Fail("gives %v", got)
					}
				}
			}
		}
		// reading does not change anything
		for f, a := range xs[i] {
			if g := ref.Observe(a); !ref.Same(g.Norm(), vs[i].Norm()) {
				w.Step(func() string { return fmt.Sprintf("%s (%d)", vs[i].Short(), f) })
				w.Fail("is %s after the comparisons", g.Short())
			}
		}
	})
	// every pair of neighbours around every power of two, in all types
	ints := ref.IntBoundaries()
	c.Par("neighbouring-numbers", len(ints), func(w *kit.W, i int) {
		forms := func(n *big.Int) []*ref.V {
			r := []*ref.V{ref.VBig(n), ref.VDec(n, 0), ref.VDec(new(big.Int).Mul(n, big.NewInt(1000)), -3)}
			if n.IsInt64() {
				r = append(r, ref.VLong(n.Int64()))
			}
			f, _ := new(big.Float).SetInt(n).Float64()
			return append(r, ref.VDouble(f))
		}
		a := big.NewInt(ints[i])
		for d := int64(-2); d <= 2; d++ {
			for _, neg := range []bool{false, true} {
				b := new(big.Int).Add(a, big.NewInt(d))
				if neg {
					b.Neg(b)
				}
				for _, x := range forms(a) {
					for _, y := range forms(b) {
						w.NewState()
						w.Step(func() string { return fmt.Sprintf("%s compared with %s", x.Short(), y.Short()) })
						w.Trace()
						p, q := ref.Scalar(x), ref.Scalar(y)
						got := p.Equal(q)
						if q.Equal(p) != got {
							w.Fail("gives %v, in the other direction %v", got, !got)
						}
						if want := equalNumbers(x, y); want != maybe && got != (want == yes) {
							w.Fail("gives %v", got)
						}
					}
				}
			}
		}
	})
	longPayloads(c)
	relatives(c)
	// items and entries
	var small []*ref.V
	for _, v := range vs {
		if len(small) < 60 && (!v.IsContainer() || len(v.L) < 2) {
			small = append(small, v)
		}
	}
	for _, v := range vs {
		if v.IsContainer() && len(small) < 90 {
			small = append(small, v)
		}
	}
	c.Par("entries-and-items", len(small), func(w *kit.W, i int) {
		for j := range small {
			want := modelEqual(small[i], small[j])
			for ka := 0; ka < 2; ka++ {
				for kb := 0; kb < 2; kb++ {
					for f := 0; f < 4; f++ {
						w.NewState()
						w.Step(func() string {
							return fmt.Sprintf("entries %d:%s and %d:%s (kinds %d)", ka, small[i].Short(), kb, small[j].Short(), f)
						})
						mk := []func(int, value.Value) value.ListItem{value.ImmutableItem, value.MutableItem}
						ek := []func(string, value.Value) value.MapEntry{value.ImmutableEntry, value.MutableEntry}
						keys := []string{"x", "y"}
						a, b := mk[f&1](ka, ref.Build(small[i], 0)), mk[f>>1](kb, ref.Build(small[j], 1))
						e, g := ek[f&1](keys[ka], ref.Build(small[i], 0)), ek[f>>1](keys[kb], ref.Build(small[j], 1))
						w.Trace()
						if want != maybe {
							ok := ka == kb && want == yes
							if a.Equal(b) != ok || b.Equal(a) != ok {
								w.Fail("items give %v and %v", a.Equal(b), b.Equal(a))
							}
							if e.Equal(g) != ok || g.Equal(e) != ok {
								w.Fail("entries give %v and %v", e.Equal(g), g.Equal(e))
							}
						}
					}
				}
			}
		}
	})
}

// longPayloads: texts, blobs, extensions, big integers, keys and lists of every size that differ in one place.
func longPayloads(c *kit.Ctx) {
	sizes := []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 1030, 2047, 2048, 2049, 4095, 4096, 4097, 5000}
	if c.Thorough() {
		sizes = append(sizes, 8191, 8192, 8193, 16385, 32767, 32769, 65535, 65536, 65537, 100000)
	}
	c.Bound("long_payload_sizes", sizes)
	type form struct {
		name string
		mk   func(s string) *ref.V
	}
	forms := []form{
		{"text", ref.VUtf8}, {"blob", ref.VRaw},
		{"extension", func(s string) *ref.V { return ref.VExt(77, s) }},
		{"big integer", func(s string) *ref.V { return ref.VBig(new(big.Int).SetBytes([]byte(s))) }},
		{"decimal", func(s string) *ref.V { return ref.VDec(new(big.Int).SetBytes([]byte(s)), 0) }},
		{"map with key", func(s string) *ref.V { return ref.VMap([]string{s}, []*ref.V{ref.VTrue}) }},
		{"list of text", func(s string) *ref.V { return ref.VList(ref.VTrue, ref.VUtf8(s)) }},
		{"list of bytes", func(s string) *ref.V {
			l := &ref.V{K: ref.List}
			for i := range []byte(s) {
				l.L = append(l.L, ref.VLong(int64(s[i])))
			}
			return l
		}},
		{"sparse list of bytes", func(s string) *ref.V {
			l := &ref.V{K: ref.Sparse}
			for i := range []byte(s) {
				l.IK, l.L = append(l.IK, i), append(l.L, ref.VLong(int64(s[i])))
			}
			return l
		}},
		{"sparse list of offsets", func(s string) *ref.V {
			l, at := &ref.V{K: ref.Sparse}, 0
			for i := range []byte(s) {
				at += int(s[i])
				l.IK, l.L = append(l.IK, at), append(l.L, ref.VTrue)
			}
			return l
		}},
		{"map of bytes", func(s string) *ref.V {
			l := &ref.V{K: ref.Map}
			for i := range []byte(s) {
				l.SK, l.L = append(l.SK, fmt.Sprintf("%06d", i)), append(l.L, ref.VLong(int64(s[i])))
			}
			return l
		}},
		{"map of keys", func(s string) *ref.V {
			l := &ref.V{K: ref.Map}
			for i := range []byte(s) {
				l.SK, l.L = append(l.SK, fmt.Sprintf("%06d%c", i, s[i])), append(l.L, ref.VTrue)
			}
			return l
		}},
	}
	partner := map[int]int{0: 1, 1: 0, 3: 4, 4: 3, 7: 8, 8: 7}
	c.Par("long-payloads", len(sizes)*len(forms), func(w *kit.W, i int) {
		n, f := sizes[len(sizes)-1-i/len(forms)], i%len(forms)
		if n > 5000 && f == 9 || n > 10000 && f > 2 {
			return
		}
		b := make([]byte, n)
		for k := range b {
			b[k] = 'b' + byte(k%23)
		}
		places := map[int]bool{}
		for _, k := range []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 23, 31, 32, 33, 47, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 65535, 65536, n / 2, n/2 - 1, n/2 + 1, n / 3} {
			places[k] = true
			places[n-1-k] = true
		}
		if f < 7 { // cheap ones everywhere
			for k := 0; k < n; k += 1 + n/400 {
				places[k] = true
			}
		}
		v := forms[f].mk(string(b))
		type other struct {
			f int
			x value.Value
		}
		as := []other{{f, ref.Build(v, ref.FImmutable)}}
		if v.IsContainer() {
			as = append(as, other{f, ref.Build(v, ref.FMutable)}, other{f, ref.Build(v, ref.FDecoded)})
		}
		if p, ok := partner[f]; ok {
			as = append(as, other{p, ref.Build(forms[p].mk(string(b)), ref.FMutable)})
		}
		check := func(what string, x value.Value, want bool) {
			for k, a := range as {
				w.NewState()
				w.Step(func() string {
					return fmt.Sprintf("%s of length %d (%s, %d) compared with one %s", forms[f].name, n, forms[a.f].name, k, what)
				})
				w.Trace()
				if l, r := value.Equal(a.x, x), value.Equal(x, a.x); l != want || r != want {
					w.Fail("gives %v, in the other direction %v", l, r)
				}
			}
		}
		check("with the same content", ref.Build(forms[f].mk(string(b)), ref.FImmutable), true)
		check("with the same content, decoded", ref.Build(forms[f].mk(string(b)), ref.FDecoded), true)
		for k := range places {
			if k < 0 || k >= n {
				continue
			}
			m := append([]byte(nil), b...)
			m[k]++
			check(fmt.Sprintf("that differs at position %d", k), ref.Build(forms[f].mk(string(m)), ref.FImmutable), false)
			if n <= 100 || k < 3 || k > n-3 {
				for _, flip := range []byte{0x20, 0x80, 0x01, 0x10} {
					m[k] = b[k] ^ flip
					check(fmt.Sprintf("that differs in bit %02x of position %d", flip, k), ref.Build(forms[f].mk(string(m)), ref.FImmutable), false)
				}
			}
		}
		check("without the last one", ref.Build(forms[f].mk(string(b[:n-1])), ref.FImmutable), false)
		check("without the first one", ref.Build(forms[f].mk(string(b[1:])), ref.FImmutable), false)
		check("with one more", ref.Build(forms[f].mk(string(b)+"a"), ref.FImmutable), false)
	})
}

// relatives: large containers and those made of them by one or two operations, which share entries.
func relatives(c *kit.Ctx) {
	sizes := []int{2, 3, 5, 8, 9, 17, 33, 65, 66, 100, 129, 257, 300, 600, 1030}
	if c.Thorough() {
		sizes = append(sizes, 4, 16, 32, 64, 128, 130, 256, 513, 1024, 2050, 4100)
	}
	c.Bound("relatives", fmt.Sprintf("sizes %v, one or two operations at up to 40 places, all pairs of original, results and fresh copies", sizes))
	kinds := []ref.Kind{ref.List, ref.Map, ref.Sparse}
	c.Par("relatives", len(sizes)*len(kinds), func(w *kit.W, ci int) {
		n, kind := sizes[len(sizes)-1-ci/len(kinds)], kinds[ci%len(kinds)]
		v := &ref.V{K: kind}
		for i := 0; i < n; i++ {
			v.L = append(v.L, ref.VLong(int64(i)))
			switch kind {
			case ref.Map:
				v.SK = append(v.SK, fmt.Sprintf("%05d", 2*i))
			case ref.Sparse:
				v.IK = append(v.IK, 2*i)
			}
		}
		places := map[int]bool{}
		for _, p := range []int{0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 511, 512, n / 2, n / 3, n / 4, n/4 + 1, 3 * n / 4, n / 5} {
			for _, q := range []int{p, n - 1 - p} {
				if q >= 0 && q < n {
					places[q] = true
				}
			}
		}
		var ps []int
		for p := range places {
			ps = append(ps, p)
		}
		sort.Ints(ps)
		at := func(name string, p int, val *ref.V) ref.Op {
			o := ref.Op{Name: name, I: p, Val: val}
			switch kind {
			case ref.Map:
				o.I, o.K = 0, v.SK[p]
			case ref.Sparse:
				o.I = v.IK[p]
			}
			return o
		}
		for f := 0; f < ref.NFlavours; f++ {
			if f == ref.FUnsorted || n > 300 && !c.Thorough() && (f == ref.FImmOps || f == ref.FMutOps) {
				continue
			}
			mut := kind != ref.Sparse && (f == ref.FMutable || f == ref.FMutOps)
			for _, p := range ps {
				for _, o := range []ref.Op{at("put", p, ref.VLong(int64(p))), at("put", p, ref.VUtf8("other")), at("put", p, ref.VDouble(float64(p))), at("insert", p, ref.VLong(int64(p))), at("remove", p, nil), at("deleteall", p, nil)} {
					type made struct {
						x value.Value
						v *ref.V
					}
					x := ref.Build(v, f)
					base := x
					if mut { // its memory is given to the result
						base = ref.Build(v, f)
					}
					d := apply(w, x, o)
					dv := ref.Apply(v, o)
					all := []made{{base, v}, {d, dv}}
					if !mut {
						back := o
						if o.Name == "remove" || o.Name == "deleteall" {
							back = at("insert", p, v.L[p])
						} else if o.Name == "insert" {
							back = at("remove", p, nil)
						} else {
							back = at("put", p, v.L[p])
						}
						all = append(all, made{apply(w, d, back), ref.Apply(dv, back)})
					}
					all = append(all, made{ref.Build(v, ref.FImmutable), v}, made{ref.Build(v, ref.FMutable), v})
					for i := range all {
						for j := range all {
							if i > 2 && j > 2 || i == j && n > 100 {
								continue
							}
							w.NewState()
							w.Step(func() string {
								return fmt.Sprintf("%s of %d entries, %s, %s; %d compared with %d (0 before, 1 after, 2 undone, 3.. others)", ref.FlavourName(f), n, []string{"list", "map", "sparse list"}[ci%len(kinds)], o.String(kind), i, j)
							})
							w.Trace()
							want := yes
							if all[i].v != all[j].v {
								want = modelEqual(all[i].v, all[j].v)
							}
							got := all[i].x.Equal(all[j].x)
							if want != maybe && got != (want == yes) {
								w.Fail("gives %v", got)
							}
							if value.Equal(all[i].x, all[j].x) != got {
								w.Fail("the method gives %v, the function %v", got, !got)
							}
						}
					}
				}
			}
		}
	})
}
