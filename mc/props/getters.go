package props

import (
	"encoding/base64"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

func init() { All["C14"] = C14 }

// scalarText is the text form of a scalar; that of a double only has to denote it.
func scalarText(v *ref.V, x value.Value) (string, string) {
	if v.K != ref.Double {
		return v.Text(), ""
	}
	s := x.String()
	f, err := strconv.ParseFloat(s, 64)
	if d := v.Float(); err != nil || !(math.IsNaN(d) && math.IsNaN(f) || d == f) {
		return s, fmt.Sprintf("text form of the double %v is %q", d, s)
	}
	return s, ""
}

// numberIs compares a parsed number with what the model says about its text.
func numberIs(got value.Number, want *ref.V, sure ref.Sure) string {
	if got == nil {
		return "the number is nil"
	}
	g := ref.Observe(got)
	switch sure {
	case ref.NaN:
		if !got.IsNaN() || g.K != ref.Double {
			return fmt.Sprintf("the number is %s, expected NaN", g.Short())
		}
	case ref.Exact:
		if !ref.Same(g, want) {
			return fmt.Sprintf("the number is %s, expected %s", g.Short(), want.Short())
		}
	case ref.Value:
		if !g.Finite() || g.Rat().Cmp(want.Rat()) != 0 {
			return fmt.Sprintf("the number is %s, expected %s", g.Short(), want.Short())
		}
	}
	return ""
}

var trueTexts = map[string]bool{"1": true, "t": true, "T": true, "TRUE": true, "true": true, "True": true}

// modelString is the string a text form denotes.
func modelString(s string) *ref.V {
	if strings.HasPrefix(s, ref.B64Prefix) {
		if raw, err := base64.RawStdEncoding.DecodeString(s[len(ref.B64Prefix):]); err == nil {
			return ref.VRaw(string(raw))
		}
	}
	return ref.VUtf8(s)
}

// getter holds the five typed getters of a container at one place.
type getter struct {
	b func() value.Bool
	n func() value.Number
	s func() value.String
	l func() value.List
	m func() value.Map
}

// checkGetters compares the typed getters with the element e found there (nil when absent); it
// returns what the getters gave on container elements, which only has to agree across flavours.
func checkGetters(g getter, e *ref.V) (string, string) {
	b, n, s, l, m := g.b(), g.n(), g.s(), g.l(), g.m()
	if b == nil || n == nil || s == nil || l == nil || m == nil {
		return "", fmt.Sprintf("a getter returned nil: %v %v %v %v %v", b == nil, n == nil, s == nil, l == nil, m == nil)
	}
	gb, gn, gs, gl, gm := ref.Observe(b), ref.Observe(n), ref.Observe(s), ref.Observe(l), ref.Observe(m)
	all := gb.Canon() + " " + gn.Canon() + " " + gs.Canon()
	expect := func(what string, got, want *ref.V) string {
		if !ref.Same(got, want) {
			return fmt.Sprintf("as %s it is %s, expected %s", what, got.Short(), want.Short())
		}
		return ""
	}
	if e == nil || e.K == ref.Nil || e.K == ref.Null {
		for _, r := range []string{expect("boolean", gb, ref.VFalse), expect("number", gn, ref.VLong(0)), expect("string", gs, ref.VUtf8("")),
			expect("list", gl, ref.VList()), expect("map", gm, ref.VMap(nil, nil))} {
			if r != "" {
				return all, r
			}
		}
		return all, ""
	}
	if !e.IsContainer() {
		text, bad := "", ""
		if e.K == ref.Double {
			text, bad = scalarText(e, ref.Scalar(e))
		} else {
			text = e.Text()
		}
		if bad != "" {
			return all, bad
		}
		want := ref.VBool(trueTexts[text])
		if e.K == ref.Bool {
			want = e
		}
		if r := expect("boolean", gb, want); r != "" {
			return all, r
		}
		if e.IsNumber() {
			if r := expect("number", gn, e); r != "" {
				return all, r
			}
		} else {
			v, sure := ref.ParseNum(text)
			if r := numberIs(n, v, sure); r != "" {
				return all, r
			}
		}
		ws := modelString(text)
		if e.K == ref.Utf8 || e.K == ref.Raw {
			ws = e
		}
		if r := expect("string", gs, ws); r != "" {
			return all, r
		}
		if r := expect("list", gl, ref.VList()); r != "" {
			return all, r
		}
		return all, expect("map", gm, ref.VMap(nil, nil))
	}
	switch e.K {
	case ref.List, ref.Sparse:
		if r := expect("list", gl, e); r != "" {
			return all, r
		}
		// the elements under their decimal index
		type kv struct {
			k string
			v *ref.V
		}
		var es []kv
		for i, x := range e.L {
			k := i
			if e.K == ref.Sparse {
				k = e.IK[i]
			}
			es = append(es, kv{strconv.Itoa(k), x})
		}
		sort.SliceStable(es, func(i, j int) bool { return es[i].k < es[j].k })
		if len(gm.SK) != len(es) {
			return all, fmt.Sprintf("as map it has %d entries, expected %d", len(gm.SK), len(es))
		}
		for i := range es {
			if gm.SK[i] != es[i].k {
				return all, fmt.Sprintf("as map its key %d is %q, expected %q", i, gm.SK[i], es[i].k)
			}
			if !ref.Same(gm.L[i].Norm(), es[i].v.Norm()) {
				return all, fmt.Sprintf("as map its entry %d under %q is %s, that of the list is %s", i, gm.SK[i], gm.L[i].Short(), es[i].v.Short())
			}
		}
	case ref.Map:
		if r := expect("map", gm, e); r != "" {
			return all, r
		}
		if r := expect("list", gl, ref.VList(e.L...)); r != "" {
			return all, r
		}
	}
	return all, ""
}

func getterElems(c *kit.Ctx) []*ref.V {
	out := []*ref.V{ref.VNil, ref.VNull, ref.VTrue, ref.VFalse}
	for _, i := range []int64{0, 1, -1, 2, 127, 128, 1000000, math.MaxInt64, math.MinInt64} {
		out = append(out, ref.VLong(i))
	}
	for _, b := range ref.DoubleBits() {
		out = append(out, ref.VDoubleBits(b))
	}
	for _, n := range ref.BigInts()[:c.Pick(30, 150)] {
		out = append(out, ref.VBig(n), ref.VDec(n, 0), ref.VDec(n, -3), ref.VDec(n, 17))
	}
	for _, s := range append(ref.SpecialStrings, "", "t", "f", "T", "F", "TRUE", "True", "FALSE", "False", "false", "tRUE", "0", "-0", "01", "+1", "007", "-0x1f", "0X1F", "0x", "0x1x-2", "0x1x0", "0x1x123456789a", "1e3", "1E-3", "1e400", ".5", "5.", ".", "-", "+", "--1", "Inf", "-inf", "NaN", "nan", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "12345678901234567890123", "1_000", "0b1", "0o7", "1.2.3", "1,5", "abc", "nil") {
		out = append(out, ref.VUtf8(s), ref.VRaw(s))
	}
	// long texts, most of them numbers
	for _, n := range []int{20, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 1025, c.Pick(2000, 5000)} {
		d := strings.Repeat("1234567890", n/10+1)[:n]
		for _, t := range []string{d, "-" + d, strings.Repeat("0", n-1) + "7", "0." + d, d + ".5", d + "e-" + strconv.Itoa(n), "0x" + d, "-0x" + d, d + "x", strings.Repeat("t", n), strings.Repeat(" ", n) + "1"} {
			out = append(out, ref.VUtf8(t))
		}
		out = append(out, ref.VRaw(d))
	}
	for _, t := range []byte{0, 3, 127, 255} {
		out = append(out, ref.VExt(t, ""), ref.VExt(t, "1"))
	}
	a, b := ref.VLong(7), ref.VUtf8("x")
	many := &ref.V{K: ref.List}
	sp := &ref.V{K: ref.Sparse}
	for i := 0; i < 13; i++ {
		many.L = append(many.L, ref.VLong(int64(i)))
		sp.L = append(sp.L, ref.VLong(int64(i)))
		sp.IK = append(sp.IK, 3*i-7)
	}
	for _, n := range []int{12, 13, 14, 20, 40} {
		for shape := 1; shape < 9; shape++ {
			out = append(out, intModel(n, shape, false))
			if shape > 3 {
				out = append(out, mapModel(n, shape, false))
			}
		}
		out = append(out, listModel(n, true), listModel(4*n, false))
	}
	for _, n := range []int{257, 600, c.Pick(1100, 5000)} {
		m := &ref.V{K: ref.Map}
		for i := 0; i < n; i++ {
			m.SK, m.L = append(m.SK, fmt.Sprintf("%05d", i)), append(m.L, ref.VLong(int64(i)))
		}
		out = append(out, intModel(n, 0, false), m, listModel(n, false))
	}
	// few entries whose indexes order differently as numbers and as texts
	for _, ix := range [][]int{{-2, -1}, {-1, 0}, {-10, -9}, {2, 10}, {9, 10, 11}, {-1, 2, 10}, {-10, -9, -2, -1, 0, 3}, {-3, -2, -2, -1}, {-100, -20, -3, 4, 20, 100},
		{5, 50, 500}, {1, 2, 10, 20, 100, 200, 1000}, {-7, -6, -5, -4, -3, -2, -1, 0, 1}, {8, 9, 10, 11, 12, 13, 14, 15, 16, 17}, {math.MinInt32, -1, math.MaxInt32}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}} {
		s := &ref.V{K: ref.Sparse, IK: ix}
		for k := range ix {
			s.L = append(s.L, ref.VLong(int64(100+k)))
		}
		out = append(out, s)
	}
	// containers with holes
	for _, n := range []int{2, 3, 9, 10, 11, 12, 13, 14, 25, 101} {
		for _, hole := range []func(i int) bool{
			func(i int) bool { return i == 0 }, func(i int) bool { return i == n-1 }, func(i int) bool { return i == n/2 },
			func(i int) bool { return i < n-1 }, func(i int) bool { return i > 0 }, func(i int) bool { return i%2 == 1 }, func(i int) bool { return i >= 10 }, func(i int) bool { return true }} {
			l, m, s := &ref.V{K: ref.List}, &ref.V{K: ref.Map}, &ref.V{K: ref.Sparse}
			for i := 0; i < n; i++ {
				e := ref.VLong(int64(i))
				if hole(i) {
					e = ref.VNil
				} else if i%5 == 4 {
					e = ref.VNull
				}
				l.L, m.L, s.L = append(l.L, e), append(m.L, e), append(s.L, e)
				m.SK, s.IK = append(m.SK, fmt.Sprintf("%03d", i)), append(s.IK, i-i%2)
			}
			out = append(out, l)
			if n < 14 {
				out = append(out, m, s)
			}
		}
	}
	out = append(out, ref.VList(), ref.VSparse(nil, nil), ref.VMap(nil, nil), ref.VList(a), ref.VList(a, b, ref.VNull), ref.VList(ref.VNil, a), many, sp,
		ref.VSparse([]int{0}, []*ref.V{a}), ref.VSparse([]int{0, 1}, []*ref.V{a, b}), ref.VSparse([]int{-3, -3, 5, 10}, []*ref.V{a, b, ref.VNull, a}), ref.VSparse([]int{2, 2, 2}, []*ref.V{a, b, a}),
		ref.VMap([]string{"a"}, []*ref.V{a}), ref.VMap([]string{"", "0", "1", "a"}, []*ref.V{a, b, ref.VNull, ref.VList(a)}), ref.VMap([]string{"k", "k", "k"}, []*ref.V{a, b, a}),
		ref.VList(ref.VMap([]string{"a"}, []*ref.V{ref.VList(a)}), ref.VSparse([]int{4}, []*ref.V{b})))
	return out
}

// C14: every element kind at every place of every container flavour, read with every typed getter.
func C14(c *kit.Ctx) {
	elems := getterElems(c)
	c.Bound("elements", len(elems))
	c.Bound("containers", "lists, sparse lists and maps of 1 to 4 entries, all flavours, the element at every place, all places and absent ones read")
	c.Sample("elements: %s ... %s", elems[5].Short(), elems[len(elems)-1].Short())
	c.Par("getters", len(elems), func(w *kit.W, i int) {
		e := elems[i]
		var conts []*ref.V
		o := ref.VUtf8("other")
		for n := 1; n <= 4; n++ {
			for p := 0; p < n; p++ {
				l := &ref.V{K: ref.List}
				s := &ref.V{K: ref.Sparse}
				m := &ref.V{K: ref.Map}
				for k := 0; k < n; k++ {
					x := o
					if k == p {
						x = e
					}
					l.L = append(l.L, x)
					s.L = append(s.L, x)
					s.IK = append(s.IK, 3*k-2)
					m.L = append(m.L, x)
					m.SK = append(m.SK, []string{"", "10", "9", "k"}[k])
				}
				conts = append(conts, l, s, m)
			}
		}
		// duplicate keys: the first entry counts
		conts = append(conts, ref.VSparse([]int{2, 2}, []*ref.V{e, o}), ref.VSparse([]int{2, 2}, []*ref.V{o, e}),
			ref.VMap([]string{"d", "d"}, []*ref.V{e, o}), ref.VMap([]string{"d", "d"}, []*ref.V{o, e}))
		for _, v := range conts {
			agree := map[string]string{}
			for f := 0; f < ref.NFlavours; f++ {
				want := v
				if f == ref.FDecoded {
					if v.HasEmptySparse() {
						continue
					}
					want = v.Norm()
				}
				x := ref.Build(v, f)
				if r := ref.Observe(x); !ref.Same(r, v) { // operations and decoding turn nil into null
					want = r
				}
				one := func(place string, g getter, el *ref.V) {
					w.NewState()
					w.Step(func() string {
						return fmt.Sprintf("typed getters of the %s %s at %s", ref.FlavourName(f), v.Short(), place)
					})
					all, bad := checkGetters(g, el)
					w.Trace()
					if bad != "" {
						w.Fail("%s", bad)
					}
					if p, ok := agree[place]; ok && p != all {
						w.Fail("this flavour gives %s, another one %s", all, p)
					}
					agree[place] = all
				}
				switch y := x.(type) {
				case value.List:
					for _, p := range []int{math.MinInt64, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 100, math.MaxInt64} {
						var el *ref.V
						if j := first(want, p, ""); j >= 0 {
							el = want.L[j]
						}
						one(strconv.Itoa(p), getter{func() value.Bool { return y.GetBoolAt(p) }, func() value.Number { return y.GetNumberAt(p) },
							func() value.String { return y.GetStringAt(p) }, func() value.List { return y.GetListAt(p) }, func() value.Map { return y.GetMapAt(p) }}, el)
					}
				case value.Map:
					for _, k := range []string{"", "10", "9", "k", "d", "absent", "1", "~"} {
						var el *ref.V
						if j := first(want, 0, k); j >= 0 {
							el = want.L[j]
						}
						one(strconv.Quote(k), getter{func() value.Bool { return y.GetBool(k) }, func() value.Number { return y.GetNumber(k) },
							func() value.String { return y.GetString(k) }, func() value.List { return y.GetList(k) }, func() value.Map { return y.GetMap(k) }}, el)
					}
				}
				if !ref.Same(ref.Observe(x), want) {
					w.Fail("reading changed the container to %s", ref.Observe(x).Short())
				}
			}
		}
	})
}

var _ = big.NewInt
