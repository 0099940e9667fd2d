package props

import (
	"fmt"
	"math"
	"math/big"
	"reflect"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
	"verif/mc/kit"
	"verif/mc/ref"
)

func init() { All["C26"] = C26 }

// ---------- C26: facets of values ----------

var kindOf = map[ref.Kind]value.Kind{ref.Null: value.NULL, ref.Bool: value.BOOL, ref.Long: value.NUMBER, ref.Double: value.NUMBER, ref.Big: value.NUMBER, ref.Dec: value.NUMBER,
	ref.Utf8: value.STRING, ref.Raw: value.STRING, ref.Ext: value.UNKNOWN, ref.List: value.LIST, ref.Sparse: value.LIST, ref.Map: value.MAP}

// facets tells which facet of x does not describe the content v.
func facets(x value.Value, v *ref.V) string {
	if v.K == ref.Nil {
		if x == nil {
			return ""
		}
		v = ref.VNull // stored or decoded as null
	}
	if x == nil {
		return "expected " + v.Short() + ", found nil"
	}
	if g := x.Kind(); g != kindOf[v.K] {
		return fmt.Sprintf("kind %v, content %s", g, v.Short())
	}
	if g := x.Class(); g != reflect.TypeOf(x) {
		return fmt.Sprintf("class %v, dynamic type %T", g, x)
	}
	// exactly one of the interfaces beside Value
	_, isB := x.(value.Bool)
	_, isN := x.(value.Number)
	_, isS := x.(value.String)
	_, isE := x.(value.Extension)
	_, isL := x.(value.List)
	_, isM := x.(value.Map)
	if isB != (v.K == ref.Bool) || isN != v.IsNumber() || isS != (v.K == ref.Utf8 || v.K == ref.Raw) || isE != (v.K == ref.Ext) || isL != (v.K == ref.List || v.K == ref.Sparse) || isM != (v.K == ref.Map) {
		return fmt.Sprintf("implements Bool %v, Number %v, String %v, Extension %v, List %v, Map %v, content %s", isB, isN, isS, isE, isL, isM, v.Short())
	}
	o := x.Object()
	bad := func() string { return fmt.Sprintf("native object %T %v, content %s", o, o, v.Short()) }
	num := func(t value.NumberType) string {
		n := x.(value.Number)
		if n.Type() != t {
			return fmt.Sprintf("type %v, content %s", n.Type(), v.Short())
		}
		if nan := v.K == ref.Double && v.Float() != v.Float(); n.IsNaN() != nan {
			return fmt.Sprintf("IsNaN %v, content %s", n.IsNaN(), v.Short())
		}
		return ""
	}
	str := func(t value.StringType) string {
		s := x.(value.String)
		if s.Type() != t {
			return fmt.Sprintf("type %v, content %s", s.Type(), v.Short())
		}
		if s.Len() != len(v.S) || s.Utf8() != v.S || string(s.Raw()) != v.S {
			return fmt.Sprintf("length %d, text %q, bytes %x, content %s", s.Len(), s.Utf8(), s.Raw(), v.Short())
		}
		return ""
	}
	els := func(n int, at func(i int) value.Value) string {
		if n != len(v.L) || v.K != ref.Sparse && x.(value.Collection).Len() != n {
			return fmt.Sprintf("length %d, native object of %d, content %s", x.(value.Collection).Len(), n, v.Short())
		}
		for i := 0; i < n; i++ {
			if m := facets(at(i), v.L[i]); m != "" {
				return fmt.Sprintf("native object, element %d: %s", i, m)
			}
		}
		return ""
	}
	switch v.K {
	case ref.Null:
		if o != nil {
			return bad()
		}
	case ref.Bool:
		if b, ok := o.(bool); !ok || b != v.B || x.(value.Bool).Boolean() != v.B {
			return bad()
		}
	case ref.Long:
		if n, ok := o.(int64); !ok || n != v.I {
			return bad()
		}
		return num(value.LONG)
	case ref.Double:
		if n, ok := o.(float64); !ok || math.Float64bits(n) != v.F {
			return bad()
		}
		return num(value.DOUBLE)
	case ref.Big:
		if n, ok := o.(*big.Int); !ok || n.Cmp(v.N) != 0 {
			return bad()
		}
		return num(value.BIGINT)
	case ref.Dec:
		if n, ok := o.(decimal.Decimal); !ok || n.Exponent() != v.E || n.Coefficient().Cmp(v.N) != 0 {
			return bad()
		}
		return num(value.DECIMAL)
	case ref.Utf8:
		if s, ok := o.(string); !ok || s != v.S {
			return bad()
		}
		return str(value.UTF8)
	case ref.Raw:
		if s, ok := o.([]byte); !ok || string(s) != v.S {
			return bad()
		}
		return str(value.RAW)
	case ref.Ext:
		if s, ok := o.([]byte); !ok || string(s) != v.S || string(x.(value.Extension).Native()) != v.S {
			return bad()
		}
		if t, ok := x.(interface {
			Tag() value.Ext
			Data() []byte
		}); ok && len(v.S) > 0 && (byte(t.Tag()) != v.S[0] || string(t.Data()) != v.S[1:]) {
			return fmt.Sprintf("tag %d, data %x, content %s", t.Tag(), t.Data(), v.Short())
		}
	case ref.List:
		s, ok := o.([]value.Value)
		if !ok {
			return bad()
		}
		return els(len(s), func(i int) value.Value { return s[i] })
	case ref.Sparse:
		s, ok := o.([]value.ListItem)
		if !ok {
			return bad()
		}
		for i := range s {
			if i < len(v.IK) && s[i].Key() != v.IK[i] {
				return bad()
			}
		}
		return els(len(s), func(i int) value.Value { return s[i].Value() })
	case ref.Map:
		s, ok := o.([]value.MapEntry)
		if !ok {
			return bad()
		}
		for i := range s {
			if i < len(v.SK) && s[i].Key() != v.SK[i] {
				return bad()
			}
		}
		return els(len(s), func(i int) value.Value { return s[i].Value() })
	}
	return ""
}

func C26(c *kit.Ctx) {
	c.Assume("native objects are compared by content")
	check := func(w *kit.W, how string, x value.Value, v *ref.V) {
		w.NewState()
		w.Trace()
		w.Step(func() string { return how + " of " + v.Short() })
		if m := facets(x, v); m != "" {
			w.Fail("%s", m)
		}
	}
	// values of every kind, constructed and decoded in every way
	var vs []*ref.V
	vs = append(vs, ref.Scalars(c.Pick(300, 5000))...)
	for _, i := range ref.TwoBitInts() {
		vs = append(vs, ref.VLong(i))
	}
	for _, u := range ref.AllExponents() {
		vs = append(vs, ref.VDoubleBits(u))
	}
	for _, s := range ref.Texts() {
		vs = append(vs, ref.VUtf8(s), ref.VRaw(s))
	}
	for n := 1; n <= c.Pick(3, 4); n++ {
		vs = append(vs, ref.Trees(n, ref.SmallLeaves(), true)...)
	}
	vs = append(vs, ref.BigContainers(c.Pick(2000, 20000))...)
	vs = append(vs, ref.Nested(30)...)
	vs = append(vs, ref.SpecialKeyMaps()...)
	c.Bound("values", len(vs))
	c.Sample("every flavour and decoding of %s ... %s", vs[7].Short(), vs[len(vs)/2].Short())
	c.Par("constructed-and-decoded", len(vs), func(w *kit.W, i int) {
		v := vs[i]
		if v.K == ref.Nil {
			return
		}
		for f := 0; f < ref.NFlavours; f++ {
			if f > 0 && !v.IsContainer() {
				break
			}
			check(w, ref.FlavourName(f), ref.Build(v, f), v)
		}
		enc := v.Encode()
		r := ref.Decode(enc)
		if r.St != ref.OK || r.Loose {
			return
		}
		for k := range decoders {
			x, _, err := decoders[k].run(enc)
			if err != nil {
				w.Fail("%s: %v", decoders[k].name, err)
			}
			check(w, decoders[k].name, x, r.V)
		}
	})
	// every other constructor of scalars
	texts := ref.Texts()
	c.Par("constructors-of-strings", len(texts), func(w *kit.W, i int) {
		s := texts[i]
		check(w, "Str", value.Str(s), ref.VUtf8(s))
		check(w, "Utf8", value.Utf8(s), ref.VUtf8(s))
		check(w, "Stringf(%s)", value.Stringf("%s", s), ref.VUtf8(s))
		check(w, "Stringf of two", value.Stringf("<%s|%d>", s, i), ref.VUtf8(fmt.Sprintf("<%s|%d>", s, i)))
		check(w, "Stringf without arguments", value.Stringf(s), ref.VUtf8(fmt.Sprintf(s)))
		check(w, "Stringf without arguments", value.Stringf(s+"%%"), ref.VUtf8(fmt.Sprintf(s+"%%")))
		check(w, "Stringf of one", value.Stringf(s+"%v%%", i), ref.VUtf8(fmt.Sprintf(s+"%v%%", i)))
		check(w, "Raw(copy)", value.Raw([]byte(s), true), ref.VRaw(s))
		check(w, "Raw(nocopy)", value.Raw([]byte(s), false), ref.VRaw(s))
		want := ref.VUtf8(s)
		if s == "null" {
			want = ref.VNull
		}
		check(w, "ParseNull", value.ParseNull(s), want)
	})
	c.Par("constants", 1, func(w *kit.W, _ int) {
		check(w, "True", value.True, ref.VTrue)
		check(w, "False", value.False, ref.VFalse)
		check(w, "Boolean(true)", value.Boolean(true), ref.VTrue)
		check(w, "Boolean(false)", value.Boolean(false), ref.VFalse)
		check(w, "Null", value.Null, ref.VNull)
		check(w, "Nil()", value.Nil(), ref.VNull)
		check(w, "ParseNull(null)", value.ParseNull("null"), ref.VNull)
		check(w, "EmptyString", value.EmptyString, ref.VUtf8(""))
		check(w, "BigInt(nil)", value.BigInt(nil), ref.VBig(new(big.Int)))
		for _, k := range []struct {
			name string
			x    value.Value
			v    *ref.V
		}{
			{"EmptyList(true)", value.EmptyList(true), ref.VList()}, {"EmptyList(false)", value.EmptyList(false), ref.VList()},
			{"EmptyImmutableList", value.EmptyImmutableList(), ref.VList()}, {"EmptyMutableList", value.EmptyMutableList(), ref.VList()},
			{"EmptySparseList", value.EmptySparseList(), ref.VSparse(nil, nil)},
			{"EmptyMap(true)", value.EmptyMap(true), ref.VMap(nil, nil)}, {"EmptyMap(false)", value.EmptyMap(false), ref.VMap(nil, nil)},
			{"EmptyImmutableMap", value.EmptyImmutableMap(), ref.VMap(nil, nil)}, {"EmptyMutableMap", value.EmptyMutableMap(), ref.VMap(nil, nil)},
			{"ImmutableList(nil)", value.ImmutableList(nil), ref.VList()}, {"MutableList(nil)", value.MutableList(nil), ref.VList()},
			{"Tuple()", value.Tuple(), ref.VList()}, {"Single(null)", value.Single(value.Null), ref.VList(ref.VNull)},
			{"SparseList(nil)", value.SparseList(nil, true), ref.VSparse(nil, nil)}, {"SortedMap(nil)", value.SortedMap(nil, true), ref.VMap(nil, nil)},
			{"ImmutableMap(nil)", value.ImmutableMap(nil, false), ref.VMap(nil, nil)}, {"SortedMapOf(nil)", value.SortedMapOf(nil), ref.VMap(nil, nil)},
		} {
			check(w, k.name, k.x, k.v)
		}
		// the names of kinds and types differ
		names := map[string]bool{}
		for k := value.INVALID; k <= value.UNKNOWN; k++ {
			names[k.String()] = true
		}
		for t := value.InvalidNumber; t <= value.DECIMAL; t++ {
			names[t.String()+" number"] = true
		}
		for t := value.InvalidString; t <= value.RAW; t++ {
			names[t.String()+" string"] = true
		}
		w.Step(func() string { return "the names of kinds and types" })
		if len(names) != 8+5+3 {
			w.Fail("%d different names: %v", len(names), names)
		}
		kinds := map[value.Kind]string{value.BOOL: "BOOL", value.NUMBER: "NUMBER", value.STRING: "STRING", value.LIST: "LIST", value.MAP: "MAP", value.UNKNOWN: "UNKNOWN", value.INVALID: "INVALID"}
		for k, n := range kinds {
			if k.String() != n {
				w.Fail("kind %d is named %s, expected %s", k, k.String(), n)
			}
		}
	})
	// classes: equal for values of one representation, different otherwise
	var reps []struct {
		name string
		x    value.Value
	}
	rep := func(name string, x value.Value) {
		reps = append(reps, struct {
			name string
			x    value.Value
		}{name, x})
	}
	rep("null", value.Null)
	for _, v := range []*ref.V{ref.VTrue, ref.VLong(1), ref.VDouble(1), ref.VBig(bigInt(1)), ref.VDec(bigInt(1), 0), ref.VUtf8("1"), ref.VRaw("1"), ref.VExt(1, "1"), ref.VList(ref.VLong(1)), ref.VSparse([]int{1}, []*ref.V{ref.VLong(1)}), ref.VMap([]string{"1"}, []*ref.V{ref.VLong(1)})} {
		for f := 0; f < ref.NFlavours; f++ {
			rep(ref.FlavourName(f)+" "+v.Short(), ref.Build(v, f))
		}
	}
	c.Par("classes", len(reps), func(w *kit.W, i int) {
		for j := range reps {
			w.NewState()
			w.Step(func() string { return "the classes of " + reps[i].name + " and " + reps[j].name })
			if (reps[i].x.Class() == reps[j].x.Class()) != (reflect.TypeOf(reps[i].x) == reflect.TypeOf(reps[j].x)) {
				w.Fail("%v and %v", reps[i].x.Class(), reps[j].x.Class())
			}
			if !reps[i].x.Class().Implements(value.ValueClass) {
				w.Fail("class %v is not a value", reps[i].x.Class())
			}
		}
	})
	// one constructor makes values of one class, whatever its arguments
	v1, e1, i1 := []value.Value{value.True}, []value.MapEntry{value.MutableEntry("k", value.True)}, []value.ListItem{value.MutableItem(0, value.True)}
	one := map[string]value.Value{"k": value.True}
	type family struct {
		name string
		xs   []value.Value
	}
	fams := []family{
		{"ImmutableList", []value.Value{value.ImmutableList(nil), value.ImmutableList(v1[:0]), value.ImmutableList(v1), value.EmptyImmutableList(), value.EmptyList(true), value.EmptyImmutableList().Append(value.True).RemoveAt(0)}},
		{"MutableList", []value.Value{value.MutableList(nil), value.MutableList(v1[:0]), value.MutableList(v1), value.EmptyMutableList(), value.EmptyList(false), value.EmptyMutableList().Append(value.True).RemoveAt(0)}},
		{"Tuple and Single", []value.Value{value.Tuple(), value.Tuple(nil), value.Tuple(value.True), value.Tuple(value.True, value.Null), value.Single(value.True), value.Single(nil)}},
		{"SparseList", []value.Value{value.SparseList(nil, true), value.SparseList(i1, true), value.SparseList(i1, false), value.SparseListOf(nil), value.SparseListOf(v1), value.EmptySparseList(), value.EmptySparseList().Append(value.True), value.EmptySparseList().PutAt(9, value.True).RemoveAt(9)}},
		{"ImmutableMap", []value.Value{value.ImmutableMap(nil, true), value.ImmutableMap(e1, true), value.ImmutableMap(e1, false), value.ImmutableMapOf(nil), value.ImmutableMapOf(one), value.EmptyImmutableMap(), value.EmptyMap(true), value.ImmutableMapCopyOf(value.EmptyMutableMap()), value.ImmutableMapCopyOf(value.SortedMapOf(one)), value.EmptyImmutableMap().Put("k", nil).Remove("k")}},
		{"SortedMap", []value.Value{value.SortedMap(nil, true), value.SortedMap(e1, true), value.SortedMap(e1, false), value.SortedMapOf(nil), value.SortedMapOf(one), value.EmptyMutableMap(), value.EmptyMap(false), value.SortedMapCopyOf(value.EmptyImmutableMap()), value.SortedMapCopyOf(value.ImmutableMapOf(one)), value.EmptyMutableMap().Put("k", nil).Remove("k")}},
	}
	c.Par("classes-of-constructors", len(fams), func(w *kit.W, i int) {
		for j, x := range fams[i].xs {
			w.NewState()
			w.Trace()
			w.Step(func() string { return fmt.Sprintf("%s, value %d of its constructors", fams[i].name, j) })
			if x.Class() != fams[i].xs[0].Class() || reflect.TypeOf(x) != reflect.TypeOf(fams[i].xs[0]) {
				w.Fail("class %v and type %T, the first one has class %v", x.Class(), x, fams[i].xs[0].Class())
			}
		}
	})
	// results of number operations and of every operation on containers
	var nums []*ref.V
	for _, v := range ref.Scalars(20) {
		if v.IsNumber() {
			nums = append(nums, v)
		}
	}
	if n := c.Pick(60, 300); len(nums) > n {
		var some []*ref.V
		for i := 0; i < n; i++ {
			some = append(some, nums[i*len(nums)/n])
		}
		nums = some
	}
	c.Bound("numbers", len(nums))
	c.Sample("%s Add %s", nums[1].Short(), nums[len(nums)/2].Short())
	c.Par("results-of-number-operations", len(nums)*len(nums), func(w *kit.W, i int) {
		a, b := nums[i/len(nums)], nums[i%len(nums)]
		if !moderate(a) || !moderate(b) {
			return
		}
		for k, op := range []string{"Add", "Subtract"} {
			x, y := ref.Scalar(a).(value.Number), ref.Scalar(b).(value.Number)
			w.Step(func() string { return a.Short() + " " + op + " " + b.Short() })
			var r value.Value
			if k == 0 {
				r = x.Add(y)
			} else {
				r = x.Subtract(y)
			}
			check(w, op, r, ref.Observe(r))
		}
	})
	var starts []start
	for _, n := range []int{0, 1, 2, 3, 5, 9} {
		starts = append(starts, listStarts(n, true, true, true)...)
		starts = append(starts, mapStarts(n, 2, true, true, true)...)
		starts = append(starts, sparseStarts(n, 2, true)...)
	}
	c.Bound("containers_operated_on", len(starts))
	c.Par("results-of-container-operations", len(starts), func(w *kit.W, i int) {
		s := starts[i]
		check(w, s.name, s.mk(), s.v)
		for _, o := range opsFor(s.v, 0, 2) {
			check(w, s.name+" "+o.String(s.v.K), apply(w, s.mk(), o), ref.Apply(s.v, o))
		}
	})
}
