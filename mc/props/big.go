package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

// keyFamilies are sets of n keys in order: numbers, first bytes and characters of every kind, long common
// prefixes, several entries of every key.
func keyFamilies(n int) map[string][]string {
	f := map[string][]string{}
	prefix := strings.Repeat("prefix--", 6)
	for i := 0; i < n; i++ {
		f["numbers"] = append(f["numbers"], fmt.Sprintf("%06d", i))
		f["bytes"] = append(f["bytes"], string([]byte{byte(i * 37), byte(i >> 8 * 91), byte(i)}[:1+i%3]))
		f["characters"] = append(f["characters"], string(rune(0x20+i*7919%0xd700))+string(rune('a'+i%26)))
		f["prefixes"] = append(f["prefixes"], prefix[:i%49]+fmt.Sprint(i*7919%100003))
		f["repeated"] = append(f["repeated"], fmt.Sprintf("k%d", i/5))
	}
	for _, ks := range f {
		sort.Strings(ks)
	}
	return f
}

func indexFamilies(n int) map[string][]int {
	f := map[string][]int{}
	for i := 0; i < n; i++ {
		f["numbers"] = append(f["numbers"], i)
		f["signed"] = append(f["signed"], 3*i-n)
		f["far"] = append(f["far"], (i-n/2)<<48)
		f["repeated"] = append(f["repeated"], i/5)
	}
	return f
}

// bigOps: every single operation at the places where blocks could begin or end, on containers of many sizes.
func bigOps(c *kit.Ctx, label string, kind ref.Kind) {
	sizes := []int{100, 128, 129, 256, 257, 300, 520, 600, 1025, 1030, 2050, 4100}
	if c.Thorough() {
		sizes = append(sizes, 127, 255, 511, 512, 513, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 4097, 5000, 10000)
	}
	c.Bound(label+"_sizes", sizes)
	type bs struct {
		n     int
		s     start
		immut bool
	}
	var all []bs
	for k := len(sizes) - 1; k >= 0; k-- {
		n := sizes[k]
		add := func(name string, v *ref.V, flavours ...int) {
			for i := range v.SK {
				v.L = append(v.L, ref.VLong(int64(i)))
			}
			for i := range v.IK {
				v.L = append(v.L, ref.VLong(int64(i)))
			}
			for _, f := range flavours {
				if !c.Thorough() && (n > 300 && (f == ref.FImmOps || f == ref.FMutOps) || n > 1100 && (name == "characters" || name == "numbers" || name == "signed" || name == "far")) {
					continue
				}
				all = append(all, bs{n, start{fmt.Sprintf("%s, %d elements, keys: %s", ref.FlavourName(f), n, name), v, func() value.Value { return ref.Build(v, f) }}, f == ref.FImmutable || f == ref.FImmOps || f == ref.FDecoded})
			}
		}
		switch kind {
		case ref.List:
			add("positions", listModel(n, false), ref.FImmutable, ref.FMutable, ref.FMutOps)
		case ref.Map:
			for name, ks := range keyFamilies(n) {
				add(name, &ref.V{K: ref.Map, SK: ks}, ref.FImmutable, ref.FMutable, ref.FMutOps)
			}
		case ref.Sparse:
			for name, ks := range indexFamilies(n) {
				add(name, &ref.V{K: ref.Sparse, IK: ks}, ref.FImmutable, ref.FImmOps)
			}
		}
	}
	sort.SliceStable(all, func(i, j int) bool { // the families come in any order
		if all[i].n != all[j].n {
			return all[i].n > all[j].n
		}
		return all[i].s.name < all[j].s.name
	})
	// the work of one container is split
	const parts = 8
	c.Par(label, len(all)*parts, func(w *kit.W, ci int) {
		b, part := all[ci/parts], ci%parts
		v, n := b.s.v, b.n
		places := map[int]bool{}
		for _, p := range []int{0, 1, 2, 15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 2047, 2048, n / 2, n / 3} {
			for _, q := range []int{p, n - p, n - 1 - p} {
				if q >= 0 && q <= n && (n < 1000 || p < 3 || p&(p-1) == 0 && p >= 64 || p == n/2) {
					places[q] = true
				}
			}
		}
		var ps []int
		for p := range places {
			ps = append(ps, p)
		}
		sort.Ints(ps)
		long := make([]*ref.V, 20)
		for i := range long {
			long[i] = ref.VLong(int64(9000 + i))
		}
		for pi, p := range ps {
			if pi%parts != part {
				continue
			}
			var at []ref.Op
			switch {
			case kind == ref.List:
				at = []ref.Op{{I: p}}
			case kind == ref.Map && p < n:
				at = []ref.Op{{K: v.SK[p]}, {K: v.SK[p] + "!"}}
			case kind == ref.Map:
				at = []ref.Op{{K: v.SK[n-1] + "z"}}
			case p < n:
				at = []ref.Op{{I: v.IK[p]}, {I: v.IK[p] + 1}}
			default:
				at = []ref.Op{{I: v.IK[n-1] + 7}}
			}
			x0 := b.s.mk()
			for _, a := range at {
				for _, o := range []ref.Op{{Name: "put", Val: ref.VUtf8("p")}, {Name: "insert", Val: ref.VUtf8("i")}, {Name: "remove"}, {Name: "deleteall"}, {Name: "insertall", Vals: long[:2]}, {Name: "insertall", Vals: long}} {
					o.I, o.K = a.I, a.K
					w.NewState()
					w.Step(func() string { return fmt.Sprintf("%s: %s", b.s.name, o.String(kind)) })
					x := x0
					if !b.immut {
						x = b.s.mk()
					}
					y := apply(w, x, o)
					v2 := ref.Apply(v, o)
					w.Trace()
					if m := CheckViews(y, v2); m != "" {
						w.Fail("%s", short(m))
					}
				}
			}
			if b.immut {
				w.Step(func() string { return b.s.name + " after operations on it" })
				if m := CheckViews(x0, v); m != "" {
					w.Fail("%s", short(m))
				}
			}
		}
	})
}

func short(s string) string {
	if len(s) > 600 {
		return s[:300] + " ... " + s[len(s)-200:]
	}
	return s
}

// updatesOfEqualValues: histories of operations in which everything stored is equal, each followed by
// updates of every entry; only the updated entry may change.
func updatesOfEqualValues(c *kit.Ctx) {
	forms := [][]*ref.V{
		{ref.VLong(1), ref.VLong(1)},
		{ref.VLong(1), ref.VDouble(1)},
		{ref.VNull, ref.VNil},
		{ref.VList(ref.VLong(1)), ref.VList(ref.VLong(1))},
		{ref.VUtf8("1"), ref.VRaw("1")},
	}
	depth := c.Pick(2, 3)
	type cs struct {
		kind ref.Kind
		form int
		grow int // entries of the start
	}
	var cases []cs
	for _, k := range []ref.Kind{ref.List, ref.Map, ref.Sparse} {
		for f := range forms {
			for g := 0; g < 27; g++ {
				cases = append(cases, cs{k, f, g})
			}
		}
	}
	c.Bound("updates_of_equal_values", fmt.Sprintf("%d forms of equal values, starts of three insertions, %d more operations, every update", len(forms), depth))
	c.Par("updates-of-equal-values", len(cases), func(w *kit.W, ci int) {
		t := cases[ci]
		vals := forms[t.form]
		places := 2 // keys; for lists positions 0 to 3
		at := func(p int) ref.Op {
			if t.kind == ref.Map {
				return ref.Op{K: []string{"a", "b"}[p]}
			}
			return ref.Op{I: p}
		}
		mk := func() value.Value {
			switch t.kind {
			case ref.List:
				return value.EmptyMutableList()
			case ref.Map:
				return value.EmptyMutableMap()
			}
			return value.EmptySparseList()
		}
		var ops []ref.Op
		if t.kind == ref.List {
			places = 4
		}
		for p := 0; p < places; p++ {
			for _, e := range vals {
				for _, name := range []string{"put", "insert"} {
					o := at(p)
					o.Name, o.Val = name, e
					ops = append(ops, o)
				}
			}
			o := at(p)
			o.Name, o.Vals = "insertall", []*ref.V{vals[0], vals[1], vals[0]}
			ops = append(ops, o)
			o.Name, o.Vals = "remove", nil
			ops = append(ops, o)
		}
		var path []ref.Op
		for g, k := t.grow, 0; k < 3; g, k = g/3, k+1 {
			if g%3 < 2 {
				o := at(g % 3)
				o.Name, o.Val = "insert", vals[k%2]
				path = append(path, o)
			}
		}
		var rec func(left int)
		rec = func(left int) {
			v := &ref.V{K: t.kind}
			for _, o := range path {
				v = ref.Apply(v, o)
			}
			for p := 0; p < places; p++ {
				for q := 0; q < places; q++ {
					w.NewState()
					w.Step(func() string {
						return fmt.Sprintf("empty%s, then updates at %d and %d", pathString(path, t.kind), p, q)
					})
					x := mk()
					for _, o := range path {
						x = apply(w, x, o)
					}
					want := v
					for k, u := range []int{p, q} {
						o := at(u)
						j := first(want, o.I, o.K)
						up := &spyUpdater{ret: value.Utf8(fmt.Sprint("new", k))}
						if ok := updateAt(x, o.I, o.K, up); ok != (j >= 0) {
							w.Fail("the update at %d reported %v", u, ok)
						}
						w.Trace()
						if j >= 0 {
							want = withElem(want, j, ref.VUtf8(fmt.Sprint("new", k)))
						}
						if m := CheckViews(x, want); m != "" {
							w.Fail("after the update at %d %s", u, m)
						}
					}
				}
			}
			if left == 0 {
				return
			}
			for _, o := range ops {
				path = append(path, o)
				rec(left - 1)
				path = path[:len(path)-1]
			}
		}
		rec(depth)
	})
}

// largeForks: two operations on the same large immutable container, itself fresh or made by an operation;
// none of the three may be seen in another.
func largeForks(c *kit.Ctx, label string, fast bool) {
	sizes := []int{33, 65, 129, 257, 513, 1025, 1030, 2050}
	if c.Thorough() {
		sizes = append(sizes, 34, 64, 66, 128, 130, 256, 300, 512, 600, 1000, 1023, 1024, 4097, 5000)
	}
	c.Bound(label, fmt.Sprintf("sizes %v, at most one of 7 operations before, all pairs of 14 operations", sizes))
	kinds := []ref.Kind{ref.List, ref.Map, ref.Sparse}
	if fast {
		kinds = kinds[:2]
	}
	c.Par(label, len(sizes)*len(kinds)*8, func(w *kit.W, ci int) {
		n, kind, pre := sizes[len(sizes)-1-ci/8/len(kinds)], kinds[ci/8%len(kinds)], ci%8
		v := &ref.V{K: kind}
		for i := 0; i < n; i++ {
			v.L = append(v.L, ref.VLong(int64(i)))
			switch kind {
			case ref.Map:
				v.SK = append(v.SK, fmt.Sprintf("%06d", 2*i))
			case ref.Sparse:
				v.IK = append(v.IK, 2*i)
			}
		}
		at := func(name string, p int, e *ref.V) ref.Op { // p counts half positions
			o := ref.Op{Name: name, Val: e}
			if name == "insertall" {
				o.Val, o.Vals = nil, []*ref.V{e, e, e}
			}
			switch kind {
			case ref.Map:
				o.K = fmt.Sprintf("%06d", p)
			case ref.Sparse:
				o.I = p
			default:
				o.I = p / 2
			}
			return o
		}
		ops := func(n int, e *ref.V) []ref.Op {
			return []ref.Op{at("put", 2*n, e), at("insert", 2*n, e), at("insertall", 2*n, e), at("put", n/2*2, e), at("insert", n/2*2+1, e), at("remove", 2*n-2, nil), at("remove", 0, nil),
				at("put", 0, e), at("insert", 0, e), at("insertall", n/2*2+1, e), at("remove", n/2*2, nil), at("put", 2*n-2, e), at("insert", 2*n-2, e), at("insertall", 0, e)}
		}
		x := ref.Build(v, ref.FImmutable)
		if pre > 0 {
			o := ops(n, ref.VUtf8("pre"))[pre-1]
			x = apply(w, x, o)
			v = ref.Apply(v, o)
		}
		end := n + 3
		if kind == ref.List {
			end = len(v.L)
		}
		as, bs := ops(end, ref.VUtf8("first")), ops(end, ref.VUtf8("second"))
		for i := range as {
			for j := range bs {
				w.NewState()
				w.Step(func() string {
					return fmt.Sprintf("%v of %d entries, operation %d, then on the result both %s and %s", kind, n, pre, as[i].String(kind), bs[j].String(kind))
				})
				a := apply(w, x, as[i])
				b := apply(w, x, bs[j])
				w.Trace()
				for k, y := range []value.Value{x, a, b} {
					want := v
					if k == 1 {
						want = ref.Apply(v, as[i])
					} else if k == 2 {
						want = ref.Apply(v, bs[j])
					}
					if g := ref.Observe(y); !ref.Same(g, want) {
						w.Fail("%s is not as expected", []string{"the common base", "the first result", "the second result"}[k])
					}
				}
			}
		}
	})
}
