package props

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

// wideUnsorted: maps and sparse lists made of many entries in many orders, most of them with repeated
// keys: entries of the same key keep their order.
func wideUnsorted(c *kit.Ctx, label string, kind ref.Kind) {
	sizes := []int{10, 11, 12, 13, 14, 16, 20, 21, 33, 50, 51, 52, 63, 64, 65, 100, 129, 257, 520, 1030}
	if c.Thorough() {
		sizes = append(sizes, 24, 25, 31, 32, 34, 40, 41, 48, 49, 99, 101, 127, 128, 255, 256, 300, 511, 512, 513, 1000, 1025)
	}
	orders := []func(i, n int) int{
		func(i, n int) int { return i % 2 }, func(i, n int) int { return i % 3 }, func(i, n int) int { return i % 7 }, func(i, n int) int { return (n - i) / 3 },
		func(i, n int) int { return n - i }, func(i, n int) int { return i * 7919 % n }, func(i, n int) int { return i * 7919 % n / 4 }, func(i, n int) int { return i * i % 17 },
		func(i, n int) int { return boolInt(i < n-1) }, func(i, n int) int { return boolInt(i == 0) }, func(i, n int) int { return boolInt(i < n/2) },
		func(i, n int) int {
			if i == n-1 {
				return n / 2
			}
			return i
		},
		func(i, n int) int {
			if i == n-1 {
				return n / 4
			}
			return i / 2
		},
		func(i, n int) int { return 0 }, func(i, n int) int { return i / 3 },
	}
	c.Bound(label, fmt.Sprintf("%d sizes from %d to %d entries, %d orders of keys", len(sizes), sizes[0], sizes[len(sizes)-1], len(orders)))
	c.Par(label, len(sizes)*len(orders), func(w *kit.W, ci int) {
		n, order := sizes[ci/len(orders)], orders[ci%len(orders)]
		rank := make([]int, n)
		ord := make([]int, n)
		for i := range rank {
			rank[i], ord[i] = order(i, n), i
		}
		sort.SliceStable(ord, func(i, j int) bool { return rank[ord[i]] < rank[ord[j]] })
		v := &ref.V{K: kind}
		key := func(r int) string { return fmt.Sprintf("%04d", r) }
		for _, o := range ord {
			v.L = append(v.L, ref.VLong(int64(o)))
			if kind == ref.Map {
				v.SK = append(v.SK, key(rank[o]))
			} else {
				v.IK = append(v.IK, rank[o]-3)
			}
		}
		for _, mut := range []bool{false, true} {
			var made []value.Value
			if kind == ref.Map {
				es := func() []value.MapEntry {
					out := make([]value.MapEntry, n)
					for i := range out {
						if mut {
							out[i] = value.MutableEntry(key(rank[i]), value.Long(int64(i)))
						} else {
							out[i] = value.ImmutableEntry(key(rank[i]), value.Long(int64(i)))
						}
					}
					return out
				}
				made = append(made, value.ImmutableMap(es(), false), value.SortedMap(es(), false), value.ImmutableMapCopyOf(value.SortedMap(es(), false)), value.SortedMapCopyOf(value.ImmutableMap(es(), false)))
				b := ref.EncMapHeader(nil, n)
				for i := range rank {
					b = append(ref.VUtf8(key(rank[i])).Enc(b), ref.VLong(int64(i)).Encode()...)
				}
				x, err := value.Unpack(b, mut)
				if err != nil {
					w.Fail("%v", err)
				}
				made = append(made, x)
			} else {
				its := make([]value.ListItem, n)
				for i := range its {
					if mut {
						its[i] = value.MutableItem(rank[i]-3, value.Long(int64(i)))
					} else {
						its[i] = value.ImmutableItem(rank[i]-3, value.Long(int64(i)))
					}
				}
				made = append(made, value.SparseList(its, false))
				b := ref.EncMapHeader(nil, n)
				for i := range rank {
					b = append(ref.VLong(int64(rank[i]-3)).Enc(b), ref.VLong(int64(i)).Encode()...)
				}
				x, err := value.Unpack(b, mut)
				if err != nil {
					w.Fail("%v", err)
				}
				made = append(made, x)
			}
			for k, x := range made {
				w.NewState()
				w.Step(func() string {
					return fmt.Sprintf("construction %d of %d entries in order %d, mutable entries %v", k, n, ci%len(orders), mut)
				})
				w.Trace()
				if n > 300 && c.Tier == "quick" {
					if g := ref.Observe(x); !ref.Same(g, v) {
						w.Fail("is %s", g.Short())
					}
					continue
				}
				if m := CheckViews(x, v); m != "" {
					w.Fail("%s", m)
				}
			}
		}
	})
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// replacements: every one of many values that look alike put in place of every other one, at every
// place of small containers of every flavour, by every operation that can do so.
func replacements(c *kit.Ctx, label string, kind ref.Kind) {
	one := big.NewInt(1)
	alike := []*ref.V{ref.VNil, ref.VNull, ref.VFalse, ref.VTrue,
		ref.VLong(0), ref.VDouble(0), ref.VDouble(math.Copysign(0, -1)), ref.VBig(big.NewInt(0)), ref.VDec(big.NewInt(0), 0), ref.VDec(big.NewInt(0), -2), ref.VUtf8("0"), ref.VRaw("0"), ref.VExt(48, ""),
		ref.VLong(1), ref.VDouble(1), ref.VDouble(math.Nextafter(1, 2)), ref.VDouble(1 - 1e-12), ref.VBig(one), ref.VDec(one, 0), ref.VDec(big.NewInt(10), -1), ref.VDec(big.NewInt(100), -2), ref.VUtf8("1"), ref.VRaw("1"),
		ref.VDoubleBits(0x7ff8000000000000), ref.VDoubleBits(0x7ff8000000000001), ref.VDoubleBits(0xfff8000000000000), ref.VUtf8("NaN"),
		ref.VUtf8(""), ref.VRaw(""), ref.VUtf8("null"), ref.VUtf8("a"), ref.VUtf8("A"), ref.VExt(7, "a"), ref.VExt(7, "A"), ref.VExt(8, "a"),
		ref.VList(), ref.VMap(nil, nil), ref.VSparse(nil, nil), ref.VList(ref.VNull), ref.VList(ref.VNil), ref.VList(ref.VLong(1)), ref.VList(ref.VDouble(1)), ref.VSparse([]int{0}, []*ref.V{ref.VLong(1)}),
		ref.VMap([]string{"0"}, []*ref.V{ref.VLong(1)}), ref.VMap([]string{"0"}, []*ref.V{ref.VDouble(1)})}
	c.Bound(label, fmt.Sprintf("all ordered pairs of %d values", len(alike)))
	c.Par(label, len(alike), func(w *kit.W, i int) {
		a := alike[i]
		for _, b := range alike {
			for n := 1; n <= 3; n++ {
				for p := 0; p < n; p++ {
					v := &ref.V{K: kind}
					for k := 0; k < n; k++ {
						e := b
						if k == p {
							e = a
						}
						v.L = append(v.L, e)
						v.SK, v.IK = append(v.SK, string(rune('a'+k))), append(v.IK, 2*k)
					}
					o := ref.Op{I: p, Val: b}
					if kind != ref.List {
						v.SK, v.IK = v.SK[:n], v.IK[:n]
						o.I = 2 * p
					}
					if kind == ref.Map {
						v.IK, o.K = nil, v.SK[p]
					} else {
						v.SK = nil
						if kind == ref.List {
							v.IK = nil
						}
					}
					for f := 0; f < ref.NFlavours; f++ {
						if f == ref.FDecoded && (v.HasEmptySparse() || hasNil(v)) || kind == ref.List && f == ref.FUnsorted {
							continue
						}
						for _, name := range []string{"put", "insert"} {
							q := o
							q.Name = name
							w.NewState()
							w.Step(func() string { return v.Short() + " " + pathString([]ref.Op{q}, kind) + " of " + ref.FlavourName(f) })
							x := ref.Build(v, f)
							y := apply(w, x, q)
							w.Trace()
							v2 := ref.Apply(v, q)
							if g := ref.Observe(y); !ref.Same(g.Norm(), v2.Norm()) {
								w.Fail("gives %s", g.Short())
							}
						}
					}
				}
			}
		}
	})
}

func hasNil(v *ref.V) bool {
	if v.K == ref.Nil {
		return true
	}
	for _, e := range v.L {
		if hasNil(e) {
			return true
		}
	}
	return false
}

// longRuns: many entries of one key between entries whose keys look like it; every operation on each of the keys.
func longRuns(c *kit.Ctx, label string, kind ref.Kind) {
	runs := []int{2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 129}
	if c.Thorough() {
		runs = append(runs, 4, 5, 6, 10, 11, 12, 13, 14, 34, 48, 63, 127, 128, 255, 256, 257, 513, 1025)
	}
	type trio struct {
		ik [3]int
		sk [3]string
	}
	var trios []trio
	if kind == ref.Sparse {
		for _, k := range []int{0, 1, -1, 300, 1 << 40, -1 << 33} {
			for _, d := range []int{1, 2, 1 << 8, 1 << 16, 1<<16 - 1, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 33, 1 << 48, 1 << 61} {
				trios = append(trios, trio{ik: [3]int{k - d, k, k + d}})
			}
		}
		trios = append(trios, trio{ik: [3]int{1<<53 - 1, 1 << 53, 1<<53 + 1}}, trio{ik: [3]int{math.MinInt64, 0, math.MaxInt64}},
			trio{ik: [3]int{math.MinInt64, math.MinInt64 + 1, math.MaxInt64}}, trio{ik: [3]int{math.MinInt64, math.MaxInt64 - 1, math.MaxInt64}})
	} else {
		p := func(n int, s string) string { return fmt.Sprintf("%0*d%s", n, 0, s) }
		for _, t := range [][3]string{{"", "\x00", "\x00\x00"}, {"K", "k", "k\x00"}, {"a", "ab", "abc"}, {"10", "2", "3"}, {"\xc3", "\xc3\xa9", "\xff"}, {"aXb", "aYb", "aZb"}, {"e\u0301", "é", "ﬁ"}} {
			trios = append(trios, trio{sk: t})
			for _, n := range []int{7, 8, 15, 16, 31, 32, 64, 255, 256} {
				trios = append(trios, trio{sk: [3]string{p(n, t[0]), p(n, t[1]), p(n, t[2])}})
			}
		}
		for _, n := range []int{8, 16, 32, 64, 256} { // the same length, beginning and end
			trios = append(trios, trio{sk: [3]string{p(n, "a"+p(n, "")), p(n, "b"+p(n, "")), p(n, "c"+p(n, ""))}})
		}
	}
	c.Bound(label, fmt.Sprintf("%d run lengths up to %d, %d triples of keys", len(runs), runs[len(runs)-1], len(trios)))
	c.Par(label, len(runs)*len(trios), func(w *kit.W, ci int) {
		n, t := runs[ci/len(trios)], trios[ci%len(trios)]
		for _, around := range []int{0, 1, 3} {
			for run := 0; run < 3; run++ { // which of the keys has the long run
				v := &ref.V{K: kind}
				for k := 0; k < 3; k++ {
					m := around
					if k == run {
						m = n
					}
					for ; m > 0; m-- {
						v.L = append(v.L, ref.VLong(int64(len(v.L))))
						if kind == ref.Sparse {
							v.IK = append(v.IK, t.ik[k])
						} else {
							v.SK = append(v.SK, t.sk[k])
						}
					}
				}
				flavours := []int{ref.FImmutable, ref.FMutable}
				if kind == ref.Sparse || ci%2 == 0 {
					flavours = flavours[:1]
				}
				for _, f := range flavours {
					for k := 0; k < 3; k++ {
						i, s := t.ik[k], t.sk[k]
						for _, o := range []ref.Op{{Name: "put", I: i, K: s, Val: ref.VUtf8("x")}, {Name: "insert", I: i, K: s, Val: ref.VUtf8("y")},
							{Name: "insertall", I: i, K: s, Vals: []*ref.V{ref.VUtf8("x"), ref.VUtf8("y")}}, {Name: "remove", I: i, K: s}, {Name: "deleteall", I: i, K: s}} {
							w.NewState()
							w.Step(func() string { return ref.FlavourName(f) + " " + v.Short() + "." + o.String(kind) })
							x := ref.ApplyImpl(ref.Build(v, f), o, o.Args(0))
							want := ref.Apply(v, o)
							w.Trace()
							if g := ref.Observe(x); !ref.Same(g, want) {
								w.Fail("gives %s, expected %s", g.Short(), want.Short())
							}
							for q := 0; q < 3; q++ {
								var sel []*ref.V
								for j := range want.L {
									if kind == ref.Sparse && want.IK[j] == t.ik[q] || kind == ref.Map && want.SK[j] == t.sk[q] {
										sel = append(sel, want.L[j])
									}
								}
								var got []value.Value
								var one value.Value
								if kind == ref.Sparse {
									got, one = x.(value.List).Select(t.ik[q]), x.(value.List).GetAt(t.ik[q])
								} else {
									got, one = x.(value.Map).Select(t.sk[q]), x.(value.Map).Get(t.sk[q])
								}
								if !sameSeq(got, sel) {
									w.Fail("Select of key %d of %v gives %s, expected %s", q, t, showSeq(got), ref.VList(sel...).Short())
								}
								if g := ref.Observe(one); len(sel) > 0 && !ref.Same(g, sel[0]) || len(sel) == 0 && g.K != ref.Null {
									w.Fail("Get of key %d of %v gives %s, expected the first of %s", q, t, g.Short(), ref.VList(sel...).Short())
								}
							}
						}
					}
				}
			}
		}
	})
}

// updatesInRuns: many entries of one key at every offset; an update reaches the first of them.
func updatesInRuns(c *kit.Ctx) {
	runs := []int{1, 2, 3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 100, 128, 129, 257}
	if c.Thorough() {
		runs = append(runs, 6, 7, 10, 15, 35, 47, 48, 49, 96, 97, 127, 130, 255, 256, 512, 513, 1025)
	}
	befores := []int{0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65}
	afters := []int{0, 1, 2, 5, 31, 33, 64}
	c.Bound("updates_in_runs", fmt.Sprintf("%d run lengths up to %d, %d numbers of entries before and %d after", len(runs), runs[len(runs)-1], len(befores), len(afters)))
	c.Par("updates-in-runs", len(runs)*len(befores), func(w *kit.W, ci int) {
		n, before := runs[ci/len(befores)], befores[ci%len(befores)]
		for _, after := range afters {
			for shape := 0; shape < 3; shape++ { // entries around: each with its own key, all with one, in pairs
				total := before + n + after
				rank := make([]int, total)
				for i := range rank {
					d := 0
					if i < before {
						d = i - before
					} else if i >= before+n {
						d = i - before - n + 1
					}
					switch {
					case shape == 1 && d != 0:
						d /= absInt(d)
					case shape == 2 && d > 0:
						d = (d + 1) / 2
					case shape == 2 && d < 0:
						d = (d - 1) / 2
					}
					rank[i] = d
				}
				for _, kind := range []ref.Kind{ref.Map, ref.Sparse} {
					v := &ref.V{K: kind}
					for i, d := range rank {
						v.L = append(v.L, ref.VLong(int64(i)))
						if kind == ref.Map {
							v.SK = append(v.SK, fmt.Sprintf("%04d", d+500))
						} else {
							v.IK = append(v.IK, d)
						}
					}
					for how := 0; how < 3; how++ {
						x := mutableOf(v, how)
						want := v
						for _, q := range []int{0, -1, 1, 0, before / 2, -before / 2, before + 100} {
							key := fmt.Sprintf("%04d", q+500)
							w.NewState()
							w.Step(func() string {
								return fmt.Sprintf("update of key %d of %d entries, %d of one key and %d (keys %v, construction %d)", q, before, n, after, rank, how)
							})
							u := &spyUpdater{ret: value.Utf8("new")}
							ok := updateAt(x, q, key, u)
							w.Trace()
							j := first(want, q, key)
							if ok != (j >= 0) || u.calls != boolInt(ok) {
								w.Fail("reported %v and called the updater %d times", ok, u.calls)
							}
							if ok {
								if !ref.Same(ref.Observe(u.old), want.L[j]) {
									w.Fail("the updater was given %s, the entry holds %s", ref.Observe(u.old).Short(), want.L[j].Short())
								}
								want = withElem(want, j, ref.VUtf8("new"))
							}
							if g := ref.Observe(x); !ref.Same(g, want) {
								w.Fail("afterwards it is %s", g.Short())
							}
						}
					}
				}
			}
		}
	})
}

// updatesInLists: every element of long mutable lists with and without room behind them.
func updatesInLists(c *kit.Ctx) {
	sizes := []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1024, 1025, 2048}
	if c.Thorough() {
		sizes = append(sizes, 511, 1023, 2047, 2049, 4096, 5000)
	}
	c.Bound("updates_in_long_lists", fmt.Sprintf("sizes %v, every element, six amounts of room", sizes))
	c.Par("updates-in-long-lists", len(sizes)*8, func(w *kit.W, ci int) {
		n, how := sizes[len(sizes)-1-ci/8], ci%8
		v := &ref.V{K: ref.List}
		for i := 0; i < n; i++ {
			v.L = append(v.L, ref.VLong(int64(i)))
		}
		var l value.List
		if how < 6 {
			back := make([]value.Value, n, n+[]int{0, 1, 2, 7, n, 3 * n}[how])
			for i := range back {
				back[i] = value.Long(int64(i))
			}
			l = value.MutableList(back)
		} else {
			l = value.EmptyList(false)
			for i := 0; i < n; i++ {
				l = l.Append(value.Long(int64(i)))
			}
			if how == 7 { // shrunk
				l = l.Append(value.True).RemoveAt(n)
			}
		}
		for i := -1; i <= n; i++ {
			u := &spyUpdater{ret: value.Long(int64(-i - 5))}
			w.NewState()
			w.Step(func() string {
				return fmt.Sprintf("update at %d of a list of %d elements (construction %d), those before are updated", i, n, how)
			})
			ok := l.UpdateAt(i, u)
			w.Trace()
			if ok != (i >= 0 && i < n) || u.calls != boolInt(ok) {
				w.Fail("reported %v and called the updater %d times", ok, u.calls)
			}
			if ok {
				if !ref.Same(ref.Observe(u.old), v.L[i]) || !ref.Same(ref.Observe(l.GetAt(i)), ref.VLong(int64(-i-5))) {
					w.Fail("the updater was given %v, afterwards there is %v", u.old, l.GetAt(i))
				}
				v.L[i] = ref.VLong(int64(-i - 5))
			}
		}
		if m := CheckViews(l, v); m != "" {
			w.Fail("after all updates %s", m)
		}
	})
}

func absInt(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

// mutableOf builds a map or sparse list of updatable entries.
func mutableOf(v *ref.V, how int) value.Value {
	n := len(v.L)
	if v.K == ref.Map {
		es := make([]value.MapEntry, n)
		for i := range es {
			es[i] = value.MutableEntry(v.SK[i], ref.Scalar(v.L[i]))
		}
		switch how {
		case 0:
			return value.SortedMap(es, true)
		case 1:
			rotate(es)
			return value.SortedMap(es, false)
		}
		x, err := value.Unpack(v.Encode(), false)
		if err != nil {
			panic(err)
		}
		m := x.(value.Map)
		return value.SortedMapCopyOf(m)
	}
	its := make([]value.ListItem, n)
	for i := range its {
		its[i] = value.MutableItem(v.IK[i], ref.Scalar(v.L[i]))
	}
	switch how {
	case 0:
		return value.SparseList(its, true)
	case 1:
		back := make([]value.ListItem, n, n+5)
		copy(back, its)
		return value.SparseList(back, true)
	}
	return value.SparseList(its, false)
}

// rotate turns entries around without changing the order among those of one key.
func rotate(es []value.MapEntry) {
	sort.SliceStable(es, func(i, j int) bool { return es[i].Key() > es[j].Key() })
}
