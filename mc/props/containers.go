package props

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

func init() {
	All["C09"] = C09
	All["C10"] = C10
	All["C11"] = C11
	All["C12"] = C12
	All["C13"] = C13
}

// start is a way to obtain a container with the content v.
type start struct {
	name string
	v    *ref.V
	mk   func() value.Value
}

func (s start) String() string { return s.name + " " + s.v.Short() }

// elem is the i-th element of a start: mostly numbers, with containers in between when rich.
func elem(i int, rich bool) *ref.V {
	if rich {
		switch i % 6 {
		case 1:
			return ref.VMap([]string{"p", "q"}, []*ref.V{ref.VLong(int64(i)), ref.VUtf8("w")})
		case 2:
			return ref.VList(ref.VLong(int64(i)), ref.VUtf8("e"), ref.VNull, ref.VLong(4))
		case 3:
			return ref.VSparse([]int{0, 2, 5}, []*ref.V{ref.VLong(int64(i)), ref.VUtf8("s"), ref.VTrue})
		}
	}
	return ref.VLong(int64(i))
}

func listModel(n int, rich bool) *ref.V {
	v := &ref.V{K: ref.List}
	for i := 0; i < n; i++ {
		v.L = append(v.L, elem(i, rich))
	}
	return v
}

func spare(v *ref.V, f, extra int) []value.Value {
	s := make([]value.Value, len(v.L), len(v.L)+extra)
	for i, e := range v.L {
		s[i] = ref.Build(e, f)
	}
	return s
}

func listStarts(n int, immutable, mutable, rich bool) []start {
	v := listModel(n, rich)
	var out []start
	add := func(name string, mk func() value.Value) { out = append(out, start{name, v, mk}) }
	if immutable {
		add("ImmutableList", func() value.Value { return ref.Build(v, ref.FImmutable) })
		add("EmptyList(true) grown", func() value.Value { return ref.Build(v, ref.FImmOps) })
		if n > 0 {
			add("decoded list", func() value.Value { return ref.Build(v, ref.FDecoded) })
		}
		add("ImmutableList of a slice with spare capacity", func() value.Value { return value.ImmutableList(spare(v, ref.FImmutable, 7)) })
	}
	if mutable {
		add("MutableList", func() value.Value { return ref.Build(v, ref.FMutable) })
		add("EmptyList(false) grown", func() value.Value { return ref.Build(v, ref.FMutOps) })
		add("MutableList of a slice with spare capacity", func() value.Value { return value.MutableList(spare(v, ref.FMutable, 7)) })
		add("Tuple", func() value.Value { return value.Tuple(spare(v, ref.FMutable, 0)...) })
		if n == 0 {
			add("EmptyMutableList", func() value.Value { return value.EmptyMutableList() })
		}
		if n == 1 {
			add("Single", func() value.Value { return value.Single(ref.Build(v.L[0], 1)) })
		}
	}
	return out
}

// shapeOf gives the key number of each of n entries: shape 0 distinct keys, 1 with duplicates
// at the beginning, 2 in the middle, 3 at the end, 4 all the same. Shapes 5 to 8 are 0 to 3 over
// unusual keys.
func shapeOf(n, shape int) []int {
	ks := make([]int, n)
	for i := range ks {
		k := i
		switch shape % 5 {
		case 1:
			if k < 3 {
				k = 0
			}
		case 2:
			if k >= n/2-1 && k <= n/2+1 {
				k = n / 2
			}
		case 3:
			if k >= n-3 {
				k = n - 1
			}
		case 4:
			k = 0
		}
		ks[i] = k
	}
	return ks
}

var advKeys = ref.AdvKeys()

func mapModel(n, shape int, rich bool) *ref.V {
	v := &ref.V{K: ref.Map}
	for i, k := range shapeOf(n, shape) {
		if shape >= 5 {
			v.SK = append(v.SK, advKeys[(2*k+1)*len(advKeys)/(2*n+1)])
		} else {
			v.SK = append(v.SK, fmt.Sprintf("k%03d", 2*k))
		}
		v.L = append(v.L, elem(i, rich))
	}
	return v
}

// advIndex is an increasing sequence of indexes that overflow narrow or signed arithmetic.
func advIndex(k, n int) int {
	lo := []int{math.MinInt64 + 5, math.MinInt64 + 9, -1 << 40, -1<<32 - 1, -1 << 31, -300}
	if k < len(lo) && k < n/2 {
		return lo[k]
	}
	return 3*k - 5
}

func intModel(n, shape int, rich bool) *ref.V {
	v := &ref.V{K: ref.Sparse}
	for i, k := range shapeOf(n, shape) {
		if shape >= 5 {
			v.IK = append(v.IK, advIndex(k, n))
		} else {
			v.IK = append(v.IK, 2*2*k-6)
		}
		v.L = append(v.L, elem(i, rich))
	}
	return v
}

func mapEntries(v *ref.V, extra int) []value.MapEntry {
	es := make([]value.MapEntry, len(v.L), len(v.L)+extra)
	for i := range v.L {
		es[i] = value.MutableEntry(v.SK[i], ref.Build(v.L[i], 1))
	}
	return es
}

func mapStarts(n, shape int, immutable, mutable, rich bool) []start {
	v := mapModel(n, shape, rich)
	var out []start
	add := func(name string, mk func() value.Value) { out = append(out, start{name, v, mk}) }
	if immutable {
		add("ImmutableMap", func() value.Value { return ref.Build(v, ref.FImmutable) })
		add("EmptyMap(true) grown", func() value.Value { return ref.Build(v, ref.FImmOps) })
		add("ImmutableMap unsorted", func() value.Value { return ref.Build(v, ref.FUnsorted) })
		if n > 0 {
			add("decoded map", func() value.Value { return ref.Build(v, ref.FDecoded) })
		}
		add("ImmutableMapCopyOf", func() value.Value { return value.ImmutableMapCopyOf(ref.Build(v, ref.FMutable).(value.Map)) })
	}
	if mutable {
		add("SortedMap", func() value.Value { return ref.Build(v, ref.FMutable) })
		add("EmptyMap(false) grown", func() value.Value { return ref.Build(v, ref.FMutOps) })
		add("SortedMap of a slice with spare capacity", func() value.Value { return value.SortedMap(mapEntries(v, 7), true) })
		add("SortedMap unsorted", func() value.Value {
			es := mapEntries(v, 1)
			sort.SliceStable(es, func(i, j int) bool { return es[i].Key() > es[j].Key() })
			return value.SortedMap(es, false)
		})
		add("SortedMapCopyOf", func() value.Value { return value.SortedMapCopyOf(ref.Build(v, ref.FImmutable).(value.Map)) })
		if shape%5 == 0 {
			add("SortedMapOf", func() value.Value {
				h := map[string]value.Value{}
				for i, k := range v.SK {
					h[k] = ref.Build(v.L[i], 1)
				}
				return value.SortedMapOf(h)
			})
		}
	}
	return out
}

func sparseStarts(n, shape int, rich bool) []start {
	v := intModel(n, shape, rich)
	var out []start
	add := func(name string, mk func() value.Value) { out = append(out, start{name, v, mk}) }
	add("SparseList", func() value.Value { return ref.Build(v, ref.FImmutable) })
	add("EmptySparseList grown", func() value.Value { return ref.Build(v, ref.FImmOps) })
	add("SparseList of mutable items with spare capacity", func() value.Value {
		its := make([]value.ListItem, n, n+7)
		for i := range its {
			its[i] = value.MutableItem(v.IK[i], ref.Build(v.L[i], 1))
		}
		return value.SparseList(its, n%2 == 0)
	})
	add("SparseList unsorted", func() value.Value { return ref.Build(v, ref.FUnsorted) })
	if n > 0 {
		add("decoded sparse list", func() value.Value { return ref.Build(v, ref.FDecoded) })
	}
	if shape == 0 {
		u := &ref.V{K: ref.Sparse, L: v.L}
		for i := range v.L {
			u.IK = append(u.IK, i)
		}
		out = append(out, start{"SparseListOf", u, func() value.Value { return value.SparseListOf(spare(u, 0, 3)) }})
		w := &ref.V{K: ref.Sparse, L: v.L}
		for i := range v.L {
			w.IK = append(w.IK, i-3*n-1)
		}
		out = append(out, start{"SparseList negative", w, func() value.Value { return ref.Build(w, ref.FImmOps) }})
	}
	return out
}

func uniq[T comparable](s []T) []T {
	seen := map[T]bool{}
	var out []T
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func swapCase(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsUpper(r) {
			return unicode.ToLower(r)
		}
		return unicode.ToUpper(r)
	}, s)
}

// opsFor lists the operations explored from content v; level 2 is the full alphabet.
func opsFor(v *ref.V, step, level int) []ref.Op {
	x := ref.VLong(int64(1000 * (step + 1)))
	y := ref.VUtf8(fmt.Sprintf("y%d", step))
	n := len(v.L)
	runs := [][]*ref.V{{}, {x}, {x, ref.VNil, y}}
	if level < 2 {
		runs = [][]*ref.V{{y, ref.VNil, x}}
	}
	var ops []ref.Op
	addAt := func(i int, k string) {
		ops = append(ops, ref.Op{Name: "put", I: i, K: k, Val: x}, ref.Op{Name: "insert", I: i, K: k, Val: y}, ref.Op{Name: "remove", I: i, K: k}, ref.Op{Name: "deleteall", I: i, K: k})
		for _, r := range runs {
			ops = append(ops, ref.Op{Name: "insertall", I: i, K: k, Vals: r})
		}
		if level == 2 {
			ops = append(ops, ref.Op{Name: "put", I: i, K: k, Val: ref.VNil}, ref.Op{Name: "insert", I: i, K: k, Val: ref.VNil})
			if e := elemAt(v, i, k); e != nil {
				ops = append(ops, ref.Op{Name: "put", I: i, K: k, Val: lookalike(e)})
			}
		}
	}
	switch v.K {
	case ref.List:
		ps := []int{0, n / 2, n - 1, n}
		if level == 2 {
			ps = []int{-1, 0, 1, n / 2, n - 2, n - 1, n, n + 1, n + 3}
		}
		for _, p := range uniq(ps) {
			if p >= -1 {
				addAt(p, "")
			}
		}
		ops = append(ops, ref.Op{Name: "append", Val: x})
		if level == 2 {
			ops = append(ops, ref.Op{Name: "append", Val: ref.VNil})
		}
	case ref.Map:
		ks := []string{"m"}
		if n > 0 {
			ks = []string{v.SK[0], v.SK[n/2], v.SK[n-1], v.SK[n/2] + "!", "~"}
			if level == 2 {
				ks = append(ks, swapCase(v.SK[0]), swapCase(v.SK[n-1]), "", v.SK[0]+"!", v.SK[n-1]+"!", v.SK[0][:len(v.SK[0])/2], v.SK[n/4], v.SK[n*3/4])
			}
		}
		for _, k := range uniq(ks) {
			addAt(0, k)
		}
	case ref.Sparse:
		is := []int{3}
		if n > 0 {
			is = []int{v.IK[0], v.IK[n/2], v.IK[n-1], v.IK[n/2] + 1, v.IK[n-1] + 2}
			if level == 2 {
				is = append(is, v.IK[0]-1, v.IK[0]+1, v.IK[n-1]+1, v.IK[n-1]-1, -1, 0, v.IK[n/4], v.IK[n*3/4])
			}
		}
		for _, i := range uniq(is) {
			addAt(i, "")
		}
		ops = append(ops, ref.Op{Name: "append", Val: x})
		if level == 2 {
			ops = append(ops, ref.Op{Name: "append", Val: ref.VNil})
		}
	}
	return ops
}

// elemAt is the first element at a position, index or key, or nil.
func elemAt(v *ref.V, i int, k string) *ref.V {
	if j := first(v, i, k); j >= 0 {
		return v.L[j]
	}
	return nil
}

// lookalike is a value that is equal to e (as Equal sees it) and still different from it.
func lookalike(e *ref.V) *ref.V {
	switch e.K {
	case ref.Long:
		return ref.VDouble(float64(e.I))
	case ref.Double:
		return ref.VLong(int64(math.Float64frombits(e.F)))
	case ref.Utf8:
		return ref.VRaw(e.S)
	case ref.Raw:
		return ref.VUtf8(e.S)
	case ref.List, ref.Map, ref.Sparse:
		if len(e.L) > 0 {
			return withElem(e, 0, lookalike(e.L[0]))
		}
	case ref.Nil, ref.Null:
		return ref.VNull
	}
	return e
}

// bulk explores insertions of runs of many lengths at all positions, each followed by one
// more operation.
func bulk(c *kit.Ctx, label string, starts []start) {
	lens := []int{2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 33, 70, 130, 300, 1100}
	if c.Thorough() {
		lens = append(lens, 31, 32, 63, 64, 65, 127, 128, 129, 256, 257, 513, 1000, 2100, 5000)
	}
	c.Bound(label+"_run_lengths", lens)
	c.Par(label, len(starts)*len(lens), func(w *kit.W, ci int) {
		s, m := starts[ci%len(starts)], lens[ci/len(starts)]
		var run []*ref.V
		for i := 0; i < m; i++ {
			switch i % 5 {
			case 3:
				run = append(run, ref.VNil)
			default:
				run = append(run, ref.VLong(int64(5000+i)))
			}
		}
		if m > 17 && len(s.v.L) > 17 || m > 64 && len(s.v.L) > 4 {
			return
		}
		for _, o := range opsFor(s.v, 0, 2) {
			if o.Name != "insertall" || len(o.Vals) != 1 {
				continue
			}
			o.Vals = run
			v2 := ref.Apply(s.v, o)
			next := opsFor(v2, 1, 1)
			for k := -1; k < len(next); k++ {
				if k >= 0 && (len(s.v.L) > 9 || len(s.v.L) == 0 || m > 64 || next[k].Name == "insertall") {
					continue
				}
				w.Step(func() string {
					t := fmt.Sprintf("%s insert %d elements at %d %q", s, m, o.I, o.K)
					if k >= 0 {
						t += " then " + next[k].String(s.v.K)
					}
					return t
				})
				x := apply(w, s.mk(), o)
				v3 := v2
				if k >= 0 {
					x = apply(w, x, next[k])
					v3 = ref.Apply(v2, next[k])
				}
				w.Trace()
				c.StateHash(kit.Hash(v3.Canon()))
				if m := CheckViews(x, v3); m != "" {
					w.Fail("%s", m)
				}
			}
		}
	})
}

// ownValues: runs inserted into a container that are its own values, or a part of them, also right after
// another operation; the container may hand out its own memory.
func ownValues(c *kit.Ctx, label string, starts []start) {
	c.Bound(label, fmt.Sprintf("%d starts, at most one operation before, every place, all and parts of the values", len(starts)))
	c.Par(label, len(starts), func(w *kit.W, i int) {
		s := starts[i]
		befores := opsFor(s.v, 0, 1)
		for k := -1; k < len(befores); k++ {
			if k >= 0 && (len(s.v.L) > 9 || befores[k].Name == "insertall") {
				continue
			}
			v := s.v
			if k >= 0 {
				v = ref.Apply(v, befores[k])
			}
			n := len(v.L)
			for _, o := range opsFor(v, 0, 2) {
				if o.Name != "insertall" || len(o.Vals) != 1 {
					continue
				}
				for _, p := range uniq([]int{0, 1, n / 2, n - 1}) {
					for _, q := range uniq([]int{n, n - 1, n / 2, p + 1}) {
						if p < 0 || p >= q || q > n {
							continue
						}
						w.Step(func() string {
							t := s.String()
							if k >= 0 {
								t += " " + befores[k].String(v.K)
							}
							return fmt.Sprintf("%s insert its own values %d to %d at %d %q", t, p, q, o.I, o.K)
						})
						x := s.mk()
						if k >= 0 {
							x = apply(w, x, befores[k])
						}
						var vals []value.Value
						if l, ok := x.(value.List); !ok {
							vals = x.(value.Map).Values()
						} else if v.K != ref.Sparse {
							vals = l.Values()
						}
						if v.K == ref.Sparse { // the others are by index, with holes
							vals = x.(value.List).Select(v.IK[p])
						} else {
							vals = vals[p:q]
						}
						o.Vals = nil
						for _, e := range vals {
							o.Vals = append(o.Vals, ref.Observe(e))
						}
						want := ref.Apply(v, o)
						x = ref.ApplyImpl(x, o, ref.Args{Vals: vals})
						w.Trace()
						c.StateHash(kit.Hash(want.Canon()))
						if m := CheckViews(x, want); m != "" {
							w.Fail("%s", m)
						}
					}
				}
			}
		}
	})
}

// sameInterface tells whether two interfaces hold the same thing; values of types that Go cannot compare are
// the same when they are of one type and say the same.
func sameInterface(a, b value.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if t := reflect.TypeOf(a); t != reflect.TypeOf(b) || !reflect.ValueOf(a).Comparable() || !reflect.ValueOf(b).Comparable() {
		return t == reflect.TypeOf(b) && a.String() == b.String()
	}
	return a == b
}

// apply performs an operation; a slice it is given has spare capacity, must not be touched, and is
// reused afterwards.
func apply(w *kit.W, x value.Value, o ref.Op) value.Value {
	a := o.Args(0)
	if o.Name != "insertall" {
		return ref.ApplyImpl(x, o, a)
	}
	back := make([]value.Value, len(a.Vals), len(a.Vals)+8)
	copy(back, a.Vals)
	back = back[:cap(back)]
	for i := len(a.Vals); i < len(back); i++ {
		back[i] = value.Utf8("spare")
	}
	orig := append([]value.Value(nil), back...)
	a.Vals = back[:len(a.Vals)]
	y := ref.ApplyImpl(x, o, a)
	for i := range back {
		if !sameInterface(back[i], orig[i]) {
			w.Fail("the argument slice was modified at position %d of length %d, capacity %d", i, len(a.Vals), cap(a.Vals))
		}
		back[i] = value.Utf8("reused by the caller")
	}
	return y
}

// linear explores every operation path of the given depth from every start, using each
// container linearly: every path is replayed from scratch.
func linear(c *kit.Ctx, label string, starts []start, depth, level int) {
	type cs struct {
		s  int
		op int
	}
	var cases []cs
	for i, s := range starts {
		for k := range opsFor(s.v, 0, level) {
			cases = append(cases, cs{i, k})
		}
	}
	c.Bound(label, fmt.Sprintf("%d starts, all paths of up to %d operations, alphabet level %d", len(starts), depth, level))
	c.Par(label, len(cases), func(w *kit.W, ci int) {
		s := starts[cases[ci].s]
		path := make([]ref.Op, 0, depth)
		var rec func(v *ref.V, only int)
		rec = func(v *ref.V, only int) {
			for k, o := range opsFor(v, len(path), level) {
				if only >= 0 && k != only {
					continue
				}
				path = append(path, o)
				p := path
				w.Step(func() string { return s.String() + " " + pathString(p, s.v.K) })
				x := s.mk()
				for _, q := range path {
					x = apply(w, x, q)
				}
				v2 := ref.Apply(v, o)
				w.Trace()
				if m := CheckViews(x, v2); m != "" {
					w.Fail("%s", m)
				}
				c.StateHash(kit.Hash(v2.Canon()))
				if len(path) < depth {
					rec(v2, -1)
				}
				path = path[:len(path)-1]
			}
		}
		if cases[ci].op == 0 {
			w.Step(func() string { return s.String() })
			if m := CheckViews(s.mk(), s.v); m != "" {
				w.Fail("%s", m)
			}
		}
		rec(s.v, cases[ci].op)
	})
}

var startSizes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64}
var deepSizes = []int{0, 1, 2, 3, 4, 7, 8}

func C10(c *kit.Ctx) {
	var all, some, none []start
	for _, n := range startSizes {
		all = append(all, listStarts(n, true, true, n%2 == 1)...)
	}
	for _, n := range deepSizes[:c.Pick(4, 7)] {
		for _, s := range listStarts(n, true, true, false) {
			if c.Thorough() || s.name == "ImmutableList" || s.name == "EmptyList(false) grown" || s.name == "MutableList" {
				some = append(some, s)
			}
		}
	}
	none = append(listStarts(0, true, true, false), listStarts(2, false, true, false)...)
	holes := start{"list with nil elements", ref.VList(ref.VNil, ref.VLong(1), ref.VNil, ref.VNull), nil}
	for _, f := range []int{ref.FImmutable, ref.FMutable} {
		h := holes
		h.mk = func() value.Value { return ref.Build(h.v, f) }
		all = append(all, h)
	}
	linear(c, "paths-2", all, 2, c.Pick(1, 2))
	linear(c, "paths-1", all, 1, 2)
	bulk(c, "runs", all)
	ownValues(c, "own-values", all)
	linear(c, "paths-3", some, 3, 2)
	linear(c, "paths-deep", none, c.Pick(4, 5), 1)
	linear(c, "constructions", listConstructions(c.Pick(4, 5), true), 1, 1)
	growAndShrink(c, "grow-and-shrink", empties(ref.List), []int{3, 9, 17, 21, 33, 70})
	staleReads(c, "stale-reads", append(listStarts(2, true, true, false), listStarts(4, true, true, true)...), 2)
	farPuts(c)
	bigOps(c, "large", ref.List)
	replacements(c, "replacements", ref.List)
}

func C11(c *kit.Ctx) {
	var all, some, none []start
	for _, n := range startSizes {
		for shape := 0; shape < 8; shape++ {
			if shape > 0 && n < 3 || shape > 0 && n > 17 || shape > 5 && n > 6 {
				continue
			}
			all = append(all, mapStarts(n, shape, true, true, n%2 == 1)...)
		}
	}
	for _, n := range deepSizes[:c.Pick(4, 7)] {
		for _, shape := range []int{0, 2} {
			for _, s := range mapStarts(n, shape, true, true, false) {
				if c.Thorough() || s.name == "ImmutableMap" || s.name == "EmptyMap(false) grown" || s.name == "SortedMap" {
					some = append(some, s)
				}
			}
		}
	}
	none = append(mapStarts(0, 0, true, true, false), mapStarts(2, 0, false, true, false)...)
	for _, ks := range [][]string{{""}, {"", "", "a"}, {"\x00", "\xff", "\xff\xff"}, {"a", "aa", "aaa"}, {"0", "1", "10", "2"}, {"\U0001F600"}} {
		v := &ref.V{K: ref.Map, SK: ks}
		for i := range ks {
			v.L = append(v.L, ref.VLong(int64(i)))
		}
		for _, f := range []int{ref.FImmutable, ref.FMutable, ref.FImmOps, ref.FMutOps} {
			all = append(all, start{"special keys " + ref.FlavourName(f), v, func() value.Value { return ref.Build(v, f) }})
		}
	}
	// a map obtained from a list: keys in the order of their text
	for _, n := range []int{3, 12, 25} {
		var ks []string
		h := map[string]*ref.V{}
		for i := 0; i < n; i++ {
			ks = append(ks, strconv.Itoa(i))
			h[strconv.Itoa(i)] = ref.VLong(int64(i))
		}
		v := ref.VMap(nil, nil)
		for _, k := range ks {
			v = ref.Apply(v, ref.Op{Name: "put", K: k, Val: h[k]})
		}
		all = append(all, start{"list read as a map", v, func() value.Value {
			return value.ImmutableList([]value.Value{ref.Build(listModel(n, false), 0)}).GetMapAt(0)
		}})
	}
	linear(c, "paths-2", all, 2, c.Pick(1, 2))
	linear(c, "paths-1", all, 1, 2)
	bulk(c, "runs", all)
	ownValues(c, "own-values", all)
	linear(c, "constructions", mapConstructions(3, true), 1, 1)
	bigOps(c, "large", ref.Map)
	fromHashMaps(c)
	growAndShrink(c, "grow-and-shrink", empties(ref.Map), []int{3, 9, 17, 21, 33, 70})
	var st []start
	for _, ks := range [][]string{{"a", "b", "c"}, {"a", "b", "c", "c"}, {"a", "a", "b", "c"}} {
		v := &ref.V{K: ref.Map, SK: ks}
		for i := range ks {
			v.L = append(v.L, ref.VLong(int64(i)))
		}
		for f := 0; f < ref.NFlavours; f++ {
			st = append(st, start{ref.FlavourName(f), v, func() value.Value { return ref.Build(v, f) }})
		}
	}
	staleReads(c, "stale-reads", st, 2)
	wideUnsorted(c, "unsorted", ref.Map)
	replacements(c, "replacements", ref.Map)
	longRuns(c, "long-runs", ref.Map)
	linear(c, "paths-deep", none, c.Pick(4, 5), 1)
	linear(c, "paths-3", some, 3, c.Pick(1, 2))
}

func C12(c *kit.Ctx) {
	var all, some, none []start
	for _, n := range startSizes {
		for shape := 0; shape < 8; shape++ {
			if shape > 0 && n < 3 || shape > 0 && n > 17 || shape > 5 && n > 6 {
				continue
			}
			all = append(all, sparseStarts(n, shape, n%2 == 1)...)
		}
	}
	for _, n := range deepSizes[:c.Pick(4, 7)] {
		for _, shape := range []int{0, 2} {
			for _, s := range sparseStarts(n, shape, false) {
				if c.Thorough() || s.name == "SparseList" || s.name == "EmptySparseList grown" {
					some = append(some, s)
				}
			}
		}
	}
	none = append(sparseStarts(0, 0, false), sparseStarts(2, 0, false)...)
	for _, ks := range [][]int{{-9}, {-9, -9, -1}, {-1}, {0}, {-1, 0}, {0, 1, 2, 3}, {5000}, {-100000, 7, 7, 7, 99999}} {
		v := &ref.V{K: ref.Sparse, IK: ks}
		for i := range ks {
			v.L = append(v.L, ref.VLong(int64(i)))
		}
		for _, f := range []int{ref.FImmutable, ref.FImmOps, ref.FDecoded} {
			all = append(all, start{"special indexes " + ref.FlavourName(f), v, func() value.Value { return ref.Build(v, f) }})
		}
	}
	for _, fast := range []bool{true, false} {
		value.AllowFastAppends = fast
		p := fmt.Sprintf("fast-appends-%v/", fast)
		linear(c, p+"paths-2", all, 2, c.Pick(1, 2))
		linear(c, p+"paths-1", all, 1, 2)
		bulk(c, p+"runs", all)
		ownValues(c, p+"own-values", all)
		farIndexes(c, p+"far-indexes")
		linear(c, p+"constructions", sparseConstructions(3), 1, 1)
		bigOps(c, p+"large", ref.Sparse)
		growAndShrink(c, p+"grow-and-shrink", empties(ref.Sparse), []int{3, 9, 17, 21, 33, 70})
		var st []start
		for _, ks := range [][]int{{-1, 2, 3}, {0, 1, 3, 3}, {0, 0, 5, 900}} {
			v := &ref.V{K: ref.Sparse, IK: ks}
			for i := range ks {
				v.L = append(v.L, ref.VLong(int64(i)))
			}
			for _, f := range []int{ref.FImmutable, ref.FMutable, ref.FImmOps, ref.FDecoded} {
				st = append(st, start{ref.FlavourName(f), v, func() value.Value { return ref.Build(v, f) }})
			}
		}
		staleReads(c, p+"stale-reads", st, 2)
	}
	value.AllowFastAppends = true
	wideUnsorted(c, "unsorted", ref.Sparse)
	replacements(c, "replacements", ref.Sparse)
	longRuns(c, "long-runs", ref.Sparse)
	for _, fast := range []bool{true, false} {
		value.AllowFastAppends = fast
		p := fmt.Sprintf("fast-appends-%v/", fast)
		linear(c, p+"paths-deep", none, c.Pick(4, 5), 1)
		linear(c, p+"paths-3", some, 3, c.Pick(1, 2))
	}
	value.AllowFastAppends = true
}

// farIndexes: one operation at every index +-(2^k+2^j+d) of lists with few entries, read back near
// that index and at the indexes narrower arithmetic takes for it.
func farIndexes(c *kit.Ctx, label string) {
	idx := ref.TwoBitInts()
	for k := uint(0); k < 63; k++ {
		idx = append(idx, 1<<k, -1<<k, 1<<k-1, 1-1<<k)
	}
	starts := [][]int{{}, {0}, {-4, 7}, {0, 1 << 31, 1 << 62}}
	c.Bound("far_indexes", len(idx))
	c.Par(label, len(idx), func(w *kit.W, ii int) {
		I := int(idx[ii])
		x, y := ref.VLong(9), ref.VUtf8("y")
		for _, ks := range append(starts, []int{I}, []int{I, I}, []int{I - 1, I + 2}, []int{I - 9}) {
			v := &ref.V{K: ref.Sparse, IK: append([]int(nil), ks...)}
			for i := range ks {
				v.L = append(v.L, ref.VLong(int64(i)))
			}
			for _, o := range []ref.Op{{Name: "put", I: I, Val: x}, {Name: "insert", I: I, Val: y}, {Name: "insertall", I: I, Vals: []*ref.V{x, y}},
				{Name: "remove", I: I}, {Name: "deleteall", I: I}, {Name: "append", Val: y}} {
				w.NewState()
				w.Step(func() string { return v.Short() + "." + o.String(ref.Sparse) })
				t := ref.ApplyImpl(ref.Build(v, ref.FImmutable), o, o.Args(0)).(value.List)
				want := ref.Apply(v, o)
				w.Trace()
				if g := ref.Observe(t); !ref.Same(g, want) {
					w.Fail("gives %s, expected %s", g.Short(), want.Short())
				}
				n := 0
				if len(want.IK) > 0 && want.IK[len(want.IK)-1] >= 0 {
					n = want.IK[len(want.IK)-1] + 1
				}
				if t.Len() != n {
					w.Fail("has length %d, expected %d", t.Len(), n)
				}
				for _, q := range append([]int{I, I - 1, I + 1, I - 9, I ^ 1<<31, I ^ 1<<32, I ^ math.MinInt64, int(int32(I)), int(uint32(I)), int(int16(I)), -I, int(int64(float64(I)))}, ks...) {
					j := first(want, q, "")
					e := ref.Observe(t.GetAt(q))
					if j < 0 && e.K != ref.Null || j >= 0 && !ref.Same(e, want.L[j]) {
						w.Fail("holds %s at %d, expected %s", e.Short(), q, want.Short())
					}
					m := 0
					for _, kk := range want.IK {
						if kk == q {
							m++
						}
					}
					if g := t.Select(q); len(g) != m {
						w.Fail("Select(%d) gives %d values, expected %d", q, len(g), m)
					}
				}
				if b, err := value.Pack(t); err != nil || !bytes.Equal(b, want.Encode()) {
					w.Fail("serializes to %s (%v), expected %s", hexs(b), err, hexs(want.Encode()))
				}
			}
		}
	})
}

// ---------- C09 ----------

type version struct {
	x    value.Value
	v    *ref.V
	pack []byte
	how  []ref.Op
}

func (a version) intact() string {
	g := ref.Observe(a.x)
	if !ref.Same(g, a.v) {
		return fmt.Sprintf("now contains %s, was %s", g.Short(), a.v.Short())
	}
	b, err := value.Pack(a.x)
	if err != nil || !bytes.Equal(b, a.pack) {
		return fmt.Sprintf("now serializes to %s (%v), was %s", hexs(b), err, hexs(a.pack))
	}
	return ""
}

type fixedUpdater struct{ v value.Value }

func (u fixedUpdater) Update(value.Value) value.Value { return u.v }

// reads performs every read, view, copy and conversion of a container and then uses the
// results in every way the library offers to change them.
func reads(x value.Value) {
	mark := value.Utf8("CHANGED")
	up := fixedUpdater{mark}
	abuseMap := func(m value.Map) {
		for _, e := range m.Entries() {
			m.Put(e.Key(), mark)
			m.Insert(e.Key(), mark)
			m.InsertAll(e.Key(), []value.Value{mark, mark})
			m.Insert(e.Key()+"!", mark)
			m.Insert("~", mark)
		}
	}
	useList := func(l value.List, mutable bool) {
		n := len(l.Values())
		for _, i := range []int{0, n / 2, n - 1, n} {
			if i < 0 {
				continue
			}
			if mutable {
				l.UpdateAt(i, up)
			}
			l.PutAt(i, mark)
			l.InsertAt(i, mark)
			l.InsertAll(i, []value.Value{mark, nil})
			l.Append(mark)
		}
		if mutable {
			for i := 0; i < 2 && i < n; i++ {
				l = l.RemoveAt(n / 2)
			}
			l.DeleteAll(0)
		}
	}
	switch t := x.(type) {
	case value.List:
		_ = t.Len()
		vs := t.Values()
		useList(value.SparseListOf(vs), true)
		for _, it := range t.Items() {
			if !ref.IsSparse(t) {
				it.Update(up)
			}
			it.Equal(value.ImmutableItem(it.Key(), mark))
		}
		for _, e := range t.Entries() {
			e.Update(up)
		}
		for i := -1; i <= len(vs) && i < 12; i++ {
			t.GetBoolAt(i)
			t.GetNumberAt(i)
			t.GetStringAt(i)
			t.Select(i)
			e := t.GetAt(i)
			l, m := t.GetListAt(i), t.GetMapAt(i)
			if e != nil && e.Kind() == value.MAP {
				useList(l, true) // a map read as a list
			} else {
				useList(l, false)
			}
			if e != nil && e.Kind() == value.LIST { // a list read as a map
				for _, en := range m.Entries() {
					m.Update(en.Key(), up)
				}
				abuseMap(m)
				m = m.Remove("1")
				m = m.DeleteAll("0")
			} else {
				abuseMap(m)
			}
			if !ref.IsSparse(t) {
				t.UpdateAt(i, up)
			}
		}
	case value.Map:
		_ = t.Len()
		h := t.HashMap()
		h["p"] = mark
		for _, k := range append(t.Keys(), "", "absent") {
			t.Update(k, up)
			t.GetBool(k)
			t.GetNumber(k)
			t.GetString(k)
			t.Select(k)
			e := t.Get(k)
			l, m := t.GetList(k), t.GetMap(k)
			useList(l, e != nil && e.Kind() == value.MAP)
			if e != nil && e.Kind() == value.LIST {
				for _, en := range m.Entries() {
					m.Update(en.Key(), up)
				}
				m = m.Remove("1")
				m.DeleteAll("0")
			}
			abuseMap(m)
		}
		for _, e := range t.Entries() {
			e.Update(up)
		}
		c1, c2 := value.ImmutableMapCopyOf(t), value.SortedMapCopyOf(t)
		for _, k := range t.Keys() {
			c1.Update(k, up)
			c2.Update(k, up)
			c1.Remove(k)
			c2 = c2.Remove(k)
			c2 = c2.Insert(k, mark)
		}
		abuseMap(c1)
		c2.InsertAll("k", []value.Value{mark})
		useList(value.MutableList(t.Values()), true)
	}
	appendBeyond(x)
	_ = x.String()
	value.Jsonify(x)
	x.MarshalJSON()
	x.MarshalBinary()
	value.Hex(x)
	value.Equal(x, x)
	x.Equal(mark)
	x.Object()
}

// appendBeyond builds new mutable values from every slice obtained from x and adds to their ends only:
// whatever room those slices have, it belongs to nobody else.
func appendBeyond(x value.Value) {
	mark := value.Utf8("BEYOND")
	lists := func(get func() []value.Value) {
		n := len(get())
		value.MutableList(get()).Append(mark).Append(mark)
		value.MutableList(get()).PutAt(n, mark)
		value.MutableList(get()).PutAt(n+2, mark)
		value.MutableList(get()).InsertAt(n, mark)
		value.MutableList(get()).InsertAll(n, []value.Value{mark, mark})
		value.SparseListOf(get()).Append(mark).PutAt(n+3, mark)
		value.ImmutableList(get()).Append(mark)
		_ = append(get(), mark)
	}
	const top = "\xff\xff\xff~"
	maps := func(get func() []value.MapEntry, sorted bool) {
		value.SortedMap(get(), sorted).Put(top, mark).Put(top+"1", mark)
		value.SortedMap(get(), sorted).Insert(top, mark).Insert(top, mark)
		value.SortedMap(get(), sorted).InsertAll(top, []value.Value{mark, mark})
		value.ImmutableMap(get(), sorted).Put(top, mark)
		_ = append(get(), value.ImmutableEntry(top, mark))
	}
	items := func(get func() []value.ListItem) {
		value.SparseList(get(), true).PutAt(math.MaxInt64-1, mark).PutAt(math.MaxInt64, mark)
		value.SparseList(get(), true).InsertAt(math.MaxInt64, mark).InsertAt(math.MaxInt64, mark)
		value.SparseList(get(), true).InsertAll(math.MaxInt64-5, []value.Value{mark, mark})
		_ = append(get(), value.ImmutableItem(math.MaxInt64, mark))
	}
	switch t := x.(type) {
	case value.List:
		lists(t.Values)
		items(t.Items)
		maps(t.Entries, false)
		for _, it := range t.Items() {
			lists(func() []value.Value { return t.Select(it.Key()) })
		}
	case value.Map:
		lists(t.Values)
		maps(t.Entries, true)
		_ = append(t.Keys(), "BEYOND")
		for _, k := range t.Keys() {
			lists(func() []value.Value { return t.Select(k) })
		}
	}
}

// versions explores the tree of operations from every start, keeping every derived value
// alive, and checks after each operation's subtree that all of them are what they were.
func versions(c *kit.Ctx, label string, starts []start, depth, level int) {
	type cs struct{ s, op int }
	var cases []cs
	for i, s := range starts {
		for k := range opsFor(s.v, 0, level) {
			cases = append(cases, cs{i, k})
		}
	}
	c.Bound(label, fmt.Sprintf("%d starts, the whole tree of operations of depth %d with all derived values alive, alphabet level %d", len(starts), depth, level))
	c.Par(label, len(cases), func(w *kit.W, ci int) {
		s := starts[cases[ci].s]
		root := version{x: s.mk(), v: s.v, pack: s.v.Encode()}
		alive := []version{root}
		check := func(what string, from int) {
			for k := range alive[from:] {
				a := &alive[from+k]
				if m := a.intact(); m != "" {
					w.Fail("after %s: the value obtained by %s%s %s", what, s.String(), pathString(a.how, s.v.K), m)
				}
			}
		}
		var rec func(n version, only int)
		rec = func(n version, only int) {
			from := len(alive)
			for k, o := range opsFor(n.v, len(n.how), level) {
				if only >= 0 && k != only {
					continue
				}
				how := append(append([]ref.Op(nil), n.how...), o)
				w.Step(func() string { return s.String() + " " + pathString(how, s.v.K) })
				y := apply(w, n.x, o)
				v2 := ref.Apply(n.v, o)
				w.Trace()
				nv := version{y, v2, v2.Encode(), how}
				if m := nv.intact(); m != "" {
					w.Fail("the new value %s", m)
				}
				alive = append(alive, nv)
				c.StateHash(kit.Hash(v2.Canon()))
				if m := n.intact(); m != "" {
					w.Fail("the value it was applied to %s", m)
				}
			}
			kids := append([]version(nil), alive[from:]...)
			check("all operations on one value", from)
			if len(n.how)+1 < depth {
				for _, k := range kids {
					rec(k, -1)
				}
				check("the operations on its descendants", from)
			}
			alive = alive[:from]
			if m := n.intact(); m != "" {
				w.Fail("the value %s%s %s", s.String(), pathString(n.how, s.v.K), m)
			}
		}
		rec(root, cases[ci].op)
		check("everything", 0)
	})
}

func C09(c *kit.Ctx) {
	c.Assume("a slice handed to a constructor belongs to the new value; elements of the containers are themselves immutable")
	for _, fast := range []bool{false, true} {
		value.AllowFastAppends = fast
		var all, some []start
		for _, n := range startSizes {
			if n > 33 {
				continue
			}
			all = append(all, listStarts(n, true, false, false)...)
			for _, shape := range []int{0, 2, 5} {
				if shape > 0 && (n < 3 || n > 9) {
					continue
				}
				all = append(all, mapStarts(n, shape, true, false, false)...)
				if !fast {
					all = append(all, sparseStarts(n, shape, false)...)
				}
			}
		}
		for _, n := range []int{0, 1, 2, 3, 5, 8}[:c.Pick(4, 6)] {
			some = append(some, listStarts(n, true, false, false)[:2]...)
			some = append(some, mapStarts(n, 0, true, false, false)[:2]...)
			if !fast {
				some = append(some, sparseStarts(n, 0, false)[:3]...)
			}
		}
		p := fmt.Sprintf("fast-appends-%v/", fast)
		versions(c, p+"version-tree-2", all, 2, c.Pick(1, 2))
		versions(c, p+"version-tree-3", some, 3, c.Pick(1, 2))
		versions(c, p+"version-tree-4", some[:c.Pick(4, 10)], 4, 0)

		// reads, views, copies and conversions, before and after one operation
		var rich []start
		for _, n := range []int{0, 1, 2, 3, 4, 5, 7, 8, 12, 13, 17} {
			rich = append(rich, richStarts(n, fast)...)
		}
		for _, n := range []int{1, 2, 3, 6, 11, 13} {
			rich = append(rich, holeStarts(n, fast)...)
		}
		versions(c, p+"version-tree-holes", append(holeStarts(2, fast), holeStarts(4, fast)...), 2, 1)
		cons := append(listConstructions(3, false), mapConstructions(2, false)...)
		if !fast {
			cons = append(cons, sparseConstructions(2)...)
		}
		versions(c, p+"constructions", cons, 1, 1)
		pastTheEnd(c, p+"past-the-end", fast)
		largeForks(c, p+"large-forks", fast)
		c.Par(p+"views-and-conversions", len(rich), func(w *kit.W, i int) {
			s := rich[i]
			w.NewState()
			w.Step(func() string { return "reads and conversions of " + s.String() })
			a := version{x: s.mk(), v: s.v, pack: s.v.Encode()}
			reads(a.x)
			w.Trace()
			if m := a.intact(); m != "" {
				w.Fail("%s", m)
			}
			for _, o := range opsFor(s.v, 0, 1) {
				w.NewState()
				w.Step(func() string {
					return "reads and conversions of the result of " + s.String() + pathString([]ref.Op{o}, s.v.K)
				})
				y := apply(w, a.x, o)
				v2 := ref.Apply(s.v, o)
				b := version{x: y, v: v2, pack: v2.Encode()}
				if m := b.intact(); m != "" {
					w.Fail("new value %s", m)
				}
				reads(y)
				w.Trace()
				if m := b.intact(); m != "" {
					w.Fail("%s", m)
				}
				if m := a.intact(); m != "" {
					w.Fail("the value it was derived from %s", m)
				}
				// every path of two more steps through a conversion is covered by reads itself
			}
		})
	}
	value.AllowFastAppends = true
}

// pastTheEnd: every pair of operations at and past the end of one value that may own more room than it
// uses, and a third one on what the first one made.
func pastTheEnd(c *kit.Ctx, label string, fast bool) {
	var starts []start
	for _, n := range []int{0, 1, 2, 3, 6} {
		starts = append(starts, listStarts(n, true, false, false)...)
		starts = append(starts, mapStarts(n, 0, true, false, false)...)
		v := mapModel(n, 0, false)
		starts = append(starts, start{"ImmutableMap of a slice with spare capacity", v, func() value.Value { return value.ImmutableMap(mapEntries(v, 9), true) }})
		if !fast {
			starts = append(starts, sparseStarts(n, 0, false)...)
		}
	}
	gaps := c.Pick(5, 10)
	ends := func(v *ref.V, mark string) []ref.Op {
		n := len(v.L)
		var ops []ref.Op
		for g := 0; g < gaps; g++ {
			o := ref.Op{}
			switch {
			case v.K == ref.List:
				o.I = n + g
			case v.K == ref.Sparse && n > 0:
				o.I = v.IK[n-1] + g
			case v.K == ref.Sparse:
				o.I = g
			default:
				o.K = "~" + string(rune('0'+g))
			}
			x, y := ref.VUtf8(mark+"x"), ref.VUtf8(mark+"y")
			for _, p := range []ref.Op{{Name: "put", Val: x}, {Name: "insert", Val: y}, {Name: "insertall", Vals: []*ref.V{y, ref.VNil, x}}} {
				p.I, p.K = o.I, o.K
				ops = append(ops, p)
			}
		}
		if v.K != ref.Map {
			ops = append(ops, ref.Op{Name: "append", Val: ref.VUtf8(mark + "a")})
		}
		return ops
	}
	c.Bound(label, fmt.Sprintf("%d starts, operations at and up to %d places past the end", len(starts), gaps))
	c.Par(label, len(starts), func(w *kit.W, ci int) {
		s := starts[ci]
		for _, a := range ends(s.v, "1") {
			for _, b := range ends(s.v, "2") {
				w.NewState()
				w.Step(func() string {
					return fmt.Sprintf("%s: %s, %s on the same value", s.String(), a.String(s.v.K), b.String(s.v.K))
				})
				root := version{x: s.mk(), v: s.v, pack: s.v.Encode()}
				alive := []version{root}
				derive := func(from version, o ref.Op) {
					v2 := ref.Apply(from.v, o)
					alive = append(alive, version{apply(w, from.x, o), v2, v2.Encode(), append(append([]ref.Op(nil), from.how...), o)})
					w.Trace()
				}
				derive(root, a)
				derive(root, b)
				for _, g := range []int{1, 2} {
					end := ends(alive[g].v, "3")
					derive(alive[g], end[len(end)-1])
					derive(alive[g], end[3*(gaps/2)])
				}
				for k := range alive {
					if m := alive[k].intact(); m != "" {
						w.Fail("the value obtained by%s %s", pathString(alive[k].how, s.v.K), m)
					}
				}
			}
		}
	})
}

// holeStarts: containers with absent elements, and with containers that have them.
func holeStarts(n int, fast bool) []start {
	inner := func(i int) *ref.V {
		switch i % 7 {
		case 0:
			return ref.VList(ref.VNil, ref.VLong(int64(i)), ref.VNil)
		case 1:
			return ref.VMap([]string{"0", "p", "q"}, []*ref.V{ref.VNil, ref.VNil, ref.VUtf8("w")})
		case 2:
			return ref.VNil
		case 3:
			if !fast {
				return ref.VSparse([]int{0, 2, 5}, []*ref.V{ref.VNil, ref.VUtf8("s"), ref.VNil})
			}
		case 4:
			return ref.VList(ref.VList(ref.VNil, ref.VList(ref.VNil)), ref.VMap([]string{"a"}, []*ref.V{ref.VList(ref.VNil)}))
		}
		return ref.VLong(int64(i))
	}
	l, m, s := &ref.V{K: ref.List}, &ref.V{K: ref.Map}, &ref.V{K: ref.Sparse}
	for i := 0; i < n; i++ {
		e := inner(i)
		l.L, m.L, s.L = append(l.L, e), append(m.L, e), append(s.L, e)
		m.SK, s.IK = append(m.SK, fmt.Sprintf("k%02d", i)), append(s.IK, 2*i)
	}
	var out []start
	vs := []*ref.V{l, m, s}
	if fast {
		vs = vs[:2]
	}
	for _, v := range vs {
		for _, f := range []int{ref.FImmutable, ref.FImmOps} {
			out = append(out, start{"with holes, " + ref.FlavourName(f), v, func() value.Value { return ref.Build(v, f) }})
		}
	}
	return out
}

func richStarts(n int, fast bool) []start {
	out := append(listStarts(n, true, false, !fast), mapStarts(n, 0, true, false, !fast)...)
	if fast { // sparse lists are only immutable while fast appends are disabled
		v, m := ref.VList(), ref.VMap(nil, nil)
		for i := 0; i < n; i++ {
			e := elem(i, true)
			if e.K == ref.Sparse {
				e = ref.VNull
			}
			v = ref.Apply(v, ref.Op{Name: "append", Val: e})
			m = ref.Apply(m, ref.Op{Name: "put", K: fmt.Sprintf("k%02d", i), Val: e})
		}
		for _, f := range []int{ref.FImmutable, ref.FImmOps, ref.FDecoded} {
			if n > 0 {
				out = append(out, start{"list " + ref.FlavourName(f), v, func() value.Value { return ref.Build(v, f) }},
					start{"map " + ref.FlavourName(f), m, func() value.Value { return ref.Build(m, f) }})
			}
		}
	} else {
		out = append(out, sparseStarts(n, 0, true)...)
	}
	return out
}

// ---------- C13 ----------

type spyUpdater struct {
	calls int
	old   value.Value
	ret   value.Value
}

func (u *spyUpdater) Update(old value.Value) value.Value {
	u.calls++
	u.old = old
	return u.ret
}

// first is the index of the first entry at a position or key, -1 when there is none.
func first(v *ref.V, i int, k string) int {
	switch v.K {
	case ref.List:
		if i >= 0 && i < len(v.L) {
			return i
		}
	case ref.Sparse:
		for j, x := range v.IK {
			if x == i {
				return j
			}
		}
	case ref.Map:
		for j, x := range v.SK {
			if x == k {
				return j
			}
		}
	}
	return -1
}

func withElem(v *ref.V, j int, e *ref.V) *ref.V {
	d := *v
	d.L = append([]*ref.V(nil), v.L...)
	if e.K == ref.Nil {
		e = ref.VNull
	}
	d.L[j] = e
	return &d
}

func updateAt(x value.Value, i int, k string, u value.Updater) bool {
	if l, ok := x.(value.List); ok {
		return l.UpdateAt(i, u)
	}
	return x.(value.Map).Update(k, u)
}

func C13(c *kit.Ctx) {
	type target struct {
		start
		mutable int // 0 no entry is updatable, 1 every entry is, 2 either way
	}
	var ts []target
	add := func(m int, ss ...start) {
		for _, s := range ss {
			ts = append(ts, target{s, m})
		}
	}
	for _, n := range []int{0, 1, 2, 3, 4, 5, 8, 12, 13, 16, 17, 33} {
		add(0, listStarts(n, true, false, n%2 == 1)...)
		add(1, listStarts(n, false, true, n%2 == 1)...)
		for shape := 0; shape < 8; shape++ {
			if shape > 0 && n < 3 || shape > 4 && n > 9 {
				continue
			}
			add(0, mapStarts(n, shape, true, false, false)...)
			for _, s := range mapStarts(n, shape, false, true, n%2 == 1) {
				add(1, s)
			}
			for _, s := range sparseStarts(n, shape, false) {
				m := 2
				switch s.name {
				case "EmptySparseList grown", "SparseListOf", "SparseList of mutable items with spare capacity", "SparseList negative":
					m = 1
				case "SparseList", "decoded sparse list":
					m = 0
				}
				add(m, s)
			}
		}
	}
	add(1, start{"mutable list with nil elements", ref.VList(ref.VNil, ref.VLong(1), ref.VNil), func() value.Value {
		return value.MutableList([]value.Value{nil, value.Long(1), nil})
	}})
	rets := []*ref.V{ref.VUtf8("new"), ref.VNil, ref.VNull, ref.VList(ref.VLong(1))}
	c.Bound("containers", len(ts))
	c.Par("single-updates", len(ts), func(w *kit.W, i int) {
		t := ts[i]
		n := len(t.v.L)
		var is []int
		var ks []string
		switch t.v.K {
		case ref.List:
			for p := -2; p <= n+2; p++ {
				is = append(is, p)
			}
			is = append(is, -1<<63, 1<<63-1)
		case ref.Sparse:
			is = []int{-1 << 63, -1000, -1, 0, 1, 1<<63 - 1}
			for _, k := range t.v.IK {
				is = append(is, k, k+1, k-1)
			}
			is = uniq(is)
		case ref.Map:
			ks = []string{"", "~", "k"}
			for _, k := range t.v.SK {
				ks = append(ks, k, k+"!", k[:len(k)/2], swapCase(k), " "+k)
			}
			ks = uniq(ks)
			is = make([]int, len(ks))
		}
		for pi := range is {
			k := ""
			if t.v.K == ref.Map {
				k = ks[pi]
			}
			for _, r := range rets {
				w.NewState()
				w.Step(func() string {
					return fmt.Sprintf("update of %s at %d %q with %s", t.start.String(), is[pi], k, r.Short())
				})
				x := t.mk()
				u := &spyUpdater{ret: ref.Build(r, 0)}
				ok := updateAt(x, is[pi], k, u)
				w.Trace()
				j := first(t.v, is[pi], k)
				want := t.v
				if j >= 0 && (t.mutable == 1 || t.mutable == 2 && ok) {
					want = withElem(t.v, j, r)
					if !ok {
						w.Fail("reported failure")
					}
					if u.calls != 1 {
						w.Fail("the updater was called %d times", u.calls)
					}
					if !ref.Same(ref.Observe(u.old), t.v.L[j]) {
						w.Fail("the updater was given %s, the entry holds %s", ref.Observe(u.old).Short(), t.v.L[j].Short())
					}
				} else if ok || u.calls != 0 {
					w.Fail("reported %v and called the updater %d times although there is no updatable entry", ok, u.calls)
				}
				if m := CheckViews(x, want); m != "" {
					w.Fail("afterwards %s", m)
				}
				// a second update sees the result of the first
				u2 := &spyUpdater{ret: value.Long(77)}
				ok2 := updateAt(x, is[pi], k, u2)
				if ok2 != ok {
					w.Fail("the second update reported %v, the first %v", ok2, ok)
				}
				if ok2 {
					if u2.calls != 1 || !ref.Same(ref.Observe(u2.old), want.L[j]) {
						w.Fail("the second update was given %s, the entry holds %s", ref.Observe(u2.old).Short(), want.L[j].Short())
					}
					want = withElem(want, j, ref.VLong(77))
				}
				if m := CheckViews(x, want); m != "" {
					w.Fail("after the second update %s", m)
				}
			}
		}
	})
	updatesOfEqualValues(c)
	updatesOfEveryContent(c)
	updatesInRuns(c)
	updatesInLists(c)
	// updates mixed with operations on one mutable container, used linearly
	depth := c.Pick(3, 4)
	var lin []start
	for _, n := range []int{1, 2, 3, 4} {
		lin = append(lin, listStarts(n, false, true, false)[:3]...)
		lin = append(lin, mapStarts(n, 0, false, true, false)...)
		if n > 2 {
			lin = append(lin, mapStarts(n, 2, false, true, false)[:2]...)
		}
		for _, s := range sparseStarts(n, 0, false) {
			if s.name == "EmptySparseList grown" || s.name == "SparseListOf" {
				lin = append(lin, s)
			}
		}
	}
	c.Bound("mixed_history_depth", depth)
	c.Par("updates-in-histories", len(lin), func(w *kit.W, i int) {
		s := lin[i]
		type stp struct {
			upd bool
			o   ref.Op
		}
		var path []stp
		show := func() string {
			d := s.String()
			for _, p := range path {
				if p.upd {
					d += fmt.Sprintf(".update(%d,%q)", p.o.I, p.o.K)
				} else {
					d += "." + p.o.String(s.v.K)
				}
			}
			return d
		}
		var rec func(v *ref.V)
		rec = func(v *ref.V) {
			var steps []stp
			for _, o := range opsFor(v, len(path), 1) {
				steps = append(steps, stp{false, o})
				if o.Name == "put" {
					steps = append(steps, stp{true, o})
				}
			}
			for _, st := range steps {
				path = append(path, st)
				w.Step(show)
				w.NewState()
				x := s.mk()
				m := s.v
				for k, p := range path {
					if !p.upd {
						x = apply(w, x, p.o)
						m = ref.Apply(m, p.o)
						continue
					}
					u := &spyUpdater{ret: value.Utf8(fmt.Sprintf("upd%d", k))}
					ok := updateAt(x, p.o.I, p.o.K, u)
					j := first(m, p.o.I, p.o.K)
					if ok != (j >= 0) || ok && (u.calls != 1 || !ref.Same(ref.Observe(u.old), m.L[j])) || !ok && u.calls != 0 {
						w.Fail("update %d reported %v after %d calls (old value %s), content %s", k, ok, u.calls, ref.Observe(u.old).Short(), m.Short())
					}
					if ok {
						m = withElem(m, j, ref.VUtf8(fmt.Sprintf("upd%d", k)))
					}
				}
				w.Trace()
				if msg := CheckViews(x, m); msg != "" {
					w.Fail("%s", msg)
				}
				if len(path) < depth {
					rec(m)
				}
				path = path[:len(path)-1]
			}
		}
		rec(s.v)
	})
	// maps and their copies: every interleaving of updates and operations
	var srcs []target
	for _, n := range []int{0, 1, 2, 3, 5, 12} {
		for _, s := range mapStarts(n, 0, true, false, false) {
			srcs = append(srcs, target{s, 0})
		}
		for _, s := range mapStarts(n, 0, false, true, false) {
			srcs = append(srcs, target{s, 1})
		}
		if n >= 3 {
			srcs = append(srcs, target{mapStarts(n, 2, false, true, false)[0], 1}, target{mapStarts(n, 2, true, false, false)[0], 0})
		}
	}
	// every history of 2 (thorough 3) actions from every source, of 3 (4) from the small ones
	deepFrom := func(t target) int {
		if len(t.v.L) <= 2 && (t.name == "ImmutableMap" || t.name == "SortedMap" || t.name == "EmptyMap(false) grown") {
			return c.Pick(3, 4)
		}
		return c.Pick(2, 3)
	}
	c.Bound("copy_histories", "all of 2 (thorough: 3) actions, all of 3 (4) from sources of up to 2 entries")
	c.Par("maps-and-copies", len(srcs), func(w *kit.W, i int) {
		t := srcs[i]
		keys := []string{"absent"}
		if n := len(t.v.SK); n > 0 {
			keys = uniq([]string{t.v.SK[0], t.v.SK[n/2], t.v.SK[n-1]})
		}
		// who: 0 source, 1 immutable copy, 2 mutable copy, 3 mutable copy of the immutable copy
		type act struct {
			who  int
			kind string
			key  string
		}
		var acts []act
		for who := 0; who < 4; who++ {
			for _, k := range keys {
				acts = append(acts, act{who, "update", k}, act{who, "entry-update", k}, act{who, "put", k}, act{who, "remove", k})
			}
			acts = append(acts, act{who, "insert", "kzz"}, act{who, "recopy", ""})
		}
		var path []act
		cdepth := deepFrom(t)
		var rec func()
		rec = func() {
			for _, a := range acts {
				path = append(path, a)
				w.NewState()
				w.Step(func() string { return fmt.Sprintf("copies of %s, %v", t.start.String(), path) })
				src := t.mk().(value.Map)
				c1 := value.ImmutableMapCopyOf(src)
				xs := []value.Map{src, c1, value.SortedMapCopyOf(src), value.SortedMapCopyOf(c1)}
				vs := []*ref.V{t.v, t.v, t.v, t.v}
				mutable := []bool{t.mutable == 1, false, true, true}
				for k, p := range path {
					nv := ref.VUtf8(fmt.Sprintf("n%d", k))
					x, v := xs[p.who], vs[p.who]
					j := first(v, 0, p.key)
					switch p.kind {
					case "update", "entry-update":
						u := &spyUpdater{ret: value.Utf8(fmt.Sprintf("n%d", k))}
						ok := false
						if p.kind == "update" {
							ok = x.Update(p.key, u)
						} else if j >= 0 {
							ok = x.Entries()[j].Update(u)
						}
						if ok != (j >= 0 && mutable[p.who]) {
							w.Fail("update %d reported %v", k, ok)
						}
						if ok {
							vs[p.who] = withElem(v, j, nv)
						}
					case "put", "remove", "insert":
						o := ref.Op{Name: p.kind, K: p.key, Val: nv}
						xs[p.who] = apply(w, x, o).(value.Map)
						vs[p.who] = ref.Apply(v, o)
					case "recopy": // replace the mutable copy (or the immutable one) by a fresh copy of this map
						if p.who == 1 {
							xs[3], vs[3] = value.SortedMapCopyOf(x), v
						} else {
							xs[1], vs[1] = value.ImmutableMapCopyOf(x), v
						}
					}
				}
				w.Trace()
				for k := range xs {
					if m := CheckViews(xs[k], vs[k]); m != "" {
						w.Fail("%s: %s", []string{"the source", "the immutable copy", "the mutable copy", "the copy of the copy"}[k], m)
					}
				}
				if len(path) < cdepth {
					rec()
				}
				path = path[:len(path)-1]
			}
		}
		rec()
	})
	nestedUpdates(c)
}

// nestedUpdater does something else before it answers.
type nestedUpdater struct {
	spyUpdater
	do func()
}

func (u *nestedUpdater) Update(old value.Value) value.Value {
	u.do()
	return u.spyUpdater.Update(old)
}

// nestedUpdates: updaters that read, update and change other containers, and read and update other
// entries of the container they are called for, up to a depth of nesting.
func nestedUpdates(c *kit.Ctx) {
	mk := func() []start {
		return []start{mapStarts(3, 0, false, true, false)[0], mapStarts(4, 2, false, true, false)[1], listStarts(3, false, true, false)[0], listStarts(3, false, true, false)[1],
			sparseStarts(3, 0, false)[1], sparseStarts(4, 2, false)[1], mapStarts(3, 0, true, false, false)[0], listStarts(3, true, false, false)[0]}
	}
	ss := mk()
	mutable := func(s int) bool { return s < 6 }
	keyOf := func(v *ref.V, p int) (int, string) {
		switch v.K {
		case ref.Map:
			return 0, v.SK[p]
		case ref.Sparse:
			return v.IK[p], ""
		}
		return p, ""
	}
	actions := []string{"update", "read", "put", "insert", "remove", "copy", "pack", "entry-update"}
	depth := c.Pick(3, 4)
	c.Bound("nested_updates", fmt.Sprintf("%d containers, %d actions inside of an updater, nested up to %d updates deep", len(ss), len(actions), depth))
	// a chain of updates: each is performed inside of the updater of the one before, on another container
	// or on another entry of the same one; the innermost performs an action
	n := len(ss)
	total := 1
	for i := 0; i < depth; i++ {
		total *= n
	}
	c.Par("nested-updates", total, func(w *kit.W, ci int) {
		chain := make([]int, depth)
		for i := range chain {
			chain[i] = ci % n
			ci /= n
		}
		for ai, act := range actions {
			if ai != 0 && ai != 1 && chain[0] != 0 && chain[depth-1] >= n/2 {
				continue
			}
			w.NewState()
			w.Step(func() string {
				t := "updates, each inside of the updater of the one before:"
				for _, k := range chain {
					t += " " + ss[k].name
				}
				return t + "; in the last one " + act
			})
			xs := make([]value.Value, n)
			vs := make([]*ref.V, n)
			for i := range xs {
				xs[i], vs[i] = ss[i].mk(), ss[i].v
			}
			done := 0
			used := make([]int, n) // entries of each container under update
			var run func(d int)
			run = func(d int) {
				if d == depth {
					// the action on every container in turn that is not under update; reads everywhere
					for i := range xs {
						switch act {
						case "read", "pack", "copy":
							if act == "read" {
								if m := CheckViews(xs[i], vs[i]); m != "" {
									w.Fail("inside: %s %s", ss[i].name, m)
								}
							} else if act == "pack" {
								_ = xs[i].String()
								xs[i].MarshalBinary()
								xs[i].MarshalJSON()
								value.Hex(xs[i])
								xs[i].Equal(xs[(i+1)%n])
							} else if m, ok := xs[i].(value.Map); ok {
								if msg := CheckViews(value.SortedMapCopyOf(m), vs[i]); msg != "" {
									w.Fail("inside: the copy %s", msg)
								}
								if msg := CheckViews(value.ImmutableMapCopyOf(m), vs[i]); msg != "" {
									w.Fail("inside: the copy %s", msg)
								}
							}
							continue
						}
						if used[i] > 0 {
							continue
						}
						k, key := keyOf(vs[i], 1)
						switch act {
						case "update":
							u := &spyUpdater{ret: value.Utf8("inner")}
							if ok := updateAt(xs[i], k, key, u); ok != mutable(i) {
								w.Fail("the inner update of %s reported %v", ss[i].name, ok)
							} else if ok {
								vs[i] = withElem(vs[i], first(vs[i], k, key), ref.VUtf8("inner"))
							}
						case "entry-update":
							m, ok := xs[i].(value.Map)
							if !ok {
								continue
							}
							u := &spyUpdater{ret: value.Utf8("inner")}
							if ok := m.Entries()[1].Update(u); ok != mutable(i) {
								w.Fail("the inner update of an entry of %s reported %v", ss[i].name, ok)
							} else if ok {
								vs[i] = withElem(vs[i], 1, ref.VUtf8("inner"))
							}
						default:
							o := ref.Op{Name: act, I: k, K: key, Val: ref.VLong(4711)}
							xs[i] = apply(w, xs[i], o)
							vs[i] = ref.Apply(vs[i], o)
						}
					}
					return
				}
				i := chain[d]
				p := used[i] * 2 % len(vs[i].L) // another entry than those under update
				if used[i] > 0 {
					p = used[i]
					if p >= len(vs[i].L) || len(vs[i].SK) > 0 && vs[i].SK[p] == vs[i].SK[p-1] || len(vs[i].IK) > 0 && vs[i].IK[p] == vs[i].IK[p-1] {
						run(d + 1)
						return
					}
				}
				used[i]++
				k, key := keyOf(vs[i], p)
				j := first(vs[i], k, key)
				ret := ref.VUtf8(fmt.Sprintf("level %d", d))
				u := &nestedUpdater{do: func() { done++; run(d + 1) }}
				u.ret = ref.Build(ret, 0)
				old := vs[i].L[j]
				ok := updateAt(xs[i], k, key, u)
				if !mutable(i) {
					if ok || u.calls != 0 {
						w.Fail("an update of %s reported %v", ss[i].name, ok)
					}
					used[i]--
					run(d + 1)
					return
				}
				if !ok || u.calls != 1 || !ref.Same(ref.Observe(u.old), old) {
					w.Fail("the update %d reported %v after %d calls, was given %s, the entry held %s", d, ok, u.calls, ref.Observe(u.old).Short(), old.Short())
				}
				vs[i] = withElem(vs[i], j, ret)
				used[i]--
			}
			run(0)
			w.Trace()
			for i := range xs {
				if m := CheckViews(xs[i], vs[i]); m != "" {
					w.Fail("afterwards %s %s", ss[i].name, m)
				}
			}
		}
	})
}
