package props

import (
	"fmt"
	"sort"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

// vectors calls f with every vector of n symbols below k.
func vectors(n, k int, f func(v []int)) {
	v := make([]int, n)
	for {
		f(v)
		i := 0
		for ; i < n; i++ {
			v[i]++
			if v[i] < k {
				break
			}
			v[i] = 0
		}
		if i == n {
			return
		}
	}
}

// smallElems: an absent element, null, a number that tells its position and a text.
func smallElem(sym, pos int) *ref.V {
	switch sym {
	case 0:
		return ref.VNil
	case 1:
		return ref.VNull
	case 2:
		return ref.VLong(int64(pos + 1))
	}
	return ref.VUtf8("t")
}

func values(l []*ref.V) []value.Value {
	s := make([]value.Value, len(l))
	for i, e := range l {
		s[i] = ref.Build(e, 0)
	}
	return s
}

// listConstructions: every way of constructing lists of every vector of up to n small elements.
func listConstructions(n int, mutable bool) []start {
	var out []start
	for k := 0; k <= n; k++ {
		vectors(k, 4, func(sym []int) {
			v := &ref.V{K: ref.List}
			for i, s := range sym {
				v.L = append(v.L, smallElem(s, i))
			}
			out = append(out, start{"ImmutableList", v, func() value.Value { return value.ImmutableList(values(v.L)) }})
			if !mutable {
				return
			}
			out = append(out, start{"MutableList", v, func() value.Value { return value.MutableList(values(v.L)) }},
				start{"Tuple", v, func() value.Value { return value.Tuple(values(v.L)...) }})
			if k == 1 {
				out = append(out, start{"Single", v, func() value.Value { return value.Single(ref.Build(v.L[0], 0)) }})
			}
		})
	}
	return out
}

// mapConstructions: every way of constructing maps of every vector of up to n entries over two keys.
func mapConstructions(n int, mutable bool) []start {
	var out []start
	keys := []string{"b", "a"}
	for k := 0; k <= n; k++ {
		vectors(k, 8, func(sym []int) {
			ks := make([]string, k)
			els := make([]*ref.V, k)
			ord := make([]int, k)
			seen := map[string]bool{}
			for i, s := range sym {
				ks[i], els[i], ord[i] = keys[s&1], smallElem(s/2, i), i
				seen[ks[i]] = true
			}
			sort.SliceStable(ord, func(i, j int) bool { return ks[ord[i]] < ks[ord[j]] })
			v := &ref.V{K: ref.Map}
			inOrder := true
			for i, o := range ord {
				v.SK, v.L = append(v.SK, ks[o]), append(v.L, els[o])
				inOrder = inOrder && i == o
			}
			mk := func(mut bool) []value.MapEntry {
				es := make([]value.MapEntry, k)
				for i := range es {
					if mut != (i%3 == 2) { // mixed in longer ones
						es[i] = value.MutableEntry(ks[i], ref.Build(els[i], 0))
					} else {
						es[i] = value.ImmutableEntry(ks[i], ref.Build(els[i], 0))
					}
				}
				return es
			}
			add := func(name string, f func() value.Value) {
				out = append(out, start{fmt.Sprintf("%s of %v %s", name, ks, ref.VList(els...).Short()), v, f})
			}
			for _, mut := range []bool{false, true} {
				for _, sorted := range []bool{false, true} {
					if sorted && !inOrder {
						continue
					}
					add(fmt.Sprintf("ImmutableMap(sorted %v, mutable entries %v)", sorted, mut), func() value.Value { return value.ImmutableMap(mk(mut), sorted) })
					if mutable {
						add(fmt.Sprintf("SortedMap(sorted %v, mutable entries %v)", sorted, mut), func() value.Value { return value.SortedMap(mk(mut), sorted) })
					}
				}
			}
			add("ImmutableMapCopyOf", func() value.Value { return value.ImmutableMapCopyOf(value.SortedMap(mk(true), false)) })
			if mutable {
				add("SortedMapCopyOf", func() value.Value { return value.SortedMapCopyOf(value.ImmutableMap(mk(false), false)) })
			}
			if len(seen) == k {
				hm := func() map[string]value.Value {
					h := map[string]value.Value{}
					for i, key := range ks {
						h[key] = ref.Build(els[i], 0)
					}
					return h
				}
				add("ImmutableMapOf", func() value.Value { return value.ImmutableMapOf(hm()) })
				if mutable {
					add("SortedMapOf", func() value.Value { return value.SortedMapOf(hm()) })
				}
			}
		})
	}
	return out
}

// sparseConstructions: every way of constructing sparse lists of every vector of up to n items over
// two indexes, and of every vector of up to n+1 elements.
func sparseConstructions(n int) []start {
	var out []start
	idx := []int{3, -1}
	for k := 0; k <= n; k++ {
		vectors(k, 8, func(sym []int) {
			ks := make([]int, k)
			els := make([]*ref.V, k)
			ord := make([]int, k)
			for i, s := range sym {
				ks[i], els[i], ord[i] = idx[s&1], smallElem(s/2, i), i
			}
			sort.SliceStable(ord, func(i, j int) bool { return ks[ord[i]] < ks[ord[j]] })
			v := &ref.V{K: ref.Sparse}
			inOrder := true
			for i, o := range ord {
				v.IK, v.L = append(v.IK, ks[o]), append(v.L, els[o])
				inOrder = inOrder && i == o
			}
			for _, mut := range []bool{false, true} {
				for _, sorted := range []bool{false, true} {
					if sorted && !inOrder {
						continue
					}
					out = append(out, start{fmt.Sprintf("SparseList(sorted %v, mutable items %v) of %v %s", sorted, mut, ks, ref.VList(els...).Short()), v, func() value.Value {
						its := make([]value.ListItem, k)
						for i := range its {
							if mut != (i%3 == 2) {
								its[i] = value.MutableItem(ks[i], ref.Build(els[i], 0))
							} else {
								its[i] = value.ImmutableItem(ks[i], ref.Build(els[i], 0))
							}
						}
						return value.SparseList(its, sorted)
					}})
				}
			}
		})
	}
	// an absent element has no item, a null has one
	for k := 0; k <= n+1; k++ {
		vectors(k, 4, func(sym []int) {
			v := &ref.V{K: ref.Sparse}
			els := make([]*ref.V, k)
			for i, s := range sym {
				els[i] = smallElem(s, i)
				if s != 0 {
					v.IK, v.L = append(v.IK, i), append(v.L, els[i])
				}
			}
			out = append(out, start{"SparseListOf " + ref.VList(els...).Short(), v, func() value.Value { return value.SparseListOf(values(els)) }})
		})
	}
	return out
}

// growAndShrink: containers of every size up to the bound on the way up and on the way down again,
// removing at one place or alternately at several; all views at every size. Immutable versions are
// kept and compared at the end.
func growAndShrink(c *kit.Ctx, label string, kinds []start, sizes []int) {
	grow := []string{"append", "front", "middle"}
	shrink := []string{"front", "back", "second", "second-last", "middle", "alternating", "deleteall-front", "half-and-regrow"}
	c.Bound(label+"_sizes", sizes)
	c.Par(label, len(kinds)*len(sizes)*len(grow)*len(shrink), func(w *kit.W, i int) {
		s := kinds[i%len(kinds)]
		i /= len(kinds)
		g := grow[i%len(grow)]
		i /= len(grow)
		h := shrink[i%len(shrink)]
		n := sizes[i/len(shrink)]
		w.NewState()
		x, v := s.mk(), s.v
		immutable := s.name == "immutable"
		var kept []version
		step := func(o ref.Op) {
			w.Step(func() string {
				return fmt.Sprintf("%s %s grown to %d elements (%s), then shrunk (%s), now with %d elements: %s", s.name, s.v.Short(), n, g, h, len(v.L), o.String(v.K))
			})
			x = apply(w, x, o)
			v = ref.Apply(v, o)
			w.Trace()
			if m := CheckViews(x, v); m != "" {
				w.Fail("%s", m)
			}
			if immutable && len(v.L)%5 == 0 {
				kept = append(kept, version{x: x, v: v, pack: v.Encode()})
			}
		}
		at := func(name string, pos int, nr int) ref.Op {
			o := ref.Op{Name: name, I: pos, Val: ref.VLong(int64(nr))}
			if name == "remove" || name == "deleteall" {
				if v.K == ref.Map {
					o.K = v.SK[pos]
				} else if v.K == ref.Sparse {
					o.I = v.IK[pos]
				}
				return o
			}
			// a new key between those around the position, as long as there is one
			key := func(i int) (k int) {
				if v.K == ref.Map {
					fmt.Sscanf(v.SK[i], "%d", &k)
				} else if v.K == ref.Sparse {
					k = v.IK[i]
				}
				return k
			}
			k := 1 << 60
			switch m := len(v.L); {
			case v.K == ref.List || m == 0:
			case pos == 0:
				k = key(0) - 1<<40
			case pos == m:
				k = key(m-1) + 1<<40
			default:
				k = key(pos-1) + (key(pos)-key(pos-1))/2
			}
			if v.K == ref.Map {
				o.K = fmt.Sprintf("%020d", k)
			} else if v.K == ref.Sparse {
				o.I = k
			}
			return o
		}
		for k := 0; k < n; k++ {
			switch g {
			case "append":
				step(at("insert", len(v.L), k))
			case "front":
				step(at("insert", 0, k))
			case "middle":
				step(at("put", len(v.L)/2, k))
				if v.K == ref.List && len(v.L) > 0 { // a put replaces: also make room
					step(at("insert", len(v.L)/2, k))
				}
			}
		}
		for k := 0; len(v.L) > 0; k++ {
			m := len(v.L)
			p := 0
			switch h {
			case "back":
				p = m - 1
			case "second":
				p = min(1, m-1)
			case "second-last":
				p = max(0, m-2)
			case "middle":
				p = m / 2
			case "alternating":
				p = []int{0, m - 1, m / 2}[k%3]
			case "half-and-regrow":
				p = m - 1
				if k == n/2 {
					for j := 0; j < 3; j++ {
						step(at("insert", len(v.L), 5000+j))
						step(at("insert", 0, 6000+j))
					}
					continue
				}
			}
			name := "remove"
			if h == "deleteall-front" {
				name = "deleteall"
			}
			step(at(name, p, 0))
		}
		step(at("insert", 0, 7000))
		for _, a := range kept {
			if m := a.intact(); m != "" {
				w.Fail("an earlier version of %d elements %s", len(a.v.L), m)
			}
		}
	})
}

// empties are the starts of growAndShrink.
func empties(k ref.Kind) []start {
	v := &ref.V{K: k}
	switch k {
	case ref.List:
		return []start{{"immutable", v, func() value.Value { return value.EmptyImmutableList() }}, {"mutable", v, func() value.Value { return value.EmptyMutableList() }}}
	case ref.Map:
		return []start{{"immutable", v, func() value.Value { return value.EmptyImmutableMap() }}, {"mutable", v, func() value.Value { return value.EmptyMutableMap() }}}
	}
	return []start{{"sparse", v, func() value.Value { return value.EmptySparseList() }}}
}

// query is one reading call; its result as text.
type query struct {
	name string
	run  func(x value.Value) string
}

func canon(x value.Value) string { return ref.Observe(x).Canon() }

func queriesFor(v *ref.V) []query {
	qs := []query{
		{"Pack", func(x value.Value) string { b, err := value.Pack(x); return fmt.Sprintf("%x %v", b, err) }},
		{"String", func(x value.Value) string { return x.String() }},
		{"MarshalJSON", func(x value.Value) string { b, err := x.MarshalJSON(); return fmt.Sprintf("%s %v", b, err) }},
		{"MarshalBinary", func(x value.Value) string { b, err := x.MarshalBinary(); return fmt.Sprintf("%x %v", b, err) }},
		{"Hex", func(x value.Value) string { return value.Hex(x) }},
		{"Equal", func(x value.Value) string {
			y := ref.Build(v, ref.FImmutable)
			return fmt.Sprint(x.Equal(y), y.Equal(x), value.Equal(x, y))
		}},
	}
	add := func(name string, f func(x value.Value) string) { qs = append(qs, query{name, f}) }
	seq := func(l []value.Value) string {
		s := ""
		for _, e := range l {
			s += canon(e) + ","
		}
		return s
	}
	if v.K == ref.Map {
		add("Len", func(x value.Value) string { return fmt.Sprint(x.(value.Map).Len()) })
		add("Keys", func(x value.Value) string { return fmt.Sprintf("%q", x.(value.Map).Keys()) })
		add("Values", func(x value.Value) string { return seq(x.(value.Map).Values()) })
		add("Entries", func(x value.Value) string {
			s := ""
			for _, e := range x.(value.Map).Entries() {
				s += fmt.Sprintf("%q:%s,", e.Key(), canon(e.Value()))
			}
			return s
		})
		add("HashMap", func(x value.Value) string {
			h := x.(value.Map).HashMap()
			var ks []string
			for k := range h {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			s := ""
			for _, k := range ks {
				s += fmt.Sprintf("%q:%s,", k, canon(h[k]))
			}
			return s
		})
		for _, k := range append(uniq(v.SK), "absent", "a", "m") {
			add(fmt.Sprintf("Get(%q)", k), func(x value.Value) string { return canon(x.(value.Map).Get(k)) })
			add(fmt.Sprintf("Select(%q)", k), func(x value.Value) string { return seq(x.(value.Map).Select(k)) })
			add(fmt.Sprintf("GetNumber(%q)", k), func(x value.Value) string { return canon(x.(value.Map).GetNumber(k)) })
			add(fmt.Sprintf("GetString(%q)", k), func(x value.Value) string { return canon(x.(value.Map).GetString(k)) })
		}
		return qs
	}
	add("Len", func(x value.Value) string { return fmt.Sprint(x.(value.List).Len()) })
	add("Values", func(x value.Value) string { return seq(x.(value.List).Values()) })
	add("Items", func(x value.Value) string {
		s := ""
		for _, e := range x.(value.List).Items() {
			s += fmt.Sprintf("%d:%s,", e.Key(), canon(e.Value()))
		}
		return s
	})
	add("Entries", func(x value.Value) string {
		s := ""
		for _, e := range x.(value.List).Entries() {
			s += fmt.Sprintf("%q:%s,", e.Key(), canon(e.Value()))
		}
		return s
	})
	is := []int{0, 1, 2, len(v.L) - 1, len(v.L)}
	if v.K == ref.Sparse {
		is = append(append([]int(nil), v.IK...), 0, 1)
	}
	for _, i := range uniq(is) {
		add(fmt.Sprintf("GetAt(%d)", i), func(x value.Value) string { return canon(x.(value.List).GetAt(i)) })
		add(fmt.Sprintf("Select(%d)", i), func(x value.Value) string { return seq(x.(value.List).Select(i)) })
		add(fmt.Sprintf("GetNumberAt(%d)", i), func(x value.Value) string { return canon(x.(value.List).GetNumberAt(i)) })
		add(fmt.Sprintf("GetStringAt(%d)", i), func(x value.Value) string { return canon(x.(value.List).GetStringAt(i)) })
	}
	return qs
}

// staleReads: every reading call before an operation and the same call right after it, in histories
// of up to depth operations; what a call remembers must never show.
func staleReads(c *kit.Ctx, label string, starts []start, depth int) {
	type cs struct{ s, op int }
	var cases []cs
	for i, s := range starts {
		for k := range opsFor(s.v, 0, 1) {
			cases = append(cases, cs{i, k})
		}
	}
	c.Bound(label, fmt.Sprintf("%d starts, histories of up to %d operations with the same reading call before the first one and after each of them", len(starts), depth))
	c.Par(label, len(cases), func(w *kit.W, ci int) {
		s := starts[cases[ci].s]
		var path []ref.Op
		var rec func(v *ref.V, vs []*ref.V, only int)
		rec = func(v *ref.V, vs []*ref.V, only int) {
			for k, o := range opsFor(v, len(path), 1) {
				if only >= 0 && k != only {
					continue
				}
				v2 := ref.Apply(v, o)
				path = append(path, o)
				all := append(append([]*ref.V(nil), vs...), v2)
				w.NewState()
				for _, q := range queriesFor(v2) {
					w.Step(func() string { return fmt.Sprintf("%s before and after %s%s", q.name, s, pathString(path, s.v.K)) })
					x := s.mk()
					for j, p := range path {
						q.run(x)
						x = apply(w, x, p)
						if j < len(path)-1 {
							continue
						}
						got := q.run(x)
						w.Trace()
						// the same content without any history
						if want := q.run(ref.Build(all[j+1], ref.FUnsorted)); got != want {
							w.Fail("gives %.300s, on a container of the same content %.300s", got, want)
						}
					}
					if m := CheckViews(x, v2); m != "" {
						w.Fail("%s", m)
					}
				}
				if len(path) < depth {
					rec(v2, all, -1)
				}
				path = path[:len(path)-1]
			}
		}
		rec(s.v, []*ref.V{s.v}, cases[ci].op)
	})
}

// farPuts: puts far beyond the end of dense lists.
func farPuts(c *kit.Ctx) {
	far := []int{10, 100, 127, 128, 255, 256, 1000, 1023, 1024, 1025, 4095, 4096, 32766, 32767, 32768, 32769, 32772, 40000, 65534, 65535, 65536, 65537, 65540, 70000, 131072, 1 << 20, 1<<20 + 3}
	sizes := []int{0, 1, 2, 5, 17}
	c.Bound("far_puts", far)
	c.Par("far-puts", len(far)*len(sizes)*2, func(w *kit.W, i int) {
		f, n, mut := far[i/2%len(far)], sizes[i/2/len(far)], i%2 == 1
		s := listStarts(n, !mut, mut, false)[0]
		for _, p := range []int{f, f + n, f + n - 1} {
			for _, val := range []*ref.V{ref.VLong(77), ref.VNil, ref.VUtf8("far")} {
				w.NewState()
				w.Step(func() string { return fmt.Sprintf("%s.put(%d,%s)", s, p, val.Short()) })
				x := s.mk().(value.List)
				y := x.PutAt(p, ref.Build(val, 0))
				w.Trace()
				want := p + 1
				if p < n {
					want = n
				}
				last := ref.Apply(ref.VList(), ref.Op{Name: "append", Val: val}).L[0]
				look := func(y value.List, extra int) {
					if y.Len() != want+extra || len(y.Values()) != want+extra {
						w.Fail("has %d elements (Values: %d), expected %d", y.Len(), len(y.Values()), want+extra)
					}
					for j, e := range y.Values() {
						var m *ref.V
						switch {
						case j == p:
							m = last
						case j < n:
							m = s.v.L[j]
						case j >= want:
							m = ref.VTrue
						default:
							m = ref.VNil
						}
						if m.K == ref.Nil && (e != nil || y.GetAt(j) != nil) || m.K != ref.Nil && (!ref.Same(ref.Observe(e), m) || !ref.Same(ref.Observe(y.GetAt(j)), m)) {
							w.Fail("element %d is %s (GetAt %s), expected %s", j, ref.Observe(e).Short(), ref.Observe(y.GetAt(j)).Short(), m.Short())
						}
					}
				}
				look(y, 0)
				b, err := value.Pack(y)
				head := ref.EncListHeader(nil, want)
				if err != nil || len(b) < len(head) || string(b[:len(head)]) != string(head) {
					w.Fail("packs to %s (%v)", hexs(b), err)
				}
				if !mut && !ref.Same(ref.Observe(x), s.v) {
					w.Fail("the list it was applied to is now %s", ref.Observe(x).Short())
				}
				y = y.Append(value.True)
				look(y, 1)
				y = y.RemoveAt(want)
				look(y, 0)
				if y = y.RemoveAt(want + 5); y.Len() != want {
					w.Fail("removing beyond the end leaves %d elements", y.Len())
				}
				if y = y.RemoveAt(want - 1); want > n && y.Len() != want-1 {
					w.Fail("removing the last element leaves %d elements", y.Len())
				}
			}
		}
	})
}
