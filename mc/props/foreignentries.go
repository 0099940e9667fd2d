package props

import (
	"fmt"
	"sort"

	"github.com/codeallergy/value"

	"verif/mc/kit"
	"verif/mc/ref"
)

// Items and entries of types the library does not know, behaving like its own.
type (
	otherItem struct {
		k     int
		v     value.Value
		fixed bool
		calls *int
	}
	otherEntry struct {
		k     string
		v     value.Value
		fixed bool
		calls *int
	}
)

func (t *otherItem) Key() int           { return t.k }
func (t *otherItem) Value() value.Value { return t.v }
func (t *otherItem) Equal(o value.ListItem) bool {
	return o != nil && t.k == o.Key() && value.Equal(t.v, o.Value())
}
func (t *otherItem) Update(u value.Updater) bool {
	*t.calls++
	if t.fixed {
		return false
	}
	if t.v = u.Update(t.v); t.v == nil {
		t.v = value.Null
	}
	return true
}

func (t otherEntry) Key() string        { return t.k }
func (t otherEntry) Value() value.Value { return t.v }
func (t otherEntry) Equal(o value.MapEntry) bool {
	return o != nil && t.k == o.Key() && value.Equal(t.v, o.Value())
}

// mutEntry is an otherEntry that is updated in place.
type mutEntry struct{ otherEntry }

func (t *mutEntry) Update(u value.Updater) bool {
	*t.calls++
	if t.v = u.Update(t.v); t.v == nil {
		t.v = value.Null
	}
	return true
}
func (t otherEntry) Update(value.Updater) bool { *t.calls++; return false }

// foreignEntries explores containers whose items and entries are of foreign
// types: all of them or every second one, updatable or not, sorted or not.
func foreignEntries(c *kit.Ctx) {
	var ts []*ref.V
	for _, n := range []int{1, 2, 3, 5, 8, 17} {
		for shape := 0; shape < 8; shape++ {
			if shape > 0 && n < 3 || shape > 4 && n > 9 {
				continue
			}
			ts = append(ts, mapModel(n, shape, n%2 == 1), intModel(n, shape, n%2 == 1))
		}
	}
	const forms = 16
	c.Bound("foreign_items_and_entries", fmt.Sprintf("%d models in 16 forms, 4 maps of each, every operation and every update", len(ts)))
	c.Par("foreign-items-and-entries", len(ts)*forms, func(w *kit.W, i int) {
		v, form := ts[i/forms], i%forms
		fixed, mixed, unsorted, immutable := form&1 == 1, form&2 == 2, form&4 == 4, form&8 == 8
		if immutable && v.K != ref.Map {
			return
		}
		calls := 0
		mk := func() value.Value {
			calls = 0
			if v.K == ref.Sparse {
				its := make([]value.ListItem, len(v.L))
				for k := range its {
					e := ref.Build(v.L[k], 1)
					switch {
					case mixed && k%2 == 1 && fixed:
						its[k] = value.ImmutableItem(v.IK[k], e)
					case mixed && k%2 == 1:
						its[k] = value.MutableItem(v.IK[k], e)
					default:
						its[k] = &otherItem{v.IK[k], e, fixed, &calls}
					}
				}
				if unsorted {
					sort.SliceStable(its, func(a, b int) bool { return its[a].Key() > its[b].Key() })
				}
				return value.SparseList(its, !unsorted)
			}
			es := make([]value.MapEntry, len(v.L))
			for k := range es {
				e := ref.Build(v.L[k], 1)
				switch {
				case mixed && k%2 == 1 && fixed:
					es[k] = value.ImmutableEntry(v.SK[k], e)
				case mixed && k%2 == 1:
					es[k] = value.MutableEntry(v.SK[k], e)
				case fixed:
					es[k] = otherEntry{v.SK[k], e, true, &calls}
				default:
					es[k] = &mutEntry{otherEntry{v.SK[k], e, false, &calls}}
				}
			}
			if unsorted {
				sort.SliceStable(es, func(a, b int) bool { return es[a].Key() > es[b].Key() })
			}
			if immutable {
				return value.ImmutableMap(es, !unsorted)
			}
			return value.SortedMap(es, !unsorted)
		}
		name := fmt.Sprintf("%s of foreign entries (updatable %v, every second one %v, unsorted %v, immutable %v)", v.Short(), !fixed, mixed, unsorted, immutable)
		w.NewState()
		w.Step(func() string { return name })
		w.Trace()
		x := mk()
		if m := CheckViews(x, v); m != "" {
			w.Fail("%s", m)
		}
		own := ref.Build(v, ref.FImmutable)
		if !v.HasNaN() && (!value.Equal(x, own) || !value.Equal(own, x)) {
			w.Fail("is not equal to the same content")
		}
		for _, p := range printers {
			text, err := p.run(x)
			want, err2 := p.run(own)
			if err != nil || err2 != nil || text != want {
				w.Fail("%s prints %.200q (error %v), that of own entries %.200q", p.name, text, err, want)
			}
		}
		// one operation, then an update of every entry of the result
		for _, o := range append(opsFor(v, 0, 2), ref.Op{Name: "nothing"}) {
			w.NewState()
			w.Step(func() string { return name + ": " + o.String(v.K) })
			w.Trace()
			y, want := mk(), v
			if o.Name != "nothing" {
				y, want = apply(w, y, o), ref.Apply(v, o)
			}
			if m := CheckViews(y, want); m != "" {
				w.Fail("%s", m)
			}
			for j := range want.L {
				at, key := 0, ""
				if v.K == ref.Sparse {
					at = want.IK[j]
				} else {
					key = want.SK[j]
				}
				if first(want, at, key) != j {
					continue
				}
				u := &spyUpdater{ret: value.Long(99)}
				before := calls
				ok := updateAt(y, at, key, u)
				if immutable && (ok || calls != before) {
					w.Fail("update of entry %d reported %v after %d calls of entries of an immutable map", j, ok, calls-before)
				}
				if !immutable && !fixed && !ok {
					w.Fail("update of entry %d reported failure", j)
				}
				if o.Name == "nothing" && fixed && ok {
					w.Fail("update of entry %d reported success although it cannot be updated", j)
				}
				if ok && (u.calls != 1 || !ref.Same(ref.Observe(u.old), want.L[j])) || !ok && u.calls != 0 {
					w.Fail("update of entry %d reported %v after %d calls of the updater, given %s, the entry holds %s", j, ok, u.calls, ref.Observe(u.old).Short(), want.L[j].Short())
				}
				if ok {
					want = withElem(want, j, ref.VLong(99))
				}
				if m := CheckViews(y, want); m != "" {
					w.Fail("after the update of entry %d %s", j, m)
				}
			}
		}
		// copies are independent of the foreign entries
		if m, ok := x.(value.Map); ok {
			for k, z := range []value.Map{value.ImmutableMapCopyOf(m), value.SortedMapCopyOf(m)} {
				w.Step(func() string { return fmt.Sprintf("copy %d of %s", k, name) })
				w.Trace()
				n := 0
				if k == 1 {
					for j := range v.L {
						if first(v, 0, v.SK[j]) != j {
							continue
						}
						if u := (&spyUpdater{ret: value.Long(98)}); !z.Update(v.SK[j], u) || u.calls != 1 {
							w.Fail("update of entry %d of the copy failed", j)
						}
						n++
					}
				} else {
					for j := range v.L {
						if z.Update(v.SK[j], &spyUpdater{ret: value.Long(98)}) {
							w.Fail("the immutable copy was updated")
						}
					}
				}
				if m := CheckViews(x, v); m != "" {
					w.Fail("after %d updates of the copy, the source: %s", n, m)
				}
				if !immutable && !fixed && k == 0 {
					m.Update(v.SK[0], &spyUpdater{ret: value.Long(97)})
					if m := CheckViews(z, v); m != "" {
						w.Fail("after an update of the source, the immutable copy: %s", m)
					}
					x = mk()
					m = x.(value.Map)
				}
			}
		}
	})
}

// updatesOfEveryContent updates an entry of every content in every kind of
// container and in both copies of a map.
func updatesOfEveryContent(c *kit.Ctx) {
	var vs []*ref.V
	for n := 1; n <= 2; n++ {
		vs = append(vs, ref.Trees(n, ref.SmallLeaves(), true)...)
	}
	vs = append(vs, ref.Scalars(c.Pick(200, 2000))...)
	c.Bound("updated_contents", len(vs))
	c.Par("updates-of-every-content", len(vs), func(w *kit.W, i int) {
		e := vs[i]
		next := vs[(i+1)%len(vs)]
		type who struct {
			name    string
			x       value.Value
			mutable bool
		}
		for kind, v := range []*ref.V{
			ref.VMap([]string{"a", "b", "c"}, []*ref.V{e, ref.VLong(1), e}),
			ref.VSparse([]int{-1, 0, 5}, []*ref.V{e, ref.VLong(1), e}),
			ref.VList(e, ref.VLong(1), e),
			// the same entry twice
			ref.VMap([]string{"a", "a", "c"}, []*ref.V{e, e, ref.VLong(1)}),
			ref.VSparse([]int{-1, 5, 5}, []*ref.V{ref.VLong(1), e, e}),
		} {
			kind := kind % 3
			for f := 0; f < ref.NFlavours; f++ {
				if f == ref.FDecoded && (v.HasEmptySparse() || e.K == ref.Nil) || kind == 1 && f != ref.FMutable && f != ref.FMutOps || kind == 2 && f == ref.FUnsorted {
					continue
				}
				v := v
				if f == ref.FDecoded { // nil comes back as null
					v = ref.Observe(ref.Build(v, f))
				}
				var all []who
				mk := func() {
					s := ref.Build(v, f)
					all = []who{{"the " + ref.FlavourName(f) + " value", s, f == ref.FMutable || f == ref.FMutOps}}
					if m, ok := s.(value.Map); ok {
						im := value.ImmutableMapCopyOf(m)
						all = append(all, who{"its immutable copy", im, false}, who{"its mutable copy", value.SortedMapCopyOf(m), true},
							who{"the mutable copy of its immutable copy", value.SortedMapCopyOf(im), true})
					}
				}
				mk()
				for t := range all {
					for p := 0; p < 3; p++ {
						mk()
						w.NewState()
						w.Step(func() string {
							return fmt.Sprintf("update of entry %d of %s, %s, with %s", p, all[t].name, v.Short(), next.Short())
						})
						w.Trace()
						at, key, p := p, "", p // the first of those with the key
						if kind == 1 {
							at = v.IK[p]
							for p > 0 && v.IK[p-1] == at {
								p--
							}
						} else if kind == 0 {
							key = v.SK[p]
							for p > 0 && v.SK[p-1] == key {
								p--
							}
						}
						u := &spyUpdater{ret: ref.Build(next, 1)}
						ok := updateAt(all[t].x, at, key, u)
						if ok != all[t].mutable || ok && (u.calls != 1 || !ref.Same(ref.Observe(u.old), v.L[p])) || !ok && u.calls != 0 {
							w.Fail("reported %v after %d calls", ok, u.calls)
						}
						for k := range all {
							want := v
							if ok && k == t {
								want = withElem(v, p, next)
							}
							if g := ref.Observe(all[k].x); !ref.Same(g, want) {
								w.Fail("afterwards %s is %s, expected %s", all[k].name, g.Short(), want.Short())
							}
						}
					}
				}
			}
		}
	})
}
