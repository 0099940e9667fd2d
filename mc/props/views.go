package props

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/codeallergy/value"
	"verif/mc/ref"
)

func nullish(x value.Value) bool { return x == nil || x.Kind() == value.NULL }

// same compares a library value with a model value; absent, nil and null are one thing when loose.
func sameV(x value.Value, v *ref.V, loose bool) bool {
	g := ref.Observe(x)
	if loose {
		return ref.Same(g.Norm(), v.Norm())
	}
	return ref.Same(g, v)
}

// CheckViews compares every view of a container with the model; it returns "" when all agree.
func CheckViews(x value.Value, v *ref.V) string {
	if x == nil {
		return "the container is nil"
	}
	got := ref.Observe(x)
	if !ref.Same(got, v) {
		return fmt.Sprintf("content is %s, expected %s", got.Short(), v.Short())
	}
	b, err := value.Pack(x)
	if err != nil {
		return "pack error " + err.Error()
	}
	if !bytes.Equal(b, v.Encode()) {
		return fmt.Sprintf("serializes to %x, expected %x", b, v.Encode())
	}
	b, err = x.MarshalBinary()
	if err != nil {
		return "MarshalBinary error " + err.Error()
	}
	if !bytes.Equal(b, v.Encode()) {
		return fmt.Sprintf("MarshalBinary gives %x, expected %x", b, v.Encode())
	}
	switch v.K {
	case ref.List:
		return listViews(x.(value.List), v)
	case ref.Sparse:
		return sparseViews(x.(value.List), v)
	case ref.Map:
		return mapViews(x.(value.Map), v)
	}
	return ""
}

func listViews(l value.List, v *ref.V) string {
	n := len(v.L)
	if l.Kind() != value.LIST {
		return "kind is not LIST"
	}
	if l.Len() != n {
		return fmt.Sprintf("Len is %d, expected %d", l.Len(), n)
	}
	if len(l.Values()) != n {
		return fmt.Sprintf("Values has %d elements, expected %d", len(l.Values()), n)
	}
	items, entries := l.Items(), l.Entries()
	if len(items) != n || len(entries) != n {
		return fmt.Sprintf("Items/Entries have %d/%d elements, expected %d", len(items), len(entries), n)
	}
	for i, e := range v.L {
		if items[i].Key() != i || !sameV(items[i].Value(), e, false) {
			return fmt.Sprintf("item %d is (%d,%s), expected %s", i, items[i].Key(), ref.Observe(items[i].Value()).Short(), e.Short())
		}
		if entries[i].Key() != strconv.Itoa(i) || !sameV(entries[i].Value(), e, false) {
			return fmt.Sprintf("entry %d is (%q,%s), expected %s", i, entries[i].Key(), ref.Observe(entries[i].Value()).Short(), e.Short())
		}
		if !sameV(l.GetAt(i), e, false) {
			return fmt.Sprintf("GetAt(%d) is %s, expected %s", i, ref.Observe(l.GetAt(i)).Short(), e.Short())
		}
		sel := l.Select(i)
		if e.K == ref.Nil || e.K == ref.Null {
			if len(sel) > 1 || len(sel) == 1 && !nullish(sel[0]) {
				return fmt.Sprintf("Select(%d) of a null element is %d values", i, len(sel))
			}
		} else if len(sel) != 1 || !sameV(sel[0], e, false) {
			return fmt.Sprintf("Select(%d) gives %d values, expected just %s", i, len(sel), e.Short())
		}
	}
	for _, i := range []int{-1, -2, -1 << 63, n, n + 1, n + 5, 1<<63 - 1} {
		if !nullish(l.GetAt(i)) {
			return fmt.Sprintf("GetAt(%d) outside of %d elements is %s", i, n, ref.Observe(l.GetAt(i)).Short())
		}
		if s := l.Select(i); len(s) != 0 {
			return fmt.Sprintf("Select(%d) outside of %d elements gives %d values", i, n, len(s))
		}
	}
	return ""
}

// selectKey and selectIndex give the elements of a model (whose keys are in order) under one key.
func selectKey(v *ref.V, k string) []*ref.V {
	lo := sort.SearchStrings(v.SK, k)
	hi := lo
	for hi < len(v.SK) && v.SK[hi] == k {
		hi++
	}
	return v.L[lo:hi:hi]
}

func selectIndex(v *ref.V, k int) []*ref.V {
	lo := sort.SearchInts(v.IK, k)
	hi := lo
	for hi < len(v.IK) && v.IK[hi] == k {
		hi++
	}
	return v.L[lo:hi:hi]
}

func sameSeq(got []value.Value, want []*ref.V) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !sameV(got[i], want[i], false) {
			return false
		}
	}
	return true
}

func showSeq(got []value.Value) string {
	v := &ref.V{K: ref.List}
	for _, g := range got {
		v.L = append(v.L, ref.Observe(g))
	}
	return v.Short()
}

func oneOf(x value.Value, want []*ref.V) bool {
	for _, w := range want {
		if sameV(x, w, true) {
			return true
		}
	}
	return false
}

func sparseViews(l value.List, v *ref.V) string {
	n := len(v.L)
	if l.Kind() != value.LIST {
		return "kind is not LIST"
	}
	length := 0
	if n > 0 && v.IK[n-1] >= 0 {
		length = v.IK[n-1] + 1
	}
	if l.Len() != length {
		return fmt.Sprintf("Len is %d, expected %d", l.Len(), length)
	}
	entries := l.Entries()
	if len(entries) != n {
		return fmt.Sprintf("Entries has %d elements, expected %d", len(entries), n)
	}
	probe := map[int]bool{-2: true, -1: true, 0: true, 1: true, length: true, length + 1: true, 1<<63 - 1: true, -1 << 63: true}
	for i, e := range v.L {
		if entries[i].Key() != strconv.Itoa(v.IK[i]) || !sameV(entries[i].Value(), e, false) {
			return fmt.Sprintf("entry %d is (%q,%s), expected (%d,%s)", i, entries[i].Key(), ref.Observe(entries[i].Value()).Short(), v.IK[i], e.Short())
		}
		probe[v.IK[i]] = true
		probe[v.IK[i]+1] = true
		probe[v.IK[i]-1] = true
	}
	for k := range probe {
		want := selectIndex(v, k)
		if got := l.Select(k); !sameSeq(got, want) {
			return fmt.Sprintf("Select(%d) is %s, expected %s", k, showSeq(got), ref.VList(want...).Short())
		}
		g := l.GetAt(k)
		if len(want) == 0 {
			if !nullish(g) {
				return fmt.Sprintf("GetAt(%d) of an absent index is %s", k, ref.Observe(g).Short())
			}
		} else if !sameV(g, want[0], false) {
			return fmt.Sprintf("GetAt(%d) is %s, expected %s", k, ref.Observe(g).Short(), want[0].Short())
		}
	}
	if length <= 100000 {
		vals := l.Values()
		if len(vals) != length {
			return fmt.Sprintf("Values has %d elements, expected %d", len(vals), length)
		}
		j := 0
		for i, x := range vals {
			for j < n && v.IK[j] < i {
				j++
			}
			hi := j
			for hi < n && v.IK[hi] == i {
				hi++
			}
			if j == hi {
				if !nullish(x) {
					return fmt.Sprintf("Values[%d] of an absent index is %s", i, ref.Observe(x).Short())
				}
			} else if !oneOf(x, v.L[j:hi]) {
				return fmt.Sprintf("Values[%d] is %s, expected one of %s", i, ref.Observe(x).Short(), ref.VList(v.L[j:hi]...).Short())
			}
		}
	}
	return ""
}

func mapViews(m value.Map, v *ref.V) string {
	n := len(v.L)
	if m.Kind() != value.MAP {
		return "kind is not MAP"
	}
	if m.Len() != n {
		return fmt.Sprintf("Len is %d, expected %d", m.Len(), n)
	}
	keys, vals := m.Keys(), m.Values()
	if len(keys) != n || len(vals) != n {
		return fmt.Sprintf("Keys/Values have %d/%d elements, expected %d", len(keys), len(vals), n)
	}
	h := m.HashMap()
	probe := map[string]bool{"": true, "~~~": true, "\x00": true, "m": true}
	distinct := map[string]bool{}
	for i, e := range v.L {
		if keys[i] != v.SK[i] || !sameV(vals[i], e, false) {
			return fmt.Sprintf("key/value %d is (%q,%s), expected (%q,%s)", i, keys[i], ref.Observe(vals[i]).Short(), v.SK[i], e.Short())
		}
		probe[v.SK[i]] = true
		probe[v.SK[i]+"\x00"] = true
		probe[" "+v.SK[i]] = true
		if len(v.SK[i]) < 100 {
			probe[strings.ToUpper(v.SK[i])] = true
			probe[strings.ToLower(v.SK[i])] = true
		}
		distinct[v.SK[i]] = true
		if len(v.SK[i]) > 0 {
			probe[v.SK[i][:len(v.SK[i])-1]] = true
		}
	}
	if len(h) != len(distinct) {
		return fmt.Sprintf("HashMap has %d keys, expected %d", len(h), len(distinct))
	}
	for k := range probe {
		want := selectKey(v, k)
		if got := m.Select(k); !sameSeq(got, want) {
			return fmt.Sprintf("Select(%q) is %s, expected %s", k, showSeq(got), ref.VList(want...).Short())
		}
		g := m.Get(k)
		hv, ok := h[k]
		if len(want) == 0 {
			if !nullish(g) || ok {
				return fmt.Sprintf("Get(%q) of an absent key is %s", k, ref.Observe(g).Short())
			}
		} else {
			if !sameV(g, want[0], false) {
				return fmt.Sprintf("Get(%q) is %s, expected %s", k, ref.Observe(g).Short(), want[0].Short())
			}
			if !ok || !oneOf(hv, want) {
				return fmt.Sprintf("HashMap()[%q] is %s, expected one of %s", k, ref.Observe(hv).Short(), ref.VList(want...).Short())
			}
		}
	}
	return ""
}
