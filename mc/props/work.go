package props

import (
	"bytes"
	"crypto"
	"fmt"
	"io"
	"math/big"
	"math/bits"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
	"verif/mc/kit"
)

func init() { All["C31"] = C31 }

// ---------- C31: work in proportion to the size ----------

// layouts are the keys of n entries, in order.
type arrangement struct {
	name string
	key  func(i, n int) int
}

var layouts = []arrangement{
	{"distinct", func(i, n int) int { return 2 * i }},
	{"pairs", func(i, n int) int { return i / 2 * 2 }},
	{"all equal", func(i, n int) int { return 0 }},
	{"half equal", func(i, n int) int {
		if i < n/2 {
			return 0
		}
		return 2 * i
	}},
	{"far apart", func(i, n int) int { return i * i * 3 }},
}

func workKey(i int) string { return fmt.Sprintf("%012d", i+10) }

// orderings are permutations of 0..n-1 in which things are given.
var orderings = []arrangement{
	{"ascending", func(i, n int) int { return i }},
	{"descending", func(i, n int) int { return n - 1 - i }},
	{"interleaved", func(i, n int) int { return i/2 + i%2*((n+1)/2) }},
	{"organ pipe", func(i, n int) int {
		if i < (n+1)/2 {
			return 2 * i
		}
		return 2*(n-1-i) + 1
	}},
	{"bit reversed", func(i, n int) int { // n is a power of two
		return int(bits.Reverse64(uint64(i)) >> (64 - bits.Len(uint(n-1))))
	}},
}

type sameUpdater struct{}

func (sameUpdater) Update(old value.Value) value.Value { return old }

// finders look for a key in a map (or the index in a sparse list) and give the number of results.
var mapFinders = []struct {
	name string
	run  func(m value.Map, k string) int
}{
	{"Get", func(m value.Map, k string) int { m.Get(k); return 1 }},
	{"GetBool", func(m value.Map, k string) int { m.GetBool(k); return 1 }},
	{"GetNumber", func(m value.Map, k string) int { m.GetNumber(k); return 1 }},
	{"GetString", func(m value.Map, k string) int { m.GetString(k); return 1 }},
	{"GetList", func(m value.Map, k string) int { m.GetList(k); return 1 }},
	{"GetMap", func(m value.Map, k string) int { m.GetMap(k); return 1 }},
	{"Select", func(m value.Map, k string) int { return len(m.Select(k)) }},
	{"Update", func(m value.Map, k string) int { m.Update(k, sameUpdater{}); return 1 }},
}

var listFinders = []struct {
	name string
	run  func(l value.List, k int) int
}{
	{"GetAt", func(l value.List, k int) int { l.GetAt(k); return 1 }},
	{"GetBoolAt", func(l value.List, k int) int { l.GetBoolAt(k); return 1 }},
	{"GetNumberAt", func(l value.List, k int) int { l.GetNumberAt(k); return 1 }},
	{"GetStringAt", func(l value.List, k int) int { l.GetStringAt(k); return 1 }},
	{"GetListAt", func(l value.List, k int) int { l.GetListAt(k); return 1 }},
	{"GetMapAt", func(l value.List, k int) int { l.GetMapAt(k); return 1 }},
	{"Select", func(l value.List, k int) int { return len(l.Select(k)) }},
	{"UpdateAt", func(l value.List, k int) int { l.UpdateAt(k, sameUpdater{}); return 1 }},
	{"Len", func(l value.List, k int) int { l.Len(); return 1 }},
}

func lookups(c *kit.Ctx) {
	var sizes []int
	for n := 0; n <= c.Pick(130, 520); n++ {
		sizes = append(sizes, n)
	}
	for k := 8; k <= c.Pick(14, 18); k++ {
		sizes = append(sizes, 1<<k-1, 1<<k, 1<<k+1)
	}
	c.Bound("lookup_sizes", fmt.Sprintf("every size up to %d, powers of two and neighbours up to %d", c.Pick(130, 520), sizes[len(sizes)-1]))
	c.Par("lookups", len(sizes)*len(layouts), func(w *kit.W, i int) {
		n, lay := sizes[len(sizes)-1-i/len(layouts)], layouts[i%len(layouts)]
		w.NewState()
		b := &bomb{}
		var es []value.MapEntry
		var its []value.ListItem
		keys := map[int]bool{-1: true, 1 << 40: true}
		for j := 0; j < n; j++ {
			k := lay.key(j, n)
			if n <= 1000 || j < 40 || j > n-40 || j&(j-1) == 0 || j&(j+1) == 0 || j%(n/50) == 0 || j > n/2-10 && j < n/2+10 {
				keys[k], keys[k+1] = true, true
			}
			es = append(es, userEntry{b, value.MutableEntry(workKey(k), value.Long(1))})
			its = append(its, userItem{b, value.MutableItem(k, value.Long(1))})
		}
		maps := []value.Map{value.ImmutableMap(es, true), value.SortedMap(es, true)}
		list := value.SparseList(its, true)
		limit := 3*(bits.Len(uint(n))+2) + 6
		for k := range keys {
			key := workKey(k)
			for mi, m := range maps {
				for _, f := range mapFinders {
					w.Step(func() string {
						return fmt.Sprintf("%s(%q) in map %d of %d entries, %s keys", f.name, key, mi, n, lay.name)
					})
					w.Trace()
					b.n = 0
					if r := f.run(m, key); b.n > limit+3*r {
						w.Fail("calls entries %d times, more than %d", b.n, limit+3*r)
					}
				}
			}
			for _, f := range listFinders {
				w.Step(func() string {
					return fmt.Sprintf("%s(%d) in a sparse list of %d items, %s keys", f.name, k, n, lay.name)
				})
				w.Trace()
				b.n = 0
				if r := f.run(list, k); b.n > limit+3*r {
					w.Fail("calls items %d times, more than %d", b.n, limit+3*r)
				}
			}
		}
	})
}

// visits: how often the elements of a container are called by operations on the whole.
func visits(c *kit.Ctx) {
	sizes := []int{0, 1, 2, 3, 17, 64, 256, 1024, c.Pick(2048, 16384)}
	type task struct {
		name string
		run  func(n int, b *bomb) func()
		log  int // power of the logarithm allowed
	}
	var tasks []task
	elem := func(b *bomb, i int) value.Value {
		switch i % 4 {
		case 0:
			return b.wrap(value.Long(int64(i)))
		case 1:
			return b.wrap(value.Utf8(fmt.Sprint("text", i)))
		case 2:
			return b.wrap(value.Boolean(i%8 == 2))
		}
		return b.wrap(value.Tuple(value.Long(1)))
	}
	values := func(n int, b *bomb) []value.Value {
		vs := make([]value.Value, n)
		for i := range vs {
			vs[i] = elem(b, i)
		}
		return vs
	}
	entries := func(n int, b *bomb, lay, order arrangement) []value.MapEntry {
		es := make([]value.MapEntry, n)
		for i := range es {
			es[i] = userEntry{b, value.MutableEntry(workKey(lay.key(order.key(i, n), n)), elem(b, i))}
		}
		return es
	}
	items := func(n int, b *bomb, lay, order arrangement) []value.ListItem {
		its := make([]value.ListItem, n)
		for i := range its {
			its[i] = userItem{b, value.MutableItem(lay.key(order.key(i, n), n), elem(b, i))}
		}
		return its
	}
	builders := []struct {
		name string
		mk   func(n int, b *bomb) value.Value
	}{
		{"immutable list", func(n int, b *bomb) value.Value { return value.ImmutableList(values(n, b)) }},
		{"mutable list", func(n int, b *bomb) value.Value { return value.MutableList(values(n, b)) }},
		{"sparse list", func(n int, b *bomb) value.Value { return value.SparseListOf(values(n, b)) }},
		{"sparse list of items", func(n int, b *bomb) value.Value {
			return value.SparseList(items(n, b, layouts[0], orderings[0]), true)
		}},
		{"sparse list of equal keys", func(n int, b *bomb) value.Value {
			return value.SparseList(items(n, b, layouts[2], orderings[0]), true)
		}},
		{"immutable map", func(n int, b *bomb) value.Value {
			return value.ImmutableMap(entries(n, b, layouts[0], orderings[0]), true)
		}},
		{"mutable map", func(n int, b *bomb) value.Value {
			return value.SortedMap(entries(n, b, layouts[1], orderings[0]), true)
		}},
		{"map of equal keys", func(n int, b *bomb) value.Value {
			return value.ImmutableMap(entries(n, b, layouts[2], orderings[0]), true)
		}},
		{"list of one such list", func(n int, b *bomb) value.Value { return value.Single(value.ImmutableList(values(n, b))) }},
		{"map of one such map", func(n int, b *bomb) value.Value {
			return value.EmptyMutableMap().Put("k", value.SortedMap(entries(n, b, layouts[0], orderings[0]), true))
		}},
	}
	ops := []struct {
		name string
		log  int
		run  func(x, same value.Value)
	}{
		{"Pack", 0, func(x, _ value.Value) { value.Pack(x) }},
		{"Write", 0, func(x, _ value.Value) { value.Write(io.Discard, x) }},
		{"MarshalBinary", 0, func(x, _ value.Value) { x.MarshalBinary() }},
		{"PackStruct", 0, func(x, _ value.Value) { value.PackStruct(&boxed{V: x}) }},
		{"Hex", 0, func(x, _ value.Value) { value.Hex(x) }},
		{"Hash", 0, func(x, _ value.Value) { value.Hash(x, crypto.SHA256) }},
		{"Jsonify", 0, func(x, _ value.Value) { value.Jsonify(x) }},
		{"MarshalJSON", 0, func(x, _ value.Value) { x.MarshalJSON() }},
		{"String", 0, func(x, _ value.Value) { _ = x.String() }},
		{"Object", 0, func(x, _ value.Value) { x.Object() }},
		{"Equal to the same", 1, func(x, same value.Value) { x.Equal(same) }},
		{"Equal", 1, func(x, same value.Value) { value.Equal(same, x) }},
		{"Equal to itself", 1, func(x, _ value.Value) { x.Equal(x) }},
		{"Len", 0, func(x, _ value.Value) { x.(value.Collection).Len() }},
		{"Entries", 0, func(x, _ value.Value) { x.(value.Collection).Entries() }},
		{"views", 0, func(x, _ value.Value) {
			if m, ok := x.(value.Map); ok {
				m.Keys()
				m.Values()
				m.HashMap()
			} else {
				x.(value.List).Items()
				x.(value.List).Values()
			}
		}},
		{"copies", 2, func(x, _ value.Value) {
			if m, ok := x.(value.Map); ok {
				value.ImmutableMapCopyOf(m)
				value.SortedMapCopyOf(m)
				value.ImmutableMapOf(m.HashMap())
				value.SortedMapOf(m.HashMap())
				value.MutableList(m.Values())
			} else {
				l := x.(value.List)
				value.ImmutableList(value.CopyOf(l.Values()))
				value.SparseListOf(l.Values())
				value.SparseList(l.Items(), false)
				value.ImmutableMap(l.Entries(), false)
			}
		}},
		{"conversions of an element", 2, func(x, _ value.Value) {
			l, m := value.Single(x), value.EmptyImmutableMap().Put("k", x)
			l.GetListAt(0)
			l.GetMapAt(0)
			m.GetList("k")
			m.GetMap("k")
		}},
		{"insertions and removals", 0, func(x, _ value.Value) {
			if m, ok := x.(value.Map); ok {
				k := workKey(m.Len())
				vs := []value.Value{value.Long(1), value.Long(2)}
				m = m.Put(k, vs[0]).Insert(k, vs[1]).InsertAll(k, vs)
				m = m.Put("", vs[0]).Put("~", vs[1])
				m.Remove(k).DeleteAll(k).Remove("").Remove("~").Remove("?")
			} else {
				l := x.(value.List)
				n := l.Len() / 2
				vs := []value.Value{value.Long(1), value.Long(2)}
				l = l.PutAt(n, vs[0]).InsertAt(n, vs[1]).InsertAll(n, vs).Append(vs[0]).InsertAt(0, vs[1]).InsertAll(0, vs)
				l.RemoveAt(n).DeleteAll(n).RemoveAt(0).RemoveAt(l.Len() - 1)
			}
		}},
	}
	for _, bl := range builders {
		for _, op := range ops {
			bl, op := bl, op
			tasks = append(tasks, task{op.name + " of a " + bl.name, func(n int, b *bomb) func() {
				x, same := bl.mk(n, b), bl.mk(n, &bomb{})
				return func() { op.run(x, same) }
			}, op.log})
		}
	}
	for _, o := range orderings {
		for _, lay := range layouts[:4] {
			o, lay := o, lay
			if o.name == "bit reversed" {
				continue // for powers of two only
			}
			name := fmt.Sprintf("%s keys given %s", lay.name, o.name)
			tasks = append(tasks,
				task{"immutable map of " + name, func(n int, b *bomb) func() {
					es := entries(n, b, lay, o)
					return func() { value.ImmutableMap(es, false) }
				}, 2},
				task{"sorted map of " + name, func(n int, b *bomb) func() {
					es := entries(n, b, lay, o)
					return func() { value.SortedMap(es, false) }
				}, 2},
				task{"sparse list of " + name, func(n int, b *bomb) func() {
					its := items(n, b, lay, o)
					return func() { value.SparseList(its, false) }
				}, 2})
		}
	}
	c.Bound("visit_tasks", fmt.Sprintf("%d operations on containers of %v elements", len(tasks), sizes))
	c.Par("visits", len(tasks), func(w *kit.W, i int) {
		t := tasks[i]
		for _, n := range sizes {
			w.Step(func() string { return fmt.Sprintf("%s, %d elements", t.name, n) })
			w.NewState()
			w.Trace()
			b := &bomb{}
			run := t.run(n, b)
			b.n = 0
			run()
			limit := 24*n + 200
			for j, l := 0, bits.Len(uint(n)); j < t.log; j++ {
				limit += 4 * n * l
				l *= l
			}
			if b.n > limit {
				w.Fail("%s: the %d elements are called %d times, more than %d", t.name, n, b.n, limit)
			}
		}
	})
}

// job is an operation at a size; make prepares it.
type job struct {
	name string
	mk   func(n int) (run func(), size int)
}

func jobs() []job {
	var js []job
	add := func(name string, mk func(n int) (func(), int)) { js = append(js, job{name, mk}) }
	long := func(n int) []value.Value {
		vs := make([]value.Value, n)
		for i := range vs {
			vs[i] = value.Long(int64(i))
		}
		return vs
	}
	words := func(n int) []value.Value {
		vs := make([]value.Value, n)
		for i := range vs {
			vs[i] = value.Utf8("w\"")
		}
		return vs
	}
	mapOf := func(n int, lay, order arrangement, mutable bool) []value.MapEntry {
		es := make([]value.MapEntry, n)
		for i := range es {
			k := workKey(lay.key(order.key(i, n), n))
			if mutable {
				es[i] = value.MutableEntry(k, value.Long(int64(i)))
			} else {
				es[i] = value.ImmutableEntry(k, value.Long(int64(i)))
			}
		}
		return es
	}
	itemsOf := func(n int, lay, order arrangement) []value.ListItem {
		its := make([]value.ListItem, n)
		for i := range its {
			its[i] = value.ImmutableItem(lay.key(order.key(i, n), n), value.Long(int64(i)))
		}
		return its
	}
	nested := func(n int, wrap func(x value.Value) value.Value) value.Value {
		x := value.Value(value.Long(7))
		for i := 0; i < 1500 && i < n; i++ {
			x = wrap(x)
		}
		return x
	}
	wraps := []func(x value.Value) value.Value{
		func(x value.Value) value.Value { return value.Single(x) },
		func(x value.Value) value.Value { return value.SparseListOf([]value.Value{x}) },
		func(x value.Value) value.Value { return value.EmptyMutableMap().Put("k", x) },
		func(x value.Value) value.Value { return value.EmptyImmutableMap().Put("k", x) },
	}
	subjects := []struct {
		name string
		mk   func(n int) value.Value
	}{
		{"a list of longs", func(n int) value.Value { return value.ImmutableList(long(n)) }},
		{"a mutable list of texts", func(n int) value.Value { return value.MutableList(words(n)) }},
		{"a list of empty lists", func(n int) value.Value {
			vs := make([]value.Value, n)
			for i := range vs {
				vs[i] = value.EmptyImmutableList()
			}
			return value.ImmutableList(vs)
		}},
		{"a sparse list", func(n int) value.Value { return value.SparseListOf(long(n)) }},
		{"a sparse list of equal indexes", func(n int) value.Value {
			return value.SparseList(itemsOf(n, layouts[2], orderings[0]), true)
		}},
		{"an immutable map", func(n int) value.Value {
			return value.ImmutableMap(mapOf(n, layouts[0], orderings[0], false), true)
		}},
		{"a mutable map", func(n int) value.Value {
			return value.SortedMap(mapOf(n, layouts[1], orderings[0], true), true)
		}},
		{"a map of equal keys", func(n int) value.Value {
			return value.ImmutableMap(mapOf(n, layouts[2], orderings[0], false), true)
		}},
		{"a text", func(n int) value.Value { return value.Utf8(strings.Repeat("a\"é\n", n/4)) }},
		{"bytes", func(n int) value.Value { return value.Raw(bytes.Repeat([]byte{0xff, 7}, n/2), false) }},
		{"an extension", func(n int) value.Value { return value.Unknown(bytes.Repeat([]byte{9}, n)) }},
		{"a big integer", func(n int) value.Value { return value.BigInt(new(big.Int).Lsh(big.NewInt(3), uint(8*n))) }},
		{"a decimal", func(n int) value.Value {
			return value.Decimal(decimal.NewFromBigInt(new(big.Int).Lsh(big.NewInt(3), uint(8*n)), 5))
		}},
		{"nested lists", func(n int) value.Value { return nested(n, wraps[0]) }},
		{"nested sparse lists", func(n int) value.Value { return nested(n, wraps[1]) }},
		{"nested maps", func(n int) value.Value { return nested(n, wraps[2]) }},
		{"nested maps and lists", func(n int) value.Value {
			i := 0
			return nested(n, func(x value.Value) value.Value { i++; return wraps[i%len(wraps)](x) })
		}},
		{"a list of maps", func(n int) value.Value {
			vs := make([]value.Value, n/8)
			for i := range vs {
				vs[i] = value.ImmutableMap(mapOf(7, layouts[0], orderings[0], false), true)
			}
			return value.ImmutableList(vs)
		}},
	}
	type boxes struct {
		V value.Value   `tag:"1"`
		L []value.Value `tag:"2"`
		R []value.Value `tag:"3" repeated:"true"`
		S []*boxed      `tag:"4"`
		T []*boxed      `tag:"5" repeated:"true"`
	}
	operations := []struct {
		name string
		mk   func(x, same value.Value, enc []byte) func()
	}{
		{"Pack", func(x, _ value.Value, _ []byte) func() { return func() { value.Pack(x) } }},
		{"Write", func(x, _ value.Value, _ []byte) func() { return func() { value.Write(io.Discard, x) } }},
		{"MarshalBinary", func(x, _ value.Value, _ []byte) func() { return func() { x.MarshalBinary() } }},
		{"Hex", func(x, _ value.Value, _ []byte) func() { return func() { value.Hex(x) } }},
		{"Hash", func(x, _ value.Value, _ []byte) func() { return func() { value.Hash(x, crypto.SHA256) } }},
		{"Seal and Unseal", func(x, _ value.Value, _ []byte) func() {
			var k [2][32]byte
			k[0][0], k[1][0] = 1, 2
			return func() {
				b, _ := value.Seal(x, &k[0], &k[1])
				value.Unseal(b, &k[0], &k[1])
			}
		}},
		{"Jsonify", func(x, _ value.Value, _ []byte) func() { return func() { value.Jsonify(x) } }},
		{"MarshalJSON", func(x, _ value.Value, _ []byte) func() { return func() { x.MarshalJSON() } }},
		{"String", func(x, _ value.Value, _ []byte) func() { return func() { _ = x.String() } }},
		{"Unpack", func(_, _ value.Value, enc []byte) func() { return func() { value.Unpack(enc, true) } }},
		{"Unpack without copying", func(_, _ value.Value, enc []byte) func() { return func() { value.Unpack(enc, false) } }},
		{"Read", func(_, _ value.Value, enc []byte) func() { return func() { value.Read(bytes.NewReader(enc)) } }},
		{"Read of pieces", func(_, _ value.Value, enc []byte) func() {
			return func() { value.Read(OneByte{bytes.NewReader(enc)}) }
		}},
		{"Equal", func(x, same value.Value, _ []byte) func() { return func() { x.Equal(same); same.Equal(x) } }},
		{"Equal to the decoded", func(x, _ value.Value, enc []byte) func() {
			y, _ := value.Unpack(enc, true)
			return func() { value.Equal(x, y); value.Equal(y, x) }
		}},
		{"Entries and views", func(x, _ value.Value, _ []byte) func() {
			return func() {
				switch t := x.(type) {
				case value.Map:
					t.Entries()
					t.Keys()
					t.Values()
					t.HashMap()
				case value.List:
					t.Entries()
					t.Items()
					t.Values()
				case value.Number:
					t.Long()
					t.Double()
					t.BigInt()
				case value.String:
					t.Len()
					t.Raw()
					t.Utf8()
				}
			}
		}},
		{"copies and conversions", func(x, _ value.Value, _ []byte) func() {
			return func() {
				switch t := x.(type) {
				case value.Map:
					value.ImmutableMapCopyOf(t)
					value.SortedMapCopyOf(t)
					value.ImmutableMapOf(t.HashMap())
					value.SortedMapOf(t.HashMap())
					value.Single(t).GetListAt(0)
				case value.List:
					value.SparseListOf(t.Values())
					value.SparseList(append([]value.ListItem(nil), t.Items()...), false)
					value.Single(t).GetMapAt(0)
				default:
					value.Single(t).GetNumberAt(0)
					value.Single(t).GetStringAt(0)
					value.Single(t).GetBoolAt(0)
				}
			}
		}},
		{"PackStruct and UnpackStruct", func(x, _ value.Value, _ []byte) func() {
			return func() {
				o := boxes{V: x}
				if l, ok := x.(value.List); ok {
					o.L, o.R = l.Values(), l.Values()
				}
				if m, ok := x.(value.Map); ok {
					o.L, o.R = m.Values(), m.Values()
				}
				for i, e := range o.L {
					if i >= len(o.L)/4 {
						break
					}
					b := &boxed{V: e}
					o.S, o.T = append(o.S, b), append(o.T, b)
				}
				b, err := value.PackStruct(&o)
				if err == nil {
					value.UnpackStruct(b, new(boxes), true)
				}
			}
		}},
	}
	for _, s := range subjects {
		for _, op := range operations {
			s, op := s, op
			add(op.name+" of "+s.name, func(n int) (func(), int) {
				x := s.mk(n)
				enc, _ := value.Pack(x)
				return op.mk(x, s.mk(n), enc), n + len(enc)
			})
		}
	}
	// much at the bottom of nested containers
	for wi := range wraps {
		for _, op := range operations {
			wi, op := wi, op
			add(fmt.Sprintf("%s of a text in nested containers %d", op.name, wi), func(n int) (func(), int) {
				mk := func() value.Value {
					x := value.Value(value.Tuple(value.Utf8(strings.Repeat("a\n", 4*n)), value.Raw(make([]byte, 4*n), false)))
					for i := 0; i < 1500 && i < n; i++ {
						x = wraps[wi](x)
					}
					return x
				}
				x := mk()
				enc, _ := value.Pack(x)
				return op.mk(x, mk(), enc), n
			})
		}
	}
	// comparing containers of the same kind and different types
	for _, group := range [][]func(n int) value.Value{
		{
			func(n int) value.Value { return value.ImmutableList(long(n)) },
			func(n int) value.Value { return value.MutableList(long(n)) },
			func(n int) value.Value { return value.SparseListOf(long(n)) },
		},
		{
			func(n int) value.Value {
				return value.ImmutableMap(mapOf(n, layouts[1], orderings[0], false), true)
			},
			func(n int) value.Value {
				return value.SortedMap(mapOf(n, layouts[1], orderings[0], true), true)
			},
		},
	} {
		for xi := range group {
			for yi := range group {
				x, y := group[xi], group[yi]
				kind := x(1).Kind()
				add(fmt.Sprintf("Equal of %v %d and %d", kind, xi, yi), func(n int) (func(), int) {
					a, b := x(n), y(n)
					return func() { a.Equal(b); value.Equal(a, value.Single(b)) }, n
				})
			}
		}
	}
	// equal values made of containers of different types on every level
	for a := range wraps {
		for b := range wraps {
			a, b := a, b
			if a/2 != b/2 {
				continue
			}
			add(fmt.Sprintf("Equal of nested containers %d and %d", a, b), func(n int) (func(), int) {
				x, y := value.Value(value.One), value.Value(value.One)
				for i := 0; i < 1500 && i < n; i++ {
					if i%5 == 4 { // not always the same
						x, y = y, x
					}
					x, y = wraps[a](y), wraps[b](x)
				}
				return func() { x.Equal(y); y.Equal(x) }, n
			})
		}
	}
	for _, o := range orderings {
		for _, lay := range layouts[:4] {
			o, lay := o, lay
			name := fmt.Sprintf("%s keys given %s", lay.name, o.name)
			add("immutable map of "+name, func(n int) (func(), int) {
				es := mapOf(n, lay, o, false)
				return func() { value.ImmutableMap(es, false) }, n
			})
			add("sorted map of "+name, func(n int) (func(), int) {
				es := mapOf(n, lay, o, true)
				return func() { value.SortedMap(es, false) }, n
			})
			add("sparse list of "+name, func(n int) (func(), int) {
				its := itemsOf(n, lay, o)
				return func() { value.SparseList(its, false) }, n
			})
			add("decoding a map of "+name, func(n int) (func(), int) {
				b, _ := value.Pack(value.ImmutableMap(mapOf(n, lay, o, false), true))
				return func() { value.Unpack(b, true) }, len(b)
			})
			add("decoding a sparse list of "+name, func(n int) (func(), int) {
				b, _ := value.Pack(value.SparseList(itemsOf(n, lay, o), true))
				return func() { value.Unpack(b, true) }, len(b)
			})
		}
	}
	// one after another at the end: amortised
	add("appending to a mutable list", func(n int) (func(), int) {
		return func() {
			l := value.EmptyMutableList()
			for i := 0; i < n; i++ {
				l = l.Append(value.One)
			}
		}, n
	})
	add("PutAt at the end of a mutable list", func(n int) (func(), int) {
		return func() {
			l := value.EmptyMutableList()
			for i := 0; i < n; i++ {
				l = l.PutAt(i, value.One)
			}
		}, n
	})
	add("InsertAt at the end of a mutable list", func(n int) (func(), int) {
		return func() {
			l := value.EmptyMutableList()
			for i := 0; i < n; i++ {
				l = l.InsertAt(i, value.One)
			}
		}, n
	})
	add("appending to a sparse list", func(n int) (func(), int) {
		return func() {
			l := value.EmptySparseList()
			for i := 0; i < n; i++ {
				l = l.Append(value.One)
			}
		}, n
	})
	add("PutAt at the end of a sparse list", func(n int) (func(), int) {
		return func() {
			l := value.EmptySparseList()
			for i := 0; i < n; i++ {
				l = l.PutAt(3*i, value.One)
			}
		}, n
	})
	add("ascending keys put in a mutable map", func(n int) (func(), int) {
		return func() {
			m := value.EmptyMutableMap()
			for i := 0; i < n; i++ {
				m = m.Put(workKey(i), value.One)
			}
		}, n
	})
	add("removing the last of a mutable list", func(n int) (func(), int) {
		l := value.MutableList(long(n))
		return func() {
			for i := n - 1; i >= 0; i-- {
				l = l.RemoveAt(i)
			}
		}, n
	})
	add("removing the first of a mutable map", func(n int) (func(), int) {
		m := value.SortedMap(mapOf(n, layouts[0], orderings[0], true), true)
		return func() {
			for i := 0; i < n; i++ {
				m = m.Remove(workKey(2 * i))
			}
		}, n
	})
	add("updating every element of a mutable list", func(n int) (func(), int) {
		l := value.MutableList(long(n))
		return func() {
			for i := 0; i < n; i++ {
				l.UpdateAt(i, sameUpdater{})
			}
		}, n
	})
	add("reading every element of a list", func(n int) (func(), int) {
		ls := []value.List{value.MutableList(long(n)), value.ImmutableList(long(n)), value.SparseListOf(long(n))}
		return func() {
			for _, l := range ls {
				for i := 0; i < n; i++ {
					l.GetAt(i)
					l.GetNumberAt(i)
					l.Select(i)
					l.Len()
				}
			}
		}, 8 * n
	})
	add("updating and reading every entry of a map", func(n int) (func(), int) {
		ms := []value.Map{value.SortedMap(mapOf(n, layouts[0], orderings[0], true), true), value.ImmutableMap(mapOf(n, layouts[0], orderings[0], false), true)}
		return func() {
			for _, m := range ms {
				for i := 0; i < n; i++ {
					k := workKey(2 * i)
					m.Update(k, sameUpdater{})
					m.Get(k)
					m.Select(k)
					m.Len()
				}
			}
		}, 8 * n
	})
	add("InsertAll, Select and DeleteAll of one key", func(n int) (func(), int) {
		vs := long(n)
		return func() {
			for _, m := range []value.Map{value.EmptyMutableMap(), value.EmptyImmutableMap()} {
				m = m.Put("a", vs[0]).Put("k", vs[0]).Put("z", vs[0])
				m = m.InsertAll("k", vs)
				m.Select("k")
				m.DeleteAll("k")
			}
			for _, l := range []value.List{value.EmptyMutableList(), value.EmptyImmutableList(), value.EmptySparseList()} {
				l = l.Append(vs[0]).Append(vs[0]).Append(vs[0])
				l = l.InsertAll(1, vs)
				l.Select(1)
				l.DeleteAll(1)
			}
		}, 4 * n
	})
	// texts
	for _, t := range []struct{ name, unit, head string }{
		{"digits", "7", ""}, {"hexadecimal digits", "f", "0x"}, {"negative hexadecimal digits", "0", "-0x"},
		{"digits and a point", "3", "0."}, {"letters", "z", ""}, {"x", "x", "0x"}, {"zeros", "0", ""},
		{"exponent zeros", "0", "0x1x"}, {"spaces", " ", ""}, {"bytes that are no text", "\xff", ""},
		{"quotes", "\"", "\""}, {"base64", "A", "base64,"}, {"percent", "%", ""},
	} {
		t := t
		add("texts of "+t.name, func(n int) (func(), int) {
			s := t.head + strings.Repeat(t.unit, n)
			return func() {
				value.ParseNumber(s)
				value.ParseBoolean(s)
				value.ParseString(s)
				value.ParseNull(s)
				value.Jsonify(value.Utf8(s))
				value.Jsonify(value.EmptyMutableMap().Put(s, value.Null))
			}, 4 * n
		})
	}
	// long payloads, that come in many pieces
	for _, head := range []string{"\xdb", "\xc6", "\xc9"} {
		head := head
		add(fmt.Sprintf("Read of a long payload of header %x", head), func(n int) (func(), int) {
			if n *= 8192; n > 1<<26 {
				n = 1 << 26
			}
			b := append([]byte(head), byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
			b = append(b, make([]byte, n+1)...)
			return func() {
				value.Read(bytes.NewReader(b))
				value.Read(PlainReader{bytes.NewReader(b)})
				value.Unpack(b, true)
			}, n / 32 // far from the factor that small things need
		})
	}
	// streams
	add("WriteStream", func(n int) (func(), int) {
		vs := words(n)
		return func() {
			c := make(chan value.Value, n)
			for _, v := range vs {
				c <- v
			}
			close(c)
			value.WriteStream(io.Discard, c)
		}, n
	})
	add("ReadStream", func(n int) (func(), int) {
		b := bytes.Repeat([]byte{0xa2, 'a', 'b'}, n)
		return func() {
			c := make(chan value.Value, n)
			value.ReadStream(bytes.NewReader(b), c)
		}, 3 * n
	})
	add("ReadStream of pieces", func(n int) (func(), int) {
		b := bytes.Repeat([]byte{0xa2, 'a', 'b'}, n)
		return func() {
			c := make(chan value.Value, n)
			value.ReadStream(OneByte{bytes.NewReader(b)}, c)
		}, 3 * n
	})
	add("tokens of a buffer", func(n int) (func(), int) {
		b := bytes.Repeat([]byte{0xc4, 2, 'a', 'b'}, n)
		return func() {
			u := value.MessageUnpacker(b, true)
			for f, _ := u.Next(); f != value.EOF; f, _ = u.Next() {
				u.Read(2)
			}
		}, 4 * n
	})
	return js
}

func threadTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(1, &ru) != nil { // RUSAGE_THREAD
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func C31(c *kit.Ctx) {
	c.HangLimit = 60 * time.Second
	c.Assume("the work of an operation is the number of calls of elements, the bytes allocated and, for one large size, whether it ends within a hundred times what it takes")
	lookups(c)
	visits(c)
	js := jobs()
	small := c.Pick(1<<13, 1<<14)
	c.Bound("memory", fmt.Sprintf("%d operations at sizes %d and %d", len(js), small/8, small))
	c.Sample("%s; %s; %s", js[0].name, js[40].name, js[len(js)-1].name)
	c.Seq("memory", len(js), func(w *kit.W, i int) {
		for _, n := range []int{small / 8, small} {
			w.Step(func() string { return fmt.Sprintf("%s, size %d", js[i].name, n) })
			w.NewState()
			w.Trace()
			run, size := js[i].mk(n)
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			run()
			runtime.ReadMemStats(&b)
			if got, limit := b.TotalAlloc-a.TotalAlloc, uint64(256<<10+1024*size); got > limit {
				w.Fail("%s, size %d: allocates %d bytes, more than %d", js[i].name, size, got, limit)
			}
		}
	})
	large := 1 << 18
	limit := 12 * time.Second
	c.Bound("time", fmt.Sprintf("%d operations at size %d, at most %v each", len(js), large, limit))
	c.Par("time", len(js), func(w *kit.W, i int) {
		w.Step(func() string { return fmt.Sprintf("%s, size %d", js[i].name, large) })
		w.NewState()
		w.Trace()
		run, _ := js[i].mk(large)
		runtime.LockOSThread()
		t := threadTime()
		run()
		t = threadTime() - t
		runtime.UnlockOSThread()
		if t > limit {
			w.Fail("%s, size %d: takes %v", js[i].name, large, t)
		}
	})
}
