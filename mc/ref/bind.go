package ref

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

// Observe reads the content of a library value through its public accessors.
func Observe(x value.Value) *V {
	if x == nil {
		return VNil
	}
	switch x.Kind() {
	case value.NULL:
		return VNull
	case value.BOOL:
		return VBool(x.(value.Bool).Boolean())
	case value.NUMBER:
		n := x.(value.Number)
		switch n.Type() {
		case value.LONG:
			return VLong(n.Long())
		case value.DOUBLE:
			return VDoubleBits(math.Float64bits(n.Double()))
		case value.BIGINT:
			return VBig(n.BigInt())
		case value.DECIMAL:
			d := n.Decimal()
			return VDec(d.Coefficient(), d.Exponent())
		}
		panic(fmt.Sprintf("number of unknown type %v", n.Type()))
	case value.STRING:
		s := x.(value.String)
		switch s.Type() {
		case value.UTF8:
			return VUtf8(s.Utf8())
		case value.RAW:
			return VRaw(string(s.Raw()))
		}
		panic(fmt.Sprintf("string of unknown type %v", s.Type()))
	case value.UNKNOWN:
		return &V{K: Ext, S: string(x.(value.Extension).Native())}
	case value.LIST:
		l := x.(value.List)
		if IsSparse(l) {
			v := &V{K: Sparse}
			for _, it := range l.Items() {
				v.IK = append(v.IK, it.Key())
				v.L = append(v.L, Observe(it.Value()))
			}
			return v
		}
		v := &V{K: List}
		for _, e := range l.Values() {
			v.L = append(v.L, Observe(e))
		}
		return v
	case value.MAP:
		v := &V{K: Map}
		for _, e := range x.(value.Map).Entries() {
			v.SK = append(v.SK, e.Key())
			v.L = append(v.L, Observe(e.Value()))
		}
		return v
	}
	panic(fmt.Sprintf("value of unknown kind %v", x.Kind()))
}

func IsSparse(l value.List) bool {
	if o, ok := l.(interface{ IsSparse() bool }); ok {
		return o.IsSparse()
	}
	return l.Class() == value.EmptySparseList().Class()
}

// Flavours of construction. A flavour decides which public constructors are used for the
// containers of a tree; scalars have one constructor each.
const (
	FImmutable = iota
	FMutable
	FImmOps   // immutable containers grown by operations
	FMutOps   // mutable containers grown by operations
	FUnsorted // bulk constructors given unsorted entries
	FDecoded  // decoded from reference bytes
	NFlavours
)

func FlavourName(f int) string {
	return [...]string{"immutable", "mutable", "immutable-ops", "mutable-ops", "bulk-unsorted", "decoded"}[f]
}

func Scalar(v *V) value.Value {
	switch v.K {
	case Nil:
		return nil
	case Null:
		return value.Null
	case Bool:
		return value.Boolean(v.B)
	case Long:
		return value.Long(v.I)
	case Double:
		return value.Double(math.Float64frombits(v.F))
	case Big:
		return value.BigInt(new(big.Int).Set(v.N))
	case Dec:
		return value.Decimal(decimal.NewFromBigInt(v.N, v.E))
	case Utf8:
		return value.Utf8(v.S)
	case Raw:
		return value.Raw([]byte(v.S), true)
	case Ext:
		return value.Unknown([]byte(v.S))
	}
	panic("not a scalar")
}

func dupKeys(v *V) bool {
	for i := 1; i < len(v.L); i++ {
		if v.K == Map && v.SK[i] == v.SK[i-1] || v.K == Sparse && v.IK[i] == v.IK[i-1] {
			return true
		}
	}
	return false
}

// Build constructs the value with the given flavour. Elements of containers are built
// with the same flavour. FDecoded panics when decoding fails (a C01 violation).
func Build(v *V, f int) value.Value {
	if !v.IsContainer() {
		return Scalar(v)
	}
	if f == FDecoded && !v.HasEmptySparse() {
		x, err := value.Unpack(v.Encode(), true)
		if err != nil {
			panic(fmt.Sprintf("decoding the reference encoding of %s failed: %v", v.Short(), err))
		}
		return x
	}
	n := len(v.L)
	el := make([]value.Value, n)
	for i, e := range v.L {
		el[i] = Build(e, f)
	}
	mut := f == FMutable || f == FMutOps
	switch v.K {
	case List:
		switch f {
		case FImmOps, FMutOps:
			l := value.EmptyList(!mut)
			hasNil := false
			for _, e := range el {
				hasNil = hasNil || e == nil
			}
			if hasNil { // operations store null instead of nil; holes need the bulk constructor
				break
			}
			for _, e := range el {
				l = l.Append(e)
			}
			return l
		case FUnsorted:
			return value.Tuple(el...)
		}
		if mut {
			return value.MutableList(el)
		}
		return value.ImmutableList(el)
	case Sparse:
		items := make([]value.ListItem, n)
		for i := range el {
			if mut {
				items[i] = value.MutableItem(v.IK[i], el[i])
			} else {
				items[i] = value.ImmutableItem(v.IK[i], el[i])
			}
		}
		hasNil := false
		for _, e := range el {
			hasNil = hasNil || e == nil
		}
		switch f {
		case FImmOps, FMutOps:
			if hasNil {
				break
			}
			l := value.EmptySparseList()
			for i := n - 1; i >= 0; i-- {
				l = l.InsertAt(v.IK[i], el[i])
			}
			return l
		case FUnsorted:
			sort.SliceStable(items, func(i, j int) bool { return items[i].Key() > items[j].Key() })
			return value.SparseList(items, false)
		}
		return value.SparseList(items, true)
	case Map:
		entries := make([]value.MapEntry, n)
		hasNil := false
		for i := range el {
			hasNil = hasNil || el[i] == nil
			if mut {
				entries[i] = value.MutableEntry(v.SK[i], el[i])
			} else {
				entries[i] = value.ImmutableEntry(v.SK[i], el[i])
			}
		}
		switch f {
		case FImmOps, FMutOps:
			if hasNil {
				break
			}
			m := value.EmptyMap(!mut)
			for i := n - 1; i >= 0; i-- {
				m = m.Insert(v.SK[i], el[i])
			}
			return m
		case FUnsorted:
			if n%2 == 1 && !dupKeys(v) {
				h := map[string]value.Value{}
				for i := range el {
					h[v.SK[i]] = el[i]
				}
				return value.ImmutableMapOf(h)
			}
			// equal keys in their order, but apart
			sort.SliceStable(entries, func(i, j int) bool { return entries[i].Key() > entries[j].Key() })
			return value.ImmutableMap(entries, false)
		}
		if mut {
			return value.SortedMap(entries, true)
		}
		return value.ImmutableMap(entries, true)
	}
	panic("unreachable")
}
