package ref

import (
	"fmt"
	"sort"

	"github.com/codeallergy/value"
)

// Op is one container operation.
type Op struct {
	Name string // append put insert insertall remove deleteall
	I    int    // index or sparse key
	K    string // map key
	Val  *V     // append put insert
	Vals []*V   // insertall
}

func (o Op) String(kind Kind) string {
	k := fmt.Sprint(o.I)
	if kind == Map {
		k = fmt.Sprintf("%q", o.K)
	}
	switch o.Name {
	case "append":
		return fmt.Sprintf("append(%s)", o.Val.Short())
	case "put", "insert":
		return fmt.Sprintf("%s(%s,%s)", o.Name, k, o.Val.Short())
	case "insertall":
		return fmt.Sprintf("insertall(%s,%s)", k, VList(o.Vals...).Short())
	}
	return fmt.Sprintf("%s(%s)", o.Name, k)
}

func nn(v *V) *V {
	if v.K == Nil {
		return VNull
	}
	return v
}

func splice(l []*V, i, del int, ins ...*V) []*V {
	r := make([]*V, 0, len(l)-del+len(ins))
	r = append(r, l[:i]...)
	for _, e := range ins {
		r = append(r, nn(e))
	}
	return append(r, l[i+del:]...)
}

// Apply is the reference meaning of an operation.
func Apply(v *V, o Op) *V {
	switch v.K {
	case List:
		return applyList(v, o)
	case Sparse:
		return applySparse(v, o)
	case Map:
		return applyMap(v, o)
	}
	panic("not a container")
}

func applyList(v *V, o Op) *V {
	n := len(v.L)
	switch o.Name {
	case "append":
		return VList(splice(v.L, n, 0, o.Val)...)
	case "put":
		if o.I < 0 {
			return v
		}
		l := append([]*V(nil), v.L...)
		for len(l) <= o.I {
			l = append(l, VNil)
		}
		l[o.I] = nn(o.Val)
		return VList(l...)
	case "insert", "insertall":
		if o.I < 0 {
			return v
		}
		i := o.I
		if i > n {
			i = n
		}
		if o.Name == "insert" {
			return VList(splice(v.L, i, 0, o.Val)...)
		}
		return VList(splice(v.L, i, 0, o.Vals...)...)
	case "remove", "deleteall":
		if o.I < 0 || o.I >= n {
			return v
		}
		return VList(splice(v.L, o.I, 1)...)
	}
	panic(o.Name)
}

func spliceInt(l []int, i, del int, ins ...int) []int {
	r := append([]int{}, l[:i]...)
	r = append(r, ins...)
	return append(r, l[i+del:]...)
}

func spliceStr(l []string, i, del int, ins ...string) []string {
	r := append([]string{}, l[:i]...)
	r = append(r, ins...)
	return append(r, l[i+del:]...)
}

func edit(o Op, lo, hi int) (del int, ins []*V) {
	switch o.Name {
	case "put":
		if hi > lo {
			del = 1
		}
		return del, []*V{o.Val}
	case "insert":
		return 0, []*V{o.Val}
	case "insertall":
		return 0, o.Vals
	case "remove":
		if hi > lo {
			del = 1
		}
	case "deleteall":
		del = hi - lo
	default:
		panic(o.Name)
	}
	return del, nil
}

func applySparse(v *V, o Op) *V {
	if o.Name == "append" {
		k := 0
		if len(v.IK) > 0 {
			k = v.IK[len(v.IK)-1] + 1
		}
		return VSparse(spliceInt(v.IK, len(v.IK), 0, k), splice(v.L, len(v.L), 0, o.Val))
	}
	lo := sort.Search(len(v.IK), func(i int) bool { return v.IK[i] >= o.I })
	hi := sort.Search(len(v.IK), func(i int) bool { return v.IK[i] > o.I })
	del, ins := edit(o, lo, hi)
	ks := make([]int, len(ins))
	for i := range ks {
		ks[i] = o.I
	}
	return VSparse(spliceInt(v.IK, lo, del, ks...), splice(v.L, lo, del, ins...))
}

func applyMap(v *V, o Op) *V {
	lo := sort.SearchStrings(v.SK, o.K)
	hi := sort.Search(len(v.SK), func(i int) bool { return v.SK[i] > o.K })
	del, ins := edit(o, lo, hi)
	ks := make([]string, len(ins))
	for i := range ks {
		ks[i] = o.K
	}
	return VMap(spliceStr(v.SK, lo, del, ks...), splice(v.L, lo, del, ins...))
}

// Args builds the values an operation is given.
type Args struct {
	Val  value.Value
	Vals []value.Value
}

func (o Op) Args(f int) Args {
	a := Args{}
	if o.Val != nil {
		a.Val = Build(o.Val, f)
	}
	for _, e := range o.Vals {
		a.Vals = append(a.Vals, Build(e, f))
	}
	return a
}

// ApplyImpl performs the operation on the implementation.
func ApplyImpl(x value.Value, o Op, a Args) value.Value {
	switch c := x.(type) {
	case value.List:
		switch o.Name {
		case "append":
			return c.Append(a.Val)
		case "put":
			return c.PutAt(o.I, a.Val)
		case "insert":
			return c.InsertAt(o.I, a.Val)
		case "insertall":
			return c.InsertAll(o.I, a.Vals)
		case "remove":
			return c.RemoveAt(o.I)
		case "deleteall":
			return c.DeleteAll(o.I)
		}
	case value.Map:
		switch o.Name {
		case "put":
			return c.Put(o.K, a.Val)
		case "insert":
			return c.Insert(o.K, a.Val)
		case "insertall":
			return c.InsertAll(o.K, a.Vals)
		case "remove":
			return c.Remove(o.K)
		case "deleteall":
			return c.DeleteAll(o.K)
		}
	}
	panic("bad op " + o.Name)
}
