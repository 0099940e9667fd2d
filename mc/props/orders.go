package props

import (
	"fmt"
	"reflect"

	"github.com/codeallergy/value"
	"verif/mc/kit"
)

// ---------- types of the same name ----------

// Local types of different functions have the same name and the same printed form.
func sameName1() reflect.Type {
	type Rec struct {
		A value.Value  `tag:"1"`
		B value.Number `tag:"2"`
	}
	return typeOf[Rec]()
}

func sameName2() reflect.Type {
	type Rec struct {
		A value.Value  `tag:"2"`
		B value.Number `tag:"1"`
	}
	return typeOf[Rec]()
}

func sameName3() reflect.Type {
	type Rec struct {
		B value.Number  `tag:"2"`
		A []value.Value `tag:"1"`
	}
	return typeOf[Rec]()
}

func sameName4() reflect.Type {
	type Rec struct {
		A []value.Value `tag:"1" repeated:"true"`
		B value.Number  `tag:"2"`
		C *StInner      `tag:"-7"`
	}
	return typeOf[Rec]()
}

func sameName5() reflect.Type {
	type Rec struct{}
	return typeOf[Rec]()
}

func sameName6() reflect.Type {
	type Rec struct {
		A value.String `tag:"1"`
	}
	return typeOf[Rec]()
}

// Holders of the same name hold different inner types of the same name.
func sameName7() reflect.Type {
	type Rec struct {
		A value.Value `tag:"1"`
	}
	type Holder struct {
		R *Rec       `tag:"1"`
		S []*Rec     `tag:"2"`
		T value.Bool `tag:"3"`
	}
	return typeOf[Holder]()
}

func sameName8() reflect.Type {
	type Rec struct {
		A value.Value `tag:"5"`
		B value.Bool  `tag:"1"`
	}
	type Holder struct {
		R *Rec       `tag:"1"`
		S []*Rec     `tag:"2"`
		T value.Bool `tag:"3"`
	}
	return typeOf[Holder]()
}

func sameName9() reflect.Type {
	type Holder struct {
		R *Holder   `tag:"1"`
		S []*Holder `tag:"2" repeated:"true"`
	}
	return typeOf[Holder]()
}

type genRec[T value.Value] struct {
	F T   `tag:"1"`
	S []T `tag:"2" repeated:"true"`
}

func sameNamed() []reflect.Type {
	return []reflect.Type{sameName1(), sameName2(), sameName3(), sameName4(), sameName5(), sameName6(), sameName7(), sameName8(), sameName9(),
		typeOf[genRec[value.Value]](), typeOf[genRec[value.Number]](), typeOf[genRec[value.String]]()}
}

func sameNames(c *kit.Ctx) {
	ts := sameNamed()
	c.Bound("types_of_the_same_name", len(ts))
	c.Seq("types-of-the-same-name", 3*len(ts), func(w *kit.W, i int) {
		t := ts[i%len(ts)]
		for _, p := range populated(t, 2) {
			w.NewState()
			w.Step(func() string { return fmt.Sprintf("%v with %s, round %d", t, dump(p.Elem()), i/len(ts)) })
			roundTrip(w, p)
		}
	})
}

// ---------- every order of first uses ----------

// orderTypes builds fresh struct types, no other case uses them: an inner type, and types that
// mention it. variant 0 is good, the others are unsupported for different reasons.
func orderTypes(id string, variant int) (ts []reflect.Type, good []bool) {
	fld := func(name string, t reflect.Type, tag int, rep bool) reflect.StructField {
		s := fmt.Sprintf(`json:"%s" tag:"%d"`, id, tag)
		if rep {
			s += ` repeated:"true"`
		}
		return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(s)}
	}
	vt := typeOf[value.Value]()
	in := []reflect.StructField{fld("A", vt, 1, false), fld("B", typeOf[value.Number](), 2, false)}
	switch variant {
	case 1:
		in = append(in, fld("C", typeOf[int](), 3, false))
	case 2:
		in = append(in, fld("C", vt, 1, false))
	case 3:
		in = append([]reflect.StructField{fld("C", typeOf[[]string](), 9, true)}, in...)
	case 4:
		in[1].Tag = ""
	}
	I := reflect.StructOf(in)
	PI := reflect.PtrTo(I)
	P := reflect.StructOf([]reflect.StructField{fld("X", vt, 1, false), fld("I", PI, 2, false)})
	S := reflect.StructOf([]reflect.StructField{fld("I", reflect.SliceOf(PI), 1, false), fld("R", reflect.SliceOf(PI), 2, true)})
	Q := reflect.StructOf([]reflect.StructField{fld("G", typeOf[*StInner](), 1, false), fld("P", reflect.PtrTo(P), 3, false), fld("A", reflect.ArrayOf(2, PI), 2, false), fld("V", vt, 0, false)})
	G := reflect.StructOf([]reflect.StructField{fld("G", typeOf[*StInner](), 3, false), fld("V", vt, 1, false)})
	ts = []reflect.Type{I, P, S, Q, G}
	ok := variant == 0
	return ts, []bool{ok, ok, ok, ok, true}
}

func permsOf(n int) [][]int {
	var out [][]int
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) == n {
			out = append(out, append([]int(nil), cur...))
			return
		}
	next:
		for i := 0; i < n; i++ {
			for _, x := range cur {
				if x == i {
					continue next
				}
			}
			rec(append(cur, i))
		}
	}
	rec(nil)
	return out
}

// useOrders explores every order in which types that mention each other are used for the first
// time, each first packed or first unpacked: what a type does never depends on the history.
func useOrders(c *kit.Ctx, variants []int) {
	perms := permsOf(5)
	c.Bound("orders_of_first_use", fmt.Sprintf("%d orders of 5 types, each first packed or unpacked, %d variants of the inner type", len(perms), len(variants)))
	c.Par("orders-of-first-use", len(perms)*len(variants)*4, func(w *kit.W, i int) {
		variant := variants[i/4%len(variants)]
		perm := perms[i/4/len(variants)]
		pattern := []int{0, 31, 0b01010, 0b00110}[i%4]
		ts, good := orderTypes(fmt.Sprintf("o%d-%d", i, variant), variant)
		for round := 0; round < 2; round++ {
			for _, k := range perm {
				t := ts[k]
				w.NewState()
				unpack := pattern>>k&1 == 1
				w.Step(func() string {
					return fmt.Sprintf("types %v used in the order %v (pattern %05b), round %d, now number %d", ts, perm, pattern, round, k)
				})
				if !good[k] {
					var err error
					if unpack {
						err = value.UnpackStruct([]byte{0x80}, reflect.New(t).Interface(), true)
					} else {
						_, err = value.PackStruct(reflect.New(t).Interface())
					}
					w.Trace()
					if err == nil {
						w.Fail("an unsupported type is accepted")
					}
					continue
				}
				p := reflect.New(t)
				populate(p.Elem(), 1, 3)
				if unpack {
					b := modelPack(p.Elem())
					q := reflect.New(t)
					if err := value.UnpackStruct(b, q.Interface(), true); err != nil || dump(q.Elem()) != dump(p.Elem()) {
						w.Fail("unpacking %x gives %s (%v), expected %s", b, dump(q.Elem()), err, dump(p.Elem()))
					}
					w.Trace()
				}
				roundTrip(w, p)
			}
		}
	})
}

// wrongNames: bytes of one type never fit just because a type of the same name was used before.
func wrongNames(c *kit.Ctx) {
	ts := sameNamed()
	var bs [][]byte
	for _, t := range ts {
		for _, p := range populated(t, 2) {
			bs = append(bs, modelPack(p.Elem()))
		}
	}
	c.Seq("bytes-of-other-types", len(ts)*len(bs), func(w *kit.W, i int) {
		unpackCase(w, ts[i%len(ts)], bs[i/len(ts)], func() string { return "bytes of another type" })
	})
}
