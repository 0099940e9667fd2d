package props

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

func init() {
	All["C19"] = C19
	All["C20"] = C20
}

// ---------- the zoo of struct types ----------

type StInner struct {
	A value.Value  `tag:"1"`
	B value.Number `tag:"2"`
}

type StNode struct {
	Kids  []*StNode   `tag:"4"`
	Val   value.Value `tag:"1"`
	Rep   []*StNode   `tag:"5" repeated:"true"`
	Right *StNode     `tag:"3"`
	Left  *StNode     `tag:"2"`
}

type StPing struct {
	P *StPong      `tag:"2"`
	N value.Number `tag:"1"`
}

type StPong struct {
	L []*StPing    `tag:"1"`
	S value.String `tag:"9"`
	A [1]*StPing   `tag:"-4"`
}

type StBools []value.Bool

type StNamed struct {
	B StBools    `tag:"1"`
	R StBools    `tag:"2" repeated:"true"`
	A [2]StAlias `tag:"3"`
}

type StAlias = value.Number

type StEmpty struct{}

type StEmbedded struct {
	*StInner `tag:"3"`
	Other    value.Bool `tag:"1"`
}

type StWide struct {
	F19 value.Value `tag:"19"`
	F00 value.Value `tag:"0"`
	F18 value.Value `tag:"18"`
	F01 value.Value `tag:"1"`
	F17 value.Value `tag:"17"`
	F02 value.Value `tag:"2"`
	F16 value.Value `tag:"16"`
	F03 value.Value `tag:"3"`
	F15 value.Value `tag:"15"`
	F04 value.Value `tag:"4"`
	F14 value.Value `tag:"14"`
	F05 value.Value `tag:"5"`
	F13 value.Value `tag:"13"`
	F06 value.Value `tag:"6"`
	F12 value.Value `tag:"12"`
	F07 value.Value `tag:"7"`
	F11 value.Value `tag:"11"`
	F08 value.Value `tag:"8"`
	F10 value.Value `tag:"10"`
	F09 value.Value `tag:"9"`
}

type StBig struct {
	B value.Bool     `tag:"1"`
	N value.Number   `tag:"2"`
	S value.String   `tag:"3"`
	L value.List     `tag:"4"`
	M value.Map      `tag:"5"`
	V value.Value    `tag:"6"`
	I *StInner       `tag:"100"`
	J []*StInner     `tag:"101"`
	K []*StInner     `tag:"102" repeated:"true"`
	R []value.Value  `tag:"103" repeated:"1"`
	A [2]value.Value `tag:"104"`
}

func typeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var fieldElems = []reflect.Type{typeOf[value.Bool](), typeOf[value.Number](), typeOf[value.String](), typeOf[value.List](),
	typeOf[value.Map](), typeOf[value.Value](), typeOf[value.Extension](), typeOf[*StInner](), typeOf[*StEmpty]()}

const (
	wPlain = iota
	wSlice
	wRepeated
	wArray
	nWraps
)

func fieldType(elem reflect.Type, wrap int) reflect.Type {
	switch wrap {
	case wSlice, wRepeated:
		return reflect.SliceOf(elem)
	case wArray:
		return reflect.ArrayOf(2, elem)
	}
	return elem
}

// structOf builds a struct type with the given field kinds (elem*nWraps+wrap) and tags, in this order.
func structOf(kinds []int, tags []int) reflect.Type {
	var fs []reflect.StructField
	for i, k := range kinds {
		tag := fmt.Sprintf(`tag:"%d"`, tags[i])
		if k%nWraps == wRepeated {
			tag += ` repeated:"true"`
		}
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: fieldType(fieldElems[k/nWraps], k%nWraps), Tag: reflect.StructTag(tag)})
	}
	return reflect.StructOf(fs)
}

// ---------- the model of struct mapping ----------

type mfield struct {
	tag      int
	num      int
	repeated bool
	typ      reflect.Type
}

func (f mfield) multi() bool { return f.typ.Kind() == reflect.Slice || f.typ.Kind() == reflect.Array }

// modelFields lists the fields of a struct type by ascending tag.
func modelFields(t reflect.Type) []mfield {
	var fs []mfield
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag, err := strconv.Atoi(f.Tag.Get("tag"))
		if err != nil {
			panic(err)
		}
		r := f.Tag.Get("repeated")
		fs = append(fs, mfield{tag, i, r == "true" || r == "1", f.Type})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].tag < fs[j].tag })
	return fs
}

func isStructPtr(t reflect.Type) bool {
	return t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Struct
}

func unset(v reflect.Value) bool {
	if v.Kind() == reflect.Array {
		for i := 0; i < v.Len(); i++ {
			if !v.Index(i).IsNil() {
				return false
			}
		}
		return true
	}
	return v.IsNil()
}

// modelPack is the expected encoding of a struct.
func modelPack(v reflect.Value) []byte {
	n := 0
	var body []byte
	elem := func(e reflect.Value) {
		if isStructPtr(e.Type()) {
			body = append(body, modelPack(e.Elem())...)
		} else {
			body = ref.Observe(e.Interface().(value.Value)).Enc(body)
		}
	}
	for _, f := range modelFields(v.Type()) {
		x := v.Field(f.num)
		if unset(x) {
			continue
		}
		switch {
		case f.repeated:
			for i := 0; i < x.Len(); i++ {
				body = ref.EncInt(body, int64(f.tag))
				elem(x.Index(i))
				n++
			}
		case f.multi():
			n++
			body = ref.EncInt(body, int64(f.tag))
			body = ref.EncListHeader(body, x.Len())
			for i := 0; i < x.Len(); i++ {
				elem(x.Index(i))
			}
		default:
			n++
			body = ref.EncInt(body, int64(f.tag))
			elem(x)
		}
	}
	return append(ref.EncMapHeader(nil, n), body...)
}

// dump is a text for the content of a struct: its set fields by ascending tag.
func dump(v reflect.Value) string {
	var b strings.Builder
	b.WriteByte('{')
	elem := func(e reflect.Value) {
		switch {
		case e.IsNil():
			b.WriteString("unset")
		case isStructPtr(e.Type()):
			b.WriteString(dump(e.Elem()))
		default:
			ref.Observe(e.Interface().(value.Value)).Norm().WriteCanon(&b)
		}
	}
	for _, f := range modelFields(v.Type()) {
		x := v.Field(f.num)
		if unset(x) || f.repeated && x.Len() == 0 {
			continue
		}
		fmt.Fprintf(&b, "%d=", f.tag)
		if f.multi() {
			b.WriteByte('[')
			for i := 0; i < x.Len(); i++ {
				elem(x.Index(i))
				b.WriteByte(',')
			}
			b.WriteByte(']')
		} else {
			elem(x)
		}
		b.WriteByte(';')
	}
	b.WriteByte('}')
	return b.String()
}

type outcome int

const (
	good        outcome = iota
	bad                 // must be an error
	unspecified         // only totality
)

func listHeader(b []byte) (n, used int, st outcome) { return countHeader(b, 0x90, 0xdc) }
func mapHeader(b []byte) (n, used int, st outcome)  { return countHeader(b, 0x80, 0xde) }

func countHeader(b []byte, fix, c16 byte) (n, used int, st outcome) {
	switch {
	case len(b) == 0:
		return 0, 0, bad
	case b[0]&0xf0 == fix:
		return int(b[0] & 15), 1, good
	case b[0] == c16 && len(b) >= 3:
		return int(b[1])<<8 | int(b[2]), 3, good
	case b[0] == c16+1 && len(b) >= 5:
		return int(b[1])<<24 | int(b[2])<<16 | int(b[3])<<8 | int(b[4]), 5, good
	}
	return 0, 0, bad
}

func fits(t reflect.Type, v *ref.V) bool {
	switch t {
	case fieldElems[0]:
		return v.K == ref.Bool
	case fieldElems[1]:
		return v.IsNumber()
	case fieldElems[2]:
		return v.K == ref.Utf8 || v.K == ref.Raw
	case fieldElems[3]:
		return v.K == ref.List || v.K == ref.Sparse
	case fieldElems[4]:
		return v.K == ref.Map
	case fieldElems[5]:
		return true
	case fieldElems[6]:
		return v.K == ref.Ext
	}
	panic("unknown field type " + t.String())
}

// modelUnpack says what the bytes mean for a fresh struct of type t.
func modelUnpack(t reflect.Type, b []byte) (text string, used int, st outcome) {
	cnt, p, st := mapHeader(b)
	if st != good {
		return "", 0, st
	}
	fs := modelFields(t)
	got := map[int][]string{}
	set := map[int]bool{}
	for i := 0; i < cnt; i++ {
		k := ref.Decode(b[p:])
		if k.Loose {
			return "", 0, unspecified
		}
		if k.St != ref.OK || k.V.K != ref.Long {
			return "", 0, bad
		}
		p += k.N
		var f *mfield
		j := sort.Search(len(fs), func(j int) bool { return int64(fs[j].tag) >= k.V.I })
		if j < len(fs) && int64(fs[j].tag) == k.V.I {
			f = &fs[j]
		}
		if f == nil {
			return "", 0, bad
		}
		if set[f.tag] && !f.repeated {
			return "", 0, unspecified
		}
		set[f.tag] = true
		et := f.typ
		n := 1
		if f.multi() {
			et = et.Elem()
			if !f.repeated {
				m, u, st := listHeader(b[p:])
				if st != good {
					return "", 0, st
				}
				if f.typ.Kind() == reflect.Array && m != f.typ.Len() {
					return "", 0, bad
				}
				p += u
				n = m
			}
		}
		for j := 0; j < n; j++ {
			if isStructPtr(et) {
				s, u, st := modelUnpack(et.Elem(), b[p:])
				if st != good {
					return "", 0, st
				}
				p += u
				got[f.tag] = append(got[f.tag], s)
				continue
			}
			e := ref.Decode(b[p:])
			if e.Loose {
				return "", 0, unspecified
			}
			if e.St != ref.OK || !fits(et, e.V) {
				return "", 0, bad
			}
			p += e.N
			got[f.tag] = append(got[f.tag], e.V.Norm().Canon())
		}
	}
	var o strings.Builder
	o.WriteByte('{')
	for _, f := range fs {
		if !set[f.tag] {
			continue
		}
		if f.typ.Kind() == reflect.Array && f.typ.Len() == 0 {
			continue
		}
		fmt.Fprintf(&o, "%d=", f.tag)
		if f.multi() {
			o.WriteByte('[')
			for _, s := range got[f.tag] {
				o.WriteString(s)
				o.WriteByte(',')
			}
			o.WriteByte(']')
		} else {
			o.WriteString(got[f.tag][0])
		}
		o.WriteByte(';')
	}
	o.WriteByte('}')
	return o.String(), p, good
}

// ---------- payloads ----------

var stLong = ref.VLong(7)

// elemPayloads are the model values used for a kind of field.
func elemPayloads(kind int) []*ref.V {
	switch kind {
	case 0:
		return []*ref.V{ref.VTrue, ref.VFalse}
	case 1:
		return []*ref.V{ref.VLong(-300), ref.VDouble(2.5), ref.VBig(new(big.Int).Lsh(big.NewInt(1), 70)), ref.VDec(big.NewInt(123), -2)}
	case 2:
		return []*ref.V{ref.VUtf8("text"), ref.VRaw("\x00\xff"), ref.VUtf8("")}
	case 3:
		return []*ref.V{ref.VList(stLong, ref.VNull), ref.VSparse([]int{-2, 3, 3}, []*ref.V{stLong, ref.VTrue, ref.VUtf8("d")}), ref.VList()}
	case 4:
		return []*ref.V{ref.VMap([]string{"", "k", "k"}, []*ref.V{ref.VList(stLong), stLong, ref.VNull}), ref.VMap(nil, nil)}
	case 5:
		return []*ref.V{ref.VNull, ref.VUtf8("any"), ref.VMap([]string{"1"}, []*ref.V{stLong}), ref.VExt(9, "x"), ref.VList(ref.VTrue)}
	case 6:
		return []*ref.V{ref.VExt(5, "ext"), ref.VExt(200, "")}
	}
	return nil
}

// elemValue is the i-th payload of a kind of field.
func elemValue(kind, i, flavour int) reflect.Value {
	if kind == 8 {
		return reflect.ValueOf(&StEmpty{})
	}
	if kind == 7 {
		in := &StInner{}
		if i%4 > 0 {
			in.A = ref.Build(elemPayloads(5)[i%5], flavour)
		}
		if i%4 > 1 {
			in.B = ref.Build(elemPayloads(1)[i%4], flavour).(value.Number)
		}
		return reflect.ValueOf(in)
	}
	ps := elemPayloads(kind)
	return reflect.ValueOf(ref.Build(ps[i%len(ps)], flavour))
}

// fill sets field x of a kind (elem*nWraps+wrap) to payload i; payload 0 leaves it unset.
func fill(x reflect.Value, kind, i, flavour int) {
	if i == 0 {
		return
	}
	e, wrap := kind/nWraps, kind%nWraps
	switch wrap {
	case wPlain:
		x.Set(elemValue(e, i-1, flavour))
	case wSlice, wRepeated:
		n := []int{3, 1, 0, 2, 17}[(i-1)%5]
		s := reflect.MakeSlice(x.Type(), 0, n)
		for k := 0; k < n; k++ {
			s = reflect.Append(s, elemValue(e, i-1+k, flavour))
		}
		x.Set(s)
	case wArray:
		for k := 0; k < x.Len(); k++ {
			x.Index(k).Set(elemValue(e, i-1+k, flavour))
		}
	}
}

// roundTrip packs a struct and compares bytes and everything that can be read from them.
func roundTrip(w *kit.W, ptr reflect.Value) {
	want := modelPack(ptr.Elem())
	before := dump(ptr.Elem())
	b, err := value.PackStruct(ptr.Interface())
	w.Trace()
	if err != nil {
		w.Fail("packing fails: %v", err)
	}
	if !bytes.Equal(b, want) {
		w.Fail("packs to %x, expected %x", b, want)
	}
	for _, cp := range []bool{true, false} {
		fresh := reflect.New(ptr.Type().Elem())
		in := append([]byte(nil), b...)
		if err := value.UnpackStruct(in, fresh.Interface(), cp); err != nil {
			w.Fail("unpacking (copy %v) fails: %v", cp, err)
		}
		w.Trace()
		if got := dump(fresh.Elem()); got != before {
			w.Fail("unpacks (copy %v) to %s, was %s", cp, got, before)
		}
		again, err := value.PackStruct(fresh.Interface())
		if err != nil || !bytes.Equal(again, b) {
			w.Fail("the unpacked struct packs to %x (%v), expected %x", again, err, b)
		}
	}
	if dump(ptr.Elem()) != before {
		w.Fail("packing changed the struct to %s, was %s", dump(ptr.Elem()), before)
	}
	x, err := value.Unpack(b, true)
	if err != nil {
		w.Fail("does not decode as a value: %v", err)
	}
	if r := ref.Decode(b); r.St != ref.OK || !ref.Same(ref.Observe(x), r.V) {
		w.Fail("decodes as %s, expected %s", ref.Observe(x).Short(), r.V.Short())
	}
}

// nodes enumerates all StNode trees of exactly n nodes.
func nodes(n int, memo map[int][]*StNode) []*StNode {
	if n == 0 {
		return []*StNode{nil}
	}
	if r, ok := memo[n]; ok {
		return r
	}
	var out []*StNode
	// forests of exactly k nodes, as slices
	var forests func(k int) [][]*StNode
	forests = func(k int) [][]*StNode {
		if k == 0 {
			return [][]*StNode{nil}
		}
		var r [][]*StNode
		for f := 1; f <= k; f++ {
			for _, h := range nodes(f, memo) {
				for _, t := range forests(k - f) {
					r = append(r, append([]*StNode{h}, t...))
				}
			}
		}
		return r
	}
	for l := 0; l < n; l++ {
		for r := 0; l+r < n; r++ {
			for k := 0; l+r+k < n; k++ {
				q := n - 1 - l - r - k
				for _, left := range nodes(l, memo) {
					for _, right := range nodes(r, memo) {
						for _, kids := range forests(k) {
							for _, rep := range forests(q) {
								out = append(out, &StNode{Left: left, Right: right, Kids: kids, Rep: rep, Val: value.Long(int64(n*100 + len(out)%100))})
							}
						}
					}
				}
			}
		}
	}
	memo[n] = out
	return out
}

// C19: all subsets and payloads of the fields of struct types, enumerated as types themselves.
func C19(c *kit.Ctx) {
	sameNames(c)
	useOrders(c, []int{0})
	nk := len(fieldElems) * nWraps
	tagPairs := [][]int{{1, 2}, {2, 1}, {-5, 300}, {70000, -1}, {0, 1 << 40}, {128, 127}, {-33, -32}}
	c.Bound("one_field", fmt.Sprintf("%d field kinds, all payloads, every tag size", nk))
	var tags []int
	for _, i := range ref.IntBoundaries() {
		tags = append(tags, int(i))
	}
	c.Par("one-field", nk, func(w *kit.W, k int) {
		for i := 0; i <= 8; i++ {
			for f := 0; f < 2; f++ {
				t := structOf([]int{k}, []int{k*37 - 300})
				p := reflect.New(t)
				fill(p.Elem().Field(0), k, i, f)
				w.NewState()
				w.Step(func() string { return fmt.Sprintf("struct %v with %s", t, dump(p.Elem())) })
				roundTrip(w, p)
			}
		}
		for _, tag := range tags {
			if k%8 != 0 && !c.Thorough() {
				break
			}
			t := structOf([]int{k}, []int{tag})
			p := reflect.New(t)
			fill(p.Elem().Field(0), k, 1, 0)
			w.NewState()
			w.Step(func() string { return fmt.Sprintf("struct %v with %s", t, dump(p.Elem())) })
			roundTrip(w, p)
		}
	})
	c.Bound("two_fields", fmt.Sprintf("all pairs of %d kinds, %d tag orders, all pairs of 3 states of each field", nk, len(tagPairs)))
	c.Par("two-fields", nk*nk, func(w *kit.W, k int) {
		ks := []int{k / nk, k % nk}
		for ti, tp := range tagPairs {
			if ti >= 2 && !c.Thorough() && (k+ti)%5 != 0 {
				continue
			}
			t := structOf(ks, tp)
			for a := 0; a < 3; a++ {
				for b := 0; b < 3; b++ {
					p := reflect.New(t)
					fill(p.Elem().Field(0), ks[0], a, 0)
					fill(p.Elem().Field(1), ks[1], b, 1)
					w.NewState()
					w.Step(func() string { return fmt.Sprintf("struct %v with %s", t, dump(p.Elem())) })
					roundTrip(w, p)
				}
			}
		}
	})
	// three fields in every declaration order
	three := []int{0*nWraps + wPlain, 5*nWraps + wRepeated, 7*nWraps + wPlain, 7*nWraps + wSlice, 7*nWraps + wRepeated, 1*nWraps + wArray}
	if c.Thorough() {
		three = append(three, 3*nWraps+wPlain, 4*nWraps+wSlice, 2*nWraps+wPlain, 7*nWraps+wArray, 6*nWraps+wRepeated)
	}
	perms := [][]int{{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}}
	n3 := len(three)
	c.Bound("three_fields", fmt.Sprintf("all triples of %d kinds in all 6 declaration orders, all states", n3))
	c.Par("three-fields", n3*n3*n3, func(w *kit.W, k int) {
		ks := []int{three[k/n3/n3], three[k/n3%n3], three[k%n3]}
		for _, tp := range perms {
			t := structOf(ks, tp)
			for s := 0; s < 8; s++ {
				p := reflect.New(t)
				for j := 0; j < 3; j++ {
					fill(p.Elem().Field(j), ks[j], (s>>j&1)*(j+1), j%2)
				}
				w.NewState()
				w.Step(func() string { return fmt.Sprintf("struct %v with %s", t, dump(p.Elem())) })
				roundTrip(w, p)
			}
		}
	})
	// all subsets of many fields
	big := make([]int, 11)
	for i, k := range []int{0, 1, 2, 3, 4, 5, 7} {
		big[i] = k * nWraps
	}
	big[7], big[8], big[9], big[10] = 7*nWraps+wSlice, 7*nWraps+wRepeated, 5*nWraps+wRepeated, 5*nWraps+wArray
	c.Bound("wide_structs", "all subsets of 11 fields of every kind; all subsets of 20 fields of up to 3 or at least 17 fields")
	c.Par("eleven-fields", 1<<11, func(w *kit.W, s int) {
		p := reflect.ValueOf(&StBig{})
		for j := 0; j < 11; j++ {
			if s>>j&1 == 1 {
				fill(p.Elem().Field(j), big[j], 1+s%3, s%2)
			}
		}
		w.NewState()
		w.Step(func() string { return "StBig with " + dump(p.Elem()) })
		roundTrip(w, p)
	})
	var wide []uint32
	for a := 0; a < 20; a++ {
		for b := a; b < 20; b++ {
			for d := b; d < 20; d++ {
				s := uint32(1)<<a | 1<<b | 1<<d
				wide = append(wide, s, (1<<20-1)&^s)
			}
		}
	}
	wide = append(wide, 0, 1<<20-1, 1<<15-1, 1<<16-1, 1<<17-1)
	c.Par("twenty-fields", len(wide), func(w *kit.W, i int) {
		p := reflect.ValueOf(&StWide{})
		for j := 0; j < 20; j++ {
			if wide[i]>>j&1 == 1 {
				fill(p.Elem().Field(j), 5*nWraps, 1+j, 0)
			}
		}
		w.NewState()
		w.Step(func() string { return "StWide with " + dump(p.Elem()) })
		roundTrip(w, p)
	})
	veryWide(c)
	// structs that refer to themselves
	memo := map[int][]*StNode{}
	for n := 1; n <= c.Pick(4, 6); n++ {
		ns := nodes(n, memo)
		c.Bound(fmt.Sprintf("trees_of_%d_nodes", n), len(ns))
		c.Par(fmt.Sprintf("self-referential-%d", n), len(ns), func(w *kit.W, i int) {
			w.NewState()
			p := reflect.ValueOf(ns[i])
			w.Step(func() string { return "StNode with " + dump(p.Elem()) })
			roundTrip(w, p)
		})
	}
	c.Par("deep-and-mutual", 60, func(w *kit.W, i int) {
		depth := i + 1
		if i >= 40 {
			depth = (i - 39) * 25
		}
		var l, k, r *StNode
		var pi *StPing
		for d := 0; d < depth; d++ {
			v := value.Long(int64(d))
			l = &StNode{Left: l, Val: v}
			nk, nr := &StNode{Val: v}, &StNode{Val: v}
			if k != nil {
				nk.Kids = []*StNode{k}
				nr.Rep = []*StNode{r}
			}
			k, r = nk, nr
			po := &StPong{S: value.Utf8("s")}
			if pi != nil {
				if d%2 == 0 {
					po.L = []*StPing{pi}
				} else {
					po.A[0] = pi
				}
			}
			pi = &StPing{P: po, N: v}
		}
		for _, x := range []interface{}{l, k, r, pi, pi.P} {
			w.NewState()
			w.Step(func() string { return fmt.Sprintf("%T nested %d levels", x, depth) })
			roundTrip(w, reflect.ValueOf(x))
		}
	})
	// more types and long slices
	c.Par("other-types", 40, func(w *kit.W, i int) {
		var bs StBools
		for k := 0; k < i; k++ {
			bs = append(bs, value.Boolean(k%3 == 0))
		}
		xs := []interface{}{&StNamed{B: bs}, &StNamed{R: bs, A: [2]StAlias{value.Long(1), value.Double(2)}}, &StEmpty{}, &StEmbedded{}, &StEmbedded{StInner: &StInner{A: value.Utf8("e")}, Other: value.True}}
		for _, n := range []int{i, i * 400} {
			s := make([]*StInner, n)
			v := make([]value.Value, n)
			for k := range s {
				s[k] = &StInner{B: value.Long(int64(k))}
				v[k] = value.Long(int64(k))
			}
			xs = append(xs, &StBig{J: s}, &StBig{K: s, R: v}, &StBig{R: v})
		}
		// long slices of nodes that refer to their own type, some of them with long slices again
		ns := []int{1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 1100, 2048, 2049, c.Pick(2100, 5000)}
		if i < len(ns) {
			row := func(n int) []*StNode {
				s := make([]*StNode, n)
				for k := range s {
					s[k] = &StNode{Val: value.Long(int64(k))}
				}
				return s
			}
			in := row(ns[i])
			in[0], in[ns[i]-1] = &StNode{Rep: row(3), Val: value.True}, &StNode{Kids: row(2), Left: &StNode{Rep: row(ns[i])}}
			xs = append(xs, &StNode{Rep: row(ns[i])}, &StNode{Kids: row(ns[i])}, &StNode{Rep: in, Kids: row(2)}, &StNode{Kids: in, Rep: row(2)}, &StNode{Right: &StNode{Rep: in}, Left: &StNode{Kids: in}})
		}
		for _, x := range xs {
			w.NewState()
			w.Step(func() string { return fmt.Sprintf("%T number %d", x, i) })
			roundTrip(w, reflect.ValueOf(x))
		}
	})
	// fixed size arrays with unset elements: refused or restored, never something else
	c.Par("partial-arrays", len(fieldElems), func(w *kit.W, e int) {
		for s := 1; s < 3; s++ {
			p := reflect.New(structOf([]int{e*nWraps + wArray}, []int{3}))
			p.Elem().Field(0).Index(s - 1).Set(elemValue(e, 1, 0))
			w.NewState()
			w.Step(func() string { return "partial array " + dump(p.Elem()) })
			b, err := value.PackStruct(p.Interface())
			w.Trace()
			if err != nil {
				continue
			}
			q := reflect.New(p.Type().Elem())
			if err := value.UnpackStruct(b, q.Interface(), true); err != nil || strings.ReplaceAll(dump(q.Elem()), "null", "unset") != strings.ReplaceAll(dump(p.Elem()), "null", "unset") {
				w.Fail("is packed as %x and unpacks to %s (error %v)", b, dump(q.Elem()), err)
			}
		}
	})
	// values and nil are packed as such
	c.Par("values", 1, func(w *kit.W, _ int) {
		for _, v := range append(ref.SmallLeaves(), ref.VList(stLong), ref.VMap([]string{"a"}, []*ref.V{stLong}), ref.VSparse([]int{4}, []*ref.V{stLong})) {
			w.NewState()
			w.Step(func() string { return "PackStruct of the value " + v.Short() })
			var b []byte
			var err error
			if v.K == ref.Nil {
				b, err = value.PackStruct(nil)
			} else {
				b, err = value.PackStruct(ref.Build(v, 0))
			}
			w.Trace()
			if err != nil || !bytes.Equal(b, v.Encode()) {
				w.Fail("gives %x %v", b, err)
			}
		}
	})
}

// veryWide: struct types with field counts on the boundaries of field numbers and headers.
func veryWide(c *kit.Ctx) {
	counts := []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1100}
	if c.Thorough() {
		counts = append(counts, 4097, 32767, 32769, 65535, 65537)
	}
	c.Bound("fields_of_very_wide_structs", counts)
	c.Par("very-wide", len(counts)*3, func(w *kit.W, i int) {
		n := counts[i/3]
		if n > 2000 && i%3 > 0 {
			return
		}
		kinds, tags := make([]int, n), make([]int, n)
		for k := range kinds {
			kinds[k] = []int{5 * nWraps, 1 * nWraps, 7*nWraps + wRepeated, 2 * nWraps, 8 * nWraps, 0, 1*nWraps + wSlice}[k%7]
			switch i % 3 {
			case 0:
				tags[k] = k
			case 1:
				tags[k] = n - 2*k
			default:
				tags[k] = k * 7919 % 100003
			}
		}
		t := structOf(kinds, tags)
		sets := []func(k int) bool{func(int) bool { return true }, func(k int) bool { return k%2 == 0 }, func(k int) bool { return k%2 == 1 }, func(k int) bool { return k == n-1 }, func(k int) bool { return k == n/2 }}
		for b := 1; b < n; b *= 2 {
			sets = append(sets, func(k int) bool { return k&b == 0 }, func(k int) bool { return k == b || k == 2*b-1 })
		}
		if n > 2000 {
			sets = sets[:4]
		}
		for si, set := range sets {
			p := reflect.New(t)
			for k := range kinds {
				if set(k) {
					fill(p.Elem().Field(k), kinds[k], 1+(k+si)%2, 0)
				}
			}
			w.NewState()
			w.Step(func() string { return fmt.Sprintf("struct of %d fields, tag order %d, subset %d", n, i%3, si) })
			roundTrip(w, p)
		}
	})
}

// ---------- C20 ----------

// unpackCase unpacks b into a fresh struct of type t and compares with the model.
func unpackCase(w *kit.W, t reflect.Type, b []byte, desc func() string) {
	w.NewState()
	text, used, st := modelUnpack(t, b)
	for _, cp := range []bool{true, false} {
		w.Step(func() string { return fmt.Sprintf("%s: unpacking %s (copy %v) into %v", desc(), hexs(b), cp, t) })
		in := append(make([]byte, 0, len(b)), b...)
		fresh := reflect.New(t)
		err := value.UnpackStruct(in, fresh.Interface(), cp)
		w.Trace()
		switch {
		case st == bad && err == nil:
			w.Fail("succeeds with %s", dump(fresh.Elem()))
		case st == good && used == len(b) && err != nil:
			w.Fail("fails: %v, the bytes say %s", err, text)
		case st == good && err == nil && dump(fresh.Elem()) != text:
			w.Fail("gives %s, the bytes say %s", dump(fresh.Elem()), text)
		}
	}
}

func structZoo() []reflect.Type {
	ts := []reflect.Type{typeOf[StInner](), typeOf[StNode](), typeOf[StPing](), typeOf[StPong](), typeOf[StNamed](), typeOf[StEmpty](), typeOf[StEmbedded](), typeOf[StBig]()}
	nk := len(fieldElems) * nWraps
	for k := 0; k < nk; k++ {
		ts = append(ts, structOf([]int{k}, []int{1}))
	}
	for k := 0; k < nk; k++ {
		ts = append(ts, structOf([]int{k, (k*5 + 7) % nk}, []int{2, 1}))
	}
	return ts
}

// mutants calls f with every truncation, every byte replaced by every other, and every byte removed or doubled.
func mutants(b []byte, full bool, f func(m []byte, what func() string)) {
	for i := 0; i < len(b); i++ {
		f(b[:i], func() string { return fmt.Sprintf("%s cut after %d bytes", hexs(b), i) })
		m := append(append([]byte(nil), b[:i]...), b[i+1:]...)
		f(m, func() string { return fmt.Sprintf("%s without byte %d", hexs(b), i) })
		m = append(append(append([]byte(nil), b[:i]...), b[i]), b[i:]...)
		f(m, func() string { return fmt.Sprintf("%s with byte %d doubled", hexs(b), i) })
		m = append([]byte(nil), b...)
		for x := 0; x < 256; x++ {
			if !full && bitsOf(byte(x)^b[i]) > 1 && x%16 != 0 && x < 0xc0 {
				continue
			}
			m[i] = byte(x)
			f(m, func() string { return fmt.Sprintf("%s with byte %d set to %02x", hexs(b), i, x) })
		}
	}
}

func bitsOf(b byte) (n int) {
	for ; b != 0; b &= b - 1 {
		n++
	}
	return
}

// populated are structs of type t with all fields set, in a few ways.
func populated(t reflect.Type, depth int) []reflect.Value {
	var out []reflect.Value
	for i := 1; i <= 3; i++ {
		p := reflect.New(t)
		populate(p.Elem(), i, depth)
		out = append(out, p)
	}
	return out
}

func populate(v reflect.Value, i, depth int) {
	for j := 0; j < v.NumField(); j++ {
		x := v.Field(j)
		et := x.Type()
		multi := et.Kind() == reflect.Slice || et.Kind() == reflect.Array
		if multi {
			et = et.Elem()
		}
		mk := func(k int) reflect.Value {
			if isStructPtr(et) {
				p := reflect.New(et.Elem())
				if depth > 0 {
					populate(p.Elem(), i+k, depth-1)
				}
				return p
			}
			for e, ft := range fieldElems {
				if ft == et {
					return elemValue(e, i+j+k, i%2)
				}
			}
			panic("unknown field type " + et.String())
		}
		if isStructPtr(et) && depth == 0 {
			continue
		}
		switch x.Kind() {
		case reflect.Slice:
			s := reflect.MakeSlice(x.Type(), 0, 2)
			for k := 0; k < i%3; k++ {
				s = reflect.Append(s, mk(k))
			}
			x.Set(s)
		case reflect.Array:
			for k := 0; k < x.Len(); k++ {
				x.Index(k).Set(mk(k))
			}
		default:
			x.Set(mk(0))
		}
	}
}

// C20: all mutations of encodings, all short byte strings and token sequences into every type;
// every unsupported target in every place.
func C20(c *kit.Ctx) {
	wrongNames(c)
	useOrders(c, []int{1, 2, 3, 4})
	zoo := structZoo()
	c.Bound("struct_types", len(zoo))
	c.Par("mutations", len(zoo)*3, func(w *kit.W, i int) {
		t := zoo[i/3]
		p := populated(t, 1)[i%3]
		b := modelPack(p.Elem())
		unpackCase(w, t, b, func() string { return "unchanged" })
		if len(b) > 400 && !c.Thorough() {
			b = b[:400]
		}
		mutants(b, len(b) < 40 || c.Thorough(), func(m []byte, what func() string) { unpackCase(w, t, m, what) })
	})
	if c.Thorough() {
		// two mutations of small encodings
		c.Par("double-mutations", len(zoo)*3, func(w *kit.W, i int) {
			t := zoo[i/3]
			p := populated(t, 0)[i%3]
			b := modelPack(p.Elem())
			if len(b) > 14 {
				b = b[:14]
			}
			mutants(b, false, func(m []byte, what func() string) {
				m = append([]byte(nil), m...)
				mutants(m, false, func(m2 []byte, what2 func() string) { unpackCase(w, t, m2, what2) })
			})
		})
	}
	maxLen := c.Pick(2, 3)
	c.Bound("byte_strings", fmt.Sprintf("all of up to %d bytes into every type", maxLen))
	c.Par("short-byte-strings", 257, func(w *kit.W, i int) {
		types := zoo
		no := func() string { return "short" }
		if i == 256 {
			for _, t := range types {
				unpackCase(w, t, nil, no)
			}
			return
		}
		b := []byte{byte(i)}
		for _, t := range types {
			unpackCase(w, t, b, no)
		}
		b = append(b, 0)
		for k := 0; k < 256; k++ {
			b[1] = byte(k)
			for _, t := range types {
				unpackCase(w, t, b, no)
			}
			if maxLen > 2 && b[0] >= 0x81 && b[0] < 0x84 && (k < 8 || k > 0xc0) {
				for m := 0; m < 256; m++ {
					bb := []byte{byte(i), byte(k), byte(m)}
					for _, t := range types {
						unpackCase(w, t, bb, no)
					}
				}
			}
		}
	})
	// many entries of a repeated field and something else among them
	kinds := []reflect.Type{structOf([]int{5*nWraps + wRepeated}, []int{1}), structOf([]int{7*nWraps + wRepeated, 0}, []int{1, 2}), structOf([]int{5*nWraps + wRepeated, 5*nWraps + wSlice}, []int{1, 2}), typeOf[StNode]()}
	good := [][]byte{{1, 0xa1, 'x'}, {1, 0x80}, {1, 0xa1, 'x'}, {5, 0x80}}
	odd := [][]byte{{9, 5}, {0xd1, 1, 1, 0xa1, 'x'}, {0xce, 1, 0, 0, 1, 0xa1, 'x'}, {0xa1, '1', 5}, {0xc0, 5}, {0xcb, 0x3f, 0xf0, 0, 0, 0, 0, 0, 0, 0xa1, 'x'}, {1, 0xc0}, {1, 5}, {5, 5}, {1, 0x90}, {1, 0x81, 9, 9}, {5, 0x81, 9, 9}, {0xc1}, {1, 0xc1}, {2, 5}, {2, 0x91, 5}, {2, 0x91, 0xa1, 'y'}, {}, {1}}
	lens := []int{15, 16, 17, 20, 255, 256, 257, 258, 300, 513, c.Pick(1030, 5000)}
	c.Bound("long_structs", fmt.Sprintf("%d lengths up to %d, %d odd entries at 8 places", len(lens), lens[len(lens)-1], len(odd)))
	c.Par("long-structs", len(kinds)*len(odd)*len(lens), func(w *kit.W, i int) {
		t, g, o, n := kinds[i%len(kinds)], good[i%len(kinds)], odd[i/len(kinds)%len(odd)], lens[len(lens)-1-i/len(kinds)/len(odd)]
		for _, p := range uniq([]int{0, n / 2, 15, 16, 254, 255, 256, n - 2, n - 1}) {
			if p < 0 || p >= n {
				continue
			}
			b := ref.EncMapHeader(nil, n)
			for k := 0; k < n; k++ {
				if k == p {
					b = append(b, o...)
				} else {
					b = append(b, g...)
				}
			}
			unpackCase(w, t, b, func() string { return fmt.Sprintf("%d entries, %x at place %d", n, o, p) })
		}
	})
	// every sequence of tokens up to a length: headers, tags, values of every kind
	toks := [][]byte{{0x80}, {0x81}, {0x82}, {0x83}, {0xde, 0, 1}, {0xdf, 0xff, 0xff, 0xff, 0xff}, {0x90}, {0x91}, {0x92}, {0xdd, 0xff, 0xff, 0xff, 0xff}, {1}, {2}, {9}, {0xd0, 1}, {0xcf, 0, 0, 0, 0, 0, 0, 0, 1}, {0xa1, '1'}, {0xc0}, {0xc3}, {0xcb, 0x3f, 0xf0, 0, 0, 0, 0, 0, 0},
		{0xc4, 1, 'r'}, {0xd5, 1, 2, 5}, {0xd4, 5, 'x'}, {0xc1}}
	depth := c.Pick(4, 5)
	small := []reflect.Type{typeOf[StInner](), typeOf[StNode](), structOf([]int{1*nWraps + wArray, 0}, []int{1, 2}), structOf([]int{7*nWraps + wRepeated, 5*nWraps + wSlice}, []int{2, 1}), structOf([]int{7*nWraps + wArray, 2}, []int{1, 2}), structOf([]int{5*nWraps + wRepeated, 6 * nWraps}, []int{1, 2})}
	c.Bound("token_sequences", fmt.Sprintf("all of up to %d of %d tokens (with one of %d first tokens) into %d types", depth+1, len(toks), 4, len(small)))
	c.Par("token-sequences", 4*len(toks)*len(small), func(w *kit.W, i int) {
		t := small[i%len(small)]
		first := toks[1+i/len(small)/len(toks)]
		var rec func(b []byte, left int)
		rec = func(b []byte, left int) {
			unpackCase(w, t, b, func() string { return "tokens" })
			if left == 0 {
				return
			}
			for _, k := range toks {
				rec(append(b[:len(b):len(b)], k...), left-1)
			}
		}
		rec(append(append([]byte(nil), first...), toks[i/len(small)%len(toks)]...), depth-2)
	})
	// every field of very wide types: values of every kind, alone and after another field
	widths := []int{17, 33, 65, 129, 257, 300, c.Pick(513, 4097)}
	c.Bound("wide_types", widths)
	pays := append(ref.SmallLeaves(), ref.VList(), ref.VList(stLong), ref.VMap(nil, nil), ref.VList(ref.VMap(nil, nil)))
	c.Par("wide-types", len(widths), func(w *kit.W, i int) {
		n := widths[i]
		kinds, tags := make([]int, n), make([]int, n)
		for k := range kinds {
			kinds[k], tags[k] = k*5%(len(fieldElems)*nWraps), k*7919%100003-20
		}
		t := structOf(kinds, tags)
		for k := 0; k < n; k++ {
			for pi, p := range pays {
				b := p.Enc(ref.EncInt([]byte{0x81}, int64(tags[k])))
				unpackCase(w, t, b, func() string { return fmt.Sprintf("field %d of %d", k, n) })
				if pi%4 == k%4 {
					o := (k*31 + 7) % n
					b[0] = 0x82
					b = pays[(k+pi)%len(pays)].Enc(ref.EncInt(b, int64(tags[o])))
					unpackCase(w, t, b, func() string { return fmt.Sprintf("fields %d and %d of %d", k, o, n) })
				}
			}
		}
	})
	tagNeighbours(c)
	unsupported(c)
	parseStructs(c)
}

// tagNeighbours: for tags of every size, bytes whose key is another number that only some bits tell from the tag,
// or the tag in another form.
func tagNeighbours(c *kit.Ctx) {
	tags := []int{0, 1, 2, 5, -1, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, -1 << 31, 1 << 32, 1<<32 + 1, 1<<53 + 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}
	kinds := []int{0*nWraps + wPlain, 1*nWraps + wPlain, 5*nWraps + wPlain, 7*nWraps + wPlain, 1*nWraps + wSlice, 5*nWraps + wRepeated, 7*nWraps + wArray, 7*nWraps + wRepeated}
	c.Bound("neighbouring_tags", "every tag of the list with every bit flipped, negated, one more and less, cut to 8, 16, 32 and 53 bits, in every integer format, and as double, big integer, decimal, text and blob")
	c.Par("neighbouring-tags", len(tags)*len(kinds), func(w *kit.W, i int) {
		tag, kind := tags[i/len(kinds)], kinds[i%len(kinds)]
		second := 7
		t := structOf([]int{kind, 1 * nWraps}, []int{tag, second})
		for _, p := range populated(structOf([]int{kind}, []int{tag}), 1) {
			b := modelPack(p.Elem())
			old := ref.EncInt(nil, int64(tag))
			if !bytes.HasPrefix(b[1:], old) {
				continue
			}
			rest := b[1+len(old):]
			try := func(key []byte, what string) {
				for _, more := range []bool{false, true} {
					m := append(append([]byte{b[0]}, key...), rest...)
					if more { // with the second field before it
						m = append(append(append([]byte{b[0] + 1}, byte(second), 9), key...), rest...)
					}
					unpackCase(w, t, m, func() string { return fmt.Sprintf("field with tag %d given as %s", tag, what) })
				}
			}
			ints := map[int64]bool{int64(tag): true, -int64(tag): true, int64(tag) + 1: true, int64(tag) - 1: true, ^int64(tag): true,
				int64(int8(tag)): true, int64(uint8(tag)): true, int64(int16(tag)): true, int64(uint16(tag)): true, int64(int32(tag)): true, int64(uint32(tag)): true, int64(float64(tag)): true}
			for k := 0; k < 64; k++ {
				ints[int64(tag)^1<<k] = true
			}
			for n := range ints {
				u := uint64(n)
				try(ref.EncInt(nil, n), fmt.Sprintf("integer %d", n))
				be := func(code byte, size int) []byte {
					k := []byte{code}
					for j := size - 1; j >= 0; j-- {
						k = append(k, byte(u>>(8*j)))
					}
					return k
				}
				for j, size := range []int{1, 2, 4, 8} {
					try(be(0xcc+byte(j), size), fmt.Sprintf("%d in %d unsigned bytes", n, size))
					try(be(0xd0+byte(j), size), fmt.Sprintf("%d in %d bytes", n, size))
				}
			}
			for _, v := range []*ref.V{ref.VDouble(float64(tag)), ref.VBig(big.NewInt(int64(tag))), ref.VDec(big.NewInt(int64(tag)), 0), ref.VDec(big.NewInt(int64(tag)), -1), ref.VUtf8(fmt.Sprint(tag)), ref.VRaw(fmt.Sprint(tag)), ref.VNull, ref.VTrue, ref.VList(ref.VLong(int64(tag))), ref.VExt(9, fmt.Sprint(tag))} {
				try(v.Encode(), v.Short())
			}
			f := float32(tag)
			u := math.Float32bits(f)
			try([]byte{0xca, byte(u >> 24), byte(u >> 16), byte(u >> 8), byte(u)}, "32 bit float")
		}
	})
}

type nonValue interface{ Foo() }

// unsupported targets must be refused by PackStruct and UnpackStruct, wherever they are and however often they are tried.
func unsupported(c *kit.Ctx) {
	vt := fieldElems[5]
	fld := func(name string, t reflect.Type, tag string) reflect.StructField {
		return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(tag)}
	}
	one := func(t reflect.Type) []reflect.StructField { return []reflect.StructField{fld("A", t, `tag:"1"`)} }
	tagged := func(tag string) []reflect.StructField { return []reflect.StructField{fld("A", vt, tag)} }
	type bt struct {
		name string
		fs   []reflect.StructField
	}
	var bads []bt
	for _, t := range []reflect.Type{typeOf[int](), typeOf[string](), typeOf[bool](), typeOf[float64](), typeOf[[]byte](), typeOf[[]int](), typeOf[[2]int](), typeOf[*int](), typeOf[[]*int](), typeOf[*string](),
		typeOf[map[string]value.Value](), typeOf[chan int](), typeOf[func()](), typeOf[interface{}](), typeOf[[]interface{}](), typeOf[error](), typeOf[fmt.Stringer](), typeOf[nonValue](), typeOf[StInner](), typeOf[[]StInner](), typeOf[[2]StInner](),
		typeOf[**StInner](), typeOf[[]**StInner](), typeOf[[][]value.Value](), typeOf[*[]value.Value](), typeOf[*value.Value](), typeOf[*value.Number](), typeOf[uintptr](), typeOf[complex128](), typeOf[value.Kind](), typeOf[struct{}](), typeOf[*map[string]int](), typeOf[[][]*StInner](), typeOf[value.ListItem](), typeOf[value.MapEntry](), typeOf[value.Updater](), typeOf[big.Int](), typeOf[*big.Int](),
		typeOf[otherBool](), typeOf[[]otherBool](), typeOf[[2]otherBool](), typeOf[otherString](), typeOf[[]otherList]()} {
		bads = append(bads, bt{"field of type " + t.String(), one(t)})
		if t.Kind() == reflect.Slice {
			bads = append(bads, bt{"repeated field of type " + t.String(), []reflect.StructField{fld("A", t, `tag:"1" repeated:"true"`)}})
		}
	}
	for _, t := range []reflect.Type{typeOf[[2]value.Value](), typeOf[[1]value.Number](), typeOf[[0]value.Value](), typeOf[[2]*StInner]()} {
		bads = append(bads, bt{"repeated field of type " + t.String(), []reflect.StructField{fld("A", t, `tag:"1" repeated:"true"`)}})
	}
	for _, tag := range []string{``, `json:"1"`, `tag:""`, `tag:"a"`, `tag:"1.5"`, `tag:"1x"`, `tag:" 1"`, `tag:"1 "`, `tag:"0x1"`, `tag:"1e3"`, `tag:"99999999999999999999"`, `tag:"-"`, `tag:"1,2"`, `tag: "1"`, `tags:"1"`, `repeated:"true"`} {
		bads = append(bads, bt{"tag `" + tag + "`", tagged(tag)})
	}
	for _, tp := range [][2]string{{"1", "1"}, {"01", "1"}, {"-2", "-2"}, {"0", "00"}, {"-0", "0"}} {
		bads = append(bads, bt{"tags " + tp[0] + " and " + tp[1], []reflect.StructField{fld("A", vt, `tag:"`+tp[0]+`"`), fld("B", fieldElems[0], `tag:"`+tp[1]+`"`)}})
		bads = append(bads, bt{"separated tags " + tp[0] + " and " + tp[1], []reflect.StructField{fld("A", vt, `tag:"`+tp[0]+`"`), fld("C", vt, `tag:"7"`), fld("B", reflect.SliceOf(vt), `tag:"`+tp[1]+`" repeated:"true"`)}})
	}
	refused := func(w *kit.W, what string, obj interface{}, tag int) {
		body := []byte{0x81, byte(tag), 0xc0}
		for _, b := range [][]byte{{0x80}, body, {0x81, byte(tag), 0x80}, {0x81, byte(tag), 0x91, 0x80}, {0xc0}, {0x81, 1, 1}, nil} {
			for _, cp := range []bool{true, false} {
				w.NewState()
				w.Step(func() string { return fmt.Sprintf("UnpackStruct of %x into %s", b, what) })
				err := value.UnpackStruct(b, obj, cp)
				w.Trace()
				if err == nil {
					w.Fail("succeeds")
				}
			}
		}
		w.NewState()
		w.Step(func() string { return "PackStruct of " + what })
		_, err := value.PackStruct(obj)
		w.Trace()
		if err == nil {
			w.Fail("succeeds")
		}
	}
	// wrappers put the bad struct type into other places
	places := []struct {
		name string
		mk   func(t reflect.Type) reflect.Type
	}{
		{"itself", func(t reflect.Type) reflect.Type { return t }},
		{"after a good field", nil},
		{"before a good field", nil},
		{"behind a pointer", func(t reflect.Type) reflect.Type { return reflect.StructOf(one(reflect.PtrTo(t))) }},
		{"in a slice", func(t reflect.Type) reflect.Type { return reflect.StructOf(one(reflect.SliceOf(reflect.PtrTo(t)))) }},
		{"in a repeated field", func(t reflect.Type) reflect.Type {
			return reflect.StructOf([]reflect.StructField{fld("A", reflect.SliceOf(reflect.PtrTo(t)), `tag:"1" repeated:"true"`)})
		}},
		{"in an array", func(t reflect.Type) reflect.Type {
			return reflect.StructOf(one(reflect.ArrayOf(2, reflect.PtrTo(t))))
		}},
		{"two levels down, after a good struct", func(t reflect.Type) reflect.Type {
			in := reflect.StructOf([]reflect.StructField{fld("G", typeOf[*StInner](), `tag:"1"`), fld("A", reflect.PtrTo(t), `tag:"2"`)})
			return reflect.StructOf([]reflect.StructField{fld("G", typeOf[*StNode](), `tag:"3"`), fld("A", reflect.PtrTo(in), `tag:"1"`)})
		}},
	}
	c.Bound("unsupported_types", fmt.Sprintf("%d kinds of types in %d places, each tried twice", len(bads), len(places)))
	c.Par("unsupported-types", len(bads)*len(places), func(w *kit.W, i int) {
		b, pl := bads[i/len(places)], places[i%len(places)]
		var t reflect.Type
		fs := append([]reflect.StructField(nil), b.fs...)
		switch pl.name {
		case "after a good field":
			t = reflect.StructOf(append([]reflect.StructField{fld("Z", vt, `tag:"50"`)}, fs...))
		case "before a good field":
			t = reflect.StructOf(append(fs, fld("Z", vt, `tag:"50"`)))
		default:
			t = pl.mk(reflect.StructOf(fs))
		}
		for round := 0; round < 2; round++ {
			refused(w, fmt.Sprintf("a struct with %s, %s (try %d)", b.name, pl.name, round+1), reflect.New(t).Interface(), 1)
		}
		// the good types it mentions still work
		for _, g := range []interface{}{&StInner{A: value.True}, &StNode{Val: value.True, Left: &StNode{}}} {
			w.Step(func() string { return fmt.Sprintf("%T after %s", g, b.name) })
			roundTrip(w, reflect.ValueOf(g))
		}
	})
	c.Par("unsupported-targets", 1, func(w *kit.W, _ int) {
		var np *StInner
		var nn *int
		var pp **StInner
		in := &StInner{}
		i := 5
		s := "s"
		sl := []value.Value{value.True}
		m := map[string]value.Value{}
		var e error
		objs := map[string]interface{}{"a struct": StInner{}, "an int": 5, "a pointer to an int": &i, "a string": "s", "a pointer to a string": &s, "a slice": sl, "a pointer to a slice": &sl, "a map": m, "a pointer to a map": &m,
			"a nil struct pointer": np, "a nil int pointer": nn, "a nil pointer to a pointer": pp, "a pointer to a pointer": &in, "a pointer to an interface": &e, "a function": func() {}, "a channel": make(chan int), "an array": [1]*StInner{in}, "a pointer to an array": &[1]*StInner{in},
			"an interface pointer": new(interface{}), "a bool": true, "a byte slice": []byte{1}, "a pointer to a byte slice": &[]byte{1}}
		for name, o := range objs {
			for k := 0; k < 2; k++ {
				refused(w, name, o, 1)
			}
		}
		w.Step(func() string { return "UnpackStruct into nil" })
		if value.UnpackStruct([]byte{0x80}, nil, true) == nil {
			w.Fail("succeeds")
		}
		// unexported fields
		type hidden struct {
			a value.Value `tag:"1"`
			B value.Value `tag:"2"`
		}
		refused(w, "a struct with an unexported field", &hidden{}, 1)
		refused(w, "a struct with a set unexported field", &hidden{a: value.True}, 1)
		// nil elements of slices of structs
		for _, x := range []interface{}{&StBig{J: []*StInner{nil}}, &StBig{K: []*StInner{{}, nil}}, &StNode{Kids: []*StNode{nil, {}}}, &StNode{Left: &StNode{Rep: []*StNode{nil}}}} {
			w.NewState()
			w.Step(func() string { return fmt.Sprintf("PackStruct of %T with nil elements", x) })
			_, err := value.PackStruct(x)
			w.Trace()
			if err == nil {
				w.Fail("succeeds")
			}
		}
	})
}
