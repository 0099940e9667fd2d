//go:build c23

package main

import (
	"bytes"
	"crypto"
	_ "crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"sort"
	"strings"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
	"golang.org/x/crypto/nacl/box"
	"verif/mc/ref"
)

type group struct {
	name      string
	scenarios func() []scenario
}

type zero byte

func (z zero) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(z) + byte(i)
	}
	return len(p), nil
}

var pubA, privA, _ = box.GenerateKey(zero(1))
var pubB, privB, _ = box.GenerateKey(zero(2))

func pair(x any, err error) any {
	if err != nil {
		return err
	}
	return x
}

type updater struct{}

func (updater) Update(value.Value) value.Value { return value.Long(99) }

var other = ref.VMap([]string{"x"}, []*ref.V{ref.VLong(1)})

// commonOps apply to every value.
func commonOps() []op {
	v := func(f func(x value.Value) any) func(any) any { return func(s any) any { return f(s.(value.Value)) } }
	return []op{
		{"Pack", v(func(x value.Value) any { return pair(value.Pack(x)) })},
		{"MarshalBinary", v(func(x value.Value) any { return pair(x.MarshalBinary()) })},
		{"String", v(func(x value.Value) any { return x.String() })},
		{"MarshalJSON", v(func(x value.Value) any { return pair(x.MarshalJSON()) })},
		{"Hex", v(func(x value.Value) any { return value.Hex(x) })},
		{"PrintJSON", v(func(x value.Value) any {
			var b strings.Builder
			x.PrintJSON(&b)
			return b.String()
		})},
		{"Jsonify", v(func(x value.Value) any { return value.Jsonify(x) })},
		{"Hash", v(func(x value.Value) any {
			d, h, err := value.Hash(x, crypto.SHA256)
			return []any{d, h, err}
		})},
		{"Write", v(func(x value.Value) any {
			var b bytes.Buffer
			err := value.Write(&b, x)
			return []any{b.Bytes(), err}
		})},
		{"Equal", v(func(x value.Value) any {
			return fmt.Sprint(x.Equal(x), value.Equal(x, value.Long(3)), value.Equal(value.Utf8("b"), x))
		})},
		{"Object", v(func(x value.Value) any { return fmt.Sprintf("%v %v %T", x.Kind(), x.Class(), x.Object()) })},
	}
}

func entriesText(es []value.MapEntry) string {
	var b strings.Builder
	for _, e := range es {
		fmt.Fprintf(&b, "%s=%s,", e.Key(), canon(e.Value()))
	}
	return b.String()
}

func listOps() []op {
	l := func(f func(x value.List) any) func(any) any { return func(s any) any { return f(s.(value.List)) } }
	two := func() []value.Value { return []value.Value{value.Long(7), value.Utf8("new")} }
	return append(commonOps(), []op{
		{"views", l(func(x value.List) any {
			es, is, vs := x.Entries(), x.Items(), x.Values()
			return func() string {
				var b strings.Builder
				for _, i := range is {
					fmt.Fprintf(&b, "%d=%s,", i.Key(), canon(i.Value()))
				}
				return entriesText(es) + b.String() + canon(vs)
			}
		})},
		{"getters", l(func(x value.List) any {
			var out []any
			for i := 0; i < 3; i++ {
				out = append(out, x.GetAt(i), x.GetBoolAt(i), x.GetNumberAt(i), x.GetStringAt(i), x.GetListAt(i), x.GetMapAt(i), x.Select(i))
			}
			return append(out, x.Len())
		})},
		{"Append", l(func(x value.List) any { return x.Append(value.Utf8("tail")) })},
		{"Append twice", l(func(x value.List) any { return x.Append(value.Long(1)).Append(value.Long(2)) })},
		{"PutAt", l(func(x value.List) any { return x.PutAt(1, value.Utf8("put")) })},
		{"PutAt beyond", l(func(x value.List) any { return x.PutAt(6, value.Utf8("far")) })},
		{"InsertAt", l(func(x value.List) any { return x.InsertAt(1, value.Utf8("ins")) })},
		{"InsertAll", l(func(x value.List) any { return x.InsertAll(1, two()) })},
		{"RemoveAt", l(func(x value.List) any { return x.RemoveAt(0) })},
		{"DeleteAll", l(func(x value.List) any { return x.DeleteAll(1) })},
		{"UpdateAt", l(func(x value.List) any { return x.UpdateAt(0, updater{}) })},
		{"update items", l(func(x value.List) any {
			n := 0
			for _, i := range x.Items() {
				if i.Update(updater{}) {
					n++
				}
			}
			for _, e := range x.Entries() {
				if e.Update(updater{}) {
					n++
				}
			}
			return n
		})},
	}...)
}

func mapOps() []op {
	m := func(f func(x value.Map) any) func(any) any { return func(s any) any { return f(s.(value.Map)) } }
	return append(commonOps(), []op{
		{"views", m(func(x value.Map) any {
			es, vs, ks, hm := x.Entries(), x.Values(), x.Keys(), x.HashMap()
			return func() string {
				var hk []string
				for k, v := range hm {
					hk = append(hk, k+"="+canon(v))
				}
				sort.Strings(hk)
				return entriesText(es) + canon(vs) + strings.Join(ks, ",") + strings.Join(hk, ",")
			}
		})},
		{"getters", m(func(x value.Map) any {
			var out []any
			for _, k := range []string{"a", "b", "zz"} {
				out = append(out, x.Get(k), x.GetBool(k), x.GetNumber(k), x.GetString(k), x.GetList(k), x.GetMap(k), x.Select(k))
			}
			return append(out, x.Len())
		})},
		{"Put", m(func(x value.Map) any { return x.Put("b", value.Utf8("put")) })},
		{"Put new", m(func(x value.Map) any { return x.Put("zz", value.Utf8("new")) })},
		{"Put twice", m(func(x value.Map) any { return x.Put("zz", value.Long(1)).Put("zzz", value.Long(2)) })},
		{"Insert", m(func(x value.Map) any { return x.Insert("b", value.Utf8("ins")) })},
		{"InsertAll", m(func(x value.Map) any { return x.InsertAll("b", []value.Value{value.Long(7), value.Long(8)}) })},
		{"Remove", m(func(x value.Map) any { return x.Remove("a") })},
		{"DeleteAll", m(func(x value.Map) any { return x.DeleteAll("b") })},
		{"ImmutableMapCopyOf", m(func(x value.Map) any { return value.ImmutableMapCopyOf(x) })},
		{"SortedMapCopyOf", m(func(x value.Map) any {
			c := value.SortedMapCopyOf(x)
			c.Update("a", updater{})
			return c
		})},
		{"Update", m(func(x value.Map) any {
			n := 0
			for _, e := range x.Entries() {
				if e.Update(updater{}) {
					n++
				}
			}
			return []any{x.Update("a", updater{}), n}
		})},
	}...)
}

func numberOps() []op {
	n := func(f func(x value.Number) any) func(any) any { return func(s any) any { return f(s.(value.Number)) } }
	ops := append(commonOps(), []op{
		{"conversions", n(func(x value.Number) any {
			return fmt.Sprint(x.Type(), x.IsNaN(), x.Long(), x.Double(), x.BigInt(), x.Decimal())
		})},
	}...)
	big1, _ := new(big.Int).SetString("98765432109876543210", 10)
	for _, o := range []value.Number{value.Long(5), value.Double(1.5), value.BigInt(big1), value.ParseNumber("12.5")} {
		o := o
		t := o.Type().String()
		ops = append(ops, op{"Add " + t, n(func(x value.Number) any { return x.Add(o) })},
			op{"Subtract " + t, n(func(x value.Number) any { return x.Subtract(o) })},
			op{"Equal " + t, n(func(x value.Number) any { return fmt.Sprint(x.Equal(o), o.Equal(x)) })})
	}
	ops = append(ops, op{"Add itself", n(func(x value.Number) any { return x.Add(x) })}, op{"Subtract itself", n(func(x value.Number) any { return x.Subtract(x) })})
	return ops
}

func boolOps() []op {
	b := func(f func(x value.Bool) any) func(any) any { return func(s any) any { return f(s.(value.Bool)) } }
	return append(commonOps(), op{"Boolean", b(func(x value.Bool) any {
		return fmt.Sprint(x.Boolean(), x.Equal(value.True), value.False.Equal(x))
	})})
}

func extOps() []op {
	e := func(f func(x value.Extension) any) func(any) any {
		return func(s any) any { return f(s.(value.Extension)) }
	}
	return append(commonOps(), op{"parts", e(func(x value.Extension) any { return fmt.Sprint(x.Native(), x.String()) })},
		op{"number of it", e(func(x value.Extension) any { return fmt.Sprint(x.Equal(value.Unknown([]byte("\x4ddata")))) })})
}

func stringOps() []op {
	s := func(f func(x value.String) any) func(any) any { return func(s any) any { return f(s.(value.String)) } }
	return append(commonOps(), []op{
		{"parts", s(func(x value.String) any {
			return fmt.Sprint(x.Type(), x.Len(), x.Utf8(), len(x.Raw()), value.ParseString(x.String()))
		})},
		{"Equal string", s(func(x value.String) any {
			return fmt.Sprint(x.Equal(value.Raw([]byte("abc"), false)), x.Equal(value.Utf8("abc")))
		})},
		{"list of it", s(func(x value.String) any { return value.Tuple(x, x) })},
	}...)
}

type shared struct {
	name  string
	v     *ref.V
	build func() value.Value
	ops   []op
}

// sharedValues are immutable or decoded values of all kinds.
func sharedValues() []shared {
	big1, _ := new(big.Int).SetString("12345678901234567890123", 10)
	list := ref.VList(ref.VLong(300), ref.VUtf8("7"), ref.VRaw("xyz"))
	nested := ref.VList(ref.VMap([]string{"a"}, []*ref.V{ref.VTrue}), ref.VList(ref.VDouble(1.5)), ref.VDec(big.NewInt(125), -1))
	mapv := ref.VMap([]string{"a", "b", "b"}, []*ref.V{ref.VLong(1), ref.VUtf8("v"), ref.VBig(big1)})
	nestedMap := ref.VMap([]string{"a", "b"}, []*ref.V{ref.VList(ref.VNull, ref.VLong(2)), ref.VMap([]string{"c"}, []*ref.V{ref.VExt(9, "e")})})
	sparse := ref.VSparse([]int{0, 1, 1, 4}, []*ref.V{ref.VLong(1), ref.VUtf8("v"), ref.VRaw("r"), ref.VNull})
	build := func(v *ref.V, f int) func() value.Value { return func() value.Value { return ref.Build(v, f) } }
	slow := func(v *ref.V, f int) func() value.Value {
		return func() value.Value {
			value.AllowFastAppends = false
			return ref.Build(v, f)
		}
	}
	lo, mo, no, so, co := listOps(), mapOps(), numberOps(), stringOps(), commonOps()
	return []shared{
		{"immutable list", list, build(list, ref.FImmutable), lo},
		{"immutable list grown by appends", list, build(list, ref.FImmOps), lo},
		{"decoded list", list, build(list, ref.FDecoded), lo},
		{"nested immutable list", nested, build(nested, ref.FImmutable), lo},
		{"nested decoded list", nested, build(nested, ref.FDecoded), lo},
		{"empty immutable list", ref.VList(), build(ref.VList(), ref.FImmutable), lo},
		{"immutable map", mapv, build(mapv, ref.FImmutable), mo},
		{"immutable map grown by inserts", mapv, build(mapv, ref.FImmOps), mo},
		{"decoded map", mapv, build(mapv, ref.FDecoded), mo},
		{"nested immutable map", nestedMap, build(nestedMap, ref.FImmutable), mo},
		{"nested decoded map", nestedMap, build(nestedMap, ref.FDecoded), mo},
		{"empty immutable map", ref.VMap(nil, nil), build(ref.VMap(nil, nil), ref.FImmutable), mo},
		{"immutable map from a hash map", ref.VMap([]string{"a"}, []*ref.V{ref.VLong(1)}), func() value.Value {
			return value.ImmutableMapOf(map[string]value.Value{"a": value.Long(1)})
		}, mo},
		{"immutable list with holes", ref.VList(ref.VNull, ref.VLong(1), ref.VNull), func() value.Value {
			return value.ImmutableList([]value.Value{nil, value.Long(1)}).PutAt(3, value.ImmutableList([]value.Value{nil}))
		}, lo},
		{"immutable map with nil values", mapv, func() value.Value {
			return value.ImmutableMap([]value.MapEntry{value.ImmutableEntry("a", nil), value.ImmutableEntry("b", value.ImmutableList([]value.Value{nil}))}, true)
		}, mo},
		{"sparse list with nil values", sparse, func() value.Value {
			value.AllowFastAppends = false
			return value.SparseList([]value.ListItem{value.ImmutableItem(0, nil), value.ImmutableItem(1, value.Long(2))}, true)
		}, lo},
		{"decoded sparse list", sparse, build(sparse, ref.FDecoded), lo},
		{"sparse list without fast appends", sparse, slow(sparse, ref.FImmutable), lo},
		{"sparse list grown without fast appends", sparse, slow(sparse, ref.FImmOps), noUpdates(lo)}, // its items can be updated in place
		{"long", ref.VLong(-70000), build(ref.VLong(-70000), 0), no},
		{"double", ref.VDouble(2.25), build(ref.VDouble(2.25), 0), no},
		{"big integer", ref.VBig(big1), build(ref.VBig(big1), 0), no},
		{"negative decoded big integer", ref.VBig(new(big.Int).Neg(big1)), func() value.Value {
			x, _ := value.Unpack(ref.VBig(new(big.Int).Neg(big1)).Encode(), true)
			return x
		}, no},
		{"decimal", ref.VDec(big.NewInt(-12345), -2), build(ref.VDec(big.NewInt(-12345), -2), 0), no},
		{"decimal with positive exponent", ref.VDec(big.NewInt(12), 3), build(ref.VDec(big.NewInt(12), 3), 0), no},
		{"text", ref.VUtf8("abc\n"), build(ref.VUtf8("abc\n"), 0), so},
		{"blob", ref.VRaw("abc"), build(ref.VRaw("abc"), 0), so},
		{"decoded blob", ref.VRaw("abc"), func() value.Value { x, _ := value.Unpack(ref.VRaw("abc").Encode(), true); return x }, so},
		{"extension", ref.VExt(77, "data"), build(ref.VExt(77, "data"), 0), extOps()},
		{"boolean", ref.VTrue, build(ref.VTrue, 0), boolOps()},
		{"parsed boolean", ref.VFalse, func() value.Value { return value.ParseBoolean("f") }, boolOps()},
		{"null", ref.VNull, build(ref.VNull, 0), co},
	}
}

// wideValues are explored without preemptions: races are found without them.
func wideValues() []shared {
	var es []*ref.V
	var keys []string
	var ixs []int
	for i := 0; i < 70; i++ {
		es = append(es, []*ref.V{ref.VLong(int64(i * 1000)), ref.VUtf8(strings.Repeat("t", i)), ref.VNull, ref.VMap([]string{"x"}, []*ref.V{ref.VTrue})}[i%4])
		keys = append(keys, fmt.Sprintf("key%02d", i-i%3))
		ixs = append(ixs, i-i%3)
	}
	list, mapv, sparse := ref.VList(es...), ref.VMap(keys, es), ref.VSparse(ixs, es)
	lo, mo, so := listOps(), mapOps(), stringOps()
	build := func(v *ref.V, f int) func() value.Value {
		return func() value.Value {
			value.AllowFastAppends = false
			return ref.Build(v, f)
		}
	}
	return []shared{
		{"wide immutable list", list, build(list, ref.FImmutable), lo},
		{"wide decoded list", list, build(list, ref.FDecoded), lo},
		{"wide immutable map", mapv, build(mapv, ref.FImmutable), mo},
		{"wide decoded map", mapv, build(mapv, ref.FDecoded), mo},
		{"wide sparse list", sparse, build(sparse, ref.FImmutable), lo},
		{"wide decoded sparse list", sparse, build(sparse, ref.FDecoded), lo},
		{"long text", ref.VUtf8(strings.Repeat("long \"text\"", 600)), build(ref.VUtf8(strings.Repeat("long \"text\"", 600)), 0), so},
		{"long blob", ref.VRaw(strings.Repeat("blob", 600)), build(ref.VRaw(strings.Repeat("blob", 600)), ref.FDecoded), so},
	}
}

func noUpdates(ops []op) []op {
	var out []op
	for _, o := range ops {
		if !strings.Contains(strings.ToLower(o.name), "update") {
			out = append(out, o)
		}
	}
	return out
}

func observeValue(s any) string { return canon(s) }

func pairScenarios(sh shared, bound int) []scenario {
	var out []scenario
	for i, a := range sh.ops {
		for _, b := range sh.ops[i:] {
			out = append(out, scenario{
				name:  fmt.Sprintf("%s: %s || %s", sh.name, a.name, b.name),
				setup: func() any { return sh.build() }, ops: []op{a, b}, bound: bound, observe: observeValue,
			})
		}
	}
	return out
}

// independent calls that share nothing but the package.
func independentOps() []op {
	n := func(f func() any) func(any) any { return func(any) any { return f() } }
	v1 := ref.VMap([]string{"a", "k"}, []*ref.V{ref.VList(ref.VLong(1), ref.VRaw("0123456789abcdef")), ref.VExt(7, "wxyz")})
	v2 := ref.VList(ref.VUtf8("some text that is longer than thirty-two"), ref.VLong(-70000), ref.VBig(big.NewInt(1<<40)), ref.VDec(big.NewInt(77), -1), ref.VNull)
	v3 := ref.VSparse([]int{-1, 300}, []*ref.V{ref.VTrue, ref.VDouble(0.5)})
	var ops []op
	for k, v := range []*ref.V{v1, v2, v3} {
		k, enc := k, v.Encode()
		ops = append(ops,
			op{fmt.Sprintf("Unpack %d", k), n(func() any { return pair(value.Unpack(append([]byte(nil), enc...), k%2 == 0)) })},
			op{fmt.Sprintf("Read %d", k), n(func() any {
				return pair(value.Read(struct{ io.Reader }{bytes.NewReader(append([]byte(nil), enc...))}))
			})},
			op{fmt.Sprintf("Read bytes %d", k), n(func() any { return pair(value.Read(bytes.NewReader(append([]byte(nil), enc...)))) })},
			op{fmt.Sprintf("ReadStream %d", k), n(func() any {
				out := make(chan value.Value, 4)
				err := value.ReadStream(bytes.NewReader(append(append([]byte(nil), enc...), 0xc3)), out)
				var vs []value.Value
				for x := range out {
					vs = append(vs, x)
				}
				return []any{vs, err}
			})},
			op{fmt.Sprintf("Unpack, derive and Pack %d", k), n(func() any {
				x, err := value.Unpack(append([]byte(nil), enc...), true)
				if err != nil {
					return err
				}
				switch c := x.(type) {
				case value.List:
					x = c.Append(value.Long(int64(k)))
				case value.Map:
					x = c.Put("new", value.Long(int64(k)))
				}
				return pair(value.Pack(x))
			})},
			op{fmt.Sprintf("WriteStream %d", k), n(func() any {
				x, _ := value.Unpack(append([]byte(nil), enc...), true)
				c := make(chan value.Value, 3)
				c <- x
				c <- nil
				c <- x
				close(c)
				var b bytes.Buffer
				err := value.WriteStream(&b, c)
				return []any{b.Bytes(), err}
			})},
			op{fmt.Sprintf("Seal and Unseal %d", k), n(func() any {
				x, _ := value.Unpack(append([]byte(nil), enc...), true)
				b, err := value.Seal(x, pubB, privA)
				if err != nil {
					return err
				}
				id := string(b)
				return uniq{id, pair(value.Unseal(b, pubA, privB))}
			})},
		)
	}
	ops = append(ops,
		op{"truncated Unpack", n(func() any { e := v1.Encode(); return pair(value.Unpack(e[:len(e)-1], true)) })},
		op{"Packer", n(func() any {
			var b bytes.Buffer
			p := value.MessagePacker(&b)
			p.PackNil()
			p.PackBool(true)
			p.PackLong(-1 << 40)
			p.PackDouble(1.25)
			p.PackStr("text")
			p.PackBin([]byte("blob"))
			p.PackExt(9, []byte("data"))
			p.PackList(40)
			p.PackMap(20)
			return []any{b.Bytes(), p.Error()}
		})},
		op{"other Packer", n(func() any {
			var b bytes.Buffer
			p := value.MessagePacker(&b)
			p.PackMap(70000)
			p.PackList(2)
			p.PackExt(3, []byte("z"))
			p.PackBin(nil)
			p.PackStr("a text of more than thirty-two bytes length")
			p.PackDouble(-3)
			p.PackLong(1 << 33)
			p.PackBool(false)
			return []any{b.Bytes(), p.Error()}
		})},
		op{"Unpacker and Parser", n(func() any {
			u, p := value.MessageUnpacker([]byte{0x93, 0xcd, 1, 2, 0xa2, 'h', 'i', 0xd4, 5, 6}, true), value.MessageParser()
			_, h := u.Next()
			c := p.ParseList(h)
			_, h = u.Next()
			l := p.ParseLong(h)
			_, h = u.Next()
			s, err := u.Read(p.ParseStr(h))
			f, h := u.Next()
			e, d := p.ParseExt(h)
			return fmt.Sprint(c, l, string(s), err, f, e, d, p.Error())
		})},
		op{"ParseNumber", n(func() any {
			return []any{value.ParseNumber("123"), value.ParseNumber("-0x1fffffffffffffffff"), value.ParseNumber("12.75"), value.ParseNumber("0x12x3"), value.ParseNumber("nonsense")}
		})},
		op{"other ParseNumber", n(func() any {
			return []any{value.ParseNumber("99999999999999999999"), value.ParseNumber("0xff"), value.ParseNumber("1e5"), value.ParseNumber("-0x5x-2"), value.ParseNumber("")}
		})},
		op{"ParseString", n(func() any {
			return []any{value.ParseString("base64,YWJj"), value.ParseString("text"), value.ParseBoolean("true"), value.ParseBoolean("f")}
		})},
		op{"build containers", n(func() any {
			l := value.EmptyMutableList().Append(value.Long(1)).InsertAt(0, value.Utf8("x")).PutAt(3, value.True)
			m := value.EmptyMutableMap().Put("b", l).Insert("a", value.Null).Put("b", value.Long(4))
			s := value.EmptySparseList().PutAt(4, m).Append(value.Long(2)).InsertAt(4, value.Long(3))
			return []any{l, m, s}
		})},
		op{"build immutable containers", n(func() any {
			l := value.EmptyImmutableList().Append(value.Long(1)).InsertAt(0, value.Utf8("x")).PutAt(3, value.True)
			m := value.EmptyImmutableMap().Put("b", l).Insert("a", value.Null).Put("b", value.Long(4))
			return []any{l, m, value.Tuple(l, m), value.Single(m), value.SparseListOf([]value.Value{l, m})}
		})},
		op{"small constructors", n(func() any {
			return []any{value.Boolean(true), value.Boolean(false), value.Nil(), value.ParseNull("null"), value.Str("text"), value.Stringf("%d-%s", 7, "x"),
				value.Unknown([]byte("\x07ext")), value.Decimal(decimal.New(125, -1)), value.BigInt(big.NewInt(77)), value.ImmutableItem(1, value.True).Value(),
				value.MutableItem(2, value.Null).Value(), value.MutableEntry("k", value.True).Value()}
		})},
		op{"containers of slices and maps", n(func() any {
			src := map[string]value.Value{"b": value.Long(1), "a": value.Utf8("x"), "c": value.Null}
			vs := []value.Value{value.Long(5), value.Null, value.True}
			return []any{value.SortedMapOf(src), value.ImmutableMapOf(src), value.MutableList(vs), value.CopyOf(vs), value.ImmutableList(value.CopyOf(vs)),
				value.SortedMap([]value.MapEntry{value.MutableEntry("z", value.Long(1)), value.MutableEntry("y", value.Long(2))}, false),
				value.SparseList([]value.ListItem{value.MutableItem(4, value.Long(1)), value.MutableItem(-2, value.Long(2))}, false)}
		})},
		op{"payloads", n(func() any {
			a, e1 := value.UnpackBigInt([]byte{0x80, 1, 2, 3})
			d, e2 := value.UnpackDecimal([]byte{0xff, 0xff, 0xff, 0xf9, 2, 9, 9})
			_, e3 := value.UnpackDecimal([]byte{1})
			return fmt.Sprint(a, e1, d.Exponent(), d.Coefficient(), e2, e3 != nil)
		})},
		op{"Parse from a reader", n(func() any {
			r, p := value.MessageReader(bytes.NewReader(append(v2.Encode(), 0xa1, 'q', 0xcb, 0x40, 9, 0, 0, 0, 0, 0, 0))), value.MessageParser()
			var out []any
			for k := 0; k < 4; k++ {
				out = append(out, pair(value.Parse(r, p)))
			}
			return out
		})},
		op{"Parse from a buffer", n(func() any {
			r, p := value.MessageUnpacker(append(v3.Encode(), 0xc0, 0xc3, 0xcb, 0x40, 9, 0, 0, 0, 0, 0, 0), true), value.MessageParser()
			var out []any
			for k := 0; k < 4; k++ {
				out = append(out, pair(value.Parse(r, p)))
			}
			return out
		})},
		op{"every header parsed", n(func() any {
			r, p := value.MessageReader(bytes.NewReader([]byte{0xc3, 0xcb, 0x40, 9, 0, 0, 0, 0, 0, 0, 0x82, 0xde, 0, 9, 0xc4, 2, 'h', 'i', 0xcd, 1, 2})), value.MessageParser()
			_, h := r.Next()
			b := p.ParseBool(h)
			_, h = r.Next()
			d := p.ParseDouble(h)
			_, h = r.Next()
			m := p.ParseMap(h)
			_, h = r.Next()
			w := p.ParseMap(h)
			_, h = r.Next()
			s, err := r.Read(p.ParseBin(h))
			_, h = r.Next()
			return fmt.Sprint(b, d, m, w, string(s), err, p.ParseLong(h), p.Error())
		})},
		op{"raw packing", n(func() any {
			var b bytes.Buffer
			p := value.MessagePacker(&b)
			p.PackRaw([]byte("some raw bytes"))
			p.PackRaw(nil)
			p.PackLong(300)
			return []any{b.Bytes(), p.Error()}
		})},
		op{"equality of nothing", n(func() any {
			return fmt.Sprint(value.Equal(nil, nil), value.Equal(nil, value.Null), value.Equal(value.Null, nil), value.Equal(value.Long(1), nil), value.Hex(nil), value.Jsonify(nil))
		})},
		op{"getters of empty containers", n(func() any {
			l, m := value.EmptyList(true), value.EmptyMap(true)
			return []any{l.GetListAt(0), l.GetMapAt(0), m.GetList("a"), m.GetMap("a"), l.GetNumberAt(0), m.GetString("a"), m.GetBool("b"),
				l.GetListAt(0).Append(value.Long(1)), m.GetMap("q").Put("x", value.Long(2)), value.EmptySparseList().Append(value.Long(3))}
		})},
	)
	return ops
}

func none(any) string { return "" }

func groups(thorough bool) []group {
	var gs []group
	add := func(name string, f func() []scenario) { gs = append(gs, group{name, f}) }
	ind := independentOps()
	independent := func(name string, a op, others []op) {
		add(name, func() []scenario {
			var out []scenario
			for _, b := range others {
				out = append(out, scenario{name: a.name + " || " + b.name, setup: func() any { return nil }, ops: []op{a, b}, bound: 1, observe: none})
			}
			return out
		})
	}
	// the slow ones first, in small groups
	for i, a := range ind {
		if !strings.HasPrefix(a.name, "Seal") {
			continue
		}
		for k := 0; k < len(ind); k += 4 {
			var others []op
			for j := k; j < k+4 && j < len(ind); j++ {
				if j >= i || !strings.HasPrefix(ind[j].name, "Seal") {
					others = append(others, ind[j])
				}
			}
			if len(others) > 0 {
				independent(fmt.Sprintf("independent %s with %d-", a.name, k), a, others)
			}
		}
	}
	for i, a := range ind {
		var others []op
		for _, b := range ind[i:] {
			if !strings.HasPrefix(a.name, "Seal") && !strings.HasPrefix(b.name, "Seal") {
				others = append(others, b)
			}
		}
		if len(others) > 0 {
			independent("independent "+a.name, a, others)
		}
	}
	for _, sh := range sharedValues() {
		sh := sh
		add("shared "+sh.name, func() []scenario { return pairScenarios(sh, 1) })
	}
	for _, sh := range wideValues() {
		sh := sh
		add("shared "+sh.name, func() []scenario { return pairScenarios(sh, 0) })
	}
	gs = append(gs, structGroups(thorough)...)
	// three threads
	for _, sh := range sharedValues() {
		sh := sh
		if !strings.Contains(sh.name, "list") && !strings.Contains(sh.name, "map") && !thorough {
			continue
		}
		add("three threads on "+sh.name, func() []scenario {
			var out []scenario
			n := len(sh.ops)
			for i := 0; i < n; i++ {
				ops := []op{sh.ops[i], sh.ops[(i+n/3)%n], sh.ops[(i+2*n/3)%n]}
				out = append(out, scenario{name: fmt.Sprintf("%s: %s || %s || %s", sh.name, ops[0].name, ops[1].name, ops[2].name),
					setup: func() any { return sh.build() }, ops: ops, bound: 1, observe: observeValue})
			}
			return out
		})
	}
	if thorough {
		for _, sh := range sharedValues() {
			sh := sh
			add("two preemptions on "+sh.name, func() []scenario { return pairScenarios(sh, 2) })
		}
	}
	return gs
}
