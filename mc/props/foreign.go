package props

import (
	"bytes"
	"crypto"
	_ "crypto/sha256"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

func init() { All["C27"] = C27 }

// ---------- C27: other implementations of the interfaces ----------

// Values of types the library does not know, behaving like its own.
type (
	otherBool struct {
		value.Bool
		own bool // has a class of its own
	}
	otherNumber struct {
		value.Number
		own bool
	}
	ownString   = value.String
	otherString struct {
		ownString
		own bool
	}
	otherExt struct {
		value.Extension
		own bool
	}
	otherList struct {
		value.List
		own bool
	}
	otherMap struct {
		value.Map
		own bool
	}
)

func classOf(x, inner value.Value, own bool) reflect.Type {
	if own {
		return reflect.TypeOf(x)
	}
	return inner.Class()
}

func (o otherBool) Class() reflect.Type   { return classOf(o, o.Bool, o.own) }
func (o otherNumber) Class() reflect.Type { return classOf(o, o.Number, o.own) }
func (o otherString) Class() reflect.Type { return classOf(o, o.ownString, o.own) }
func (o *otherExt) Class() reflect.Type   { return classOf(o, o.Extension, o.own) }
func (o otherList) Class() reflect.Type   { return classOf(o, o.List, o.own) }
func (o *otherMap) Class() reflect.Type   { return classOf(o, o.Map, o.own) }

// IsSparse is asked by ref.IsSparse.
func (o otherList) IsSparse() bool { return ref.IsSparse(o.List) }

// other wraps x in a foreign type that has the class of x, otherOwn in one with a class of its own.
func other(x value.Value) value.Value    { return wrapOther(x, false) }
func otherOwn(x value.Value) value.Value { return wrapOther(x, true) }

func wrapOther(x value.Value, own bool) value.Value {
	switch t := x.(type) {
	case value.Bool:
		return otherBool{t, own}
	case value.Number:
		return otherNumber{t, own}
	case value.String:
		return otherString{t, own}
	case value.Extension:
		return &otherExt{t, own}
	case value.List:
		return otherList{t, own}
	case value.Map:
		return &otherMap{t, own}
	}
	return x // nil and null
}

// otherwise builds v with the nodes whose number is in which (bit i mod 8) being foreign.
func otherwise(v *ref.V, f int, which uint, at *int) value.Value {
	if which>>8&1 == 1 { // with classes of their own
		return otherwiseBy(otherOwn, v, f, which, at)
	}
	return otherwiseBy(other, v, f, which, at)
}

func otherwiseBy(wrap func(value.Value) value.Value, v *ref.V, f int, which uint, at *int) value.Value {
	me := *at
	*at++
	var x value.Value
	if !v.IsContainer() {
		x = ref.Build(v, f)
	} else {
		els := make([]value.Value, len(v.L))
		for i, e := range v.L {
			els[i] = otherwiseBy(wrap, e, f, which, at)
		}
		mut := f == ref.FMutable
		switch v.K {
		case ref.List:
			if mut {
				x = value.MutableList(els)
			} else {
				x = value.ImmutableList(els)
			}
		case ref.Sparse:
			its := make([]value.ListItem, len(els))
			for i := range its {
				if mut {
					its[i] = value.MutableItem(v.IK[i], els[i])
				} else {
					its[i] = value.ImmutableItem(v.IK[i], els[i])
				}
			}
			x = value.SparseList(its, true)
		case ref.Map:
			es := make([]value.MapEntry, len(els))
			for i := range es {
				if mut {
					es[i] = value.MutableEntry(v.SK[i], els[i])
				} else {
					es[i] = value.ImmutableEntry(v.SK[i], els[i])
				}
			}
			if mut {
				x = value.SortedMap(es, true)
			} else {
				x = value.ImmutableMap(es, true)
			}
		}
	}
	if which>>(uint(me)%8)&1 == 1 {
		return wrap(x)
	}
	return x
}

// otherPacker passes every call on to a packer of the library and notes it.
type otherPacker struct {
	p     value.Packer
	calls []string
}

func (o *otherPacker) PackNil()             { o.calls = append(o.calls, "nil"); o.p.PackNil() }
func (o *otherPacker) PackBool(b bool)      { o.calls = append(o.calls, fmt.Sprint(b)); o.p.PackBool(b) }
func (o *otherPacker) PackLong(i int64)     { o.calls = append(o.calls, fmt.Sprint(i)); o.p.PackLong(i) }
func (o *otherPacker) PackDouble(d float64) { o.calls = append(o.calls, "double"); o.p.PackDouble(d) }
func (o *otherPacker) PackStr(s string)     { o.calls = append(o.calls, "str"); o.p.PackStr(s) }
func (o *otherPacker) PackBin(b []byte)     { o.calls = append(o.calls, "bin"); o.p.PackBin(b) }
func (o *otherPacker) PackExt(t value.Ext, b []byte) {
	o.calls = append(o.calls, "ext")
	o.p.PackExt(t, b)
}
func (o *otherPacker) PackList(n int) {
	o.calls = append(o.calls, fmt.Sprint("list", n))
	o.p.PackList(n)
}
func (o *otherPacker) PackMap(n int)    { o.calls = append(o.calls, fmt.Sprint("map", n)); o.p.PackMap(n) }
func (o *otherPacker) PackRaw(b []byte) { o.calls = append(o.calls, "raw"); o.p.PackRaw(b) }
func (o *otherPacker) Error() error     { return o.p.Error() }

// callPacker notes every call with its arguments.
type callPacker struct{ calls []string }

func (o *callPacker) add(f string, a ...any) { o.calls = append(o.calls, fmt.Sprintf(f, a...)) }
func (o *callPacker) PackNil()               { o.add("PackNil") }
func (o *callPacker) PackBool(b bool)        { o.add("PackBool(%v)", b) }
func (o *callPacker) PackLong(i int64)       { o.add("PackLong(%d)", i) }
func (o *callPacker) PackDouble(d float64)   { o.add("PackDouble(%x)", math.Float64bits(d)) }
func (o *callPacker) PackStr(s string)       { o.add("PackStr(%q)", s) }
func (o *callPacker) PackBin(b []byte)       { o.add("PackBin(%x)", b) }
func (o *callPacker) PackExt(t value.Ext, b []byte) {
	o.add("PackExt(%d, %x)", t, b)
}
func (o *callPacker) PackList(n int)   { o.add("PackList(%d)", n) }
func (o *callPacker) PackMap(n int)    { o.add("PackMap(%d)", n) }
func (o *callPacker) PackRaw(b []byte) { o.add("PackRaw(%x)", b) }
func (o *callPacker) Error() error     { return nil }

// items makes the calls that pack the items of v, one each.
func items(o value.Packer, v *ref.V) {
	switch v.K {
	case ref.Nil, ref.Null:
		o.PackNil()
	case ref.Bool:
		o.PackBool(v.B)
	case ref.Long:
		o.PackLong(v.I)
	case ref.Double:
		o.PackDouble(v.Float())
	case ref.Utf8:
		o.PackStr(v.S)
	case ref.Raw:
		o.PackBin([]byte(v.S))
	case ref.Ext:
		o.PackExt(value.Ext(v.S[0]), []byte(v.S[1:]))
	case ref.Big, ref.Dec:
		enc := v.Encode()
		_, size := shape(enc[0])
		if f, _ := shape(enc[0]); f == value.FixExtToken {
			size = 0
		}
		o.PackExt(value.Ext(enc[1+size]), enc[2+size:])
	case ref.List:
		o.PackList(len(v.L))
		for _, e := range v.L {
			items(o, e)
		}
	case ref.Sparse:
		o.PackMap(len(v.L))
		for i, e := range v.L {
			o.PackLong(int64(v.IK[i]))
			items(o, e)
		}
	case ref.Map:
		o.PackMap(len(v.L))
		for i, e := range v.L {
			o.PackStr(v.SK[i])
			items(o, e)
		}
	}
}

// refPacker encodes by the reference alone.
type refPacker struct{ b []byte }

func (r *refPacker) PackNil()             { r.b = ref.VNull.Enc(r.b) }
func (r *refPacker) PackBool(b bool)      { r.b = ref.VBool(b).Enc(r.b) }
func (r *refPacker) PackLong(i int64)     { r.b = ref.EncInt(r.b, i) }
func (r *refPacker) PackDouble(d float64) { r.b = ref.VDouble(d).Enc(r.b) }
func (r *refPacker) PackStr(s string)     { r.b = append(ref.EncStrHeader(r.b, len(s)), s...) }
func (r *refPacker) PackBin(b []byte)     { r.b = append(ref.EncBinHeader(r.b, len(b)), b...) }
func (r *refPacker) PackExt(t value.Ext, b []byte) {
	r.b = append(ref.EncExtHeader(r.b, len(b), byte(t)), b...)
}
func (r *refPacker) PackList(n int)   { r.b = ref.EncListHeader(r.b, n) }
func (r *refPacker) PackMap(n int)    { r.b = ref.EncMapHeader(r.b, n) }
func (r *refPacker) PackRaw(b []byte) { r.b = append(r.b, b...) }
func (r *refPacker) Error() error     { return nil }

// refUnpacker delivers tokens by the reference alone, refParser parses them.
type refUnpacker struct {
	b    []byte
	at   int
	fail int // this call of Read fails
	err  error
}

func (u *refUnpacker) Next() (value.Format, []byte) {
	if u.at >= len(u.b) {
		return value.EOF, nil
	}
	f, size := shape(u.b[u.at])
	if u.at+1+size > len(u.b) {
		return value.UnexpectedEOF, nil
	}
	h := append([]byte(nil), u.b[u.at:u.at+1+size]...)
	u.at += 1 + size
	return f, h
}

func (u *refUnpacker) Read(n int) ([]byte, error) {
	if u.fail--; u.fail == 0 {
		return nil, u.err
	}
	if n > len(u.b)-u.at {
		return nil, io.ErrUnexpectedEOF
	}
	u.at += n
	return append([]byte(nil), u.b[u.at-n:u.at]...), nil
}

type refParser struct {
	err   error
	fail  int // this call fails
	calls int
	with  error
}

func (p *refParser) parse(h []byte, fs ...value.Format) parsed {
	f, _ := shape(h[0])
	m, ok := meaning(h)
	p.calls++
	if p.calls == p.fail {
		p.err = p.with
		return parsed{}
	}
	for _, g := range fs {
		if g == f && ok {
			return m
		}
	}
	p.err = fmt.Errorf("refParser: header %x", h)
	return parsed{}
}

func (p *refParser) ParseBool(h []byte) bool  { return p.parse(h, value.BoolToken).b }
func (p *refParser) ParseLong(h []byte) int64 { return p.parse(h, value.LongToken).i }
func (p *refParser) ParseDouble(h []byte) float64 {
	return math.Float64frombits(p.parse(h, value.DoubleToken).f)
}
func (p *refParser) ParseBin(h []byte) int  { return p.parse(h, value.BinHeader).n }
func (p *refParser) ParseStr(h []byte) int  { return p.parse(h, value.StrHeader).n }
func (p *refParser) ParseList(h []byte) int { return p.parse(h, value.ListHeader).n }
func (p *refParser) ParseMap(h []byte) int  { return p.parse(h, value.MapHeader).n }
func (p *refParser) ParseExt(h []byte) (int, []byte) {
	m := p.parse(h, value.ExtHeader, value.FixExtToken)
	return m.n, []byte(m.rest)
}
func (p *refParser) Error() error { return p.err }

// plainUnpacker and plainParser hide everything of the library's own but the interface.
type plainUnpacker struct{ value.Unpacker }
type plainParser struct{ value.Parser }

func moderate(v *ref.V) bool { return v.K != ref.Dec || v.E > -2000 && v.E < 2000 }

var errForeign = errors.New("foreign error")

func C27(c *kit.Ctx) {
	c.Assume("foreign values are wrappers that behave like the wrapped value; null has no foreign form")
	var vs []*ref.V
	leaves := ref.SmallLeaves()
	for n := 1; n <= 3; n++ {
		vs = append(vs, ref.Trees(n, leaves, true)...)
	}
	vs = append(vs, ref.Trees(4, leaves[:c.Pick(3, 5)], false)...)
	for _, v := range ref.Scalars(c.Pick(300, 3000)) {
		vs = append(vs, v)
	}
	for _, v := range ref.Scalars(40) {
		vs = append(vs, ref.VList(v, v), ref.VMap([]string{"k"}, []*ref.V{v}), ref.VSparse([]int{4}, []*ref.V{v}))
	}
	vs = append(vs, ref.BigContainers(300)...)
	c.Bound("values", len(vs))
	c.Sample("%s with foreign nodes", vs[len(vs)/3].Short())

	// foreign packers
	c.Par("foreign-packers", len(vs), func(w *kit.W, i int) {
		v := vs[i]
		if v.K == ref.Nil {
			return
		}
		enc := v.Encode()
		for f := 0; f < ref.NFlavours; f++ {
			if f > 0 && !v.IsContainer() || f == ref.FDecoded && v.HasEmptySparse() {
				continue
			}
			x := ref.Build(v, f)
			w.NewState()
			w.Step(func() string {
				return "the " + ref.FlavourName(f) + " value " + v.Short() + " packed into a foreign packer"
			})
			w.Trace()
			var buf bytes.Buffer
			o := &otherPacker{p: value.MessagePacker(&buf)}
			x.Pack(o)
			if !bytes.Equal(buf.Bytes(), enc) {
				w.Fail("bytes %s by the calls %v, expected %s", hexs(buf.Bytes()), o.calls, hexs(enc))
			}
			cp, want := &callPacker{}, &callPacker{}
			x.Pack(cp)
			items(want, v)
			for k := 0; k < len(cp.calls) || k < len(want.calls); k++ {
				if k >= len(cp.calls) || k >= len(want.calls) || cp.calls[k] != want.calls[k] {
					w.Fail("the calls are %s, expected %s", short(fmt.Sprint(cp.calls)), short(fmt.Sprint(want.calls)))
				}
			}
			r := &refPacker{}
			x.Pack(r)
			if !bytes.Equal(r.b, enc) {
				w.Fail("the calls mean %s, expected %s", hexs(r.b), hexs(enc))
			}
		}
	})

	// foreign unpackers and parsers, also failing
	decode := func(w *kit.W, b []byte, faults bool) {
		w.NewState()
		r := ref.Decode(b)
		type in struct {
			name string
			u    value.Unpacker
			p    value.Parser
		}
		rp := &refParser{}
		for _, k := range []in{
			{"a foreign unpacker and a foreign parser", &refUnpacker{b: b}, rp},
			{"a foreign unpacker", &refUnpacker{b: b}, value.MessageParser()},
			{"a foreign parser", value.MessageUnpacker(b, true), &refParser{}},
			{"a foreign parser of a reader", value.MessageReader(PlainReader{bytes.NewReader(b)}), &refParser{}},
			{"hidden unpacker and parser", plainUnpacker{value.MessageUnpacker(b, true)}, plainParser{value.MessageParser()}},
			{"hidden reader", plainUnpacker{value.MessageReader(bytes.NewReader(b))}, value.MessageParser()},
		} {
			w.Step(func() string { return "Parse of " + hexs(b) + " through " + k.name })
			w.Trace()
			x, err := value.Parse(k.u, k.p)
			switch {
			case r.St != ref.OK:
				if err == nil {
					w.Fail("gives %v although the bytes are %v", ref.Observe(x).Short(), r.St)
				}
				if r.St == ref.Truncated && len(b) == 0 && err != io.EOF {
					w.Fail("error %v of no bytes", err)
				}
			case r.Loose:
				if err == nil && x == nil {
					w.Fail("no value and no error")
				}
			case err != nil:
				w.Fail("error %v, the bytes are %s", err, r.V.Short())
			default:
				if g := ref.Observe(x); !ref.Same(g, r.V) {
					w.Fail("gives %s, the bytes are %s", g.Short(), r.V.Short())
				}
			}
		}
		if !faults || r.St != ref.OK || r.Loose {
			return
		}
		reads := 1
		for n := 1; n <= rp.calls; n++ {
			w.Step(func() string { return fmt.Sprintf("Parse of %s with call %d of the parser failing", hexs(b), n) })
			w.Trace()
			p := &refParser{fail: n, with: errForeign}
			x, err := value.Parse(&refUnpacker{b: b}, p)
			if err == nil || !strings.Contains(err.Error(), "foreign error") {
				w.Fail("value %v, error %v", x, err)
			}
		}
		for ; ; reads++ {
			u := &refUnpacker{b: b, fail: reads, err: errForeign}
			x, err := value.Parse(u, value.MessageParser())
			if u.fail > 0 {
				break
			}
			w.Trace()
			w.Step(func() string { return fmt.Sprintf("Parse of %s with read %d of the unpacker failing", hexs(b), reads) })
			if err == nil || !strings.Contains(err.Error(), "foreign error") {
				w.Fail("value %v, error %v", x, err)
			}
		}
	}
	c.Par("foreign-unpackers-and-parsers", len(vs), func(w *kit.W, i int) {
		enc := vs[i].Encode()
		decode(w, enc, len(enc) < 400)
		if len(enc) < 40 {
			for n := range enc {
				decode(w, enc[:n:n], false)
			}
			decode(w, append(enc[:len(enc):len(enc)], 0xc1), false)
		}
	})
	c.Par("foreign-unpackers-of-all-bytes", 65536+256, func(w *kit.W, i int) {
		if i < 256 {
			decode(w, []byte{byte(i)}, false)
			decode(w, []byte{0x81, byte(i), 0xc0}, false)
			return
		}
		i -= 256
		decode(w, []byte{byte(i >> 8), byte(i)}, false)
		decode(w, []byte{0x92, byte(i >> 8), byte(i), 0xa1, 'x'}, false)
	})

	// foreign values in every place
	masks := []uint{0xff, 0x1ff, 1, 0xfe, 2, 4, 0x55, 0xaa}
	c.Par("foreign-values", len(vs), func(w *kit.W, i int) {
		v := vs[i]
		if v.K == ref.Nil {
			return
		}
		enc := v.Encode()
		for _, f := range []int{ref.FImmutable, ref.FMutable} {
			for _, m := range masks {
				if m&0xff != 0xff && (!v.IsContainer() || v.Nodes() > 100) {
					continue
				}
				n := 0
				x := otherwise(v, f, m, &n)
				w.NewState()
				w.Step(func() string {
					return fmt.Sprintf("%s %s with foreign nodes by the mask %x", ref.FlavourName(f), v.Short(), m)
				})
				w.Trace()
				for k := range encoders {
					b, err := encoders[k].run(x)
					if err != nil || !bytes.Equal(b, enc) {
						w.Fail("%s gives %s (error %v), expected %s", encoders[k].name, hexs(b), err, hexs(enc))
					}
				}
				if b, h, err := value.Hash(x, crypto.SHA256); err != nil || !bytes.Equal(b, enc) {
					w.Fail("Hash gives %s, %x, error %v", hexs(b), h, err)
				}
				if g := ref.Observe(x); !ref.Same(g, v) {
					w.Fail("is read as %s", g.Short())
				}
				own := ref.Build(v, f)
				if v.HasNaN() {
					if value.Equal(x, own) || value.Equal(own, x) {
						w.Fail("is equal to itself although there is a NaN in it")
					}
				} else if !value.Equal(x, own) || !value.Equal(own, x) || !x.Equal(own) || !own.Equal(x) || !value.Equal(x, x) {
					w.Fail("is not equal to the same content")
				}
				if v.Nodes() <= 100 {
					for _, p := range printers {
						text, err := p.run(x)
						want, err2 := p.run(own)
						if err != nil || err2 != nil || text != want {
							w.Fail("%s prints %.200q (error %v), that of own values %.200q", p.name, text, err, want)
						}
					}
				}
				if x.String() != own.String() {
					w.Fail("text form %.200q, that of own values %.200q", x.String(), own.String())
				}
				if m2, ok := x.(value.Map); ok {
					for k, y := range map[string]value.Value{"ImmutableMapCopyOf": value.ImmutableMapCopyOf(m2), "SortedMapCopyOf": value.SortedMapCopyOf(m2)} {
						if g := ref.Observe(y); !ref.Same(g, v) {
							w.Fail("%s of it contains %s", k, g.Short())
						}
					}
				}
			}
		}
	})
	// typed getters of foreign elements
	elems := getterElems(c)
	c.Par("typed-getters-of-foreign-elements", len(elems), func(w *kit.W, i int) {
		e := elems[i]
		for _, v := range []*ref.V{ref.VList(ref.VLong(4), e), ref.VSparse([]int{-1, 1}, []*ref.V{ref.VLong(4), e}), ref.VMap([]string{"", "1"}, []*ref.V{ref.VLong(4), e})} {
			for _, f := range []int{ref.FImmutable, ref.FMutable} {
				for _, m := range masks[:4] {
					n := 0
					x := otherwise(v, f, m, &n)
					w.NewState()
					w.Step(func() string {
						return fmt.Sprintf("typed getters of %s %s with foreign nodes by the mask %x", ref.FlavourName(f), v.Short(), m)
					})
					w.Trace()
					var g getter
					switch y := x.(type) {
					case value.List:
						g = getter{func() value.Bool { return y.GetBoolAt(1) }, func() value.Number { return y.GetNumberAt(1) },
							func() value.String { return y.GetStringAt(1) }, func() value.List { return y.GetListAt(1) }, func() value.Map { return y.GetMapAt(1) }}
					case value.Map:
						g = getter{func() value.Bool { return y.GetBool("1") }, func() value.Number { return y.GetNumber("1") },
							func() value.String { return y.GetString("1") }, func() value.List { return y.GetList("1") }, func() value.Map { return y.GetMap("1") }}
					}
					if _, bad := checkGetters(g, e); bad != "" {
						w.Fail("%s", bad)
					}
				}
			}
		}
	})
	// equality and arithmetic with foreign values
	alpha := equalityAlphabet(c)
	if n := c.Pick(400, 1500); len(alpha) > n {
		var some []*ref.V
		for i := 0; i < n; i++ {
			some = append(some, alpha[i*len(alpha)/n])
		}
		alpha = some
	}
	c.Bound("compared_values", len(alpha))
	var own, foreign, classy []value.Value
	for i, v := range alpha {
		f := []int{ref.FImmutable, ref.FMutable}[i%2]
		own = append(own, ref.Build(v, f))
		n := 0
		foreign = append(foreign, otherwise(v, f, 0xff, &n))
		n = 0
		classy = append(classy, otherwise(v, f, 0x1ff, &n))
	}
	c.Par("equality-with-foreign-values", len(alpha), func(w *kit.W, i int) {
		for j := range alpha {
			w.NewState()
			want := modelEqual(alpha[i], alpha[j])
			for k, p := range [][2]value.Value{{foreign[i], own[j]}, {own[i], foreign[j]}, {foreign[i], foreign[j]},
				{classy[i], own[j]}, {own[i], classy[j]}, {classy[i], classy[j]}} {
				w.Step(func() string {
					return fmt.Sprintf("%s compared with %s, %s%s", alpha[i].Short(), alpha[j].Short(), []string{"the first foreign", "the second foreign", "both foreign"}[k%3],
						[]string{"", " with a class of its own"}[k/3])
				})
				w.Trace()
				if got := value.Equal(p[0], p[1]); want != maybe && got != (want == yes) {
					w.Fail("gives %v", got)
				}
			}
			if alpha[i].IsNumber() && alpha[j].IsNumber() && moderate(alpha[i]) && moderate(alpha[j]) {
				a, b := own[i].(value.Number), own[j].(value.Number)
				fb := foreign[j].(value.Number)
				for k, p := range [][2]value.Number{{a.Add(b), a.Add(fb)}, {a.Subtract(b), a.Subtract(fb)}} {
					w.Step(func() string {
						return alpha[i].Short() + " " + []string{"Add", "Subtract"}[k] + " foreign " + alpha[j].Short()
					})
					if x, y := ref.Observe(p[0]), ref.Observe(p[1]); !ref.Same(x, y) {
						w.Fail("gives %s, with an own number %s", y.Short(), x.Short())
					}
				}
			}
		}
	})
	// operations with foreign elements
	var starts []start
	for _, n := range []int{0, 1, 2, 5} {
		starts = append(starts, listStarts(n, true, true, true)...)
		starts = append(starts, mapStarts(n, 2, true, true, true)...)
		starts = append(starts, sparseStarts(n, 2, true)...)
	}
	c.Bound("containers", len(starts))
	c.Par("operations-with-foreign-elements", len(starts), func(w *kit.W, i int) {
		s := starts[i]
		for _, o := range opsFor(s.v, 0, 2) {
			w.NewState()
			w.Step(func() string { return s.String() + ": " + o.String(s.v.K) + " with foreign elements" })
			w.Trace()
			a := o.Args(0)
			a.Val = wrapOther(a.Val, i%2 == 1)
			for k := range a.Vals {
				a.Vals[k] = wrapOther(a.Vals[k], i%2 == 1)
			}
			if m := CheckViews(ref.ApplyImpl(s.mk(), o, a), ref.Apply(s.v, o)); m != "" {
				w.Fail("%s", m)
			}
		}
	})
	foreignEntries(c)
}
