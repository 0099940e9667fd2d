package props

import (
	"bytes"
	"crypto"
	_ "crypto/sha256"
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

func init() { All["C29"] = C29 }

// ---------- C29: settings ----------

type setting struct {
	b64, ext string
	delim    byte
	prec     float64
	fast     bool
}

var defaults = setting{"base64,", "data:application/x-msgpack-ext;", 'x', 0.00001, true}

func (s setting) String() string {
	return fmt.Sprintf("Base64Prefix=%q UnknownPrefix=%q DecimalExpDelim=%q PrecisionLevel=%v AllowFastAppends=%v", s.b64, s.ext, s.delim, s.prec, s.fast)
}

// apply changes the library's and the model's settings.
func (s setting) apply() {
	value.Base64Prefix, value.UnknownPrefix = s.b64, s.ext
	value.DecimalExpDelim, value.DecimalExpDelimStr = s.delim, string(s.delim)
	value.PrecisionLevel, value.AllowFastAppends = s.prec, s.fast
	ref.B64Prefix, ref.ExtPrefix = s.b64, s.ext
	ref.SetDecDelim(s.delim)
	precision = s.prec
}

func settings() []setting {
	out := []setting{defaults}
	add := func(f func(s *setting)) {
		s := defaults
		f(&s)
		out = append(out, s)
	}
	for _, p := range []string{"", "b", "b64:", "BASE64,", "basE64,", "base64:", "base64,base64,", "base64", "raw/é ", "null", strings.Repeat("p", 70)} {
		add(func(s *setting) { s.b64 = p })
	}
	for _, p := range []string{"", "ext!", "EXT!", "data:", strings.ToUpper(defaults.ext), strings.Repeat("q", 70)} {
		add(func(s *setting) { s.ext = p })
	}
	for _, d := range []byte("pXzq_~") {
		add(func(s *setting) { s.delim = d })
	}
	for _, p := range []float64{0, 1e-300, 1e-9, 1e-3, 0.25, 1, 1000, 1e18, 1e300} {
		add(func(s *setting) { s.prec = p })
	}
	add(func(s *setting) { s.fast = false })
	return append(out, setting{"r:", "x:", 'q', 2, false}, setting{"", "", '_', 0.5, true}, setting{"data:", "data:", 'p', 1e-12, false})
}

func settingValues(c *kit.Ctx) []*ref.V {
	vs := []*ref.V{ref.VNull, ref.VTrue, ref.VFalse, ref.VLong(0), ref.VLong(-70000), ref.VDouble(0.1), ref.VDouble(2), ref.VDouble(math.Inf(1))}
	for _, n := range []int64{0, 1, -1, 255, 256, -4096, 123456789} {
		vs = append(vs, ref.VBig(big.NewInt(n)))
		for _, e := range []int32{0, 1, -1, 16, 255, -256, 4000, math.MaxInt32, math.MinInt32} {
			vs = append(vs, ref.VDec(big.NewInt(n), e))
		}
	}
	for _, s := range []string{"", "a", "abc", "base64,AAAA", "b64:AAAA", "b", "AAAA", "\"\\\x00", "é", strings.Repeat("z", 40)} {
		vs = append(vs, ref.VUtf8(s), ref.VRaw(s))
		for _, t := range []byte{0, 7, 255} {
			vs = append(vs, ref.VExt(t, s))
		}
	}
	for n := 1; n < c.Pick(40, 300); n++ {
		vs = append(vs, ref.VRaw(strings.Repeat(string([]byte{byte(37 * n)}), n)))
	}
	for _, n := range []int{47, 48, 49, 57, 63, 64, 65, 76, 77, 127, 128, 129, 254, 255, 256, 257, 299, 300, 301, 302, 511, 512, 513, 767, 768, 769, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8194} {
		long := strings.Repeat("\xfa\x00long", n)[:n]
		vs = append(vs, ref.VRaw(long), ref.VExt(byte(n)|16, long), ref.VUtf8(strings.Repeat("a \"text\" ", n)[:n]))
	}
	for i, k := 0, len(vs); i < k; i++ {
		a, b := vs[i], vs[(i*7+3)%k]
		switch i % 4 {
		case 0:
			vs = append(vs, ref.VList(a, b, ref.VNil))
		case 1:
			vs = append(vs, ref.VMap([]string{"base64,", "k", "k"}, []*ref.V{a, b, a}))
		case 2:
			vs = append(vs, ref.VSparse([]int{-2, 5}, []*ref.V{b, a}))
		default:
			vs = append(vs, ref.VMap([]string{"q"}, []*ref.V{ref.VList(ref.VSparse([]int{1}, []*ref.V{a}), b)}))
		}
	}
	return vs
}

// underSettings checks everything about x, which is v, that a setting concerns or must not concern.
func underSettings(w *kit.W, v *ref.V, x value.Value, where string) {
	say := func(what string) {
		w.Step(func() string { return fmt.Sprintf("%s of %s, %s", what, v.Short(), where) })
		w.Trace()
	}
	if o := ref.Observe(x); ref.Same(o.Norm(), v.Norm()) {
		v = o // null or nil as it was built
	} else {
		w.Fail("the value has become %s", o.Short())
	}
	for _, p := range printers {
		say(p.name)
		text, err := p.run(x)
		if err != nil {
			w.Fail("fails: %v", err)
		}
		j, err := parseJSON(text)
		if err != nil {
			w.Fail("%v: %.300q", err, text)
		}
		if m := sameJSON(p.sub(j), v); m != "" {
			w.Fail("%s in %.300q", m, text)
		}
	}
	if !v.IsContainer() {
		say("text form")
		text, bad := scalarText(v, x)
		if bad != "" {
			w.Fail("%s", bad)
		}
		if got := x.String(); got != text {
			w.Fail("is %q, expected %q", got, text)
		}
		say("number denoted by the text form")
		n, sure := ref.ParseNum(text)
		if m := numberIs(value.ParseNumber(text), n, sure); m != "" {
			w.Fail("%s", m)
		}
		if (v.K == ref.Big || v.K == ref.Dec && v.E != 0) && !ref.Same(ref.Observe(value.ParseNumber(text)), v) {
			w.Fail("is %s", ref.Observe(value.ParseNumber(text)).Short())
		}
		say("string denoted by the text form")
		if got, want := ref.Observe(value.ParseString(text)), modelString(text); !ref.Same(got, want) || v.K == ref.Raw && !ref.Same(got, v) {
			w.Fail("is %s, expected %s", got.Short(), want.Short())
		}
	}
	// typed reads convert through the text form
	for f := 0; f < 5; f++ {
		say(fmt.Sprintf("typed reads (%d)", f))
		l := []value.List{value.Tuple(value.Null, x), value.MutableList([]value.Value{value.Null, x}), value.SparseList([]value.ListItem{value.MutableItem(1, x)}, true)}
		m := []value.Map{value.ImmutableMapOf(map[string]value.Value{"k": x}), value.SortedMapOf(map[string]value.Value{"k": x})}
		g := getter{}
		if f < 3 {
			c := l[f]
			g = getter{func() value.Bool { return c.GetBoolAt(1) }, func() value.Number { return c.GetNumberAt(1) }, func() value.String { return c.GetStringAt(1) },
				func() value.List { return c.GetListAt(1) }, func() value.Map { return c.GetMapAt(1) }}
		} else {
			c := m[f-3]
			g = getter{func() value.Bool { return c.GetBool("k") }, func() value.Number { return c.GetNumber("k") }, func() value.String { return c.GetString("k") },
				func() value.List { return c.GetList("k") }, func() value.Map { return c.GetMap("k") }}
		}
		if v.IsContainer() {
			g.b, g.n, g.s = func() value.Bool { return value.False }, func() value.Number { return value.Zero }, func() value.String { return value.EmptyString }
		}
		if _, bad := checkGetters(g, v); bad != "" {
			w.Fail("%s", bad)
		}
	}
	say("encoding")
	want := v.Encode()
	b, err := value.Pack(x)
	if err != nil || !bytes.Equal(b, want) {
		w.Fail("is %s (error %v), expected %s", hexs(b), err, hexs(want))
	}
	h := crypto.SHA256.New()
	h.Write(want)
	if _, sum, err := value.Hash(x, crypto.SHA256); err != nil || !bytes.Equal(sum, h.Sum(nil)) {
		w.Fail("the hash is %s (error %v)", hexs(sum), err)
	}
	y, err := value.Unpack(b, false)
	if err != nil || !ref.Same(ref.Observe(y), v.Norm()) {
		w.Fail("decodes as %s (error %v)", ref.Observe(y).Short(), err)
	}
}

func nearNumbers() []*ref.V {
	var vs []*ref.V
	for _, n := range []int64{0, 1, 2, 3, 1000, 1001, -1} {
		vs = append(vs, ref.VLong(n), ref.VBig(big.NewInt(n)), ref.VDec(big.NewInt(n), 0))
	}
	for _, e := range []int32{-320, -13, -10, -9, -6, -5, -4, -1, 2, 17, 18, 19, 299, 301} {
		vs = append(vs, ref.VDec(big.NewInt(1), e), ref.VDec(big.NewInt(5), e))
	}
	for _, f := range []float64{0, 1, 1.1, 1.25, 1.3, 1.5, 1.999, 2, 2.5, 3, 999, 1000, 2000, -1, -0.5} {
		vs = append(vs, ref.VDouble(f))
	}
	for _, e := range []float64{1e-301, 1e-299, 1e-13, 1e-11, 1e-10, 1e-8, 0.9e-5, 1.1e-5, 0.9e-3, 1.1e-3, 1e17, 1e19, 1e299, 1.5e300} {
		vs = append(vs, ref.VDouble(e), ref.VDouble(1+e), ref.VDouble(-e))
	}
	return append(vs, ref.VDouble(math.Inf(1)), ref.VDouble(math.Inf(-1)), ref.VDouble(math.NaN()))
}

// around puts v into containers.
func around(v *ref.V) []*ref.V {
	return []*ref.V{v, ref.VList(v), ref.VList(ref.VUtf8("x"), ref.VList(v)), ref.VMap([]string{"a"}, []*ref.V{v}), ref.VSparse([]int{0}, []*ref.V{v}),
		ref.VMap([]string{"a", "a"}, []*ref.V{ref.VLong(1), ref.VSparse([]int{-1}, []*ref.V{v})})}
}

func C29(c *kit.Ctx) {
	defer defaults.apply()
	ss := settings()
	vs := settingValues(c)
	c.Bound("settings", len(ss))
	c.Bound("values", len(vs))
	names := make([]string, len(ss))
	for i, s := range ss {
		names[i] = s.String()
	}
	c.Bound("settings_explored", names)
	build := func(v *ref.V, i int) value.Value {
		f := i % ref.NFlavours
		if f == ref.FDecoded && v.HasEmptySparse() || !v.IsContainer() {
			f = 0
		}
		return ref.Build(v, f)
	}
	// one after the other in the same process, the defaults between them and at the end
	rounds := append(append([]setting(nil), ss...), defaults)
	kept := make([]value.Value, len(vs))
	for i, v := range vs {
		kept[i] = build(v, i)
	}
	for k, s := range rounds {
		s.apply()
		c.Par(fmt.Sprintf("values/%02d", k), len(vs), func(w *kit.W, i int) {
			w.NewState()
			underSettings(w, vs[i], build(vs[i], i+k), s.String())
			underSettings(w, vs[i], kept[i], s.String()+" (a value older than the settings)")
		})
	}
	// equality under every precision
	ns := nearNumbers()
	c.Bound("numbers_compared", len(ns))
	for k, s := range rounds {
		s.apply()
		if k > 0 && s.prec == defaults.prec && k < len(rounds)-1 {
			continue
		}
		c.Par(fmt.Sprintf("equality/%02d", k), len(ns), func(w *kit.W, i int) {
			for j := range ns {
				aa, bb := around(ns[i]), around(ns[j])
				for m := range aa {
					want := modelEqual(aa[m], bb[m])
					for f := 0; f < ref.NFlavours; f++ {
						if m == 0 && f > 0 {
							break
						}
						w.NewState()
						w.Step(func() string { return fmt.Sprintf("%s compared with %s (%d), %s", aa[m].Short(), bb[m].Short(), f, s) })
						w.Trace()
						x, y := ref.Build(aa[m], f), ref.Build(bb[m], (f+m)%ref.NFlavours)
						got := x.Equal(y)
						if y.Equal(x) != got || value.Equal(x, y) != got {
							w.Fail("gives %v, in other ways %v", got, !got)
						}
						if want != maybe && got != (want == yes) {
							w.Fail("gives %v", got)
						}
					}
				}
				it := [][2]value.ListItem{{value.ImmutableItem(3, ref.Scalar(ns[i])), value.MutableItem(3, ref.Scalar(ns[j]))}}[0]
				en := [][2]value.MapEntry{{value.ImmutableEntry("e", ref.Scalar(ns[i])), value.MutableEntry("e", ref.Scalar(ns[j]))}}[0]
				w.Step(func() string {
					return fmt.Sprintf("items and entries of %s and %s, %s", ns[i].Short(), ns[j].Short(), s)
				})
				w.Trace()
				if want := modelEqual(ns[i], ns[j]); want != maybe {
					ok := want == yes
					if it[0].Equal(it[1]) != ok || it[1].Equal(it[0]) != ok || en[0].Equal(en[1]) != ok || en[1].Equal(en[0]) != ok {
						w.Fail("items: %v %v, entries: %v %v", it[0].Equal(it[1]), it[1].Equal(it[0]), en[0].Equal(en[1]), en[1].Equal(en[0]))
					}
				}
			}
		})
	}
	// every change from one setting to another, on the same value
	few := vs[:0:0]
	for i := 0; i < len(vs); i += len(vs)/c.Pick(24, 80) + 1 {
		few = append(few, vs[i])
	}
	few = append(few, ref.VRaw("abc"), ref.VExt(7, "abc"), ref.VDec(big.NewInt(5), -2), ref.VList(ref.VRaw("q"), ref.VDec(big.NewInt(77), 3)))
	c.Bound("changes", fmt.Sprintf("all %d ordered pairs of settings x %d values", len(ss)*len(ss), len(few)))
	c.Seq("changes", len(ss)*len(ss), func(w *kit.W, i int) {
		defer defaults.apply()
		a, b := ss[i/len(ss)], ss[i%len(ss)]
		for k, v := range few {
			w.NewState()
			x := build(v, k)
			l, r := ref.Scalar(ref.VDouble(1)), ref.Scalar(ref.VDouble(1.2))
			for step, s := range []setting{a, b, a} {
				s.apply()
				underSettings(w, v, x, fmt.Sprintf("settings changed to %s (change %d)", s, step))
				if want := equalNumbers(ref.VDouble(1), ref.VDouble(1.2)); want != maybe && l.Equal(r) != (want == yes) {
					w.Fail("1 = 1.2 is %v", l.Equal(r))
				}
			}
		}
	})
	defaults.apply()
	toggled(c)
}

// toggled: histories of sparse lists with fast appends switched before every operation.
func toggled(c *kit.Ctx) {
	depth := c.Pick(3, 4)
	var starts []start
	for _, n := range []int{0, 1, 2, 3}[:c.Pick(3, 4)] {
		for _, shape := range []int{0, 2} {
			if n < 3 && shape > 0 {
				continue
			}
			starts = append(starts, sparseStarts(n, shape, false)...)
		}
	}
	c.Bound("switched_fast_appends", fmt.Sprintf("%d starts, all histories of %d operations with fast appends on or off at each", len(starts), depth))
	c.Seq("switched-fast-appends", len(starts)<<depth, func(w *kit.W, ci int) {
		defer func() { value.AllowFastAppends = true }()
		s, mask := starts[ci>>depth], ci&(1<<depth-1)
		// what is obtained before an operation with fast appends off, in line or beside it, is what it was after it
		alive := []version{}
		intact := func(from int, what string) {
			for _, a := range alive[from:] {
				if m := a.intact(); m != "" {
					w.Fail("%s with fast appends off the value of %s %s", what, pathString(a.how, s.v.K), m)
				}
			}
		}
		var rec func(n version, mk func() value.Value)
		rec = func(n version, mk func() value.Value) {
			if len(n.how) == depth {
				return
			}
			fast := mask>>len(n.how)&1 == 1
			from := len(alive)
			if !fast {
				n.x = mk()
				alive = append(alive, n)
			}
			for _, o := range opsFor(n.v, len(n.how), 0) {
				how := append(append([]ref.Op(nil), n.how...), o)
				w.NewState()
				w.Step(func() string {
					return fmt.Sprintf("%s %s with fast appends on at the steps %0*b (right to left)", s.String(), pathString(how, s.v.K), depth, mask)
				})
				// with fast appends an operation may take over what it is applied to
				fresh := func() value.Value {
					x := mk()
					value.AllowFastAppends = fast
					return apply(w, x, o)
				}
				var y value.Value
				if fast {
					y = fresh()
				} else {
					value.AllowFastAppends = false
					y = apply(w, n.x, o)
				}
				w.Trace()
				v2 := ref.Apply(n.v, o)
				nv := version{x: y, v: v2, pack: v2.Encode(), how: how}
				if m := nv.intact(); m != "" {
					w.Fail("the new value %s", m)
				}
				if !fast {
					alive = append(alive, nv)
					intact(from, "after that")
				}
				rec(nv, fresh)
			}
			if !fast {
				intact(from, "after all of these")
			}
			alive = alive[:from]
		}
		root := version{x: s.mk(), v: s.v, pack: s.v.Encode()}
		rec(root, s.mk)
	})
}
