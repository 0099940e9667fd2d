package props

import (
	"bytes"
	"crypto"
	_ "crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"reflect"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

func init() { All["C22"] = C22 }

// scribble overwrites everything that belongs to a slice, its spare capacity included.
func scribble(b []byte, with byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = with
	}
}

// roomy copies b into the middle of a larger array.
func roomy(b []byte) []byte {
	a := make([]byte, len(b)+16)
	copy(a[8:], b)
	return a[8 : 8+len(b)]
}

// layout copies b into arrays with different amounts of space around and behind it.
func layout(b []byte, k int) []byte {
	switch k & 3 {
	case 1: // nothing but the bytes
		a := make([]byte, len(b))
		copy(a, b)
		return a[:len(b):len(b)]
	case 2: // from the beginning, with space behind
		return append(make([]byte, 0, 2*len(b)+64), b...)
	case 3: // in the middle, without space of its own
		a := roomy(b)
		return a[:len(b):len(b)]
	}
	return roomy(b)
}

// held is a value obtained earlier together with what it has to stay.
type held struct {
	x    value.Value
	v    *ref.V
	enc  []byte
	name string
}

func hold(w *kit.W, name string, x value.Value, v *ref.V) *held {
	h := &held{x: x, v: v.Norm(), name: name}
	if !v.HasEmptySparse() {
		h.enc = v.Encode()
	}
	h.check(w, "right away")
	return h
}

func (h *held) check(w *kit.W, when string) {
	w.Trace()
	if g := ref.Observe(h.x); !ref.Same(g.Norm(), h.v) {
		w.Fail("%s: the value from %s is %s, it was %s", when, h.name, g.Short(), h.v.Short())
	}
	if h.enc != nil {
		if b, err := value.Pack(h.x); err != nil || !bytes.Equal(b, h.enc) {
			w.Fail("%s: the value from %s encodes to %s (error %v), it was %s", when, h.name, hexs(b), err, hexs(h.enc))
		}
	}
}

// dirtyReader uses all of p as scratch space and destroys the bytes it has handed out.
type dirtyReader struct {
	data  []byte
	pos   int
	chunk int
	fill  byte
}

func (r *dirtyReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos == len(r.data) {
		return 0, io.EOF
	}
	for i := range p {
		p[i] = r.fill
	}
	n := len(r.data) - r.pos
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	n = copy(p, r.data[r.pos:r.pos+n])
	for i := r.pos; i < r.pos+n; i++ {
		r.data[i] = r.fill
	}
	r.pos += n
	return n, nil
}

// dirtyByteReader adds single byte reads.
type dirtyByteReader struct{ *dirtyReader }

func (r dirtyByteReader) ReadByte() (byte, error) {
	if r.pos == len(r.data) {
		return 0, io.EOF
	}
	c := r.data[r.pos]
	r.data[r.pos] = r.fill
	r.pos++
	return c, nil
}

func C22(c *kit.Ctx) {
	fs := families(c)
	fills := []byte{0x00, 0xff, 0x81, 'a'}

	// one value, its buffer overwritten
	for _, f := range fs {
		c.Par("overwritten-buffer/"+f.name, len(f.vs), func(w *kit.W, i int) {
			v := f.vs[i]
			if v.HasEmptySparse() {
				return
			}
			w.NewState()
			enc := v.Encode()
			if !hasBytes(v) {
				for k, fill := range fills[:2] {
					w.Step(func() string {
						return fmt.Sprintf("Unpack without copying of %s, which has no blobs and extensions, buffer filled with %02x", v.Short(), fill)
					})
					b := layout(enc, k+i)
					x, err := value.Unpack(b, false)
					if err != nil {
						w.Fail("error %v", err)
					}
					h := hold(w, "Unpack without copying", x, v)
					scribble(b, fill)
					h.check(w, "after overwriting the buffer")
				}
			}
			for k, fill := range fills {
				if k > 1 && len(enc) > 4096 {
					break
				}
				w.Step(func() string {
					return fmt.Sprintf("Unpack with copying of %s, buffer filled with %02x", v.Short(), fill)
				})
				b := layout(enc, k+i)
				x, err := value.Unpack(b, true)
				if err != nil {
					w.Fail("error %v", err)
				}
				h := hold(w, "Unpack with copying", x, v)
				scribble(b, fill)
				h.check(w, "after overwriting the buffer")
				b = layout(enc, k+i)
				x, err = value.Parse(value.MessageUnpacker(b, true), value.MessageParser())
				if err != nil {
					w.Fail("error %v", err)
				}
				scribble(b, fill)
				hold(w, "MessageUnpacker with copying and a buffer overwritten since", x, v)
				w.Step(func() string { return fmt.Sprintf("Read of %s, data overwritten with %02x", v.Short(), fill) })
				b = layout(enc, k+i)
				x, err = value.Read(bytes.NewReader(b))
				if err != nil {
					w.Fail("error %v", err)
				}
				scribble(b, fill)
				hold(w, "a bytes.Reader whose data was overwritten since", x, v)
				x, err = value.Read(&dirtyReader{data: layout(enc, k+i), fill: fill})
				if err != nil {
					w.Fail("error %v", err)
				}
				hold(w, "a reader destroying its data", x, v)
			}
		})
	}

	aliasSequences(c)
	aliasResults(c)
	aliasBlobs(c, fills)
	aliasStructs(c, fills)
	aliasStructPayloads(c, fills)
	aliasSealed(c, fills)
}

// hasBytes tells whether a blob or an extension is inside, which may share the input if asked for.
func hasBytes(v *ref.V) bool {
	if v.K == ref.Raw || v.K == ref.Ext {
		return true
	}
	for _, e := range v.L {
		if hasBytes(e) {
			return true
		}
	}
	return false
}

// aliasAlphabet has values of all kinds whose parts lie on the boundaries of every buffer of the code.
func aliasAlphabet() []*ref.V {
	s := func(n int, seed byte) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = 'b' + (seed+byte(i))%20
		}
		return string(b)
	}
	vs := []*ref.V{ref.VNil, ref.VTrue, ref.VLong(5), ref.VLong(-1 << 40), ref.VDouble(2.5), ref.VUtf8(""), ref.VRaw("")}
	for i, n := range []int{1, 2, 4, 7, 8, 15, 16, 23, 24, 31, 32, 255, 256} {
		vs = append(vs, ref.VRaw(s(n, byte(i))), ref.VUtf8(s(n, byte(i+3))), ref.VExt(7, s(n, byte(i+5))))
	}
	vs = append(vs, ref.VExt(9, ""))
	n1, _ := new(big.Int).SetString("123456789012345678901234567890", 10)
	vs = append(vs, ref.VBig(big.NewInt(7)), ref.VBig(n1), ref.VDec(big.NewInt(12345), -3), ref.VDec(new(big.Int).Neg(n1), 2))
	vs = append(vs, ref.VList(), ref.VMap(nil, nil), ref.VList(ref.VRaw(s(3, 1)), ref.VRaw(s(3, 9)), ref.VExt(4, s(3, 2)), ref.VRaw(s(50, 1))),
		ref.VList(ref.VRaw(s(5, 1)), ref.VExt(3, s(4, 2)), ref.VUtf8(s(40, 3)), ref.VNil),
		ref.VMap([]string{s(3, 1), s(33, 2)}, []*ref.V{ref.VRaw(s(9, 4)), ref.VList(ref.VExt(8, s(16, 1)))}),
		ref.VSparse([]int{-5, 3, 300}, []*ref.V{ref.VRaw(s(17, 5)), ref.VMap([]string{s(8, 6)}, []*ref.V{ref.VRaw(s(8, 7))}), ref.VUtf8(s(2, 1))}))
	return vs
}

// appendToParts appends to all bytes that x hands out, as one does to a slice of one's own.
func appendToParts(x value.Value, mark byte) {
	add := func(b []byte) {
		for n := 0; n < 70; n++ {
			b = append(b, mark)
		}
		b = append(b, bytes.Repeat([]byte{mark}, 300)...)
	}
	if x == nil {
		return
	}
	switch x.Kind() {
	case value.STRING:
		add(x.(value.String).Raw())
	case value.UNKNOWN:
		add(x.(value.Extension).Native())
	case value.LIST:
		for _, e := range x.(value.List).Items() { // Values leaves out negative indexes
			appendToParts(e.Value(), mark)
		}
	case value.MAP:
		for _, e := range x.(value.Map).Entries() {
			appendToParts(e.Value(), mark)
		}
	}
}

func aliasSequences(c *kit.Ctx) {
	alpha := aliasAlphabet()
	large := []*ref.V{ref.VRaw(string(bytes.Repeat([]byte("r"), 4096))), ref.VUtf8(string(bytes.Repeat([]byte("u"), 65535))), ref.VRaw(string(bytes.Repeat([]byte("R"), 65536))),
		ref.VRaw(string(bytes.Repeat([]byte("q"), 65537))), ref.VExt(5, string(bytes.Repeat([]byte("e"), 70000))), ref.VRaw(string(bytes.Repeat([]byte("z"), 140000)))}
	c.Bound("sequence_alphabet", len(alpha))
	c.Bound("sequence_length", c.Pick(2, 3))
	run := func(w *kit.W, seq []*ref.V, chunks []int) {
		w.NewState()
		var enc []byte
		var ends []int
		for _, v := range seq {
			enc = v.Enc(enc)
			ends = append(ends, len(enc))
		}
		show := ref.VList(seq...).Short
		parse := func(how string, u value.Unpacker, after func(i int)) {
			w.Step(func() string { return how + " of " + show() })
			p := value.MessageParser()
			var hs []*held
			for i, v := range seq {
				x, err := value.Parse(u, p)
				if err != nil {
					w.Fail("error %v", err)
				}
				hs = append(hs, hold(w, fmt.Sprintf("position %d", i), x, v))
				after(i)
				appendToParts(x, byte('A'+i))
				for _, h := range hs {
					h.check(w, fmt.Sprintf("after value %d and appending to its parts", i))
				}
			}
		}
		for fi, fill := range []byte{0xff, 'a'} {
			b := layout(enc, len(enc)+fi)
			parse("MessageUnpacker with copying, consumed bytes overwritten", value.MessageUnpacker(b, true), func(i int) {
				for j := 0; j < ends[i]; j++ {
					b[j] = fill
				}
			})
			for _, chunk := range chunks {
				parse("MessageReader over a reader destroying its data", value.MessageReader(&dirtyReader{data: roomy(enc), chunk: chunk, fill: fill}), func(int) {})
				parse("MessageReader over a byte reader destroying its data", value.MessageReader(dirtyByteReader{&dirtyReader{data: roomy(enc), chunk: chunk, fill: fill}}), func(int) {})
				w.Step(func() string { return "repeated Read of " + show() })
				r := &dirtyReader{data: roomy(enc), chunk: chunk, fill: fill}
				var hs []*held
				for i, v := range seq {
					x, err := value.Read(r)
					if err != nil {
						w.Fail("error %v", err)
					}
					hs = append(hs, hold(w, fmt.Sprintf("position %d", i), x, v))
					for _, h := range hs {
						h.check(w, fmt.Sprintf("after value %d", i))
					}
				}
				w.Step(func() string { return "ReadStream of " + show() })
				out := make(chan value.Value)
				done := make(chan error, 1)
				go func() {
					done <- value.ReadStream(&dirtyReader{data: roomy(enc), chunk: chunk, fill: fill}, out)
				}()
				hs = nil
				for x := range out {
					if len(hs) == len(seq) {
						w.Fail("more values than written")
					}
					hs = append(hs, &held{x: x, v: seq[len(hs)].Norm(), enc: seq[len(hs)].Encode(), name: fmt.Sprintf("position %d", len(hs))})
				}
				<-done
				if len(hs) != len(seq) {
					w.Fail("%d values instead of %d", len(hs), len(seq))
				}
				for _, h := range hs {
					h.check(w, "after the stream")
				}
			}
		}
		// one buffer used for one message after another
		w.Step(func() string { return "one buffer reused for every message of " + show() })
		buf := make([]byte, 0, len(enc)+8)
		var hs []*held
		for i, v := range seq {
			buf = append(buf[:0], v.Encode()...)
			x, err := value.Unpack(buf, true)
			if err != nil {
				w.Fail("error %v", err)
			}
			hs = append(hs, hold(w, fmt.Sprintf("position %d", i), x, v))
			for _, h := range hs {
				h.check(w, fmt.Sprintf("after message %d", i))
			}
		}
	}
	for n := 1; n <= c.Pick(2, 3); n++ {
		t := 1
		for i := 0; i < n; i++ {
			t *= len(alpha)
		}
		chunks := []int{0, 1}
		if n == 1 {
			chunks = []int{0, 1, 2, 3, 5}
		}
		c.Par(fmt.Sprintf("sequences/%d-values", n), t, func(w *kit.W, i int) {
			seq := make([]*ref.V, n)
			for j := range seq {
				seq[j] = alpha[i%len(alpha)]
				i /= len(alpha)
			}
			run(w, seq, chunks)
		})
	}
	// the kinds that have bytes of their own, one longer each
	var few []*ref.V
	for _, v := range alpha {
		if (v.K == ref.Raw || v.K == ref.Ext) && (len(v.S) == 2 || len(v.S) == 17 || len(v.S) == 32) || v.IsContainer() && len(v.L) > 1 {
			few = append(few, v)
		}
	}
	few = append(few, ref.VLong(1000), ref.VBig(new(big.Int).Lsh(big.NewInt(3), 200)))
	m := c.Pick(3, 4)
	t := 1
	for i := 0; i < m; i++ {
		t *= len(few)
	}
	c.Par(fmt.Sprintf("sequences-of-kinds/%d-values", m), t, func(w *kit.W, i int) {
		seq := make([]*ref.V, m)
		for j := range seq {
			seq[j] = few[i%len(few)]
			i /= len(few)
		}
		run(w, seq, []int{0, 3})
	})
	c.Par("large-values", len(large)*len(large), func(w *kit.W, i int) {
		run(w, []*ref.V{large[i%len(large)], large[i/len(large)], ref.VRaw("tail")}, []int{0, 1000, 65536})
	})
}

// a result of an encoding call: bytes that belong to the caller
type result struct {
	name string
	run  func(x value.Value) ([]byte, error)
	// stable: the same bytes again
	stable bool
}

func results() []result {
	var rs []result
	for _, e := range encoders {
		rs = append(rs, result{e.name, e.run, true})
	}
	rs = append(rs, result{"MarshalJSON", func(x value.Value) ([]byte, error) {
		if x == nil {
			return value.Null.MarshalJSON()
		}
		return x.MarshalJSON()
	}, true}, result{"data of Hash", func(x value.Value) ([]byte, error) {
		b, _, err := value.Hash(x, crypto.SHA256)
		return b, err
	}, true}, result{"hash of Hash", func(x value.Value) ([]byte, error) {
		_, b, err := value.Hash(x, crypto.SHA256)
		return b, err
	}, true}, result{"Seal", func(x value.Value) ([]byte, error) {
		a, b := makeKeys(1), makeKeys(2)
		return value.Seal(x, b.pub, a.priv)
	}, false})
	return rs
}

func aliasResults(c *kit.Ctx) {
	alpha := aliasAlphabet()
	if !c.Thorough() { // lengths that differ in nothing but themselves are left to the thorough tier
		var few []*ref.V
		for _, v := range alpha {
			if v.IsContainer() || v.K == ref.Big || v.K == ref.Dec || len(v.S) < 3 || len(v.S) == 17 || len(v.S) == 255 {
				few = append(few, v)
			}
		}
		alpha = few
	}
	rs := results()
	c.Bound("result_values", len(alpha))
	c.Bound("encoding_calls", len(rs))
	flavours := c.Pick(2, 3)
	n := len(alpha) * len(rs)
	c.Par("results", n*len(rs), func(w *kit.W, i int) {
		v1, r1, r2 := alpha[i%n/len(rs)], rs[i%len(rs)], rs[i/n]
		w.NewState()
		for fl := 0; fl < flavours; fl++ {
			for _, v2 := range alpha {
				x1 := ref.Build(v1, fl)
				x2 := ref.Build(v2, fl)
				if v1 == v2 {
					x2 = x1
				}
				w.Step(func() string { return fmt.Sprintf("%s of %s, then %s of %s", r1.name, v1.Short(), r2.name, v2.Short()) })
				b1, err1 := r1.run(x1)
				want1 := append([]byte(nil), b1...)
				b2, err2 := r2.run(x2)
				want2 := append([]byte(nil), b2...)
				if err1 != nil || err2 != nil {
					w.Fail("errors %v, %v", err1, err2)
				}
				w.Trace()
				if !bytes.Equal(b1, want1) {
					w.Fail("the second call changed the bytes of the first one to %s, they were %s", hexs(b1), hexs(want1))
				}
				scribble(b1, 0xee)
				if !bytes.Equal(b2, want2) {
					w.Fail("overwriting the bytes of the first call changed those of the second one to %s, they were %s", hexs(b2), hexs(want2))
				}
				scribble(b2, 0xdd)
				for j, b := range b1[:cap(b1)] {
					if b != 0xee {
						w.Fail("overwriting the bytes of the second call changed byte %d of the first one", j)
					}
				}
				for k, x := range []value.Value{x1, x2} {
					v := []*ref.V{v1, v2}[k]
					if g := ref.Observe(x); !ref.Same(g.Norm(), v.Norm()) {
						w.Fail("overwriting the bytes changed the value %d to %s", k+1, g.Short())
					}
				}
				for k, r := range []result{r1, r2} {
					if !r.stable {
						continue
					}
					b, err := r.run([]value.Value{x1, x2}[k])
					if want := [][]byte{want1, want2}[k]; err != nil || !bytes.Equal(b, want) {
						w.Fail("after overwriting the bytes the call %d gives %s (error %v), it was %s", k+1, hexs(b), err, hexs(want))
					}
				}
			}
		}
	})
	// the two results of one call, with all the room they have
	c.Par("two-results", len(alpha), func(w *kit.W, i int) {
		v := alpha[i]
		w.NewState()
		for _, h := range []crypto.Hash{crypto.SHA256, crypto.SHA512, crypto.SHA1, crypto.MD5} {
			if !h.Available() {
				continue
			}
			w.Step(func() string { return fmt.Sprintf("Hash(%v) of %s", h, v.Short()) })
			for k := 0; k < 2; k++ {
				data, sum, err := value.Hash(ref.Build(v, 0), h)
				if err != nil {
					w.Fail("error %v", err)
				}
				one, other := data, sum
				if k == 1 {
					one, other = sum, data
				}
				want := append([]byte(nil), other...)
				scribble(one, 0xee)
				one = append(one, make([]byte, 200)...)
				w.Trace()
				if !bytes.Equal(other, want) {
					w.Fail("overwriting result %d changed the other one to %s, it was %s", k+1, hexs(other), hexs(want))
				}
			}
		}
	})
}

// aliasBlobs: blobs created with copying, payloads decoded by the exported helpers and arguments of the packer.
func aliasBlobs(c *kit.Ctx, fills []byte) {
	lens := ref.LenBoundaries(70000)
	c.Bound("blob_lengths", len(lens))
	c.Par("blobs", len(lens), func(w *kit.W, i int) {
		w.NewState()
		src := make([]byte, lens[i])
		for j := range src {
			src[j] = byte(j*7 + i)
		}
		for k := 0; k < 4*len(fills); k++ {
			if k >= 8 && len(src) > 4096 {
				break
			}
			fill := fills[k/4]
			w.Step(func() string { return fmt.Sprintf("Raw with copying of %d bytes, filled with %02x", len(src), fill) })
			b := layout(src, k)
			x := value.Raw(b, true)
			h := hold(w, "Raw", x, ref.VRaw(string(src)))
			y := value.ImmutableList([]value.Value{x})
			scribble(b, fill)
			h.check(w, "after overwriting the argument")
			if !ref.Same(ref.Observe(y), ref.VList(ref.VRaw(string(src)))) {
				w.Fail("a list of the blob changed")
			}
			// the packer keeps nothing of its arguments
			w.Step(func() string { return fmt.Sprintf("packer given %d bytes, filled with %02x", len(src), fill) })
			var out bytes.Buffer
			p := value.MessagePacker(&out)
			b = layout(src, k)
			p.PackBin(b)
			scribble(b, fill)
			b = layout(src, k)
			p.PackExt(9, b)
			scribble(b, fill)
			b = layout(src, k)
			p.PackRaw(b)
			scribble(b, fill)
			want := append(ref.VExt(9, string(src)).Enc(ref.VRaw(string(src)).Enc(nil)), src...)
			if p.Error() != nil || !bytes.Equal(out.Bytes(), want) {
				w.Fail("packed %s (error %v), expected %s", hexs(out.Bytes()), p.Error(), hexs(want))
			}
		}
	})
	// text handed out as bytes
	var texts []string
	for _, n := range []int{1, 2, 31, 32, 255, 4096} {
		texts = append(texts, string(bytes.Repeat([]byte("t"), n)))
	}
	c.Par("bytes-of-text", len(texts), func(w *kit.W, i int) {
		w.NewState()
		v := ref.VUtf8(texts[i])
		w.Step(func() string { return "Raw() of " + v.Short() })
		enc := v.Encode()
		for _, x := range []value.Value{value.Utf8(string([]byte(texts[i]))), ref.Build(ref.VList(v), ref.FDecoded).(value.List).GetAt(0)} {
			b := x.(value.String).Raw()
			scribble(b, 'X')
			hold(w, "Raw() of a text, overwritten", x, v)
		}
		// decoded text keeps nothing of the buffer even without copying
		b := roomy(enc)
		x, _ := value.Unpack(b, true)
		scribble(b, 'X')
		hold(w, "Unpack", x, v)
	})
	bigs := ref.BigInts()
	c.Par("number-payloads", len(bigs), func(w *kit.W, i int) {
		w.NewState()
		n := bigs[i]
		payload := ref.BigPayload(n)
		for k, fill := range fills {
			w.Step(func() string { return fmt.Sprintf("UnpackBigInt of %x, filled with %02x", payload, fill) })
			b := layout(payload, k+i)
			g, err := value.UnpackBigInt(b)
			scribble(b, fill)
			if err != nil || g.Cmp(n) != 0 {
				w.Fail("is %v (error %v)", g, err)
			}
			d := append([]byte{0, 0, 0, byte(i)}, payload...)
			w.Step(func() string { return fmt.Sprintf("UnpackDecimal of %x, filled with %02x", d, fill) })
			b = layout(d, k+i)
			if dec, err := value.UnpackDecimal(b); err == nil {
				text, enc := dec.String(), append([]byte(nil), b...)
				scribble(b, fill)
				if dec.String() != text {
					w.Fail("was %s, is %s", text, dec.String())
				}
				if again, _ := value.UnpackDecimal(enc); !again.Equal(dec) {
					w.Fail("was %s, is %s", again, dec)
				}
			}
		}
	})
}

func aliasStructs(c *kit.Ctx, fills []byte) {
	zoo := structZoo()
	c.Bound("struct_types", len(zoo))
	c.Par("structs", len(zoo), func(w *kit.W, i int) {
		t := zoo[i]
		type kept struct {
			x    reflect.Value
			want string
			enc  []byte
		}
		var ks []kept
		buf := make([]byte, 0, 1<<16)
		for n, x := range populated(t, 2) {
			w.NewState()
			w.Step(func() string { return fmt.Sprintf("unpacking %v number %d", t, n) })
			enc := modelPack(x.Elem())
			for k, fill := range fills {
				b := layout(enc, k+i+n)
				y := reflect.New(t)
				if err := value.UnpackStruct(b, y.Interface(), true); err != nil {
					w.Fail("error %v", err)
				}
				before := dump(y.Elem())
				scribble(b, fill)
				w.Trace()
				if g := dump(y.Elem()); g != before {
					w.Fail("after overwriting the buffer the struct holds %s, it held %s", g, before)
				}
			}
			// one buffer for one struct after another
			buf = append(buf[:0], enc...)
			y := reflect.New(t)
			if err := value.UnpackStruct(buf, y.Interface(), true); err != nil {
				w.Fail("error %v", err)
			}
			ks = append(ks, kept{y, dump(y.Elem()), enc})
			for _, k := range ks {
				if g := dump(k.x.Elem()); g != k.want {
					w.Fail("reusing the buffer changed an earlier struct to %s, it held %s", g, k.want)
				}
			}
			// results of packing
			b1, err1 := value.PackStruct(y.Interface())
			b2, err2 := value.PackStruct(y.Interface())
			if err1 != nil || err2 != nil || !bytes.Equal(b1, b2) {
				w.Fail("packing twice gives %s and %s (errors %v, %v)", hexs(b1), hexs(b2), err1, err2)
			}
			keep := append([]byte(nil), b2...)
			scribble(b1, 0xee)
			if !bytes.Equal(b2, keep) {
				w.Fail("overwriting packed bytes changed the bytes of another call")
			}
			b3, _ := value.PackStruct(y.Interface())
			if g := dump(y.Elem()); g != ks[len(ks)-1].want || !bytes.Equal(b3, keep) {
				w.Fail("overwriting packed bytes changed the struct to %s, packed %s", g, hexs(b3))
			}
		}
	})
}

// aliasStructPayloads: struct fields with payloads of every size class.
func aliasStructPayloads(c *kit.Ctx, fills []byte) {
	lens := ref.LenBoundaries(c.Pick(140000, 600000))
	for _, n := range []int{1000, 2000, 8191, 8192, 10000, 16384, 50000, 262144} {
		lens = append(lens, n)
	}
	c.Bound("struct_payload_lengths", len(lens))
	c.Par("struct-payloads", len(lens), func(w *kit.W, i int) {
		n := lens[i]
		p := bytes.Repeat([]byte("p"), n)
		raw, txt, ext := ref.Build(ref.VRaw(string(p)), 0), ref.Build(ref.VUtf8(string(p)), 0), ref.Build(ref.VExt(9, string(p)), 0)
		small := value.Raw([]byte("small"), true)
		for k, x := range []*StBig{{S: raw.(value.String)}, {S: txt.(value.String)}, {V: ext}, {L: value.ImmutableList([]value.Value{raw, small, ext})}, {M: value.ImmutableMapOf(map[string]value.Value{string(p): raw, "k": small})},
			{R: []value.Value{small, raw, ext, small}}, {A: [2]value.Value{raw, small}}, {I: &StInner{A: raw}}, {J: []*StInner{{A: small}, {A: ext}}}, {K: []*StInner{{A: raw}, {A: small}}}} {
			enc := modelPack(reflect.ValueOf(x).Elem())
			w.NewState()
			for f, fill := range fills {
				w.Step(func() string {
					return fmt.Sprintf("unpacking struct %d with payloads of %d bytes, buffer filled with %02x", k, n, fill)
				})
				b := layout(enc, k+i+f)
				y := &StBig{}
				if err := value.UnpackStruct(b, y, true); err != nil {
					w.Fail("error %v", err)
				}
				scribble(b, fill)
				w.Trace()
				if !bytes.Equal(modelPack(reflect.ValueOf(y).Elem()), enc) {
					w.Fail("overwriting the buffer changed the struct")
				}
			}
		}
	})
}

func aliasSealed(c *kit.Ctx, fills []byte) {
	alpha := append(aliasAlphabet(), ref.VRaw(string(make([]byte, 70000))))
	c.Par("sealed", len(alpha), func(w *kit.W, i int) {
		w.NewState()
		v := alpha[i]
		a, b := makeKeys(1), makeKeys(2)
		for k, fill := range fills {
			w.Step(func() string { return fmt.Sprintf("unsealing %s, ciphertext filled with %02x", v.Short(), fill) })
			s, err := value.Seal(ref.Build(v, 0), b.pub, a.priv)
			if err != nil {
				w.Fail("error %v", err)
			}
			s2 := layout(s, k+i)
			x, err := value.Unseal(s, a.pub, b.priv)
			if err != nil {
				w.Fail("error %v", err)
			}
			h := hold(w, "Unseal", x, v)
			scribble(s, fill)
			h.check(w, "after overwriting the sealed bytes")
			y, err := value.Unseal(s2, a.pub, b.priv)
			if err != nil {
				w.Fail("error %v", err)
			}
			h.check(w, "after unsealing again")
			hold(w, "unsealing again", y, v)
		}
	})
}
