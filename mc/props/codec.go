package props

import (
	"bytes"
	"crypto"
	"crypto/sha256"
	_ "crypto/sha512"
	"fmt"
	"io"
	"math"
	mbig "math/big"
	"runtime"
	"sort"
	"strings"
	"time"

	"verif/mc/kit"
	"verif/mc/ref"

	"github.com/codeallergy/value"
)

func init() {
	All["C01"] = C01
	All["C02"] = C02
	All["C03"] = C03
	All["C24"] = C24
}

const emptySparseKey = "empty sparse list encodes as the empty map"

// emptySparseAsMap is v as decoding its bytes reads it: the recorded format ambiguity.
func emptySparseAsMap(v *ref.V) *ref.V {
	if v.K == ref.Sparse && len(v.L) == 0 {
		return ref.VMap(nil, nil)
	}
	if len(v.L) == 0 {
		return v
	}
	d := *v
	d.L = make([]*ref.V, len(v.L))
	for i, e := range v.L {
		d.L[i] = emptySparseAsMap(e)
	}
	return &d
}

// flavoursOf lists the construction flavours worth trying for a value of a family.
func flavoursOf(v *ref.V) []int {
	if !v.IsContainer() {
		return []int{ref.FImmutable}
	}
	if v.Nodes() > 2000 {
		return []int{ref.FImmutable, ref.FMutable}
	}
	return []int{ref.FImmutable, ref.FMutable, ref.FImmOps, ref.FMutOps, ref.FUnsorted}
}

// C01: every encoder x every decoder x every construction flavour over the value spaces.
func C01(c *kit.Ctx) {
	for _, f := range families(c) {
		vs := f.vs
		c.Par("round-trip/"+f.name, len(vs), func(w *kit.W, i int) {
			v := vs[i]
			w.NewState()
			want := v.Norm()
			for _, fl := range flavoursOf(v) {
				x := ref.Build(v, fl)
				var prev []byte
				for _, e := range encoders {
					w.Step(func() string { return fmt.Sprintf("%s of %s (%s)", e.name, v.Short(), ref.FlavourName(fl)) })
					b, err := e.run(x)
					if err != nil {
						w.Fail("encoding failed: %v", err)
					}
					if prev != nil && bytes.Equal(prev, b) {
						continue // same bytes: the decoders have seen them
					}
					prev = b
					for _, d := range decoders {
						for _, tail := range [][]byte{nil, {0xc3}} {
							if d.name == "ReadStream" && tail != nil {
								continue
							}
							in := append(append([]byte(nil), b...), tail...)
							w.Step(func() string {
								return fmt.Sprintf("%s of %s (%s), decoded by %s from %s", e.name, v.Short(), ref.FlavourName(fl), d.name, hexs(in))
							})
							got, n, err := d.run(in)
							if err != nil {
								w.Fail("decoding failed: %v", err)
							}
							if n >= 0 && n != len(b) {
								w.Fail("decoding consumed %d bytes of %d", n, len(b))
							}
							if got == nil {
								w.Fail("decoding returned a nil value without an error")
							}
							g := ref.Observe(got)
							w.Trace()
							if !ref.Same(g, want) {
								if v.HasEmptySparse() && ref.Same(g, emptySparseAsMap(want)) {
									w.FailKey(emptySparseKey, "decoded as %s", g.Short())
									continue
								}
								w.Fail("decoded as %s", g.Short())
							}
						}
					}
				}
			}
			if i < 2 {
				c.Sample("%s <-> %s", v.Short(), hexs(v.Encode()))
			}
		})
	}
	hugeValues(c)
}

// hugeValues: sizes at which an implementation could want to impose a limit, or could switch to another method.
func hugeValues(c *kit.Ctx) {
	big := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i>>16 ^ i>>8 ^ i*3)
		}
		return string(b)
	}
	type huge struct {
		name string
		mk   func() *ref.V
	}
	var hs []huge
	sizes := []int{1 << 17, 1<<18 + 1, 1<<20 - 1, 1<<20 + 1, 1<<22 + 5, 1<<24 + 1}
	counts := []int{1 << 17, 1<<20 + 1}
	if c.Thorough() {
		sizes = append(sizes, 1<<19, 1<<21+1, 1<<23+1, 1<<26+1, 1<<28+1)
		counts = append(counts, 1<<16, 1<<18+1, 1<<22+1)
	}
	for _, n := range sizes {
		hs = append(hs, huge{fmt.Sprintf("blob of %d bytes", n), func() *ref.V { return ref.VRaw(big(n)) }},
			huge{fmt.Sprintf("text of %d bytes", n), func() *ref.V { return ref.VUtf8(big(n)) }},
			huge{fmt.Sprintf("extension of %d bytes", n), func() *ref.V { return ref.VExt(9, big(n)) }})
		if n < 1<<22 {
			hs = append(hs, huge{fmt.Sprintf("big integer of %d bytes", n), func() *ref.V {
				return ref.VBig(new(mbig.Int).SetBytes(append([]byte{1}, big(n-2)...)))
			}}, huge{fmt.Sprintf("map with a key of %d bytes", n), func() *ref.V { return ref.VMap([]string{big(n)}, []*ref.V{ref.VTrue}) }})
		}
	}
	for _, n := range counts {
		els := func() []*ref.V {
			l := make([]*ref.V, n)
			for i := range l {
				l[i] = ref.VLong(int64(i % 128))
			}
			return l
		}
		hs = append(hs, huge{fmt.Sprintf("list of %d", n), func() *ref.V { return ref.VList(els()...) }},
			huge{fmt.Sprintf("sparse list of %d", n), func() *ref.V {
				ks := make([]int, n)
				for i := range ks {
					ks[i] = i*3 - n
				}
				return ref.VSparse(ks, els())
			}}, huge{fmt.Sprintf("map of %d", n), func() *ref.V {
				ks := make([]string, n)
				for i := range ks {
					ks[i] = fmt.Sprintf("%08d", i)
				}
				return ref.VMap(ks, els())
			}})
	}
	c.Bound("huge_values", fmt.Sprintf("%d: lengths up to %d bytes, counts up to %d", len(hs), sizes[len(sizes)-1], counts[len(counts)-1]))
	c.Seq("huge-values", len(hs), func(w *kit.W, i int) {
		w.NewState()
		v := hs[i].mk()
		x := ref.Build(v, 0)
		enc := v.Encode()
		for _, e := range encoders {
			w.Step(func() string { return e.name + " of a " + hs[i].name })
			b, err := e.run(x)
			if err != nil || !bytes.Equal(b, enc) {
				w.Fail("error %v, %d bytes %s, expected %d bytes %s", err, len(b), hexs(b), len(enc), hexs(enc))
			}
		}
		for _, d := range decoders {
			w.Step(func() string { return d.name + " of a " + hs[i].name })
			w.Trace()
			got, n, err := d.run(enc)
			if err != nil {
				w.Fail("decoding failed: %v", err)
			}
			if n >= 0 && n != len(enc) {
				w.Fail("decoding consumed %d bytes of %d", n, len(enc))
			}
			if !ref.Same(ref.Observe(got), v) {
				w.Fail("another value was decoded")
			}
		}
	})
}

// C02: bytes of every encoder against the encoder written from the specification, and every
// packer method on every boundary argument.
func C02(c *kit.Ctx) {
	for _, f := range families(c) {
		vs := f.vs
		c.Par("encode/"+f.name, len(vs), func(w *kit.W, i int) {
			v := vs[i]
			w.NewState()
			want := v.Encode()
			for _, fl := range flavoursOf(v) {
				x := ref.Build(v, fl)
				for _, e := range encoders {
					w.Step(func() string { return fmt.Sprintf("%s of %s (%s)", e.name, v.Short(), ref.FlavourName(fl)) })
					b, err := e.run(x)
					if err != nil {
						w.Fail("encoding failed: %v", err)
					}
					w.Trace()
					if !bytes.Equal(b, want) {
						w.Fail("bytes %s, MessagePack says %s", hexs(b), hexs(want))
					}
				}
				if got := value.Hex(x); got != fmt.Sprintf("%x", want) {
					w.Fail("Hex gives %.200s, expected %s", got, hexs(want))
				}
			}
			if i < 2 {
				c.Sample("%s -> %s", v.Short(), hexs(want))
			}
		})
	}
	// every tag with every length of a fixed size and their neighbours
	c.Bound("extensions", "all 256 tags, lengths 0-18, 31-33, 255-257, 65535, 65536")
	c.Par("extensions", 256, func(w *kit.W, t int) {
		for _, n := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 31, 32, 33, 255, 256, 257, 65535, 65536} {
			data := bytes.Repeat([]byte{byte(n)}, n)
			want := append(ref.EncExtHeader(nil, n, byte(t)), data...)
			w.NewState()
			w.Step(func() string { return fmt.Sprintf("extension %d of %d bytes", t, n) })
			var buf bytes.Buffer
			p := value.MessagePacker(&buf)
			p.PackExt(value.Ext(t), data)
			w.Trace()
			if p.Error() != nil || !bytes.Equal(buf.Bytes(), want) {
				w.Fail("PackExt gives %s (error %v), MessagePack says %s", hexs(buf.Bytes()), p.Error(), hexs(want))
			}
			b, err := value.Pack(value.Unknown(append([]byte{byte(t)}, data...)))
			w.Trace()
			if err != nil || !bytes.Equal(b, want) {
				w.Fail("Pack gives %s (error %v), MessagePack says %s", hexs(b), err, hexs(want))
			}
		}
	})
	packerCalls(c)
}

// packerCalls drives the Packer and the Writer methods directly: all single calls on boundary
// arguments and all sequences of a small call alphabet up to a depth, on one packer.
func packerCalls(c *kit.Ctx) {
	type call struct {
		name string
		do   func(p value.Packer)
		enc  func(b []byte) []byte
	}
	var calls []call
	add := func(name string, do func(p value.Packer), enc func(b []byte) []byte) {
		calls = append(calls, call{name, do, enc})
	}
	for _, i := range ref.IntBoundaries() {
		add(fmt.Sprintf("PackLong(%d)", i), func(p value.Packer) { p.PackLong(i) }, func(b []byte) []byte { return ref.EncInt(b, i) })
	}
	for _, u := range ref.DoubleBits() {
		add(fmt.Sprintf("PackDouble(%x)", u), func(p value.Packer) { p.PackDouble(math.Float64frombits(u)) }, func(b []byte) []byte { return ref.VDoubleBits(u).Enc(b) })
	}
	for _, n := range append(ref.LenBoundaries(140000), 1<<20, 1<<24, math.MaxInt32, math.MaxUint32) {
		add(fmt.Sprintf("PackList(%d)", n), func(p value.Packer) { p.PackList(n) }, func(b []byte) []byte { return ref.EncListHeader(b, n) })
		add(fmt.Sprintf("PackMap(%d)", n), func(p value.Packer) { p.PackMap(n) }, func(b []byte) []byte { return ref.EncMapHeader(b, n) })
		if n > 140000 {
			continue
		}
		s := string(make([]byte, n))
		add(fmt.Sprintf("PackStr(len %d)", n), func(p value.Packer) { p.PackStr(s) }, func(b []byte) []byte { return append(ref.EncStrHeader(b, n), s...) })
		add(fmt.Sprintf("PackBin(len %d)", n), func(p value.Packer) { p.PackBin([]byte(s)) }, func(b []byte) []byte { return append(ref.EncBinHeader(b, n), s...) })
		add(fmt.Sprintf("PackExt(9, len %d)", n), func(p value.Packer) { p.PackExt(9, []byte(s)) }, func(b []byte) []byte { return append(ref.EncExtHeader(b, n, 9), s...) })
		add(fmt.Sprintf("PackRaw(len %d)", n), func(p value.Packer) { p.PackRaw([]byte(s)) }, func(b []byte) []byte { return append(b, s...) })
	}
	for t := 0; t < 256; t++ {
		add(fmt.Sprintf("PackExt(%d)", t), func(p value.Packer) { p.PackExt(value.Ext(t), []byte{1, 2, 3}) }, func(b []byte) []byte { return append(ref.EncExtHeader(b, 3, byte(t)), 1, 2, 3) })
	}
	for k := 0; k < 256; k++ {
		for _, s := range []string{string([]byte{byte(k)}), string([]byte{byte(k), 1}), string([]byte{byte(k), byte(k), 0, 0, 0, 9, 1, 2, 3})} {
			add(fmt.Sprintf("PackRaw(%x)", s), func(p value.Packer) { p.PackRaw([]byte(s)) }, func(b []byte) []byte { return append(b, s...) })
			add(fmt.Sprintf("PackBin(%x)", s), func(p value.Packer) { p.PackBin([]byte(s)) }, func(b []byte) []byte { return append(ref.EncBinHeader(b, len(s)), s...) })
			add(fmt.Sprintf("PackStr(%x)", s), func(p value.Packer) { p.PackStr(s) }, func(b []byte) []byte { return append(ref.EncStrHeader(b, len(s)), s...) })
			add(fmt.Sprintf("PackExt(%d, %x)", k, s), func(p value.Packer) { p.PackExt(value.Ext(k), []byte(s)) }, func(b []byte) []byte { return append(ref.EncExtHeader(b, len(s), byte(k)), s...) })
		}
	}
	add("PackNil", func(p value.Packer) { p.PackNil() }, func(b []byte) []byte { return append(b, 0xc0) })
	add("PackBool(true)", func(p value.Packer) { p.PackBool(true) }, func(b []byte) []byte { return append(b, 0xc3) })
	add("PackBool(false)", func(p value.Packer) { p.PackBool(false) }, func(b []byte) []byte { return append(b, 0xc2) })
	c.Bound("packer_calls", len(calls))
	run := func(w *kit.W, seq []int) {
		w.Step(func() string {
			s := "calls"
			for _, k := range seq {
				s += " " + calls[k].name
			}
			return s
		})
		var buf bytes.Buffer
		p := value.MessagePacker(&buf)
		var want []byte
		for _, k := range seq {
			calls[k].do(p)
			want = calls[k].enc(want)
		}
		w.Trace()
		if p.Error() != nil {
			w.Fail("packer error %v", p.Error())
		}
		if !bytes.Equal(buf.Bytes(), want) {
			w.Fail("bytes %s, expected %s", hexs(buf.Bytes()), hexs(want))
		}
	}
	c.Par("packer-single-calls", len(calls), func(w *kit.W, i int) {
		w.NewState()
		run(w, []int{i})
	})
	// a call alphabet with one representative of every method and size class
	var alpha []int
	pick := map[string]bool{"PackNil": true, "PackBool(true)": true, "PackBool(false)": true}
	for _, s := range []string{"PackLong(5)", "PackLong(-200)", "PackLong(70000)", "PackDouble(3ff8000000000000)", "PackList(3)", "PackList(40)", "PackMap(2)", "PackMap(70000)",
		"PackStr(len 3)", "PackStr(len 40)", "PackStr(len 0)", "PackBin(len 3)", "PackExt(9, len 4)", "PackExt(9, len 5)", "PackRaw(len 3)", "PackRaw(len 1)", "PackRaw(len 0)"} {
		pick[s] = true
	}
	for k := range calls {
		if pick[calls[k].name] {
			alpha = append(alpha, k)
		}
	}
	depth := c.Pick(3, 4)
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(alpha)
	}
	c.Bound("packer_sequence_depth", depth)
	c.Par("packer-call-sequences", n, func(w *kit.W, i int) {
		w.NewState()
		seq := make([]int, depth)
		for j := range seq {
			seq[j] = alpha[i%len(alpha)]
			i /= len(alpha)
		}
		run(w, seq)
	})
}

// C03: all histories over a small operation alphabet grouped by content; all construction
// flavours and insertion orders; distinct contents have distinct bytes.
func C03(c *kit.Ctx) {
	// different content -> different bytes: over all value spaces (modulo nil = null)
	var owner kit.Map
	for _, f := range families(c) {
		vs := f.vs
		c.Par("injective/"+f.name, len(vs), func(w *kit.W, i int) {
			v := vs[i]
			w.NewState()
			w.Step(func() string { return "Hash of " + v.Short() })
			x := ref.Build(v, ref.FImmutable)
			data, sum, err := value.Hash(x, crypto.SHA256)
			if err != nil {
				w.Fail("Hash failed: %v", err)
			}
			s := sha256.Sum256(data)
			if !bytes.Equal(s[:], sum) {
				w.Fail("Hash returned %x, the SHA-256 of the returned data is %x", sum, s)
			}
			b, _ := value.Pack(x)
			if !bytes.Equal(b, data) {
				w.Fail("Hash returned data %s, Pack gives %s", hexs(data), hexs(b))
			}
			w.Trace()
			// the empty sparse list and the empty map share their bytes: recorded under C01
			id := emptySparseAsMap(v.Norm()).Canon()
			if o := owner.Claim(string(sum), id); o != id {
				w.Fail("same bytes as %s", o)
			}
			for _, fl := range flavoursOf(v)[1:] {
				w.Step(func() string { return fmt.Sprintf("Hash of %s (%s)", v.Short(), ref.FlavourName(fl)) })
				y := ref.Build(v, fl)
				for rep := 0; rep < 2; rep++ {
					d2, s2, err := value.Hash(y, crypto.SHA512)
					if err != nil || len(s2) != 64 || !bytes.Equal(d2, data) {
						w.Fail("serializes to %s (%v), the immutable flavour to %s", hexs(d2), err, hexs(data))
					}
				}
				w.Trace()
			}
			if !v.HasEmptySparse() && !v.HasNaN() {
				w.Step(func() string { return "re-serialization of decoded " + v.Short() })
				y, err := value.Unpack(append([]byte(nil), data...), true)
				if err != nil {
					w.Fail("decode failed: %v", err)
				}
				d2, _, err := value.Hash(y, crypto.SHA256)
				if err != nil || !bytes.Equal(d2, data) {
					w.Fail("decoded value serializes to %s, original to %s", hexs(d2), hexs(data))
				}
			}
		})
	}
	hashesByLength(c)
	permutations(c)
	equalKeysInBulk(c)
	fromHashMaps(c)
	histories(c)
}

// hashesByLength: encodings of every length around the block sizes of the hash functions, with every kind
// of last byte, hash to the digest of their bytes.
func hashesByLength(c *kit.Ctx) {
	last := []*ref.V{ref.VNil, ref.VFalse, ref.VTrue, ref.VLong(0), ref.VLong(127), ref.VLong(-1), ref.VLong(-32), ref.VList(), ref.VMap(nil, nil), ref.VUtf8(""), ref.VUtf8("a"), ref.VRaw(""), ref.VUtf8("\x80"), ref.VRaw("\x00")}
	maxN := c.Pick(600, 4200)
	c.Bound("hashed_lengths", maxN)
	hs := []crypto.Hash{crypto.MD5, crypto.SHA1, crypto.SHA224, crypto.SHA256, crypto.SHA384, crypto.SHA512, crypto.SHA512_256}
	c.Par("hashes-by-length", maxN, func(w *kit.W, n int) {
		for k, l := range last {
			var vs []*ref.V
			vs = append(vs, ref.VList(ref.VRaw(strings.Repeat("\xc0", n)), l))
			vs = append(vs, ref.VMap([]string{strings.Repeat("k", n)}, []*ref.V{l}))
			if k == 0 {
				ones := &ref.V{K: ref.List}
				for i := 0; i < n; i++ {
					ones.L = append(ones.L, ref.VNull)
				}
				vs = append(vs, ones, ref.VUtf8(strings.Repeat("\x00", n)), ref.VRaw(strings.Repeat("\xff", n)))
			}
			for _, v := range vs {
				w.NewState()
				want := v.Encode()
				x := ref.Build(v, ref.FImmutable)
				for _, h := range hs {
					if !h.Available() {
						continue
					}
					w.Step(func() string {
						return fmt.Sprintf("Hash with %v of %s with an encoding of %d bytes", h, v.Short(), len(want))
					})
					data, sum, err := value.Hash(x, h)
					w.Trace()
					d := h.New()
					d.Write(want)
					if err != nil || !bytes.Equal(data, want) || !bytes.Equal(sum, d.Sum(nil)) {
						w.Fail("data %s, digest %x, %v", hexs(data), sum, err)
					}
				}
			}
		}
	})
}

// equalKeysInBulk: many entries given at once, some with equal keys: these stay in the order given,
// whatever their number and wherever they are.
func equalKeysInBulk(c *kit.Ctx) {
	maxN := c.Pick(48, 130)
	patterns := []func(i, n int) int{}
	for m := 1; m <= 6; m++ {
		patterns = append(patterns, func(i, n int) int { return i % m }, func(i, n int) int { return (n - i) % m }, func(i, n int) int { return i * m / n }, func(i, n int) int { return (n - 1 - i) * m / n })
	}
	for _, d := range []int{1, 2, 5} { // distinct keys but for two, d apart from each other
		patterns = append(patterns, func(i, n int) int {
			if i == n/3+d {
				return (n / 3) * 7 % n
			}
			return i * 7 % n
		}, func(i, n int) int {
			if i == n-1 {
				return d % n
			}
			return i
		}, func(i, n int) int {
			if i == n-1 {
				return n - 1 - d
			}
			return n - 1 - i
		})
	}
	c.Bound("entries_with_equal_keys", maxN)
	c.Par("equal-keys-in-bulk", maxN*len(patterns), func(w *kit.W, ci int) {
		n, pat := 1+ci/len(patterns), patterns[ci%len(patterns)]
		w.NewState()
		mv, sv := ref.VMap(nil, nil), ref.VSparse(nil, nil)
		ord := make([]int, n)
		key := make([]int, n)
		for i := range ord {
			ord[i], key[i] = i, pat(i, n)
		}
		sort.SliceStable(ord, func(a, b int) bool { return key[ord[a]] < key[ord[b]] })
		for _, i := range ord {
			mv.SK, sv.IK = append(mv.SK, fmt.Sprintf("k%04d", key[i]+500)), append(sv.IK, key[i]*3-20)
			mv.L = append(mv.L, ref.VLong(int64(i)))
		}
		sv.L = mv.L
		wantM, wantS := mv.Encode(), sv.Encode()
		check := func(what string, x value.Value, want []byte) {
			w.Step(func() string {
				return fmt.Sprintf("%s of entries with the keys %v and their positions as values", what, key)
			})
			b, err := value.Pack(x)
			w.Trace()
			if err != nil || !bytes.Equal(b, want) {
				w.Fail("contains %s (%v)", ref.Observe(x).Short(), err)
			}
		}
		for _, mut := range []bool{false, true} {
			entries := func() []value.MapEntry {
				es := make([]value.MapEntry, n)
				for i := range es {
					k, x := fmt.Sprintf("k%04d", key[i]+500), value.Long(int64(i))
					if es[i] = value.ImmutableEntry(k, x); mut {
						es[i] = value.MutableEntry(k, x)
					}
				}
				return es
			}
			items := make([]value.ListItem, n)
			for i := range items {
				k, x := key[i]*3-20, value.Long(int64(i))
				if items[i] = value.ImmutableItem(k, x); mut {
					items[i] = value.MutableItem(k, x)
				}
			}
			im, sm := value.ImmutableMap(entries(), false), value.SortedMap(entries(), false)
			check("ImmutableMap", im, wantM)
			check("SortedMap", sm, wantM)
			check("ImmutableMapCopyOf", value.ImmutableMapCopyOf(sm), wantM)
			check("SortedMapCopyOf", value.SortedMapCopyOf(im), wantM)
			check("SparseList", value.SparseList(items, false), wantS)
		}
		// one by one: equal keys go in front of those already there
		m, s := value.EmptyMap(n%2 == 0), value.EmptySparseList()
		for i := n - 1; i >= 0; i-- {
			m = m.Insert(fmt.Sprintf("k%04d", key[i]+500), value.Long(int64(i)))
			s = s.InsertAt(key[i]*3-20, value.Long(int64(i)))
		}
		check("insertions, last entry first", m, wantM)
		check("insertions into a sparse list, last entry first", s, wantS)
	})
}

// permutations: every order of adding up to n distinct keys, one by one and in bulk.
func permutations(c *kit.Ctx) {
	n := c.Pick(6, 7)
	permsOf := func(n int) [][]int {
		var perms [][]int
		var rec func(cur []int, used int)
		rec = func(cur []int, used int) {
			if len(cur) == n {
				perms = append(perms, append([]int(nil), cur...))
				return
			}
			for i := 0; i < n; i++ {
				if used>>i&1 == 0 {
					rec(append(cur, i), used|1<<i)
				}
			}
		}
		rec(nil, 0)
		return perms
	}
	perms := permsOf(n)
	c.Bound("permuted_keys", n)
	keySets := [][]string{{"", "a", "aa", "b", "0", "10", "9"}, {"b", "A", "a", "B", "_", "aA", "Ab"},
		{"\xff", "a", "a\x00", "\x80", "\u00e9", "e\u0301", "\U0001F600"}, {"key10", "key9", "Key9", "key1", "key", "KEY1", " key"}}
	ikeySets := [][]int{{-3, 0, 1, 2, 10, 127, 70000}, {math.MinInt64, math.MaxInt64, 0, -1, 1, -1 << 32, 1 << 32},
		{1 << 31, 1<<31 - 1, -1 << 31, 1 << 32, 1<<32 - 1, -1<<31 - 1, 5}, {-1, -2, -10, -9, -128, -129, -33}}
	for set := range keySets {
		permuted(c, n, perms, fmt.Sprint(set), keySets[set], ikeySets[set])
	}
	// keys that only differ behind a common prefix, indexes that only differ in their low bits
	m := c.Pick(4, 5)
	few := permsOf(m)
	lens := []int{127, 128, 255, 256, 300, 1000, 4096}
	for i := 1; i <= 66; i++ {
		lens = append(lens, i)
	}
	for _, l := range lens {
		b := 1 << (l % 63)
		for r := 0; r < 2; r++ {
			keys := ref.PrefixKeys(l)
			ik := []int{b, b + 1, b - 1, -b, b ^ 0x100, -b - 1, b ^ 0x10000}
			if r == 1 {
				keys, ik = keys[2:], []int{-b, b ^ 1<<40, b ^ 1<<32, b ^ 1<<31, b ^ 1<<62, b ^ 1<<16, b ^ 1<<8}
				if b == 1<<62 {
					ik[4] = 7
				}
			}
			permuted(c, m, few, fmt.Sprintf("prefix-%d-%d", l, r), keys, ik)
		}
	}
}

func permuted(c *kit.Ctx, n int, perms [][]int, set string, keys []string, ikeys []int) {
	for k := 1; k <= n; k++ {
		var mv, sv *ref.V = ref.VMap(nil, nil), ref.VSparse(nil, nil)
		for i := 0; i < k; i++ {
			mv = ref.Apply(mv, ref.Op{Name: "put", K: keys[i], Val: ref.VLong(int64(i))})
			sv = ref.Apply(sv, ref.Op{Name: "put", I: ikeys[i], Val: ref.VLong(int64(i))})
		}
		wantM, wantS := mv.Encode(), sv.Encode()
		c.Par(fmt.Sprintf("insertion-orders/key-set-%s/%d-keys", set, k), len(perms), func(w *kit.W, pi int) {
			p := perms[pi]
			for i := k; i < n; i++ {
				if p[i] != i {
					return // each permutation of the first k keys once
				}
			}
			w.NewState()
			check := func(what string, x value.Value, want []byte) {
				w.Step(func() string { return fmt.Sprintf("%s in order %v", what, p[:k]) })
				b, err := value.Pack(x)
				w.Trace()
				if err != nil || !bytes.Equal(b, want) {
					w.Fail("bytes %s (%v), expected %s", hexs(b), err, hexs(want))
				}
			}
			for _, imm := range []bool{true, false} {
				put, ins, all, re := value.EmptyMap(imm), value.EmptyMap(imm), value.EmptyMap(imm), value.EmptyMap(imm)
				var entries []value.MapEntry
				h := map[string]value.Value{}
				for _, i := range p[:k] {
					x := value.Long(int64(i))
					put = put.Put(keys[i], x)
					ins = ins.Insert(keys[i], x)
					all = all.InsertAll(keys[i], []value.Value{x})
					re = re.Put(keys[i], value.Utf8("old")).Remove(keys[i]).Put(keys[i], value.Null).Put(keys[i], value.Double(float64(i))).Put(keys[i], x)
					entries = append(entries, value.MutableEntry(keys[i], x))
					h[keys[i]] = x
				}
				check(fmt.Sprintf("map immutable=%v put", imm), put, wantM)
				check(fmt.Sprintf("map immutable=%v insert", imm), ins, wantM)
				check(fmt.Sprintf("map immutable=%v insertall", imm), all, wantM)
				check(fmt.Sprintf("map immutable=%v put/remove/put", imm), re, wantM)
				if imm {
					check("ImmutableMap", value.ImmutableMap(append([]value.MapEntry(nil), entries...), false), wantM)
					check("ImmutableMapOf", value.ImmutableMapOf(h), wantM)
					check("ImmutableMapCopyOf", value.ImmutableMapCopyOf(put), wantM)
				} else {
					check("SortedMap", value.SortedMap(append([]value.MapEntry(nil), entries...), false), wantM)
					check("SortedMapOf", value.SortedMapOf(h), wantM)
					check("SortedMapCopyOf", value.SortedMapCopyOf(put), wantM)
				}
			}
			put, ins, re := value.EmptySparseList(), value.EmptySparseList(), value.EmptySparseList()
			var items []value.ListItem
			enc := ref.EncMapHeader(nil, k)
			menc := ref.EncMapHeader(nil, k)
			for _, i := range p[:k] {
				x := value.Long(int64(i))
				put = put.PutAt(ikeys[i], x)
				ins = ins.InsertAt(ikeys[i], x)
				re = re.PutAt(ikeys[i], value.Utf8("old")).RemoveAt(ikeys[i]).PutAt(ikeys[i], value.Null).PutAt(ikeys[i], value.Double(float64(i))).PutAt(ikeys[i], x)
				items = append(items, value.ImmutableItem(ikeys[i], x))
				enc = ref.VLong(int64(i)).Enc(ref.EncInt(enc, int64(ikeys[i])))
				menc = ref.VLong(int64(i)).Enc(ref.VUtf8(keys[i]).Enc(menc))
			}
			check("sparse put", put, wantS)
			check("sparse insert", ins, wantS)
			check("sparse put/remove/put", re, wantS)
			check("SparseList", value.SparseList(items, false), wantS)
			ds, err := value.Unpack(enc, true)
			if err != nil {
				w.Fail("decode %x: %v", enc, err)
			}
			check("decoded index map", ds, wantS)
			dm, err := value.Unpack(menc, true)
			if err != nil {
				w.Fail("decode %x: %v", menc, err)
			}
			check("decoded text map", dm, wantM)
		})
	}
}

// histories: the whole tree of operation histories over a tiny alphabet; whatever the
// history, the bytes are those of the content.
func histories(c *kit.Ctx) {
	type start struct {
		name string
		kind ref.Kind
		mk   func() value.Value
	}
	starts := []start{
		{"immutable-list", ref.List, func() value.Value { return value.EmptyList(true) }},
		{"mutable-list", ref.List, func() value.Value { return value.EmptyList(false) }},
		{"immutable-map", ref.Map, func() value.Value { return value.EmptyMap(true) }},
		{"mutable-map", ref.Map, func() value.Value { return value.EmptyMap(false) }},
		{"sparse", ref.Sparse, func() value.Value { return value.EmptySparseList() }},
	}
	depth := c.Pick(5, 6)
	c.Bound("history_depth", depth)
	for _, st := range starts {
		ops := smallOps(st.kind)
		n := 1
		for i := 0; i < depth; i++ {
			n *= len(ops)
		}
		root := &ref.V{K: st.kind}
		c.Par("histories/"+st.name, n, func(w *kit.W, i int) {
			x, v := st.mk(), root
			path := make([]ref.Op, depth)
			k := i
			for j := range path {
				path[j] = ops[k%len(ops)]
				k /= len(ops)
			}
			w.Step(func() string { return st.name + " " + pathString(path, st.kind) })
			for _, o := range path {
				x = ref.ApplyImpl(x, o, o.Args(0))
				v = ref.Apply(v, o)
			}
			c.State(v.Canon())
			b, err := value.Pack(x)
			b2, err2 := value.Pack(x)
			w.Trace()
			if err != nil || err2 != nil || !bytes.Equal(b, b2) {
				w.Fail("serializing twice gives %s and %s (%v %v)", hexs(b), hexs(b2), err, err2)
			}
			if !bytes.Equal(b, v.Encode()) {
				w.Fail("content %s serializes to %s, expected %s", v.Short(), hexs(b), hexs(v.Encode()))
			}
		})
	}
}

func smallOps(k ref.Kind) []ref.Op {
	x, y := ref.VLong(1), ref.VDouble(1) // equal, and still different content
	switch k {
	case ref.Map:
		return []ref.Op{{Name: "put", K: "a", Val: x}, {Name: "put", K: "b", Val: y}, {Name: "put", K: "a", Val: y}, {Name: "insert", K: "b", Val: x},
			{Name: "insert", K: "c", Val: x}, {Name: "remove", K: "a"}, {Name: "remove", K: "b"}, {Name: "deleteall", K: "b"}, {Name: "insertall", K: "a", Vals: []*ref.V{x, y}}, {Name: "put", K: "c", Val: x}}
	case ref.Sparse:
		return []ref.Op{{Name: "put", I: 0, Val: x}, {Name: "put", I: 2, Val: y}, {Name: "put", I: 0, Val: y}, {Name: "insert", I: 2, Val: x},
			{Name: "insert", I: 5, Val: x}, {Name: "remove", I: 0}, {Name: "remove", I: 2}, {Name: "deleteall", I: 2}, {Name: "insertall", I: 0, Vals: []*ref.V{x, y}}, {Name: "append", Val: x}}
	}
	return []ref.Op{{Name: "append", Val: x}, {Name: "put", I: 0, Val: y}, {Name: "put", I: 2, Val: x}, {Name: "insert", I: 0, Val: x},
		{Name: "insert", I: 1, Val: y}, {Name: "remove", I: 0}, {Name: "remove", I: 1}, {Name: "remove", I: 2}, {Name: "insertall", I: 1, Vals: []*ref.V{x, y}}, {Name: "append", Val: y}}
}

func pathString(path []ref.Op, k ref.Kind) string {
	s := ""
	for _, o := range path {
		s += "." + o.String(k)
	}
	return s
}

// C24: every sequence of up to n values from a size-class alphabet through every way of
// writing and every way of reading a sequence.
func C24(c *kit.Ctx) {
	alpha := []*ref.V{ref.VNil, ref.VTrue, ref.VLong(5), ref.VLong(-70000), ref.VDouble(2.5), ref.VUtf8(""), ref.VUtf8("abc"),
		ref.VRaw(string(make([]byte, 40))), ref.VExt(7, "wxyz"), ref.VExt(7, "wxyz5"), ref.VList(), ref.VMap(nil, nil),
		ref.VList(ref.VNil, ref.VLong(1)), ref.VMap([]string{"a", "b"}, []*ref.V{ref.VTrue, ref.VList(ref.VUtf8("x"))}),
		ref.VSparse([]int{-1, 300}, []*ref.V{ref.VNull, ref.VUtf8("q")}), ref.Scalars(10)[700]}
	if len(alpha) != 16 {
		panic("alphabet")
	}
	maxN := c.Pick(3, 4)
	c.Bound("sequence_length", maxN)
	c.Bound("value_alphabet", len(alpha))
	for n := 0; n <= maxN; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(alpha)
		}
		c.Par(fmt.Sprintf("sequences/%d-values", n), total, func(w *kit.W, idx int) {
			w.NewState()
			seq := make([]*ref.V, n)
			k := idx
			for j := range seq {
				seq[j] = alpha[k%len(alpha)]
				k /= len(alpha)
			}
			sequenceCase(w, seq, idx%2)
		})
	}
	// long runs of one value, and of two in turn
	runs := []int{130, 260, 300, c.Pick(600, 2100)}
	c.Bound("runs_of_values", fmt.Sprintf("lengths %v of each of the alphabet", runs))
	c.Par("runs", len(runs)*len(alpha), func(w *kit.W, i int) {
		n, k := runs[len(runs)-1-i/len(alpha)], i%len(alpha)
		a, b := make([]*ref.V, n), make([]*ref.V, n)
		for j := range a {
			a[j], b[j] = alpha[k], alpha[k]
			if j%2 == 1 {
				b[j] = alpha[(k+1+j%3)%len(alpha)]
			}
		}
		w.NewState()
		sequenceCase(w, a, i%2)
		sequenceCase(w, b, i%2)
	})
	// every kind of value between others and repeated
	all := append(ref.Trees(1, ref.SmallLeaves(), false), ref.Trees(2, ref.SmallLeaves(), false)...)
	all = append(append(all, ref.Trees(3, ref.SmallLeaves()[:c.Pick(6, 12)], false)...), ref.Scalars(300)...)
	all = append(append(all, ref.BigContainers(300)...), ref.SpecialKeyMaps()[:200]...)
	c.Bound("values_between_others", len(all))
	c.Par("values-between-others", len(all), func(w *kit.W, i int) {
		if all[i].HasEmptySparse() {
			return
		}
		w.NewState()
		sequenceCase(w, []*ref.V{all[i], ref.VLong(5), all[i], all[i]}, i%2)
	})
	// long sequences: positions on the boundaries of any buffering
	lens := []int{15, 16, 17, 100, 255, 256, 257, 1000, 4096, 5000}
	c.Par("long-sequences", len(lens)*len(alpha), func(w *kit.W, i int) {
		w.NewState()
		n := lens[i/len(alpha)]
		seq := make([]*ref.V, n)
		for j := range seq {
			seq[j] = alpha[(i%len(alpha)+j*((i%3)+1))%len(alpha)]
		}
		sequenceCase(w, seq, i%2)
	})
	lagging(c, alpha)
	// large values inside a sequence
	big := []*ref.V{ref.VUtf8(string(make([]byte, 70000))), ref.VRaw(string(make([]byte, 4096))), ref.VRaw(string(make([]byte, 4095))), ref.VUtf8(string(make([]byte, 512)))}
	c.Par("large-values-in-sequences", 4*4*4, func(w *kit.W, i int) {
		w.NewState()
		sequenceCase(w, []*ref.V{big[i%4], ref.VLong(int64(i)), big[i/4%4], big[i/16]}, i%2)
	})
}

func sequenceCase(w *kit.W, seq []*ref.V, fl int) {
	var want []byte
	var xs []value.Value
	for _, v := range seq {
		want = v.Enc(want)
		xs = append(xs, ref.Build(v, fl))
	}
	show := func() string {
		s := ref.VList(seq...).Short()
		return s
	}
	check := func(how string, b []byte, err error) {
		w.Trace()
		if err != nil {
			w.Fail("%s: error %v", how, err)
		}
		if !bytes.Equal(b, want) {
			w.Fail("%s: bytes %s, the concatenated encodings are %s", how, hexs(b), hexs(want))
		}
	}
	w.Step(func() string { return "one packer writes " + show() })
	var b1 bytes.Buffer
	p := value.MessagePacker(&b1)
	for _, x := range xs {
		if x == nil {
			p.PackNil()
		} else {
			x.Pack(p)
		}
	}
	check("packer", b1.Bytes(), p.Error())
	// raw bytes between values, whole, split in two and byte by byte
	for _, mode := range []int{0, 1, 2} {
		if mode == 2 && len(want) > 2000 {
			continue
		}
		w.Step(func() string {
			return fmt.Sprintf("one packer writes %s, every other value as raw bytes (%d)", show(), mode)
		})
		var b bytes.Buffer
		p := value.MessagePacker(&b)
		for i, x := range xs {
			enc := seq[i].Encode()
			switch {
			case (i+mode)%2 == 0:
				if x == nil {
					p.PackNil()
				} else {
					x.Pack(p)
				}
			case mode == 0:
				p.PackRaw(enc)
			case mode == 1:
				p.PackRaw(enc[:len(enc)/2])
				p.PackRaw(nil)
				p.PackRaw(enc[len(enc)/2:])
			default:
				for _, e := range enc {
					p.PackRaw([]byte{e})
				}
			}
		}
		check("packer and raw bytes", b.Bytes(), p.Error())
	}
	w.Step(func() string { return "repeated Write of " + show() })
	var b2 bytes.Buffer
	for _, x := range xs {
		if err := value.Write(&b2, x); err != nil {
			w.Fail("Write error %v", err)
		}
	}
	check("Write", b2.Bytes(), nil)
	for _, capn := range []int{0, 1, len(xs)} {
		w.Step(func() string { return fmt.Sprintf("WriteStream (channel capacity %d) of %s", capn, show()) })
		var b3 bytes.Buffer
		ch := make(chan value.Value, capn)
		go func() {
			for _, x := range xs {
				ch <- x
			}
			close(ch)
		}()
		err := value.WriteStream(&b3, ch)
		check("WriteStream", b3.Bytes(), err)
	}
	compare := func(how string, i int, x value.Value) {
		if i >= len(seq) {
			w.Fail("%s delivered more than %d values: %s", how, len(seq), ref.Observe(x).Short())
		}
		if x == nil || !ref.Same(ref.Observe(x), seq[i].Norm()) {
			w.Fail("%s: value %d is %s, expected %s", how, i, ref.Observe(x).Short(), seq[i].Short())
		}
	}
	for _, cp := range []bool{true, false} {
		w.Step(func() string { return fmt.Sprintf("reading %s from a buffer, copy=%v", show(), cp) })
		u, ps := value.MessageUnpacker(append([]byte(nil), want...), cp), value.MessageParser()
		i := 0
		for {
			x, err := value.Parse(u, ps)
			if err == io.EOF {
				break
			}
			if err != nil {
				w.Fail("value %d: error %v", i, err)
			}
			compare("buffer", i, x)
			i++
		}
		w.Trace()
		if i != len(seq) {
			w.Fail("end of file after %d of %d values", i, len(seq))
		}
		for k := 0; k < 2; k++ {
			if _, err := value.Parse(u, ps); err != io.EOF {
				w.Fail("reading again after end of file gives %v", err)
			}
		}
	}
	for _, plain := range []bool{false, true} {
		mk := func() (io.Reader, *bytes.Reader) {
			r := bytes.NewReader(want)
			if plain {
				return PlainReader{r}, r
			}
			return r, r
		}
		w.Step(func() string { return fmt.Sprintf("repeated Read of %s, plain=%v", show(), plain) })
		r, br := mk()
		off := 0
		for i := 0; ; i++ {
			x, err := value.Read(r)
			if err == io.EOF {
				if i != len(seq) {
					w.Fail("end of file after %d of %d values", i, len(seq))
				}
				break
			}
			if err != nil {
				w.Fail("value %d: error %v", i, err)
			}
			compare("Read", i, x)
			off += len(seq[i].Encode())
			if len(want)-br.Len() != off {
				w.Fail("after value %d the reader is at %d, expected %d", i, len(want)-br.Len(), off)
			}
		}
		w.Trace()
		w.Step(func() string { return fmt.Sprintf("one MessageReader over %s, plain=%v", show(), plain) })
		r, _ = mk()
		u, ps := value.MessageReader(r), value.MessageParser()
		i := 0
		for {
			x, err := value.Parse(u, ps)
			if err == io.EOF {
				break
			}
			if err != nil {
				w.Fail("value %d: error %v", i, err)
			}
			compare("MessageReader", i, x)
			i++
		}
		if i != len(seq) {
			w.Fail("end of file after %d of %d values", i, len(seq))
		}
		w.Trace()
		for _, capn := range []int{0, len(seq) + 1} {
			w.Step(func() string {
				return fmt.Sprintf("ReadStream of %s, plain=%v, channel capacity %d", show(), plain, capn)
			})
			r, _ = mk()
			out := make(chan value.Value, capn)
			errc := make(chan error, 1)
			go func() { errc <- value.ReadStream(r, out) }()
			i := 0
			for x := range out {
				compare("ReadStream", i, x)
				i++
			}
			if err := <-errc; err != io.EOF {
				w.Fail("ReadStream ended with %v", err)
			}
			if i != len(seq) {
				w.Fail("stream closed after %d of %d values", i, len(seq))
			}
			w.Trace()
		}
	}
}

// settled waits until every goroutine inside of the library is blocked on a channel, or done says
// that there is none any more.
func settled(done func() bool) {
	buf := make([]byte, 1<<20)
	for i := 0; ; i++ {
		if done() {
			return
		}
		n := runtime.Stack(buf, true)
		busy, found := false, false
		for _, g := range strings.Split(string(buf[:n]), "\n\n")[1:] {
			if !strings.Contains(g, "codeallergy/value.") {
				continue
			}
			found = true
			state, _, _ := strings.Cut(g[strings.Index(g, "[")+1:], "]")
			if !strings.HasPrefix(state, "chan ") && !strings.HasPrefix(state, "select") && !strings.HasPrefix(state, "sync.") {
				busy = true
			}
		}
		if found && !busy {
			return
		}
		if i < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(20 * time.Microsecond)
		}
	}
}

// lagging explores every pattern of the other side of a stream being slow: before each of its
// channel operations it either goes on at once or waits until the stream is blocked.
func lagging(c *kit.Ctx, alpha []*ref.V) {
	maxN, maxCap := c.Pick(6, 8), 4
	c.Bound("lag_patterns", fmt.Sprintf("all patterns over up to %d values, channel capacities 0 to %d", maxN, maxCap))
	type cs struct{ n, capn, mask int }
	var cases []cs
	for n := 0; n <= maxN; n++ {
		for capn := 0; capn <= maxCap; capn++ {
			for mask := 0; mask < 2<<n; mask++ {
				cases = append(cases, cs{n, capn, mask})
			}
		}
	}
	c.Seq("slow-channels", len(cases), func(w *kit.W, ci int) {
		k := cases[ci]
		w.NewState()
		var seq []*ref.V
		var xs []value.Value
		var want []byte
		for i := 0; i < k.n; i++ {
			v := alpha[(i*5+k.mask)%len(alpha)]
			seq = append(seq, v)
			xs = append(xs, ref.Build(v, 0))
			want = v.Enc(want)
		}
		w.Step(func() string {
			return fmt.Sprintf("ReadStream of %s into a channel of %d, waiting before receives %b", ref.VList(seq...).Short(), k.capn, k.mask)
		})
		out := make(chan value.Value, k.capn)
		errc := make(chan error, 1)
		go func() { errc <- value.ReadStream(bytes.NewReader(want), out) }()
		ended := func() bool { return len(errc) > 0 }
		i := 0
		for {
			if k.mask>>i&1 == 1 {
				settled(ended)
			}
			x, ok := <-out
			if !ok {
				break
			}
			if i >= k.n {
				w.Fail("more than %d values", k.n)
			}
			if x == nil || !ref.Same(ref.Observe(x), seq[i].Norm()) {
				w.Fail("value %d is %s, expected %s", i, ref.Observe(x).Short(), seq[i].Short())
			}
			i++
		}
		if err := <-errc; err != io.EOF || i != k.n {
			w.Fail("the stream ended with %v after %d of %d values", err, i, k.n)
		}
		w.Trace()
		w.Step(func() string {
			return fmt.Sprintf("WriteStream of %s from a channel of %d, waiting before sends %b", ref.VList(seq...).Short(), k.capn, k.mask)
		})
		in := make(chan value.Value, k.capn)
		var b bytes.Buffer
		go func() { errc <- value.WriteStream(&b, in) }()
		for i := 0; i <= k.n; i++ {
			if k.mask>>i&1 == 1 {
				settled(ended)
			}
			if i == k.n {
				close(in)
				break
			}
			select {
			case in <- xs[i]:
			case err := <-errc:
				w.Fail("WriteStream returned %v before value %d", err, i)
			}
		}
		if err := <-errc; err != nil || !bytes.Equal(b.Bytes(), want) {
			w.Fail("error %v, bytes %s, expected %s", err, hexs(b.Bytes()), hexs(want))
		}
		w.Trace()
	})
}
