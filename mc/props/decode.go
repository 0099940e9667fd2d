package props

import (
	"bytes"
	"fmt"
	"math"
	"runtime"
	"strconv"
	"strings"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

func init() {
	All["C04"] = C04
	All["C05"] = C05
}

// decodeCase compares the decoders in ds with the reference decoder on the bytes b.
func decodeCase(w *kit.W, b []byte, ds []decoder) ref.Status {
	r := ref.Decode(b)
	for k := range ds {
		d := &ds[k]
		w.Step(func() string { return fmt.Sprintf("%s of bytes %s", d.name, hexs(b)) })
		x, n, err := d.run(b)
		w.Trace()
		if r.St != ref.OK {
			if err == nil {
				w.Fail("decoded as %s although the bytes are %s", ref.Observe(x).Short(), r.St)
			}
			continue
		}
		if r.Loose {
			if err == nil && x == nil {
				w.Fail("no value and no error")
			}
			if err == nil {
				if m := wellFormed(x, 0); m != "" {
					w.Fail("%s", m)
				}
			}
			continue
		}
		if err != nil {
			w.Fail("error %v, MessagePack says %s", err, r.V.Short())
		}
		if x == nil {
			w.Fail("no value and no error")
		}
		if g := ref.Observe(x); !ref.Same(g, r.V) {
			w.Fail("decoded as %s, MessagePack says %s", g.Short(), r.V.Short())
		}
		if n >= 0 && n != r.N {
			w.Fail("consumed %d bytes, the first value has %d", n, r.N)
		}
	}
	return r.St
}

// wellFormed tells what is wrong with a decoded map or list whatever its keys were: it is ordered, and every
// key finds its elements.
func wellFormed(x value.Value, depth int) string {
	if depth > 20 {
		return ""
	}
	var els []value.Value
	switch t := x.(type) {
	case value.Map:
		es := t.Entries()
		count := map[string]int{}
		for i, e := range es {
			count[e.Key()]++
			if i > 0 && es[i-1].Key() > e.Key() {
				return fmt.Sprintf("decoded to a map with key %q before %q", es[i-1].Key(), e.Key())
			}
			els = append(els, e.Value())
		}
		for k, n := range count {
			if g := len(t.Select(k)); g != n {
				return fmt.Sprintf("decoded to a map with %d entries of key %q of which it finds %d", n, k, g)
			}
		}
		if len(es) != t.Len() {
			return fmt.Sprintf("decoded to a map of length %d with %d entries", t.Len(), len(es))
		}
	case value.List:
		if !ref.IsSparse(t) {
			els = t.Values()
			break
		}
		its := t.Items()
		count := map[int]int{}
		for i, it := range its {
			count[it.Key()]++
			if i > 0 && its[i-1].Key() > it.Key() {
				return fmt.Sprintf("decoded to a list with index %d before %d", its[i-1].Key(), it.Key())
			}
			els = append(els, it.Value())
		}
		for k, n := range count {
			if g := len(t.Select(k)); g != n {
				return fmt.Sprintf("decoded to a list with %d items of index %d of which it finds %d", n, k, g)
			}
		}
	}
	for _, e := range els {
		if m := wellFormed(e, depth+1); m != "" {
			return m
		}
	}
	return ""
}

// otherKeys: pairs and triples of keys of every kind and of many lengths; text keys have to come out in
// order, others in some order that their map can be searched by.
func otherKeys(c *kit.Ctx) {
	lens := []int{0, 1, 2, 15, 16, 31, 32, 33, 41, 42, 43, 44, 48, 49, 63, 64, 65, 90, 127, 128, 129, 255, 256, 257, 300}
	if c.Thorough() {
		lens = append(lens, 3, 7, 8, 24, 47, 50, 66, 100, 511, 512, 513, 1024, 1025, 4096, 4097)
	}
	var keys []*ref.V
	for _, n := range lens {
		for _, fill := range []string{"a", "z", "\xff"} {
			t := strings.Repeat(fill, n)
			keys = append(keys, ref.VUtf8(t), ref.VRaw(t))
			if n > 0 {
				keys = append(keys, ref.VExt(9, t))
			}
		}
	}
	exact := len(keys)
	keys = append(keys, ref.VLong(-1), ref.VLong(7), ref.VLong(1<<40), ref.VNull, ref.VTrue, ref.VFalse, ref.VDouble(1.5), ref.VDouble(-1e300), ref.VBig(bigInt(12345678)), ref.VDec(bigInt(-300), 2),
		ref.VList(), ref.VList(ref.VLong(1), ref.VUtf8("x")), ref.VMap([]string{"k"}, []*ref.V{ref.VNull}), ref.VSparse([]int{3}, []*ref.V{ref.VNull}))
	c.Bound("keys_of_every_kind", fmt.Sprintf("%d keys of lengths up to %d, every pair", len(keys), lens[len(lens)-1]))
	c.Par("keys-of-every-kind", len(keys), func(w *kit.W, i int) {
		for j := range keys {
			w.NewState()
			b := append(keys[i].Enc([]byte{0x82}), 0x01)
			b = append(keys[j].Enc(b), 0x02)
			decodeCase(w, b, decoders[:4])
			if i >= exact || j >= exact || i%5 == 0 {
				for _, third := range []*ref.V{ref.VUtf8("k"), ref.VLong(5), ref.VRaw("m")} {
					b := append(third.Enc(append([]byte{0x83}, b[1:]...)), 0x03)
					decodeCase(w, b, decoders[:2])
				}
			}
		}
	})
}

// C04: bounded-exhaustive byte strings, boundary headers, and all one-byte mutations of small
// values, against the reference decoder.
func C04(c *kit.Ctx) {
	two := []decoder{decoders[0], decoders[3]}
	small := decoders[:4]
	// every byte string of up to 3 bytes
	c.Par("all-bytes-up-to-2", 65536+256+1, func(w *kit.W, i int) {
		w.NewState()
		switch {
		case i == 0:
			decodeCase(w, []byte{}, decoders)
			decodeCase(w, nil, decoders[:2])
		case i <= 256:
			decodeCase(w, []byte{byte(i - 1)}, decoders)
		default:
			i -= 257
			decodeCase(w, []byte{byte(i >> 8), byte(i)}, decoders[:6])
		}
	})
	c.Par("all-bytes-3", 65536, func(w *kit.W, i int) {
		b := []byte{byte(i >> 8), byte(i), 0}
		for k := 0; k < 256; k++ {
			w.NewState()
			b[2] = byte(k)
			if c.Thorough() {
				decodeCase(w, append([]byte(nil), b...), small)
			} else {
				decodeCase(w, append([]byte(nil), b...), decoders[:1])
			}
		}
	})
	// longer strings over representative bytes
	alpha := []byte{0x01, 0x02, 0x03, 0x41, 0x80, 0x81, 0x82, 0x92, 0xa0, 0xa1, 0xc0, 0xc1, 0xc4, 0xc7, 0xcc, 0xd4, 0xdc, 0xff, 0x00, 0x91, 0xc3, 0xd5, 0xd9, 0xde}[:c.Pick(18, 22)]
	maxLen := c.Pick(5, 6)
	c.Bound("byte_alphabet", fmt.Sprintf("%x", alpha))
	c.Bound("byte_string_length", maxLen)
	for n := 4; n <= maxLen; n++ {
		outer := len(alpha) * len(alpha)
		inner := 1
		for i := 2; i < n; i++ {
			inner *= len(alpha)
		}
		c.Par(fmt.Sprintf("representative-bytes-%d", n), outer, func(w *kit.W, i int) {
			for j := 0; j < inner; j++ {
				w.NewState()
				b := make([]byte, n)
				b[0], b[1] = alpha[i/len(alpha)], alpha[i%len(alpha)]
				k := j
				for p := 2; p < n; p++ {
					b[p] = alpha[k%len(alpha)]
					k /= len(alpha)
				}
				decodeCase(w, b, two)
			}
		})
	}
	boundaryHeaders(c)
	numberHeaders(c)
	mixedKeys(c)
	otherKeys(c)
	farKeys(c)
	manyKeys(c)
	mutations(c)
}

type header struct {
	name string
	max  int
	enc  func(n int) []byte
	ext  bool
	unit []byte // what each of the n units consists of; nil: opaque bytes
}

func widthHeader(code byte, width int) func(n int) []byte {
	return func(n int) []byte {
		b := []byte{code}
		for i := width - 1; i >= 0; i-- {
			b = append(b, byte(uint64(n)>>(8*i)))
		}
		return b
	}
}

func fixHeader(base byte) func(n int) []byte {
	return func(n int) []byte { return []byte{base + byte(n)} }
}

func allHeaders() []header {
	hs := []header{
		{"fixstr", 31, fixHeader(0xa0), false, nil},
		{"fixarray", 15, fixHeader(0x90), false, []byte{0x07}},
		{"fixmap", 15, fixHeader(0x80), false, []byte{0x07, 0xc0}},
	}
	add := func(name string, code byte, ext bool, unit []byte) {
		for i, width := range []int{1, 2, 4} {
			if unit != nil && width == 1 {
				continue
			}
			cd := code + byte(i)
			max := math.MaxInt32
			if width < 4 {
				max = 1<<(8*width) - 1
			}
			hs = append(hs, header{fmt.Sprintf("%s%d", name, 8*width), max, widthHeader(cd, width), ext, unit})
		}
	}
	add("str", 0xd9, false, nil)
	add("bin", 0xc4, false, nil)
	add("ext", 0xc7, true, nil)
	add("array", 0xdc-1, false, []byte{0x07})
	add("map", 0xde-1, false, []byte{0xa1, 'k', 0xc0})
	return hs
}

// boundaryHeaders: every sized header with every length on the boundaries, minimal or not,
// with exact, missing and surplus data, bare and inside containers.
func boundaryHeaders(c *kit.Ctx) {
	type hc struct {
		h header
		n int
	}
	var cs []hc
	for _, h := range allHeaders() {
		for _, n := range ref.LenBoundaries(c.Pick(70000, 140000)) {
			if n <= h.max {
				cs = append(cs, hc{h, n})
			}
		}
	}
	for i, n := range []int{1, 2, 4, 8, 16} {
		code := byte(0xd4 + i)
		cs = append(cs, hc{header{fmt.Sprintf("fixext%d", n), n, func(int) []byte { return []byte{code} }, true, nil}, n})
	}
	tags := []byte{0, 1, 2, 3, 5, 127, 128, 255}
	c.Bound("sized_headers", len(cs))
	c.Par("boundary-headers", len(cs), func(w *kit.W, i int) {
		h, n := cs[i].h, cs[i].n
		ts := []byte{0}
		if h.ext {
			ts = tags
		}
		for _, tag := range ts {
			for first := 0; first < 4; first++ {
				b := h.enc(n)
				if h.ext {
					b = append(b, tag)
				}
				hdr := len(b)
				for k := 0; k < n; k++ {
					switch {
					case h.unit != nil:
						b = append(b, h.unit...)
						if len(h.unit) == 2 && first > 0 { // distinct or descending integer keys
							b = append(b[:len(b)-2], byte(k*[]int{0, 1, 127, 5}[first]%128), byte(k%100))
						}
						if len(h.unit) == 3 && first > 0 {
							b = append(b[:len(b)-3], 0xa1, byte(k*[]int{0, 1, 255, 5}[first]%128), byte(k%100))
						}
					case k == 0 && h.ext && (tag == 1 || tag == 2):
						b = append(b, []byte{2, 3, 0, 1}[first])
					case k == 4 && h.ext && tag == 2:
						b = append(b, []byte{2, 3, 0, 1}[first])
					default:
						b = append(b, byte(k*7+first))
					}
				}
				if h.ext && tag == 2 && n > 70 && first < 2 {
					// huge exponents are fine, only the payload is compared
					_ = first
				}
				w.NewState()
				ds := decoders[:5]
				if len(b) < 3000 {
					ds = decoders
				}
				decodeCase(w, b, ds)
				short := []int{0, 1, hdr - 1, hdr, hdr + 1, hdr + n/2, len(b) - 2, len(b) - 1}
				for _, s := range short {
					if s >= 0 && s < len(b) {
						w.NewState()
						decodeCase(w, b[:s:s], decoders[:5])
					}
				}
				w.NewState()
				decodeCase(w, append(append([]byte(nil), b...), 0xc1), decoders[:6])
				w.NewState()
				decodeCase(w, append(append([]byte{0x93, 0x05}, b...), 0xc3), decoders[:4])
				decodeCase(w, append([]byte{0x92, 0x05}, b[:len(b)-1]...), decoders[:4])
				if n < 300 || first == 0 {
					w.NewState()
					decodeCase(w, append(append([]byte{0x82, 0xa1, 'k'}, b...), 0xa1, 'a', 0xc2), decoders[:4])
					decodeCase(w, append(append([]byte{0x82, 0x09}, b...), 0x03, 0xc2), decoders[:4])
					// as a key
					decodeCase(w, append(append([]byte{0x82}, b...), 0x01, 0xa1, 'z', 0xc2), decoders[:4])
				}
				if (!h.ext && h.unit == nil || n > 5000) && first > 0 {
					break
				}
			}
		}
	})
}

// numberHeaders: every integer and float format with boundary payloads, minimal or not.
func numberHeaders(c *kit.Ctx) {
	var vals []uint64
	for _, i := range ref.IntBoundaries() {
		vals = append(vals, uint64(i))
	}
	for _, u := range ref.DoubleBits() {
		vals = append(vals, u)
	}
	for k := uint(0); k < 64; k++ {
		vals = append(vals, uint64(1)<<k, ^(uint64(1) << k), math.MaxUint64>>k)
	}
	codes := []byte{0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3}
	widths := []int{4, 8, 1, 2, 4, 8, 1, 2, 4, 8}
	c.Bound("number_payloads", len(vals))
	c.Par("number-formats", len(vals)*len(codes), func(w *kit.W, i int) {
		w.NewState()
		v, code, width := vals[i/len(codes)], codes[i%len(codes)], widths[i%len(codes)]
		b := []byte{code}
		for k := width - 1; k >= 0; k-- {
			b = append(b, byte(v>>(8*k)))
		}
		decodeCase(w, b, decoders)
		for s := 1; s < len(b); s++ {
			decodeCase(w, b[:s:s], decoders[:5])
		}
		decodeCase(w, append(append([]byte{0x92}, b...), b...), decoders[:4])
		decodeCase(w, append(append([]byte{0x82}, b...), 0xc3, 0x05, 0xc2), decoders[:4])
		decodeCase(w, append(append([]byte{0x82, 0xa1, 'b', 0xc3}, b...), 0xc2), decoders[:4])
	})
	// all 2^16 payloads of the 16-bit formats, all float32 exponents with mantissa patterns
	c.Par("all-16-bit-integers", 65536, func(w *kit.W, i int) {
		w.NewState()
		decodeCase(w, []byte{0xcd, byte(i >> 8), byte(i)}, decoders[:1])
		decodeCase(w, []byte{0xd1, byte(i >> 8), byte(i)}, decoders[:1])
	})
	c.Par("float32", 512, func(w *kit.W, i int) {
		for _, m := range []uint32{0, 1, 2, 0x400000, 0x400001, 0x7fffff, 0x555555, 0x2aaaaa, 0x1000, 0x3fffff} {
			w.NewState()
			u := uint32(i)<<23 | m
			decodeCase(w, []byte{0xca, byte(u >> 24), byte(u >> 16), byte(u >> 8), byte(u)}, decoders[:4])
		}
	})
}

// mixedKeys: every sequence of up to n keys of every kind.
func mixedKeys(c *kit.Ctx) {
	keys := []*ref.V{ref.VLong(1), ref.VLong(10), ref.VLong(9), ref.VLong(-1), ref.VLong(-10), ref.VLong(300), ref.VUtf8("1"), ref.VUtf8("a"), ref.VUtf8(""), ref.VUtf8("-2"),
		ref.VNull, ref.VTrue, ref.VDouble(1.5), ref.VRaw("a"), ref.VList(ref.VLong(1)), ref.VExt(9, "a")}
	exact := 10 // the first ones are integers and text
	maxN := c.Pick(4, 5)
	c.Bound("mixed_key_sequence_length", maxN)
	c.Bound("mixed_key_alphabet", len(keys))
	for n := 1; n <= maxN; n++ {
		al := len(keys)
		if n > 3 {
			al = exact
		}
		total := 1
		for i := 0; i < n; i++ {
			total *= al
		}
		c.Par(fmt.Sprintf("mixed-keys-%d", n), total, func(w *kit.W, i int) {
			w.NewState()
			for _, hdr := range [][]byte{ref.EncMapHeader(nil, n), {0xde, 0, byte(n)}, {0xdf, 0, 0, 0, byte(n)}} {
				b := append([]byte(nil), hdr...)
				k := i
				for j := 0; j < n; j++ {
					b = append(keys[k%al].Enc(b), byte(j+1))
					k /= al
				}
				decodeCase(w, b, decoders[:4])
				if n < 3 {
					decodeCase(w, append([]byte{0x91}, b...), decoders[:4])
				}
			}
		})
	}
}

// farKeys: integer keys whose differences do not fit, in every order.
func farKeys(c *kit.Ctx) {
	keys := []int64{math.MinInt64, math.MinInt64 + 1, -1 << 62, -1<<32 - 1, -1 << 31, -1, 0, 1, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1 << 53, 1<<53 + 1, 1 << 62, math.MaxInt64 - 1, math.MaxInt64}
	c.Bound("far_apart_integer_keys", len(keys))
	for n := 1; n <= 3; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(keys)
		}
		c.Par(fmt.Sprintf("far-keys-%d", n), total, func(w *kit.W, i int) {
			w.NewState()
			b := ref.EncMapHeader(nil, n)
			for j, k := 0, i; j < n; j++ {
				b = append(ref.VLong(keys[k%len(keys)]).Enc(b), byte(j+1))
				k /= len(keys)
			}
			decodeCase(w, b, decoders[:4])
			if n < 3 { // together with text
				decodeCase(w, append(append([]byte{0x80 | byte(n+1)}, b[1:]...), 0xa1, 'x', 0x09), decoders[:4])
				decodeCase(w, append([]byte{0x80 | byte(n+1), 0xa1, 'x', 0x09}, b[1:]...), decoders[:4])
			}
		})
	}
}

// manyKeys: maps with many entries in many orders, with and without equal keys.
func manyKeys(c *kit.Ctx) {
	maxN := c.Pick(60, 150)
	c.Bound("entries_in_many_orders", maxN)
	c.Par("many-keys", maxN+1, func(w *kit.W, n int) {
		for mod := 1; mod <= n+1; mod++ {
			if mod > 20 && mod < n-3 {
				continue
			}
			for _, mul := range []int{1, 7, 11, n - 1, n/2 + 1} {
				for _, kind := range []int{0, 1, 2, 3} {
					w.NewState()
					b := ref.EncMapHeader(nil, n)
					for i := 0; i < n; i++ {
						k := i * mul % (n + 1) % mod
						switch {
						case kind == 0 || kind == 3 && i > 0:
							b = ref.VLong(int64(k*13 - 50)).Enc(b)
						case kind == 1:
							b = ref.VUtf8(strconv.Itoa(k*13 - 50)).Enc(b)
						default:
							b = ref.VUtf8(advKeys[k%len(advKeys)]).Enc(b)
						}
						b = ref.VLong(int64(i)).Enc(b)
					}
					decodeCase(w, b, decoders[:4])
				}
			}
		}
	})
}

// mutations: every truncation, every single-byte substitution, deletion and duplication of
// the encodings of small values.
func mutations(c *kit.Ctx) {
	var base []*ref.V
	base = append(base, ref.SmallLeaves()...)
	base = append(base, ref.Trees(2, ref.SmallLeaves(), true)...)
	if c.Thorough() {
		base = append(base, ref.Trees(3, ref.SmallLeaves(), true)...)
	} else {
		base = append(base, ref.Trees(3, []*ref.V{ref.VNil, ref.VLong(-200), ref.VUtf8("k"), ref.VDec(bigInt(-300), 2)}, true)...)
	}
	for _, v := range ref.Scalars(300) {
		if len(v.Encode()) <= 24 && (v.K >= ref.Big || c.Thorough()) {
			base = append(base, v)
		}
	}
	c.Bound("mutated_values", len(base))
	c.Par("one-byte-mutations", len(base), func(w *kit.W, i int) {
		enc := base[i].Encode()
		for s := 0; s < len(enc); s++ {
			w.NewState()
			decodeCase(w, enc[:s:s], decoders[:5])
			orig := enc[s]
			for v := 0; v < 256; v++ {
				m := append([]byte(nil), enc...)
				m[s] = byte(v)
				if byte(v) == orig {
					continue
				}
				w.NewState()
				decodeCase(w, m, []decoder{decoders[v%2], decoders[3]})
			}
			w.NewState()
			decodeCase(w, append(append([]byte(nil), enc[:s]...), enc[s+1:]...), decoders[:4])
			w.NewState()
			decodeCase(w, append(append([]byte(nil), enc[:s+1]...), enc[s:]...), decoders[:4])
		}
	})
}

// ---------- C05 ----------

type c05Struct struct {
	A  value.Number   `tag:"1"`
	L  []value.Number `tag:"2"`
	N  *c05Struct     `tag:"3"`
	R  []value.Value  `tag:"4" repeated:"true"`
	NS []*c05Struct   `tag:"5"`
	V  value.Value    `tag:"6"`
	F  [3]value.Value `tag:"7"`
	RS []*c05Struct   `tag:"8" repeated:"true"`
	E  value.List     `tag:"9"`
}

const (
	memBase   = 256 << 10
	memFactor = 2048
)

type entry struct {
	name string
	run  func(b []byte) (bool, error)
}

func val(x value.Value, err error) (bool, error) { return x != nil, err }

var entries = []entry{
	{"Unpack(copy)", func(b []byte) (bool, error) { return val(value.Unpack(b, true)) }},
	{"Unpack(nocopy)", func(b []byte) (bool, error) { return val(value.Unpack(b, false)) }},
	{"Read(bytes.Reader)", func(b []byte) (bool, error) { return val(value.Read(bytes.NewReader(b))) }},
	{"Read(plain)", func(b []byte) (bool, error) { return val(value.Read(PlainReader{bytes.NewReader(b)})) }},
	{"ReadStream", func(b []byte) (bool, error) {
		out := make(chan value.Value)
		got := make(chan bool)
		go func() {
			n := 0
			for range out {
				n++
			}
			got <- n > 0
		}()
		err := value.ReadStream(bytes.NewReader(b), out)
		return <-got, err
	}},
	{"UnpackStruct", func(b []byte) (bool, error) {
		var s c05Struct
		err := value.UnpackStruct(b, &s, true)
		return err == nil, err
	}},
}

func measure(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// C05: declared sizes without data at every kind of position, and nesting of any depth.
func C05(c *kit.Ctx) {
	c.Bound("allocation_bound", fmt.Sprintf("%d + %d * supplied bytes", memBase, memFactor))
	c.Assume("allocation is measured as the bytes allocated in total while decoding, an upper bound of the memory held at any time")
	sizes := []uint64{0, 1, 2, 15, 16, 17, 255, 256, 4096, 65535, 65536, 70000, 1 << 20, 1<<24 - 1, 1 << 24, 1 << 26, 1 << 28, 1<<31 - 1, 1 << 31, 1<<31 + 5, 1<<32 - 2, 1<<32 - 1}
	type hdr struct {
		name  string
		code  byte
		width int
		ext   bool
	}
	hdrs := []hdr{{"str8", 0xd9, 1, false}, {"str16", 0xda, 2, false}, {"str32", 0xdb, 4, false}, {"bin8", 0xc4, 1, false}, {"bin16", 0xc5, 2, false}, {"bin32", 0xc6, 4, false},
		{"ext8", 0xc7, 1, true}, {"ext16", 0xc8, 2, true}, {"ext32", 0xc9, 4, true}, {"array16", 0xdc, 2, false}, {"array32", 0xdd, 4, false}, {"map16", 0xde, 2, false}, {"map32", 0xdf, 4, false}}
	type ctx struct {
		name string
		pre  []byte
	}
	ctxs := []ctx{{"top", nil}, {"in list", []byte{0x91}}, {"second in list", []byte{0x92, 0x05}}, {"in list32 of 2^32-1", []byte{0xdd, 0xff, 0xff, 0xff, 0xff}}, {"map key", []byte{0x81}}, {"map value", []byte{0x81, 0xa1, 'k'}},
		{"sparse value", []byte{0x81, 0x05}}, {"second sparse value", []byte{0x82, 0x05, 0x05, 0x06}}, {"mixed map", []byte{0x83, 0x05, 0x05, 0xa1, 'a', 0x05, 0xa1, 'b'}}, {"nested", []byte{0x91, 0x81, 0xa1, 'k', 0x81, 0x05, 0x92, 0xc0}}}
	for t := byte(1); t <= 9; t++ {
		ctxs = append(ctxs, ctx{fmt.Sprintf("struct tag %d", t), []byte{0x81, t}})
	}
	for _, t := range []byte{2, 4, 5, 7, 8} {
		ctxs = append(ctxs, ctx{fmt.Sprintf("struct tag %d list element", t), []byte{0x81, t, 0x93}})
		ctxs = append(ctxs, ctx{fmt.Sprintf("inner struct tag %d", t), []byte{0x81, 0x03, 0x81, t}})
	}
	datas := [][]byte{nil, {0x01}, {0x01, 0x02, 0x03}, bytes.Repeat([]byte{0x02}, 40), bytes.Repeat([]byte{0x05, 0x80}, 20)}
	n := len(hdrs) * len(sizes) * len(ctxs)
	c.Bound("declared_sizes", sizes)
	c.Bound("positions", len(ctxs))
	c.Seq("declared-sizes", n, func(w *kit.W, i int) {
		h, sz, cx := hdrs[i%len(hdrs)], sizes[i/len(hdrs)%len(sizes)], ctxs[i/len(hdrs)/len(sizes)]
		if h.width < 4 && sz >= 1<<(8*h.width) {
			return
		}
		w.NewState()
		b := append([]byte(nil), cx.pre...)
		b = append(b, h.code)
		for k := h.width - 1; k >= 0; k-- {
			b = append(b, byte(sz>>(8*k)))
		}
		if h.ext {
			b = append(b, 0x05)
		}
		total := uint64(0)
		for _, d := range datas {
			in := append(append([]byte(nil), b...), d...)
			for ei := range entries {
				e := &entries[ei]
				w.Step(func() string {
					return fmt.Sprintf("%s of a declared %s of %d (%s), bytes %s", e.name, h.name, sz, cx.name, hexs(in))
				})
				got := measure(func() { e.run(in) })
				w.Trace()
				if lim := uint64(memBase + memFactor*len(in)); got > lim {
					w.Fail("%d bytes of input made the decoder allocate %d bytes (bound %d)", len(in), got, lim)
				}
				if got > total {
					total = got
				}
			}
		}
		if i%997 == 0 {
			c.Sample("%s declaring %d, %s: at most %d bytes allocated", h.name, sz, cx.name, total)
		}
	})
	// many headers in a row: the declared counts of all levels together
	levels := []int{2, 10, 100, 1000, 5000, 9000}
	reps := [][]byte{{0xdc, 0xff, 0xff}, {0xdd, 0xff, 0xff, 0xff, 0xff}, {0xdd, 0, 1, 0, 0}, {0x9f}, {0xde, 0xff, 0xff, 0x05}, {0xdf, 0xff, 0xff, 0xff, 0xff, 0xa1, 'k'}, {0x8f, 0x01}, {0xdf, 0, 0xff, 0xff, 0xff}, {0xdc, 0x04, 0x00},
		{0x81, 0x03}, {0xdf, 0xff, 0xff, 0xff, 0xff, 0x03}, {0x81, 0x05, 0xdd, 0xff, 0xff, 0xff, 0xff}, {0xde, 0xff, 0xff, 0x08}, {0x81, 0x05, 0xdc, 0xff, 0xff}, {0x81, 0x09, 0x91}}
	c.Seq("nested-declared-sizes", len(levels)*len(reps), func(w *kit.W, i int) {
		b := bytes.Repeat(reps[i%len(reps)], levels[i/len(reps)])
		w.NewState()
		for ei := range entries {
			e := &entries[ei]
			w.Step(func() string { return fmt.Sprintf("%s of %d times %x", e.name, levels[i/len(reps)], reps[i%len(reps)]) })
			var err error
			got := measure(func() { _, err = e.run(b) })
			w.Trace()
			if err == nil {
				w.Fail("no error for truncated input")
			}
			if lim := uint64(memBase + memFactor*len(b)); got > lim {
				w.Fail("%d bytes of input made the decoder allocate %d bytes (bound %d)", len(b), got, lim)
			}
		}
	})
	// the same header many times side by side, each complete: nothing accumulates
	flat := [][]byte{{0xc0}, {0x90}, {0x80}, {0xa0}, {0xc4, 0}, {0xd4, 5, 1}, {0xd4, 1, 2}, {0x91, 0xc0}, {0x81, 0x01, 0xc0}, {0x81, 0xa1, 'k', 0xc0}, {0xcb, 0, 0, 0, 0, 0, 0, 0, 0}, {0xdc, 0, 0}, {0xdf, 0, 0, 0, 0}, {0xd6, 2, 0, 0, 0, 0}}
	c.Seq("wide-lists", len(flat)*2, func(w *kit.W, i int) {
		w.NewState()
		cnt := 200000
		b := []byte{0xdd, byte(cnt >> 24), byte(cnt >> 16), byte(cnt >> 8), byte(cnt)}
		b = append(b, bytes.Repeat(flat[i%len(flat)], cnt)...)
		if i >= len(flat) {
			b[1] = 0xff // far more declared than supplied
		}
		for ei := range entries[:5] {
			e := &entries[ei]
			w.Step(func() string {
				return fmt.Sprintf("%s of a list declaring %x holding %d times %x", e.name, b[1:5], cnt, flat[i%len(flat)])
			})
			got := measure(func() { e.run(b) })
			w.Trace()
			if lim := uint64(memBase + memFactor*len(b)); got > lim {
				w.Fail("%d bytes of input made the decoder allocate %d bytes (bound %d)", len(b), got, lim)
			}
		}
	})
	// maps of very many entries that are all there, in every order of keys
	orders := []string{"ascending", "descending", "all the same", "two values in turn", "from both ends"}
	keyKinds := []string{"text", "index", "text of 30 bytes", "text and index in turn", "text, then one index", "index as text at the end"}
	counts := []int{100, 1000, 20000, 65535, 65536, c.Pick(80000, 600000)}
	c.Bound("supplied_map_entries", counts)
	c.Seq("wide-maps", len(orders)*len(keyKinds)*len(counts)*2, func(w *kit.W, i int) {
		kk, ord, cnt, exact := i%len(keyKinds), i/len(keyKinds)%len(orders), counts[i/len(keyKinds)/len(orders)%len(counts)], i/len(keyKinds)/len(orders)/len(counts) == 0
		w.NewState()
		dec := cnt
		if !exact {
			dec = 0xffffffff
		}
		b := []byte{0xdf, byte(dec >> 24), byte(dec >> 16), byte(dec >> 8), byte(dec)}
		for k := 0; k < cnt; k++ {
			x := []int{k, cnt - k, 7, k & 1, []int{k, 2*cnt - k}[k&1]}[ord]
			text := kk == 0 || kk == 2 || kk == 3 && k&1 == 0 || kk == 4 && k < cnt-1 || kk == 5 && k == cnt-1
			switch {
			case !text:
				b = ref.EncInt(b, int64(x))
			case kk == 2:
				b = ref.VUtf8(fmt.Sprintf("%030d", x)).Enc(b)
			default:
				b = ref.VUtf8(fmt.Sprintf("%06d", x)).Enc(b)
			}
			b = append(b, 0x05)
		}
		for ei := range entries[:5] {
			e := &entries[ei]
			w.Step(func() string {
				return fmt.Sprintf("%s of a map declaring %d entries, %d supplied, keys %s, %s", e.name, dec, cnt, keyKinds[kk], orders[ord])
			})
			got := measure(func() { e.run(b) })
			w.Trace()
			if lim := uint64(memBase + memFactor*len(b)); got > lim {
				w.Fail("%d bytes of input made the decoder allocate %d bytes (bound %d)", len(b), got, lim)
			}
		}
	})
	// structs with fields of very many elements
	type many struct {
		name string
		head func(n int) []byte
		elem []byte
	}
	m32 := func(n int) []byte { return []byte{0xdf, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }
	l32 := func(pre ...byte) func(n int) []byte {
		return func(n int) []byte {
			return append(append([]byte(nil), pre...), 0xdd, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
		}
	}
	manys := []many{{"repeated structs", m32, []byte{0x08, 0x80}}, {"repeated values", m32, []byte{0x04, 0x05}}, {"repeated lists", m32, []byte{0x04, 0x90}}, {"one field again and again", m32, []byte{0x01, 0x05}},
		{"one struct again and again", m32, []byte{0x03, 0x80}}, {"a slice of structs", l32(0x81, 0x05), []byte{0x80}}, {"a slice of numbers", l32(0x81, 0x02), []byte{0x05}}, {"a generic list", l32(0x81, 0x09), []byte{0x05}},
		{"a slice of numbers again and again", m32, []byte{0x02, 0x91, 0x05}}, {"a slice of structs again and again", m32, []byte{0x05, 0x91, 0x80}}, {"an array again and again", m32, []byte{0x07, 0x93, 0x05, 0x05, 0x05}}}
	c.Seq("wide-structs", len(manys)*3, func(w *kit.W, i int) {
		m := manys[i%len(manys)]
		w.NewState()
		cnt := []int{1000, 20000, 60000}[i/len(manys)]
		b := append(m.head(cnt), bytes.Repeat(m.elem, cnt)...)
		w.Step(func() string { return fmt.Sprintf("UnpackStruct of %s, %d elements", m.name, cnt) })
		var err error
		got := measure(func() { _, err = entries[5].run(b) })
		w.Trace()
		if err != nil {
			w.Fail("error %v", err)
		}
		if lim := uint64(memBase + memFactor*len(b)); got > lim {
			w.Fail("%d bytes of input made the decoder allocate %d bytes (bound %d)", len(b), got, lim)
		}
	})
	// long payloads declared and only partly supplied
	c.Seq("partial-payloads", 3*6, func(w *kit.W, i int) {
		w.NewState()
		code := []byte{0xdb, 0xc6, 0xc9}[i%3]
		have := []int{1000, 65535, 65536, 65537, 200000, 3000000}[i/3]
		b := []byte{code, 0xff, 0xff, 0xff, 0xf0}
		b = append(b, bytes.Repeat([]byte{5}, have)...)
		for ei := range entries[:5] {
			e := &entries[ei]
			w.Step(func() string { return fmt.Sprintf("%s of header %x with %d bytes", e.name, code, have) })
			var err error
			got := measure(func() { _, err = e.run(b) })
			w.Trace()
			if err == nil {
				w.Fail("no error for truncated input")
			}
			if lim := uint64(memBase + memFactor*len(b)); got > lim {
				w.Fail("%d bytes of input made the decoder allocate %d bytes (bound %d)", len(b), got, lim)
			}
		}
	})
	// nesting depth: a value or an error, never a crash
	depths := []int{100, 1000, 9999, 10000, 10001, 20000, 100000, 1000000, c.Pick(6000000, 20000000)}
	nests := [][]byte{{0x91}, {0x81, 0x01}, {0x81, 0xa1, 'k'}, {0x81}, {0x92, 0xc0}, {0xdc, 0, 1}, {0xdd, 0, 0, 0, 1}, {0xde, 0, 1, 0x05}, {0xdf, 0, 0, 0, 1}, {0x82, 0xa1, 'a', 0xc0, 0xa1, 'k'}, {0x91, 0x81, 0x05},
		{0x81, 0x03}, {0x81, 0x05, 0x91}, {0x81, 0x08}, {0x81, 0x06, 0x91}, {0x81, 0x09, 0x91}, {0x81, 0x03, 0x81, 0x05, 0x91}}
	c.Bound("nesting_depths", depths)
	c.Seq("nesting", len(nests)*len(depths), func(w *kit.W, i int) {
		nest, d := nests[i%len(nests)], depths[i/len(nests)]
		w.NewState()
		for _, end := range [][]byte{nil, {0x80}} {
			b := append(bytes.Repeat(nest, d), end...)
			if len(nest) == 1 && nest[0] == 0x81 || len(nest) == 5 && nest[0] == 0xdf {
				for k := 0; k < d && end != nil; k++ { // values for the nested keys
					b = append(b, 0xc0)
				}
			}
			for ei := range entries {
				e := &entries[ei]
				if d > 1000000 && ei != 0 && ei != 3 && ei != 5 {
					continue
				}
				w.Step(func() string { return fmt.Sprintf("%s of %d times %x then %x", e.name, d, nest, end) })
				var ok bool
				var err error
				got := measure(func() { ok, err = e.run(b) })
				w.Trace()
				if !ok && err == nil {
					w.Fail("no value and no error")
				}
				if lim := uint64(memBase + memFactor*len(b)); got > lim {
					w.Fail("%d bytes of input made the decoder allocate %d bytes (bound %d)", len(b), got, lim)
				}
			}
		}
	})
}
