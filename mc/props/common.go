// Package props holds one exploration per property.
package props

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/big"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

// Check runs the exploration of one property.
type Check func(c *kit.Ctx)

var All = map[string]Check{}

// PlainReader hides everything but Read.
type PlainReader struct{ R io.Reader }

func (p PlainReader) Read(b []byte) (int, error) { return p.R.Read(b) }

func hexs(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("%x..(%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// decoders are all single value decoding entry points: value, bytes consumed (-1 unknown), error.
type decoder struct {
	name string
	run  func(b []byte) (value.Value, int, error)
}

var decoders = []decoder{
	{"Unpack(copy)", func(b []byte) (value.Value, int, error) {
		v, err := value.Unpack(b, true)
		return v, -1, err
	}},
	{"Unpack(nocopy)", func(b []byte) (value.Value, int, error) {
		v, err := value.Unpack(b, false)
		return v, -1, err
	}},
	{"Read(bytes.Reader)", func(b []byte) (value.Value, int, error) {
		r := bytes.NewReader(b)
		v, err := value.Read(r)
		return v, len(b) - r.Len(), err
	}},
	{"Read(plain reader)", func(b []byte) (value.Value, int, error) {
		r := bytes.NewReader(b)
		v, err := value.Read(PlainReader{r})
		return v, len(b) - r.Len(), err
	}},
	{"Read(bytes.Buffer)", func(b []byte) (value.Value, int, error) {
		r := bytes.NewBuffer(append([]byte(nil), b...))
		v, err := value.Read(r)
		return v, len(b) - r.Len(), err
	}},
	{"Parse(MessageUnpacker)", func(b []byte) (value.Value, int, error) {
		u := value.MessageUnpacker(b, true)
		v, err := value.Parse(u, value.MessageParser())
		if err != nil {
			return v, -1, err
		}
		// what is left is measured by reading it byte by byte
		n := len(b)
		for n > 0 {
			if _, e := u.Read(1); e != nil {
				break
			}
			n--
		}
		return v, n, err
	}},
	{"ReadStream", func(b []byte) (value.Value, int, error) {
		out := make(chan value.Value, len(b)+2)
		err := value.ReadStream(bytes.NewReader(b), out)
		v, ok := <-out
		if !ok {
			return nil, -1, err
		}
		return v, -1, nil
	}},
}

// encoders are all single value encoding entry points.
type encoder struct {
	name string
	run  func(x value.Value) ([]byte, error)
}

var encoders = []encoder{
	{"Pack", value.Pack},
	{"Write", func(x value.Value) ([]byte, error) {
		var buf bytes.Buffer
		err := value.Write(&buf, x)
		return buf.Bytes(), err
	}},
	{"MarshalBinary", func(x value.Value) ([]byte, error) {
		if x == nil {
			return value.Pack(nil)
		}
		return x.MarshalBinary()
	}},
	{"Packer", func(x value.Value) ([]byte, error) {
		var buf bytes.Buffer
		p := value.MessagePacker(&buf)
		if x == nil {
			p.PackNil()
		} else {
			x.Pack(p)
		}
		return buf.Bytes(), p.Error()
	}},
	{"WriteStream", func(x value.Value) ([]byte, error) {
		var buf bytes.Buffer
		c := make(chan value.Value, 1)
		c <- x
		close(c)
		err := value.WriteStream(&buf, c)
		return buf.Bytes(), err
	}},
	{"PackStruct", func(x value.Value) ([]byte, error) {
		if x == nil {
			return value.PackStruct(nil)
		}
		return value.PackStruct(x)
	}},
}

// family is a named list of model values.
type family struct {
	name string
	vs   []*ref.V
}

// families are the value spaces shared by the codec properties.
func families(c *kit.Ctx) []family {
	maxLen := c.Pick(70000, 140000)
	fs := []family{
		{"scalars", ref.Scalars(maxLen)},
		{"containers-on-count-boundaries", ref.BigContainers(maxLen)},
		{"special-keys", ref.SpecialKeyMaps()},
	}
	var texts, numbers []*ref.V
	for _, t := range ref.Texts() {
		texts = append(texts, ref.VUtf8(t), ref.VRaw(t), ref.VMap([]string{t}, []*ref.V{ref.VUtf8(t)}))
	}
	for _, n := range ref.TwoBitInts() {
		numbers = append(numbers, ref.VLong(n), ref.VSparse([]int{int(n)}, []*ref.V{ref.VLong(n)}))
	}
	for _, b := range ref.AllExponents() {
		numbers = append(numbers, ref.VDoubleBits(b))
	}
	fs = append(fs, family{"texts", texts}, family{"two-bit-integers-and-all-exponents", numbers})
	// numbers whose payloads have lengths around the bounds of every length field
	var long []*ref.V
	for _, n := range []uint{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 126, 127, 128, 129, 253, 254, 255, 256, 257, 258, 4096, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 70000} {
		if n > 4096 && n%2 == 0 && !c.Thorough() && n != 65536 && n != 65534 {
			continue
		}
		top := new(big.Int).Lsh(big.NewInt(1), 8*n-1)
		for _, x := range []*big.Int{top, new(big.Int).Sub(top, big.NewInt(1)), new(big.Int).Add(top, big.NewInt(258)), new(big.Int).Rsh(top, 7)} {
			m := new(big.Int).Neg(x)
			long = append(long, ref.VBig(x), ref.VBig(m), ref.VDec(x, -7), ref.VDec(m, 1000))
			if n < 300 {
				long = append(long, ref.VList(ref.VBig(x), ref.VDec(m, 0), ref.VTrue), ref.VDec(x, math.MinInt32), ref.VDec(m, math.MaxInt32))
			} else {
				long = append(long, ref.VList(ref.VBig(x), ref.VTrue))
				break
			}
		}
	}
	fs = append(fs, family{"numbers-by-payload-length", long})
	// decimals of every length with every small exponent, among them ones with zeros at the end
	var decs []*ref.V
	var coefs []*big.Int
	for _, n := range []uint{1, 2, 7, 8, 9, 16, 17, 31, 32, 33, 34, 64, 65, 128, 129} {
		top := new(big.Int).Lsh(big.NewInt(1), 8*n-1)
		coefs = append(coefs, top, new(big.Int).Neg(new(big.Int).Sub(top, big.NewInt(1))))
	}
	for _, n := range []int64{1, 2, 3, 9, 15, 17, 18, 19, 20, 30, 60, 200} {
		ten := new(big.Int).Exp(big.NewInt(10), big.NewInt(n), nil)
		coefs = append(coefs, ten, new(big.Int).Mul(ten, big.NewInt(-25)))
	}
	exps := []int32{-1000, -308, -100, -64, -30, 30, 64, 100, 308, 1000}
	for e := int32(-19); e < 20; e++ {
		exps = append(exps, e)
	}
	for _, n := range coefs {
		for _, e := range exps {
			decs = append(decs, ref.VDec(n, e))
		}
	}
	fs = append(fs, family{"decimals-by-length-and-exponent", decs})
	// large containers of everything: every kind of element at every remainder, also far behind, and many of one kind
	elems := append(ref.SmallLeaves(), ref.VDouble(1), ref.VDouble(-3), ref.VUtf8("1"), ref.VUtf8("true"), ref.VRaw("a"), ref.VBig(big.NewInt(5)), ref.VDec(big.NewInt(100), -2), ref.VNull,
		ref.VList(ref.VDouble(2), ref.VUtf8("x")), ref.VMap([]string{"k", "k"}, []*ref.V{ref.VNull, ref.VTrue}), ref.VSparse([]int{-1, 70000}, []*ref.V{ref.VLong(1), ref.VUtf8("y")}))
	var mixed []*ref.V
	large := func(n int, at func(i int) *ref.V) {
		l, m, m2, sp, far := &ref.V{K: ref.List}, &ref.V{K: ref.Map}, &ref.V{K: ref.Map}, &ref.V{K: ref.Sparse}, &ref.V{K: ref.Sparse}
		x := -1 << 40
		for i := 0; i < n; i++ {
			e := at(i)
			l.L, m.L, m2.L, sp.L, far.L = append(l.L, e), append(m.L, e), append(m2.L, e), append(sp.L, e), append(far.L, e)
			m.SK, m2.SK = append(m.SK, fmt.Sprintf("%05d", i)), append(m2.SK, fmt.Sprintf("%05d", i/3))
			sp.IK = append(sp.IK, i-n/2)
			x += []int{1, 0, 200, 70000, 1 << 31, 1 << 33, 5}[i%7]
			far.IK = append(far.IK, x)
		}
		mixed = append(mixed, l, m, m2, sp, far)
	}
	for _, n := range []int{40, 130, 300, 600, 1100, c.Pick(1200, 5000)} {
		large(n, func(i int) *ref.V { return elems[i%len(elems)] })
		large(n, func(i int) *ref.V { return elems[(n-i)*7%len(elems)] })
	}
	for _, e := range elems {
		large(c.Pick(300, 600), func(int) *ref.V { return e })
	}
	fs = append(fs, family{"large-mixed", mixed})
	var nested []*ref.V
	for _, d := range []int{1, 2, 3, 5, 8, 16, 32, 33, 64, 100, 500, 1000} {
		nested = append(nested, ref.Nested(d)...)
	}
	fs = append(fs, family{"nested", nested})
	leaves := ref.SmallLeaves()
	for n := 1; n <= 3; n++ {
		fs = append(fs, family{fmt.Sprintf("trees-%d-nodes", n), ref.Trees(n, leaves, true)})
	}
	if c.Thorough() {
		fs = append(fs, family{"trees-4-nodes", ref.Trees(4, leaves, true)})
		fs = append(fs, family{"trees-5-nodes", ref.Trees(5, []*ref.V{ref.VNil, ref.VLong(-200), ref.VUtf8("k")}, true)})
		fs = append(fs, family{"trees-6-nodes", ref.Trees(6, []*ref.V{ref.VLong(300)}, false)})
	} else {
		fs = append(fs, family{"trees-4-nodes", ref.Trees(4, []*ref.V{ref.VNil, ref.VLong(-200), ref.VUtf8("k")}, true)})
	}
	for _, f := range fs {
		c.Bound(f.name, len(f.vs))
	}
	return fs
}

func total(fs []family) int {
	n := 0
	for _, f := range fs {
		n += len(f.vs)
	}
	return n
}

func bigInt(i int64) *big.Int { return big.NewInt(i) }
