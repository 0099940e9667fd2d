// Package ref is the reference model all checks compare the implementation with. It is
// written from the MessagePack specification and the documented meaning of the value
// types; it shares no code with the library under test.
package ref

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Kind byte

const (
	Nil Kind = iota // Go nil: a hole or a nil element
	Null
	Bool
	Long
	Double
	Big
	Dec
	Utf8
	Raw
	Ext // S[0] is the type, the rest the data
	List
	Sparse
	Map
)

func (k Kind) String() string {
	return [...]string{"nil", "null", "bool", "long", "double", "big", "dec", "utf8", "raw", "ext", "list", "sparse", "map"}[k]
}

// V is a model value. V values are never modified after construction.
type V struct {
	K  Kind
	B  bool
	I  int64
	F  uint64   // bits of a double
	N  *big.Int // Big and Dec
	E  int32    // exponent of Dec
	S  string   // Utf8, Raw, Ext
	L  []*V     // elements or values
	IK []int    // keys of Sparse
	SK []string // keys of Map
}

var (
	VNil   = &V{K: Nil}
	VNull  = &V{K: Null}
	VTrue  = &V{K: Bool, B: true}
	VFalse = &V{K: Bool}
)

func VBool(b bool) *V {
	if b {
		return VTrue
	}
	return VFalse
}
func VLong(i int64) *V              { return &V{K: Long, I: i} }
func VDouble(f float64) *V          { return &V{K: Double, F: math.Float64bits(f)} }
func VDoubleBits(b uint64) *V       { return &V{K: Double, F: b} }
func VBig(n *big.Int) *V            { return &V{K: Big, N: new(big.Int).Set(n)} }
func VDec(n *big.Int, e int32) *V   { return &V{K: Dec, N: new(big.Int).Set(n), E: e} }
func VUtf8(s string) *V             { return &V{K: Utf8, S: s} }
func VRaw(s string) *V              { return &V{K: Raw, S: s} }
func VExt(tag byte, data string) *V { return &V{K: Ext, S: string([]byte{tag}) + data} }
func VList(l ...*V) *V              { return &V{K: List, L: l} }
func VSparse(ks []int, l []*V) *V   { return &V{K: Sparse, IK: ks, L: l} }
func VMap(ks []string, l []*V) *V   { return &V{K: Map, SK: ks, L: l} }

func (v *V) IsContainer() bool { return v.K >= List }

// Nodes counts the nodes of the tree.
func (v *V) Nodes() int {
	n := 1
	for _, e := range v.L {
		n += e.Nodes()
	}
	return n
}

func (v *V) HasNaN() bool {
	if v.K == Double && math.IsNaN(math.Float64frombits(v.F)) {
		return true
	}
	for _, e := range v.L {
		if e.HasNaN() {
			return true
		}
	}
	return false
}

// HasEmptySparse: the empty sparse list encodes as the empty map (its encoding carries no kind).
func (v *V) HasEmptySparse() bool {
	if v.K == Sparse && len(v.L) == 0 {
		return true
	}
	for _, e := range v.L {
		if e.HasEmptySparse() {
			return true
		}
	}
	return false
}

// Norm replaces nil by null everywhere.
func (v *V) Norm() *V {
	if v.K == Nil {
		return VNull
	}
	if len(v.L) == 0 {
		return v
	}
	c := *v
	c.L = make([]*V, len(v.L))
	for i, e := range v.L {
		c.L[i] = e.Norm()
	}
	return &c
}

// Canon is an unambiguous text for the exact content.
func (v *V) Canon() string {
	var b strings.Builder
	v.canon(&b)
	return b.String()
}

func (v *V) WriteCanon(b *strings.Builder) { v.canon(b) }

func (v *V) canon(b *strings.Builder) {
	switch v.K {
	case Nil:
		b.WriteString("nil")
	case Null:
		b.WriteString("null")
	case Bool:
		b.WriteString(strconv.FormatBool(v.B))
	case Long:
		b.WriteString("L")
		b.WriteString(strconv.FormatInt(v.I, 10))
	case Double:
		fmt.Fprintf(b, "D%016x", v.F)
	case Big:
		b.WriteString("B")
		b.WriteString(v.N.Text(16))
	case Dec:
		fmt.Fprintf(b, "E%s^%d", v.N.Text(16), v.E)
	case Utf8, Raw, Ext:
		b.WriteString([...]string{"u", "r", "x"}[v.K-Utf8])
		if len(v.S) > 64 {
			fmt.Fprintf(b, "#%d:%016x:%q..", len(v.S), hash(v.S), v.S[:16])
		} else {
			b.WriteString(strconv.Quote(v.S))
		}
	case List:
		b.WriteByte('[')
		for i, e := range v.L {
			if i > 0 {
				b.WriteByte(',')
			}
			e.canon(b)
		}
		b.WriteByte(']')
	case Sparse:
		b.WriteByte('<')
		for i, e := range v.L {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Itoa(v.IK[i]))
			b.WriteByte(':')
			e.canon(b)
		}
		b.WriteByte('>')
	case Map:
		b.WriteByte('{')
		for i, e := range v.L {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(v.SK[i]))
			b.WriteByte(':')
			e.canon(b)
		}
		b.WriteByte('}')
	}
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Short is Canon cut for messages.
func (v *V) Short() string {
	s := v.Canon()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// Same reports whether two values have exactly the same content.
func Same(a, b *V) bool {
	if a.K != b.K || a.B != b.B || a.I != b.I || a.F != b.F || a.E != b.E || a.S != b.S ||
		len(a.L) != len(b.L) || len(a.IK) != len(b.IK) || len(a.SK) != len(b.SK) {
		return false
	}
	if (a.N == nil) != (b.N == nil) || a.N != nil && a.N.Cmp(b.N) != 0 {
		return false
	}
	for i := range a.IK {
		if a.IK[i] != b.IK[i] {
			return false
		}
	}
	for i := range a.SK {
		if a.SK[i] != b.SK[i] {
			return false
		}
	}
	for i := range a.L {
		if !Same(a.L[i], b.L[i]) {
			return false
		}
	}
	return true
}

// ---------- MessagePack encoding, from the specification ----------

func be(n int, v uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return b[8-n:]
}

func EncInt(b []byte, i int64) []byte {
	switch {
	case i >= 0 && i < 128:
		return append(b, byte(i))
	case i >= 0 && i < 256:
		return append(append(b, 0xcc), be(1, uint64(i))...)
	case i >= 0 && i < 65536:
		return append(append(b, 0xcd), be(2, uint64(i))...)
	case i >= 0 && i < 1<<32:
		return append(append(b, 0xce), be(4, uint64(i))...)
	case i >= 0:
		return append(append(b, 0xcf), be(8, uint64(i))...)
	case i >= -32:
		return append(b, byte(256+i))
	case i >= -128:
		return append(append(b, 0xd0), be(1, uint64(i))...)
	case i >= -32768:
		return append(append(b, 0xd1), be(2, uint64(i))...)
	case i >= -(1 << 31):
		return append(append(b, 0xd2), be(4, uint64(i))...)
	}
	return append(append(b, 0xd3), be(8, uint64(i))...)
}

func sized(b []byte, n int, fixBase, fixMax int, c8, c16, c32 int) []byte {
	switch {
	case n <= fixMax:
		return append(b, byte(fixBase+n))
	case c8 >= 0 && n < 256:
		return append(append(b, byte(c8)), be(1, uint64(n))...)
	case n < 65536:
		return append(append(b, byte(c16)), be(2, uint64(n))...)
	}
	return append(append(b, byte(c32)), be(4, uint64(n))...)
}

func EncStrHeader(b []byte, n int) []byte  { return sized(b, n, 0xa0, 31, 0xd9, 0xda, 0xdb) }
func EncBinHeader(b []byte, n int) []byte  { return sized(b, n, 0, -1, 0xc4, 0xc5, 0xc6) }
func EncListHeader(b []byte, n int) []byte { return sized(b, n, 0x90, 15, -1, 0xdc, 0xdd) }
func EncMapHeader(b []byte, n int) []byte  { return sized(b, n, 0x80, 15, -1, 0xde, 0xdf) }
func EncExtHeader(b []byte, n int, tag byte) []byte {
	for i, k := range []int{1, 2, 4, 8, 16} {
		if n == k {
			return append(b, byte(0xd4+i), tag)
		}
	}
	return append(sized(b, n, 0, -1, 0xc7, 0xc8, 0xc9), tag)
}

func BigPayload(n *big.Int) []byte {
	b := []byte{2}
	if n.Sign() < 0 {
		b[0] = 3
	}
	return append(b, n.Bytes()...)
}

func (v *V) Encode() []byte { return v.Enc(nil) }

func (v *V) Enc(b []byte) []byte {
	switch v.K {
	case Nil, Null:
		return append(b, 0xc0)
	case Bool:
		if v.B {
			return append(b, 0xc3)
		}
		return append(b, 0xc2)
	case Long:
		return EncInt(b, v.I)
	case Double:
		return append(append(b, 0xcb), be(8, v.F)...)
	case Big:
		p := BigPayload(v.N)
		return append(EncExtHeader(b, len(p), 1), p...)
	case Dec:
		p := append(be(4, uint64(uint32(v.E))), BigPayload(v.N)...)
		return append(EncExtHeader(b, len(p), 2), p...)
	case Utf8:
		return append(EncStrHeader(b, len(v.S)), v.S...)
	case Raw:
		return append(EncBinHeader(b, len(v.S)), v.S...)
	case Ext:
		return append(EncExtHeader(b, len(v.S)-1, v.S[0]), v.S[1:]...)
	case List:
		b = EncListHeader(b, len(v.L))
		for _, e := range v.L {
			b = e.Enc(b)
		}
	case Sparse:
		b = EncMapHeader(b, len(v.L))
		for i, e := range v.L {
			b = e.Enc(EncInt(b, int64(v.IK[i])))
		}
	case Map:
		b = EncMapHeader(b, len(v.L))
		for i, e := range v.L {
			k := v.SK[i]
			b = e.Enc(append(EncStrHeader(b, len(k)), k...))
		}
	}
	return b
}

// ---------- MessagePack decoding, from the specification ----------

type Status int

const (
	OK          Status = iota
	Empty              // no byte at all
	Truncated          // the input ends inside the item
	Malformed          // never used code, or a payload that is no number of the library's range
	Unspecified        // a map with keys that are neither integers nor text, ... : only totality is required
)

func (s Status) String() string {
	return [...]string{"ok", "empty", "truncated", "malformed", "unspecified"}[s]
}

type decoder struct {
	b     []byte
	i     int
	loose bool // something unspecified was seen
}

// Result of decoding the first item of a byte string.
type Result struct {
	St Status
	V  *V
	N  int // bytes of the first item when St == OK or Unspecified
	// Loose: keys outside what the statement fixes were seen, only totality is compared
	Loose bool
}

func Decode(b []byte) Result {
	if len(b) == 0 {
		return Result{St: Empty}
	}
	d := &decoder{b: b}
	v, st := d.item()
	r := Result{St: st, V: v, N: d.i, Loose: d.loose}
	return r
}

func (d *decoder) take(n int) ([]byte, bool) {
	if n < 0 || len(d.b)-d.i < n {
		return nil, false
	}
	r := d.b[d.i : d.i+n]
	d.i += n
	return r, true
}

func (d *decoder) num(n int) (uint64, bool) {
	r, ok := d.take(n)
	if !ok {
		return 0, false
	}
	var v uint64
	for _, c := range r {
		v = v<<8 | uint64(c)
	}
	return v, true
}

func (d *decoder) item() (*V, Status) {
	h, ok := d.take(1)
	if !ok {
		return nil, Truncated
	}
	c := h[0]
	switch {
	case c < 0x80:
		return VLong(int64(c)), OK
	case c < 0x90:
		return d.mapping(int(c - 0x80))
	case c < 0xa0:
		return d.list(int(c - 0x90))
	case c < 0xc0:
		return d.text(Utf8, int(c-0xa0))
	case c >= 0xe0:
		return VLong(int64(c) - 256), OK
	}
	width := map[byte]int{0xc4: 1, 0xc5: 2, 0xc6: 4, 0xc7: 1, 0xc8: 2, 0xc9: 4, 0xca: 4, 0xcb: 8,
		0xcc: 1, 0xcd: 2, 0xce: 4, 0xcf: 8, 0xd0: 1, 0xd1: 2, 0xd2: 4, 0xd3: 8,
		0xd9: 1, 0xda: 2, 0xdb: 4, 0xdc: 2, 0xdd: 4, 0xde: 2, 0xdf: 4}[c]
	n, ok := d.num(width)
	if !ok {
		return nil, Truncated
	}
	switch c {
	case 0xc0:
		return VNull, OK
	case 0xc1:
		return nil, Malformed
	case 0xc2:
		return VFalse, OK
	case 0xc3:
		return VTrue, OK
	case 0xc4, 0xc5, 0xc6:
		return d.text(Raw, int(n))
	case 0xc7, 0xc8, 0xc9:
		return d.ext(int(n))
	case 0xca:
		return VDouble(float64(math.Float32frombits(uint32(n)))), OK
	case 0xcb:
		return VDoubleBits(n), OK
	case 0xcc, 0xcd, 0xce:
		return VLong(int64(n)), OK
	case 0xcf:
		if n > math.MaxInt64 {
			return nil, Malformed // not representable: must not turn into another number
		}
		return VLong(int64(n)), OK
	case 0xd0:
		return VLong(int64(int8(n))), OK
	case 0xd1:
		return VLong(int64(int16(n))), OK
	case 0xd2:
		return VLong(int64(int32(n))), OK
	case 0xd3:
		return VLong(int64(n)), OK
	case 0xd4:
		return d.ext(1)
	case 0xd5:
		return d.ext(2)
	case 0xd6:
		return d.ext(4)
	case 0xd7:
		return d.ext(8)
	case 0xd8:
		return d.ext(16)
	case 0xd9, 0xda, 0xdb:
		return d.text(Utf8, int(n))
	case 0xdc, 0xdd:
		return d.list(int(n))
	case 0xde, 0xdf:
		return d.mapping(int(n))
	}
	panic("unreachable")
}

func (d *decoder) text(k Kind, n int) (*V, Status) {
	b, ok := d.take(n)
	if !ok {
		return nil, Truncated
	}
	return &V{K: k, S: string(b)}, OK
}

func bigPayload(b []byte) (*big.Int, bool, bool) {
	if len(b) == 0 {
		return nil, false, true // the gob convention reads this as zero: unspecified
	}
	if b[0] != 2 && b[0] != 3 {
		return nil, false, false
	}
	n := new(big.Int).SetBytes(b[1:])
	if b[0] == 3 {
		n.Neg(n)
	}
	return n, true, false
}

func (d *decoder) ext(n int) (*V, Status) {
	t, ok := d.take(1)
	if !ok {
		return nil, Truncated
	}
	b, ok := d.take(n)
	if !ok {
		return nil, Truncated
	}
	switch t[0] {
	case 1:
		n, ok, loose := bigPayload(b)
		if loose {
			d.loose = true
			return VBig(new(big.Int)), OK
		}
		if !ok {
			return nil, Malformed
		}
		return VBig(n), OK
	case 2:
		if len(b) < 4 {
			return nil, Malformed
		}
		e := int32(binary.BigEndian.Uint32(b))
		n, ok, loose := bigPayload(b[4:])
		if loose {
			d.loose = true
			return VDec(new(big.Int), e), OK
		}
		if !ok {
			return nil, Malformed
		}
		return VDec(n, e), OK
	}
	return VExt(t[0], string(b)), OK
}

func (d *decoder) list(n int) (*V, Status) {
	v := &V{K: List}
	for i := 0; i < n; i++ {
		e, st := d.item()
		if st != OK {
			return nil, st
		}
		v.L = append(v.L, e)
	}
	return v, OK
}

func (d *decoder) mapping(n int) (*V, Status) {
	if n == 0 {
		return &V{K: Map}, OK
	}
	var ks, vs []*V
	ints, texts := 0, 0
	for i := 0; i < n; i++ {
		k, st := d.item()
		if st != OK {
			return nil, st
		}
		e, st := d.item()
		if st != OK {
			return nil, st
		}
		ks, vs = append(ks, k), append(vs, e)
		switch k.K {
		case Long:
			ints++
		case Utf8:
			texts++
		}
	}
	if ints+texts != n {
		d.loose = true
		return &V{K: Map}, OK
	}
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	if ints == n {
		v := &V{K: Sparse}
		sort.SliceStable(idx, func(a, b int) bool { return ks[idx[a]].I < ks[idx[b]].I })
		for _, i := range idx {
			v.IK = append(v.IK, int(ks[i].I))
			v.L = append(v.L, vs[i])
		}
		return v, OK
	}
	text := func(i int) string {
		if ks[i].K == Long {
			return strconv.FormatInt(ks[i].I, 10)
		}
		return ks[i].S
	}
	v := &V{K: Map}
	sort.SliceStable(idx, func(a, b int) bool { return text(idx[a]) < text(idx[b]) })
	for _, i := range idx {
		v.SK = append(v.SK, text(i))
		v.L = append(v.L, vs[i])
	}
	return v, OK
}

// ---------- text forms ----------

func bigText(n *big.Int) string {
	s := hex.EncodeToString(n.Bytes())
	if s == "" {
		s = "0"
	}
	if n.Sign() < 0 {
		return "-0x" + s
	}
	return "0x" + s
}

func BigText(n *big.Int) string { return bigText(n) }

func DecText(n *big.Int, e int32) string {
	s := bigText(n)
	if e == 0 {
		return s
	}
	u, sg := uint32(e), ""
	if e < 0 {
		u, sg = uint32(-e), "-"
	}
	return s + string(DecDelim) + sg + hex.EncodeToString(bytes.TrimLeft(be(4, uint64(u)), "\x00"))
}
