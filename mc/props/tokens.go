package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime"
	"unsafe"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

func init() { All["C25"] = C25 }

// ---------- C25: tokens ----------

// shape gives the format of a first byte, the size of the rest of its header, and the width of the
// length in it, according to MessagePack.
func shape(code byte) (f value.Format, size int) {
	switch {
	case code < 0x80 || code >= 0xe0:
		return value.LongToken, 0
	case code < 0x90:
		return value.MapHeader, 0
	case code < 0xa0:
		return value.ListHeader, 0
	case code < 0xc0:
		return value.StrHeader, 0
	}
	switch code {
	case 0xc0:
		return value.NilToken, 0
	case 0xc1:
		return value.InvalidFormat, 0
	case 0xc2, 0xc3:
		return value.BoolToken, 0
	case 0xc4, 0xc5, 0xc6:
		return value.BinHeader, 1 << (code - 0xc4)
	case 0xc7, 0xc8, 0xc9:
		return value.ExtHeader, 1 << (code - 0xc7)
	case 0xca:
		return value.DoubleToken, 4
	case 0xcb:
		return value.DoubleToken, 8
	case 0xcc, 0xcd, 0xce, 0xcf:
		return value.LongToken, 1 << (code - 0xcc)
	case 0xd0, 0xd1, 0xd2, 0xd3:
		return value.LongToken, 1 << (code - 0xd0)
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return value.FixExtToken, 1 + 1<<(code-0xd4)
	case 0xd9, 0xda, 0xdb:
		return value.StrHeader, 1 << (code - 0xd9)
	case 0xdc, 0xdd:
		return value.ListHeader, 2 << (code - 0xdc)
	}
	return value.MapHeader, 2 << (code - 0xde)
}

func bigEndian(b []byte) (u uint64) {
	for _, c := range b {
		u = u<<8 | uint64(c)
	}
	return u
}

// parsed is what one parser function makes of a header.
type parsed struct {
	b    bool
	i    int64
	f    uint64
	n    int
	rest string
}

func (p parsed) String() string {
	return fmt.Sprintf("bool %v, long %d, double bits %x, length %d, rest %x", p.b, p.i, p.f, p.n, p.rest)
}

type parseFn struct {
	name    string
	formats []value.Format
	run     func(p value.Parser, h []byte) parsed
}

var parseFns = []parseFn{
	{"ParseBool", []value.Format{value.BoolToken}, func(p value.Parser, h []byte) parsed { return parsed{b: p.ParseBool(h)} }},
	{"ParseLong", []value.Format{value.LongToken}, func(p value.Parser, h []byte) parsed { return parsed{i: p.ParseLong(h)} }},
	{"ParseDouble", []value.Format{value.DoubleToken}, func(p value.Parser, h []byte) parsed {
		return parsed{f: math.Float64bits(p.ParseDouble(h))}
	}},
	{"ParseBin", []value.Format{value.BinHeader}, func(p value.Parser, h []byte) parsed { return parsed{n: p.ParseBin(h)} }},
	{"ParseStr", []value.Format{value.StrHeader}, func(p value.Parser, h []byte) parsed { return parsed{n: p.ParseStr(h)} }},
	{"ParseList", []value.Format{value.ListHeader}, func(p value.Parser, h []byte) parsed { return parsed{n: p.ParseList(h)} }},
	{"ParseMap", []value.Format{value.MapHeader}, func(p value.Parser, h []byte) parsed { return parsed{n: p.ParseMap(h)} }},
	{"ParseExt", []value.Format{value.FixExtToken, value.ExtHeader}, func(p value.Parser, h []byte) parsed {
		n, rest := p.ParseExt(h)
		return parsed{n: n, rest: string(rest)}
	}},
}

// meaning is what the matching parser function has to make of a complete header; ok is false when it has to
// be an error.
func meaning(h []byte) (p parsed, ok bool) {
	code := h[0]
	f, size := shape(code)
	u := bigEndian(h[1 : 1+size])
	switch f {
	case value.BoolToken:
		p.b = code == 0xc3
	case value.LongToken:
		switch {
		case size == 0:
			p.i = int64(int8(code))
		case code == 0xcf && u > math.MaxInt64:
			return p, false
		case code <= 0xcf:
			p.i = int64(u)
		default:
			p.i = int64(u<<(64-8*size)) >> (64 - 8*size)
		}
	case value.DoubleToken:
		p.f = u
		if size == 4 {
			p.f = math.Float64bits(float64(math.Float32frombits(uint32(u))))
		}
	case value.BinHeader:
		p.n = int(u)
	case value.StrHeader:
		p.n = int(u)
		if size == 0 {
			p.n = int(code - 0xa0)
		}
	case value.ListHeader:
		p.n = int(u)
		if size == 0 {
			p.n = int(code - 0x90)
		}
	case value.MapHeader:
		p.n = int(u)
		if size == 0 {
			p.n = int(code - 0x80)
		}
	case value.FixExtToken:
		p.n, p.rest = size-1, string(h[1:])
	case value.ExtHeader:
		p.n = int(u)
	default:
		return p, false
	}
	return p, true
}

func handles(f *parseFn, k value.Format) bool {
	for _, x := range f.formats {
		if x == k {
			return true
		}
	}
	return false
}

// unpackers make every kind of unpacker over the bytes b.
type unpackerKind struct {
	name string
	mk   func(b []byte) value.Unpacker
}

type byteWise struct{ r *bytes.Reader }

func (o byteWise) Read(b []byte) (int, error) {
	if len(b) > 1 {
		b = b[:1]
	}
	return o.r.Read(b)
}

// together delivers the end together with the last bytes.
type together struct {
	b []byte
}

func (t *together) Read(p []byte) (int, error) {
	n := copy(p, t.b)
	t.b = t.b[n:]
	if len(t.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

var unpackerKinds = []unpackerKind{
	{"MessageUnpacker(copy)", func(b []byte) value.Unpacker { return value.MessageUnpacker(b, true) }},
	{"MessageUnpacker(nocopy)", func(b []byte) value.Unpacker { return value.MessageUnpacker(b, false) }},
	{"MessageReader(bytes.Reader)", func(b []byte) value.Unpacker { return value.MessageReader(bytes.NewReader(b)) }},
	{"MessageReader(plain)", func(b []byte) value.Unpacker { return value.MessageReader(PlainReader{bytes.NewReader(b)}) }},
	{"MessageReader(one byte at a time)", func(b []byte) value.Unpacker { return value.MessageReader(byteWise{bytes.NewReader(b)}) }},
	{"MessageReader(end with the data)", func(b []byte) value.Unpacker { return value.MessageReader(&together{b}) }},
}

// tokens reads the tokens of b, the payloads included, with every unpacker; split says into how many pieces a
// payload is read.
func tokens(w *kit.W, b []byte, kinds []unpackerKind, split int) {
	for k := range kinds {
		w.Step(func() string { return fmt.Sprintf("%s over %s, payloads in %d pieces", kinds[k].name, hexs(b), split) })
		w.Trace()
		u := kinds[k].mk(b)
		for at := 0; ; {
			f, h := u.Next()
			if at == len(b) {
				for i := 0; i < 2; i++ {
					if f != value.EOF {
						w.Fail("at the end: format %d, header %x, expected EOF", f, h)
					}
					f, h = u.Next()
				}
				if p, err := u.Read(1); err == nil {
					w.Fail("at the end a byte was read: %x", p)
				}
				if p, err := u.Read(0); err != nil || len(p) != 0 {
					w.Fail("at the end reading nothing gives %x, %v", p, err)
				}
				break
			}
			wf, size := shape(b[at])
			if at+1+size > len(b) {
				for i := 0; i < 2; i++ {
					if f != value.UnexpectedEOF && !(i > 0 && f == value.EOF) {
						w.Fail("inside of the header at %d: format %d, header %x, expected UnexpectedEOF", at, f, h)
					}
					f, h = u.Next()
				}
				break
			}
			want := b[at : at+1+size]
			if f != wf || !bytes.Equal(h, want) {
				w.Fail("token at %d: format %d header %x, expected format %d header %x", at, f, h, wf, want)
			}
			at += 1 + size
			n := 0
			if f == value.BinHeader || f == value.StrHeader || f == value.ExtHeader {
				m, _ := meaning(want)
				n = m.n
				if f == value.ExtHeader {
					n++
				}
			}
			if n > len(b)-at {
				if n > 1<<22 && k > 1 { // the bounds on memory are another property
					n = len(b) - at + 1
				}
				p, err := u.Read(n)
				if err != io.ErrUnexpectedEOF && !errors.Is(err, io.ErrUnexpectedEOF) {
					w.Fail("payload at %d of length %d with only %d bytes left: %d bytes and error %v", at, n, len(b)-at, len(p), err)
				}
				break
			}
			for i := 0; i < split; i++ {
				m := n / split
				if i == split-1 {
					m = n - m*i
				}
				p, err := u.Read(m)
				if err != nil || !bytes.Equal(p, b[at:at+m]) {
					w.Fail("payload at %d of length %d, piece %d: %s, error %v", at, n, i, hexs(p), err)
				}
				at += m
			}
		}
	}
}

// headerPayloads are contents of the size bytes that follow a first byte.
func headerPayloads(size int) [][]byte {
	var out [][]byte
	fixed := func(u uint64) {
		b := make([]byte, size)
		for i := size - 1; i >= 0; i-- {
			b[i] = byte(u)
			u >>= 8
		}
		out = append(out, b)
	}
	switch {
	case size == 0:
		out = append(out, nil)
	case size == 1:
		for i := 0; i < 256; i++ {
			fixed(uint64(i))
		}
	case size == 2:
		for i := 0; i < 65536; i++ {
			fixed(uint64(i))
		}
	case size == 4 || size == 8:
		for k := uint(0); k < uint(8*size); k++ {
			for _, d := range []int64{-1, 0, 1} {
				fixed(uint64(int64(uint64(1)<<k) + d))
				fixed(^uint64(int64(uint64(1)<<k) + d))
			}
		}
		for i := 0; i < size; i++ {
			for j := 0; j < size; j++ {
				fixed(uint64(0x81)<<(8*i) | uint64(0x7e)<<(8*j))
			}
		}
		for i := 0; i < 256; i++ {
			fixed(0x0101010101010101 * uint64(i))
			fixed(0x0102030405060708 + 0x0101010101010101*uint64(i))
		}
		for _, u := range ref.DoubleBits() {
			fixed(u)
		}
		for _, i := range ref.IntBoundaries() {
			fixed(uint64(i))
		}
	default:
		for i := 0; i < 256; i++ {
			b := make([]byte, size)
			for j := range b {
				b[j] = byte(i + j*37)
			}
			b[0] = byte(i)
			out = append(out, b)
		}
	}
	return out
}

func C25(c *kit.Ctx) {
	c.Assume("a header is complete when it reaches the parser, as both unpackers deliver it")
	c.Sample("ParseLong of header cf8000000000000000 has to be an error, ParseStr of header d90a is 10")
	// every complete header through every parser function
	c.Par("headers-and-parser-functions", 256, func(w *kit.W, i int) {
		code := byte(i)
		f, size := shape(code)
		for _, pl := range headerPayloads(size) {
			h := append([]byte{code}, pl...)
			want, ok := meaning(h)
			for k := range parseFns {
				fn := &parseFns[k]
				w.NewState()
				w.Step(func() string { return fmt.Sprintf("%s of header %x", fn.name, h) })
				w.Trace()
				p := value.MessageParser()
				if p.Error() != nil {
					w.Fail("a new parser reports %v", p.Error())
				}
				g := fn.run(p, h)
				if ok && handles(fn, f) {
					if p.Error() != nil || g != want {
						w.Fail("%v (error %v), expected %v", g, p.Error(), want)
					}
					if g = fn.run(p, h); p.Error() != nil || g != want {
						w.Fail("the second time %v (error %v), expected %v", g, p.Error(), want)
					}
					continue
				}
				if p.Error() == nil {
					w.Fail("no error, result %v", g)
				}
				if !handles(fn, f) && (g.b || g.i != 0 || g.f != 0 || g.n != 0) {
					w.Fail("an error and the result %v", g)
				}
				// the error stays
				for j := range parseFns {
					parseFns[j].run(p, []byte{0xc3, 0, 0, 0, 0, 0, 0, 0, 0})
					if p.Error() == nil {
						w.Fail("the error was forgotten after %s", parseFns[j].name)
					}
				}
				if size == 2 && pl[0] != 0 && pl[0] != 0x80 && pl[0] != 0xff && pl[1]%16 != 0 {
					break // mismatches do not need every number
				}
			}
		}
	})
	// every first byte, header cut at every place, followed by further tokens
	c.Par("headers-and-unpackers", 256, func(w *kit.W, i int) {
		code := byte(i)
		f, size := shape(code)
		pls := headerPayloads(size)
		step := 1
		if len(pls) > 2000 {
			step = 97
		}
		for k := 0; k < len(pls); k += step {
			h := append([]byte{code}, pls[k]...)
			for cut := 1; cut <= len(h); cut++ {
				w.NewState()
				tokens(w, h[:cut:cut], unpackerKinds, 1)
				for _, before := range [][]byte{{0xc0}, {0xcd, 1, 2}, {0xa2, 'h', 'i'}, {0xc7, 3, 9, 'a', 'b', 'c'}, {0xd4, 5, 6}} {
					if k > 3*step && cut < len(h) {
						break
					}
					tokens(w, append(append([]byte(nil), before...), h[:cut]...), unpackerKinds, 1)
				}
			}
			m, _ := meaning(h)
			if n := m.n; (f == value.BinHeader || f == value.StrHeader || f == value.ExtHeader) && n <= 70000 {
				if f == value.ExtHeader {
					n++
				}
				b := append([]byte(nil), h...)
				for j := 0; j < n; j++ {
					b = append(b, byte(j*7+1))
				}
				for _, split := range []int{1, 2, 3} {
					w.NewState()
					tokens(w, b, unpackerKinds, split)
					tokens(w, append(b[:len(b):len(b)], 0x92, 0xc3, 0xcb, 0, 1, 2, 3, 4, 5, 6, 7, 0xc1), unpackerKinds, split)
					if n > 0 {
						tokens(w, b[:len(b)-1:len(b)-1], unpackerKinds, split)
					}
				}
			}
		}
	})
	tokenCalls(c)
	tokenLimits(c)
}

// tally counts what is written and keeps the first bytes of it.
type tally struct {
	n    int
	head []byte
}

func (t *tally) Write(b []byte) (int, error) {
	t.n += len(b)
	if k := 16 - len(t.head); k > 0 {
		if k > len(b) {
			k = len(b)
		}
		t.head = append(t.head, b[:k]...)
	}
	return len(b), nil
}

// tokenLimits: counts and lengths around the largest that MessagePack can represent. One that it
// cannot is refused: an error that stays, and nothing written, before or after it.
func tokenLimits(c *kit.Ctx) {
	const most = 1<<32 - 1
	sizes := []int{most, most + 1, most + 2, most + 17, 1<<33 - 1, 1 << 33, 1 << 40, 1<<63 - 1}
	data := make([]byte, most+18) // never touched: no memory behind it
	type call struct {
		name string
		head []byte // what it starts with when it is written
		n    int    // and how long it is; 0: refused
		run  func(p value.Packer)
	}
	var calls []call
	add := func(name string, size int, head []byte, n int, run func(p value.Packer)) {
		if size > most {
			head, n = nil, 0
		}
		calls = append(calls, call{fmt.Sprintf("%s(%d)", name, size), head, n, run})
	}
	for _, n := range sizes {
		n := n
		add("PackList", n, []byte{0xdd, 255, 255, 255, 255}, 5, func(p value.Packer) { p.PackList(n) })
		add("PackMap", n, []byte{0xdf, 255, 255, 255, 255}, 5, func(p value.Packer) { p.PackMap(n) })
		if n > len(data) {
			continue
		}
		b := data[:n]
		add("PackBin", n, []byte{0xc6, 255, 255, 255, 255, 0}, 5+n, func(p value.Packer) { p.PackBin(b) })
		add("PackExt", n, []byte{0xc9, 255, 255, 255, 255, 7, 0}, 6+n, func(p value.Packer) { p.PackExt(7, b) })
		if n > most { // a shorter one is copied: 4 GiB of memory
			str := unsafe.String(&b[0], n)
			add("PackStr", n, nil, 0, func(p value.Packer) { p.PackStr(str) })
		}
	}
	c.Bound("packer_size_limits", fmt.Sprintf("%d calls with sizes %d to %d", len(calls), sizes[0], sizes[len(sizes)-1]))
	c.Par("packer-size-limits", 1, func(w *kit.W, _ int) {
		for ci := range calls {
			cl := &calls[ci]
			for before := 0; before < 2; before++ {
				w.Step(func() string { return fmt.Sprintf("%s after %d tokens", cl.name, before) })
				w.NewState()
				w.Trace()
				out := new(tally)
				p := value.MessagePacker(out)
				for i := 0; i < before; i++ {
					p.PackLong(1)
				}
				cl.run(p)
				runtime.GC() // a packer may copy what it is given
				if out.n != before+cl.n || (p.Error() != nil) != (cl.n == 0) {
					w.Fail("%s writes %d bytes starting with %s, error %v; want %d bytes", cl.name, out.n-before, hexs(out.head), p.Error(), cl.n)
				}
				if k := len(cl.head); k > 0 && !bytes.Equal(out.head[before:before+k], cl.head) {
					w.Fail("%s starts with %s", cl.name, hexs(out.head[before:]))
				}
				if cl.n == 0 {
					err, n := p.Error(), out.n
					p.PackNil()
					p.PackStr("x")
					p.PackList(1)
					if out.n != n || p.Error() != err {
						w.Fail("calls after %s write %d bytes, error %v, was %v", cl.name, out.n-n, p.Error(), err)
					}
				}
			}
		}
	})
}

// tokenCalls: every sequence of packer calls, delivered as tokens.
func tokenCalls(c *kit.Ctx) {
	type call struct {
		name    string
		run     func(p value.Packer)
		f       value.Format
		want    parsed
		payload string
		raw     []byte // not a token: these bytes
	}
	var calls []call
	add := func(name string, f value.Format, want parsed, payload string, run func(p value.Packer)) {
		calls = append(calls, call{name, run, f, want, payload, nil})
	}
	add("PackNil", value.NilToken, parsed{}, "", func(p value.Packer) { p.PackNil() })
	add("PackBool(true)", value.BoolToken, parsed{b: true}, "", func(p value.Packer) { p.PackBool(true) })
	add("PackBool(false)", value.BoolToken, parsed{}, "", func(p value.Packer) { p.PackBool(false) })
	long := func(i int64) {
		add(fmt.Sprintf("PackLong(%d)", i), value.LongToken, parsed{i: i}, "", func(p value.Packer) { p.PackLong(i) })
	}
	double := func(d float64) {
		add(fmt.Sprintf("PackDouble(%v)", d), value.DoubleToken, parsed{f: math.Float64bits(d)}, "", func(p value.Packer) { p.PackDouble(d) })
	}
	text := func(n int) {
		b := bytes.Repeat([]byte("0123456789abcdef"), n/16+1)[:n]
		add(fmt.Sprintf("PackStr(%d bytes)", n), value.StrHeader, parsed{n: n}, string(b), func(p value.Packer) { p.PackStr(string(b)) })
		add(fmt.Sprintf("PackBin(%d bytes)", n), value.BinHeader, parsed{n: n}, string(b), func(p value.Packer) { p.PackBin(b) })
	}
	ext := func(tag byte, n int) {
		b := bytes.Repeat([]byte("fedcba9876543210"), n/16+1)[:n]
		tagged := string([]byte{tag}) + string(b)
		f, want, payload := value.ExtHeader, parsed{n: n}, tagged
		switch n {
		case 1, 2, 4, 8, 16:
			f, want, payload = value.FixExtToken, parsed{n: n, rest: tagged}, ""
		}
		add(fmt.Sprintf("PackExt(%d, %d bytes)", tag, n), f, want, payload, func(p value.Packer) { p.PackExt(value.Ext(tag), b) })
	}
	count := func(n int) {
		add(fmt.Sprintf("PackList(%d)", n), value.ListHeader, parsed{n: n}, "", func(p value.Packer) { p.PackList(n) })
		add(fmt.Sprintf("PackMap(%d)", n), value.MapHeader, parsed{n: n}, "", func(p value.Packer) { p.PackMap(n) })
	}
	for _, i := range []int64{0, -1, -33, 200, -40000, 1 << 40} {
		long(i)
	}
	double(1.5)
	for _, n := range []int{0, 3, 31, 40} {
		text(n)
	}
	for _, n := range []int{0, 1, 3, 16} {
		ext(byte(n*40), n)
	}
	for _, n := range []int{0, 1, 15, 16} {
		count(n)
	}
	add("PackBin(nil)", value.BinHeader, parsed{}, "", func(p value.Packer) { p.PackBin(nil) })
	add("PackExt(7, nil)", value.ExtHeader, parsed{}, "\x07", func(p value.Packer) { p.PackExt(7, nil) })
	small := len(calls)
	for _, i := range ref.IntBoundaries() {
		long(i)
	}
	for _, u := range ref.DoubleBits() {
		double(math.Float64frombits(u))
	}
	for _, n := range ref.LenBoundaries(c.Pick(70000, 300000)) {
		text(n)
		count(n)
		for _, tag := range []byte{0, 1, 2, 127, 128, 255} {
			ext(tag, n)
		}
	}
	for _, n := range []int{1<<31 - 1, 1 << 31, 1<<32 - 1} {
		count(n)
	}
	check := func(w *kit.W, seq []int, split int) {
		name := func() string {
			s := ""
			for _, k := range seq {
				s += calls[k].name + " "
			}
			return s
		}
		w.Step(name)
		w.NewState()
		var out bytes.Buffer
		p := value.MessagePacker(&out)
		for _, k := range seq {
			calls[k].run(p)
			if p.Error() != nil {
				w.Fail("%s: error %v", calls[k].name, p.Error())
			}
		}
		for ki := range unpackerKinds {
			w.Step(func() string { return name() + "read by " + unpackerKinds[ki].name })
			w.Trace()
			u, ps := unpackerKinds[ki].mk(out.Bytes()), value.MessageParser()
			for _, k := range seq {
				cl := &calls[k]
				f, h := u.Next()
				if f != cl.f {
					w.Fail("%s is delivered as format %d, header %x", cl.name, f, h)
				}
				var g parsed
				for j := range parseFns {
					if handles(&parseFns[j], f) {
						g = parseFns[j].run(ps, h)
					}
				}
				if ps.Error() != nil || g != cl.want {
					w.Fail("%s is parsed as %v, error %v", cl.name, g, ps.Error())
				}
				for i, at := 0, 0; i < split && cl.payload != ""; i++ {
					m := len(cl.payload) / split
					if i == split-1 {
						m = len(cl.payload) - at
					}
					b, err := u.Read(m)
					if err != nil || string(b) != cl.payload[at:at+m] {
						w.Fail("%s: payload piece %d is %s, error %v", cl.name, i, hexs(b), err)
					}
					at += m
				}
			}
			if f, h := u.Next(); f != value.EOF {
				w.Fail("after the last token: format %d, header %x", f, h)
			}
		}
	}
	c.Bound("packer_calls", len(calls))
	c.Sample("%s %s %s", calls[5].name, calls[9].name, calls[small-1].name)
	c.Par("single-packer-calls", len(calls), func(w *kit.W, i int) {
		for split := 1; split <= 3; split++ {
			check(w, []int{i}, split)
			check(w, []int{i, 0}, split)
			check(w, []int{3, i, i, 1}, split)
		}
	})
	n := c.Pick(3, 4)
	c.Bound("packer_call_sequences", fmt.Sprintf("%d calls, sequences of length %d", small, n))
	c.Par("packer-call-sequences", small*small, func(w *kit.W, i int) {
		seq := make([]int, n)
		seq[0], seq[1] = i/small, i%small
		rest := 1
		for k := 2; k < n; k++ {
			rest *= small
		}
		for r := 0; r < rest; r++ {
			for k, q := 2, r; k < n; k, q = k+1, q/small {
				seq[k] = q % small
			}
			check(w, seq, 1+r%2)
		}
	})
}
