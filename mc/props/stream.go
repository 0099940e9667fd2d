package props

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"strings"
	"syscall"
	"testing/iotest"
	"time"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

func init() {
	All["C06"] = C06
	All["C07"] = C07
	All["C08"] = C08
}

var errBoom = errors.New("boom")

// netError is a failure that says it may go away.
type netError struct{ timeout, temporary bool }

func (e *netError) Error() string   { return "network trouble" }
func (e *netError) Timeout() bool   { return e.timeout }
func (e *netError) Temporary() bool { return e.temporary }

// listError cannot be compared with ==.
type listError []string

func (e listError) Error() string { return "several failures" }
func (e listError) Is(t error) bool {
	_, ok := t.(listError)
	return ok
}

var writeErrors = []error{errBoom, io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer,
	os.ErrClosed, os.ErrDeadlineExceeded, context.Canceled, context.DeadlineExceeded,
	&netError{true, false}, &netError{false, true}, listError{"a", "b"},
	syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.ECONNRESET,
	&os.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC}, fmt.Errorf("wrapped: %w", io.ErrShortWrite)}

// readErrors besides the end of file.
var readErrors = []error{errBoom, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, os.ErrClosed, os.ErrDeadlineExceeded, context.Canceled,
	&netError{true, false}, &netError{false, true}, listError{"a", "b"}, syscall.EINTR, syscall.EAGAIN, syscall.ECONNRESET}

// scriptReader delivers data as the script says.
type scriptReader struct {
	data   []byte
	pos    int
	cuts   func(pos int) int // end of the chunk that contains pos
	zeros  int               // reads returning 0, nil before every chunk
	end    error             // what happens at the end of data
	withIt bool              // the end is returned together with the last data
	more   []byte            // what follows once the end has been returned
	zdone  int
	zpos   int
	reads  int
}

func (r *scriptReader) Read(p []byte) (int, error) {
	r.reads++
	if r.reads > (10+r.zeros)*len(r.data)+1000 {
		panic("the reader is called again and again")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos >= len(r.data) {
		r.goOn()
		return 0, r.end
	}
	if r.zpos != r.pos {
		r.zpos, r.zdone = r.pos, 0
	}
	if r.zdone < r.zeros {
		r.zdone++
		return 0, nil
	}
	e := len(r.data)
	if r.cuts != nil {
		e = r.cuts(r.pos)
	}
	n := copy(p, r.data[r.pos:e])
	r.pos += n
	if r.withIt && r.pos == len(r.data) {
		return n, r.end
	}
	return n, nil
}

func (r *scriptReader) goOn() {
	if r.more != nil {
		r.data, r.more, r.cuts = append(append([]byte(nil), r.data...), r.more...), nil, nil
	}
}

// byteReader adds single-byte reads.
type byteReader struct{ *scriptReader }

func (r byteReader) ReadByte() (byte, error) {
	r.reads++
	if r.reads > (10+r.zeros)*len(r.data)+1000 {
		panic("the reader is called again and again")
	}
	if r.pos >= len(r.data) {
		r.goOn()
		return 0, r.end
	}
	c := r.data[r.pos]
	r.pos++
	return c, nil
}

func whole(data []byte) func(int) int { return func(int) int { return len(data) } }

func chunked(data []byte, n int) func(int) int {
	return func(pos int) int {
		e := (pos/n + 1) * n
		if e > len(data) {
			e = len(data)
		}
		return e
	}
}

// maskCuts cuts after byte i when bit i is set.
func maskCuts(data []byte, mask int) func(int) int {
	return func(pos int) int {
		for i := pos; i < len(data)-1; i++ {
			if mask>>i&1 != 0 {
				return i + 1
			}
		}
		return len(data)
	}
}

func atCuts(data []byte, cuts ...int) func(int) int {
	return func(pos int) int {
		for _, c := range cuts {
			if c > pos {
				return c
			}
		}
		return len(data)
	}
}

// expectation of reading a byte string value by value.
type expectation struct {
	vs  []*ref.V
	off []int // offset after each value
	st  ref.Status
}

func expect(b []byte) expectation {
	var x expectation
	off := 0
	for {
		r := ref.Decode(b[off:])
		if r.St != ref.OK {
			x.st = r.St
			return x
		}
		off += r.N
		if r.Loose {
			panic("loose base value")
		}
		x.vs = append(x.vs, r.V)
		x.off = append(x.off, off)
	}
}

// checkEnd compares the final error. end is what the reader did at the end of data.
func checkEnd(w *kit.W, how string, err error, st ref.Status, end error) {
	if err == nil {
		w.Fail("%s: no error at the end", how)
	}
	switch {
	case st == ref.Malformed:
		if errors.Is(err, io.EOF) {
			w.Fail("%s: malformed input reported as end of file", how)
		}
	case end != io.EOF:
		if !errors.Is(err, end) {
			w.Fail("%s: the reader failed with %q, reported was %v", how, end, err)
		}
	case st == ref.Empty:
		if !errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
			w.Fail("%s: clean end of input reported as %v", how, err)
		}
	default:
		if !errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, io.EOF) {
			w.Fail("%s: input ending inside a value reported as %v", how, err)
		}
	}
}

// streamCase reads the script with every reading call and compares with the expectation.
// mk returns a fresh reader; pos tells how much it has handed out.
func streamCase(w *kit.W, x expectation, end error, desc func() string, mk func() (io.Reader, *scriptReader)) {
	same := func(how string, i int, v value.Value) {
		if i >= len(x.vs) {
			w.Fail("%s delivered %d values, the input contains %d (extra: %s)", how, i+1, len(x.vs), ref.Observe(v).Short())
		}
		if v == nil {
			w.Fail("%s: value %d is nil", how, i)
		}
		if g := ref.Observe(v); !ref.Same(g, x.vs[i]) {
			w.Fail("%s: value %d is %s, expected %s", how, i, g.Short(), x.vs[i].Short())
		}
	}
	w.Step(func() string { return "Read, " + desc() })
	r, s := mk()
	i := 0
	for {
		v, err := value.Read(r)
		if err != nil {
			checkEnd(w, "Read", err, x.st, end)
			break
		}
		same("Read", i, v)
		if s.pos != x.off[i] {
			w.Fail("Read: after value %d the reader has handed out %d bytes, the values take %d", i, s.pos, x.off[i])
		}
		i++
	}
	if i != len(x.vs) {
		w.Fail("Read: %d values before the end, expected %d", i, len(x.vs))
	}
	w.Trace()
	w.Step(func() string { return "one MessageReader, " + desc() })
	r, s = mk()
	u, p := value.MessageReader(r), value.MessageParser()
	i = 0
	for {
		v, err := value.Parse(u, p)
		if err != nil {
			checkEnd(w, "MessageReader", err, x.st, end)
			break
		}
		same("MessageReader", i, v)
		if s.pos != x.off[i] {
			w.Fail("MessageReader: after value %d the reader has handed out %d bytes, the values take %d", i, s.pos, x.off[i])
		}
		i++
	}
	if i != len(x.vs) {
		w.Fail("MessageReader: %d values before the end, expected %d", i, len(x.vs))
	}
	w.Trace()
	w.Step(func() string { return "ReadStream, " + desc() })
	r, _ = mk()
	out := make(chan value.Value, len(x.vs)+4)
	done := make(chan struct{})
	var got []value.Value
	go func() {
		for v := range out {
			got = append(got, v)
		}
		close(done)
	}()
	err := value.ReadStream(r, out)
	<-done // closed by ReadStream, otherwise this is reported as a hang
	for i, v := range got {
		same("ReadStream", i, v)
	}
	if len(got) != len(x.vs) {
		w.Fail("ReadStream: %d values before the end, expected %d", len(got), len(x.vs))
	}
	checkEnd(w, "ReadStream", err, x.st, end)
	w.Trace()
}

// streamBases: short byte strings with every token kind, some truncated or malformed.
func streamBases() [][]byte {
	enc := func(vs ...*ref.V) []byte {
		var b []byte
		for _, v := range vs {
			b = v.Enc(b)
		}
		return b
	}
	s := []*ref.V{ref.VNull, ref.VLong(300), ref.VUtf8("ab"), ref.VRaw("xyz"), ref.VExt(9, "q"), ref.VExt(9, "qrs"), ref.VDouble(1.5), ref.VBig(bigInt(-77)), ref.VDec(bigInt(5), -1),
		ref.VList(ref.VTrue, ref.VUtf8("k")), ref.VMap([]string{"a"}, []*ref.V{ref.VLong(200)}), ref.VSparse([]int{1, 9}, []*ref.V{ref.VUtf8(""), ref.VLong(-1)}), ref.VUtf8(""), ref.VRaw(""), ref.VList(), ref.VMap(nil, nil)}
	var out [][]byte
	for _, a := range s {
		out = append(out, enc(a))
	}
	for i, a := range s {
		for d := 1; d < 4; d++ {
			out = append(out, enc(a, s[(i+d)%len(s)]))
		}
	}
	out = append(out, enc(ref.VNull, ref.VUtf8("ab"), ref.VLong(5)), enc(ref.VList(ref.VList(ref.VRaw("z"))), ref.VTrue, ref.VLong(70000)))
	out = append(out, []byte{0x05, 0xc1, 0x05}, []byte{0xa2, 'a', 'b', 0x92, 0x01, 0xc1}, []byte{0xc0, 0xd4, 1, 9, 0xc0}, []byte{0xcf, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xc0},
		[]byte{0xc0, 0x93, 0x01, 0xa3, 'a'}, []byte{0xc3, 0xd9}, []byte{0xcd, 0x01}, []byte{0xc7, 0x03, 0x05, 0x01}, []byte{0xdc, 0x00}, []byte{0x82, 0x01, 0x02, 0x03}, []byte{})
	return out
}

// C06: every composition of short inputs into chunks, all one- and two-cut splits of longer
// ones, with and without empty reads, end of file with data and single-byte reads.
func C06(c *kit.Ctx) {
	standardReaders(c)
	systemReaders(c)
	bases := streamBases()
	maxL := c.Pick(13, 17)
	c.Bound("all_compositions_up_to_bytes", maxL)
	c.Bound("byte_strings", len(bases))
	for bi := range bases {
		b := bases[bi]
		x := expect(b)
		L := len(b)
		if L > maxL {
			L = maxL
		}
		n := 1
		if L > 1 {
			n = 1 << (L - 1)
		}
		c.Par(fmt.Sprintf("compositions/%d", bi), n, func(w *kit.W, mask int) {
			for opt := 0; opt < 8; opt++ {
				w.NewState()
				streamCase(w, x, io.EOF, func() string {
					return fmt.Sprintf("bytes %s cut by mask %b, empty reads %d, EOF with data %v, single-byte reads %v", hexs(b), mask, opt&1*2, opt&2 != 0, opt&4 != 0)
				}, func() (io.Reader, *scriptReader) {
					s := &scriptReader{data: b, cuts: maskCuts(b, mask), zeros: opt & 1 * 2, end: io.EOF, withIt: opt&2 != 0, zpos: -1}
					if opt&4 != 0 {
						return byteReader{s}, s
					}
					return s, s
				})
			}
		})
	}
	// long runs of empty reads before every chunk
	empties := []int{3, 16, 99, 100, 101, 127, 255, 1000, c.Pick(1025, 70000)}
	c.Bound("runs_of_empty_reads", empties)
	c.Par("runs-of-empty-reads", len(bases), func(w *kit.W, bi int) {
		x := expect(bases[bi])
		for _, z := range empties {
			for opt := 0; opt < 6; opt++ {
				n := opt/2*7 + 1
				w.NewState()
				streamCase(w, x, io.EOF, func() string {
					return fmt.Sprintf("bytes %s in chunks of %d with %d empty reads before each", hexs(bases[bi]), n, z)
				}, func() (io.Reader, *scriptReader) {
					s := &scriptReader{data: bases[bi], cuts: chunked(bases[bi], n), zeros: z, end: io.EOF, withIt: opt&1 != 0, zpos: -1}
					return s, s
				})
			}
		}
	})
	// longer inputs: every single cut, every pair of cuts near token boundaries, uniform chunks
	type long struct {
		b    []byte
		cuts []int
	}
	var longs []long
	mk := func(vs ...*ref.V) {
		var b []byte
		var marks []int
		for _, v := range vs {
			b = v.Enc(b)
			marks = append(marks, len(b))
		}
		cs := map[int]bool{}
		for i := 1; i < len(b); i++ {
			near := len(b) <= 80
			for _, m := range append(marks, 0, 1<<16, 1<<12, 512) {
				if d := i - m; d >= -3 && d <= 8 {
					near = true
				}
			}
			if near {
				cs[i] = true
			}
		}
		var cuts []int
		for i := 1; i < len(b); i++ {
			if cs[i] {
				cuts = append(cuts, i)
			}
		}
		longs = append(longs, long{b, cuts})
	}
	str := func(n int) *ref.V { return ref.VUtf8(string(bytes.Repeat([]byte("x"), n))) }
	raw := func(n int) *ref.V { return ref.VRaw(string(bytes.Repeat([]byte{0xc1}, n))) }
	mk(ref.VLong(5), str(40), ref.VLong(6))
	mk(ref.VExt(200, "0123456789abcdef"), ref.VDouble(2.5), ref.VExt(3, "01234567"))
	mk(ref.VMap([]string{"alpha", "beta"}, []*ref.V{ref.VList(ref.VLong(1<<40), ref.VRaw("abc")), ref.VSparse([]int{-5, 400}, []*ref.V{ref.VTrue, ref.VUtf8("z")})}), ref.VNull)
	mk(str(300), ref.VTrue)
	mk(raw(600), str(5))
	mk(str(4095), ref.VLong(7))
	mk(str(70000), ref.VLong(7), raw(65537), ref.VTrue)
	mk(ref.VExt(9, string(bytes.Repeat([]byte("e"), 65600))), ref.VFalse)
	mk(ref.VBig(ref.BigInts()[len(ref.BigInts())-1]), ref.VLong(1))
	for li := range longs {
		l := longs[li]
		x := expect(l.b)
		pairs := [][]int{{}}
		for i, a := range l.cuts {
			pairs = append(pairs, []int{a})
			for _, b := range l.cuts[i+1:] {
				pairs = append(pairs, []int{a, b})
			}
		}
		c.Par(fmt.Sprintf("two-cuts/%d", li), len(pairs), func(w *kit.W, i int) {
			w.NewState()
			opt := i % 4
			streamCase(w, x, io.EOF, func() string { return fmt.Sprintf("bytes %s cut at %v, options %d", hexs(l.b), pairs[i], opt) },
				func() (io.Reader, *scriptReader) {
					s := &scriptReader{data: l.b, cuts: atCuts(l.b, pairs[i]...), zeros: opt & 1, end: io.EOF, withIt: opt&2 != 0, zpos: -1}
					if len(pairs[i]) == 1 && i%3 == 0 {
						return byteReader{s}, s
					}
					return s, s
				})
		})
		c.Par(fmt.Sprintf("runs-of-empty-reads-in-long/%d", li), len(empties), func(w *kit.W, i int) {
			w.NewState()
			n := len(l.b)/3 + 1
			streamCase(w, x, io.EOF, func() string {
				return fmt.Sprintf("bytes %s in chunks of %d with %d empty reads before each", hexs(l.b), n, empties[i])
			}, func() (io.Reader, *scriptReader) {
				s := &scriptReader{data: l.b, cuts: chunked(l.b, n), zeros: empties[i], end: io.EOF, zpos: -1}
				return s, s
			})
		})
		sizes := []int{1, 2, 3, 5, 7, 16, 24, 25, 31, 64, 511, 512, 513, 4096, 32768, 65535, 65536, 65537}
		c.Par(fmt.Sprintf("uniform-chunks/%d", li), len(sizes)*8, func(w *kit.W, i int) {
			w.NewState()
			n, opt := sizes[i/8], i%8
			streamCase(w, x, io.EOF, func() string { return fmt.Sprintf("bytes %s in chunks of %d, options %d", hexs(l.b), n, opt) },
				func() (io.Reader, *scriptReader) {
					s := &scriptReader{data: l.b, cuts: chunked(l.b, n), zeros: opt & 1, end: io.EOF, withIt: opt&2 != 0, zpos: -1}
					if opt&4 != 0 {
						return byteReader{s}, s
					}
					return s, s
				})
		})
	}
}

// stdReaders are the readers a program usually has, over the same bytes.
var stdReaders = []struct {
	name string
	mk   func(b []byte) io.Reader
}{
	{"bytes.Reader", func(b []byte) io.Reader { return bytes.NewReader(b) }},
	{"bytes.Buffer", func(b []byte) io.Reader { return bytes.NewBuffer(append([]byte(nil), b...)) }},
	{"strings.Reader", func(b []byte) io.Reader { return strings.NewReader(string(b)) }},
	{"io.SectionReader", func(b []byte) io.Reader {
		return io.NewSectionReader(bytes.NewReader(append(append([]byte{0xc1}, b...), 0xc1)), 1, int64(len(b)))
	}},
	{"io.LimitedReader", func(b []byte) io.Reader {
		return io.LimitReader(bytes.NewReader(append(append([]byte(nil), b...), 0xc1)), int64(len(b)))
	}},
	{"io.TeeReader", func(b []byte) io.Reader { return io.TeeReader(bytes.NewReader(b), io.Discard) }},
	{"io.MultiReader", func(b []byte) io.Reader {
		return io.MultiReader(bytes.NewReader(b[:len(b)/2]), bytes.NewReader(nil), strings.NewReader(string(b[len(b)/2:])))
	}},
	{"io.Pipe", func(b []byte) io.Reader {
		r, w := io.Pipe()
		go func() {
			for i := range b {
				if _, err := w.Write(b[i : i+1]); err != nil {
					return
				}
			}
			w.Close()
		}()
		return r
	}},
	{"bufio.Reader of 16", func(b []byte) io.Reader { return bufio.NewReaderSize(bytes.NewReader(b), 16) }},
	{"bufio.Reader of 17", func(b []byte) io.Reader { return bufio.NewReaderSize(struct{ io.Reader }{bytes.NewReader(b)}, 17) }},
	{"bufio.Reader of 18, byte by byte", func(b []byte) io.Reader { return bufio.NewReaderSize(iotest.OneByteReader(bytes.NewReader(b)), 18) }},
	{"bufio.Reader of 31, end with data", func(b []byte) io.Reader { return bufio.NewReaderSize(iotest.DataErrReader(bytes.NewReader(b)), 31) }},
	{"bufio.Reader", func(b []byte) io.Reader { return bufio.NewReader(iotest.HalfReader(bytes.NewReader(b))) }},
	{"bufio.ReadWriter", func(b []byte) io.Reader {
		return bufio.NewReadWriter(bufio.NewReaderSize(bytes.NewReader(b), 16), bufio.NewWriter(io.Discard))
	}},
	{"iotest.OneByteReader", func(b []byte) io.Reader { return iotest.OneByteReader(bytes.NewReader(b)) }},
	{"iotest.HalfReader", func(b []byte) io.Reader { return iotest.HalfReader(bytes.NewReader(b)) }},
	{"iotest.DataErrReader", func(b []byte) io.Reader { return iotest.DataErrReader(bytes.NewReader(b)) }},
	{"reader whose Len is what it has buffered", func(b []byte) io.Reader { return lenReader{strings.NewReader(string(b)), 0} }},
	{"reader whose Len is what there may be", func(b []byte) io.Reader { return lenReader{strings.NewReader(string(b)), math.MaxInt} }},
	{"reader whose Len is negative", func(b []byte) io.Reader { return lenReader{strings.NewReader(string(b)), -1} }},
	{"reader with Size", func(b []byte) io.Reader { return sizeReader{strings.NewReader(string(b)), 16} }},
	{"reader with Size 0", func(b []byte) io.Reader { return sizeReader{strings.NewReader(string(b)), 0} }},
	{"reader with Buffered, Available and Cap", func(b []byte) io.Reader { return bufferedReader{strings.NewReader(string(b))} }},
	{"reader that cannot seek", func(b []byte) io.Reader { return noSeeker{strings.NewReader(string(b))} }},
	{"reader whose positions are not those of its bytes", func(b []byte) io.Reader { return oddSeeker{strings.NewReader(string(b))} }},
	{"reader that reads at positions of something else", func(b []byte) io.Reader {
		return otherReaderAt{strings.NewReader(string(b)), bytes.NewReader(append([]byte{0xc1, 0xc1, 0xc1}, b...))}
	}},
	{"bytes.Reader after some bytes", func(b []byte) io.Reader {
		r := bytes.NewReader(append([]byte{0xc1, 0xc1, 0xc1, 0xc1, 0xc1}, b...))
		io.ReadFull(r, make([]byte, 5))
		return r
	}},
	{"strings.Reader after some bytes", func(b []byte) io.Reader {
		r := strings.NewReader("\xc1\xc1" + string(b))
		r.ReadByte()
		r.ReadByte()
		return r
	}},
	{"bufio.Reader after some bytes", func(b []byte) io.Reader {
		r := bufio.NewReaderSize(bytes.NewReader(append([]byte{0xc1, 0xc1}, b...)), 16)
		r.ReadByte()
		r.Peek(2)
		r.ReadByte()
		return r
	}},
	{"buffered reader after a peek", func(b []byte) io.Reader {
		r := bufio.NewReaderSize(iotest.OneByteReader(bytes.NewReader(b)), 64)
		r.Peek(5)
		return r
	}},
	{"rune reader", func(b []byte) io.Reader { return runeReader{bytes.NewReader(b)} }},
	{"io.ReadCloser", func(b []byte) io.Reader { return io.NopCloser(bytes.NewReader(b)) }},
}

// Readers that have other methods as well, which say little about what Read will deliver.
type lenReader struct {
	r io.Reader
	n int
}

func (r lenReader) Read(p []byte) (int, error) { return r.r.Read(p) }
func (r lenReader) Len() int                   { return r.n }

type sizeReader struct {
	r io.Reader
	n int64
}

func (r sizeReader) Read(p []byte) (int, error) { return r.r.Read(p) }
func (r sizeReader) Size() int64                { return r.n }

type bufferedReader struct{ r io.Reader }

func (r bufferedReader) Read(p []byte) (int, error) { return r.r.Read(p) }
func (r bufferedReader) Buffered() int              { return 0 }
func (r bufferedReader) Available() int             { return 0 }
func (r bufferedReader) Cap() int                   { return 0 }

type noSeeker struct{ r io.Reader }

func (r noSeeker) Read(p []byte) (int, error) { return r.r.Read(p) }
func (r noSeeker) Seek(int64, int) (int64, error) {
	return 0, &os.PathError{Op: "seek", Path: "pipe", Err: syscall.ESPIPE}
}

// oddSeeker counts positions from somewhere else, as a decompressing or decoding reader does.
type oddSeeker struct{ r io.Reader }

func (r oddSeeker) Read(p []byte) (int, error)     { return r.r.Read(p) }
func (r oddSeeker) Seek(int64, int) (int64, error) { return 0, nil }

type otherReaderAt struct {
	io.Reader
	io.ReaderAt
}

type runeReader struct{ r *bytes.Reader }

func (r runeReader) Read(p []byte) (int, error)   { return r.r.Read(p) }
func (r runeReader) ReadRune() (rune, int, error) { return r.r.ReadRune() }

// standardReaders: sequences around every kind of value through every kind of reader; after each
// number of values the rest of the input is still there.
func standardReaders(c *kit.Ctx) {
	vs := append(ref.Scalars(300), ref.Trees(2, ref.SmallLeaves(), false)...)
	vs = append(vs, ref.VUtf8(strings.Repeat("x", 5000)), ref.VRaw(strings.Repeat("x", 66000)), ref.VList(ref.VExt(9, "0123456789abcdef"), ref.VUtf8(strings.Repeat("y", 17))))
	c.Bound("standard_readers", len(stdReaders))
	c.Bound("values_through_standard_readers", len(vs))
	c.Par("standard-readers", len(vs), func(w *kit.W, i int) {
		if vs[i].HasEmptySparse() {
			return
		}
		seq := []*ref.V{vs[i], ref.VLong(70000), vs[i].Norm()}
		var b []byte
		var off []int
		for _, v := range seq {
			b = v.Enc(b)
			off = append(off, len(b))
		}
		for _, s := range stdReaders {
			if len(b) > 1000 && s.name == "io.Pipe" {
				continue
			}
			for k := 0; k <= len(seq); k++ {
				w.NewState()
				w.Step(func() string {
					return fmt.Sprintf("%d values of %s from %s", k, ref.VList(seq...).Short(), s.name)
				})
				r := s.mk(b)
				pos := 0
				for j := 0; j < k; j++ {
					v, err := value.Read(r)
					if err != nil {
						w.Fail("value %d: error %v", j, err)
					}
					if !ref.Same(ref.Observe(v), seq[j].Norm()) {
						w.Fail("value %d is %s", j, ref.Observe(v).Short())
					}
					pos = off[j]
				}
				if k == len(seq) {
					if v, err := value.Read(r); err != io.EOF {
						w.Fail("after all values: %v, %v", v, err)
					}
				}
				rest, err := io.ReadAll(r)
				if err != nil || !bytes.Equal(rest, b[pos:]) {
					w.Fail("%d bytes are left in the reader (error %v), expected %d", len(rest), err, len(b)-pos)
				}
				w.Trace()
			}
			w.Step(func() string { return fmt.Sprintf("stream of %s from %s", ref.VList(seq...).Short(), s.name) })
			out := make(chan value.Value, len(seq)+2)
			err := value.ReadStream(s.mk(b), out)
			var got []*ref.V
			for v := range out {
				got = append(got, ref.Observe(v))
			}
			if err != io.EOF || len(got) != len(seq) {
				w.Fail("%d values, error %v", len(got), err)
			}
			for j := range got {
				if !ref.Same(got[j], seq[j].Norm()) {
					w.Fail("value %d is %s", j, got[j].Short())
				}
			}
			// the last value is cut
			if n := len(b) - off[1]; n > 1 {
				w.Step(func() string {
					return fmt.Sprintf("stream of %s without the last byte from %s", ref.VList(seq...).Short(), s.name)
				})
				out := make(chan value.Value, len(seq)+2)
				if err := value.ReadStream(s.mk(b[:len(b)-1]), out); err != io.ErrUnexpectedEOF || len(out) != 2 {
					w.Fail("%d values, error %v", len(out), err)
				}
			}
			w.Trace()
		}
	})
}

// systemReaders: the same through a pipe of the system, a file and a connection, which have a lot of
// methods beside Read, some of which fail.
func systemReaders(c *kit.Ctx) {
	vs := append(ref.Trees(1, ref.SmallLeaves(), false), ref.Trees(2, ref.SmallLeaves()[:4], false)...)
	vs = append(vs, ref.VUtf8(strings.Repeat("x", 40)), ref.VRaw(strings.Repeat("x", 70000)), ref.VExt(9, strings.Repeat("x", 300)))
	type source struct {
		name string
		mk   func(b []byte) (io.ReadCloser, error)
	}
	feed := func(wr io.WriteCloser, b []byte) {
		for len(b) > 0 {
			n := 1 + len(b)/3
			if _, err := wr.Write(b[:n]); err != nil {
				break
			}
			b = b[n:]
		}
		wr.Close()
	}
	sources := []source{
		{"a pipe of the system", func(b []byte) (io.ReadCloser, error) {
			r, wr, err := os.Pipe()
			if err == nil {
				go feed(wr, b)
			}
			return r, err
		}},
		{"a file", func(b []byte) (io.ReadCloser, error) {
			f, err := os.CreateTemp("", "mc-reader")
			if err != nil {
				return nil, err
			}
			os.Remove(f.Name())
			f.Write([]byte{0xc1, 0xc1, 0xc1})
			f.Write(b)
			_, err = f.Seek(3, io.SeekStart)
			return f, err
		}},
		{"a connection", func(b []byte) (io.ReadCloser, error) {
			r, wr := net.Pipe()
			go feed(wr, b)
			return r, nil
		}},
	}
	c.Bound("values_through_system_readers", len(vs))
	c.Par("system-readers", len(vs)*len(sources), func(w *kit.W, i int) {
		s, v := sources[i%len(sources)], vs[i/len(sources)]
		if v.HasEmptySparse() {
			return
		}
		seq := []*ref.V{v, ref.VLong(70000), v, v}
		var b []byte
		for _, v := range seq {
			b = v.Enc(b)
		}
		for k := 0; k <= len(seq); k++ {
			w.NewState()
			w.Step(func() string { return fmt.Sprintf("%d values of %s from %s", k, ref.VList(seq...).Short(), s.name) })
			r, err := s.mk(b)
			if err != nil {
				panic(err)
			}
			off := 0
			for j := 0; j < k; j++ {
				x, err := value.Read(r)
				if err != nil {
					w.Fail("value %d: error %v", j, err)
				}
				if !ref.Same(ref.Observe(x), seq[j].Norm()) {
					w.Fail("value %d is %s", j, ref.Observe(x).Short())
				}
				off += len(seq[j].Encode())
			}
			rest, err := io.ReadAll(r)
			r.Close()
			if err != nil || !bytes.Equal(rest, b[off:]) {
				w.Fail("%d bytes are left in the reader (error %v), expected %d", len(rest), err, len(b)-off)
			}
			w.Trace()
		}
		w.Step(func() string { return fmt.Sprintf("stream of %s from %s", ref.VList(seq...).Short(), s.name) })
		r, err := s.mk(b)
		if err != nil {
			panic(err)
		}
		out := make(chan value.Value, len(seq)+2)
		err = value.ReadStream(r, out)
		r.Close()
		n := 0
		for x := range out {
			if n < len(seq) && !ref.Same(ref.Observe(x), seq[n].Norm()) {
				w.Fail("value %d is %s", n, ref.Observe(x).Short())
			}
			n++
		}
		if err != io.EOF || n != len(seq) {
			w.Fail("%d values, error %v", n, err)
		}
		w.Trace()
	})
}

// C07: every cut and every failure position of streams of values.
func C07(c *kit.Ctx) {
	bases := streamBases()
	enc := func(vs ...*ref.V) {
		var b []byte
		for _, v := range vs {
			b = v.Enc(b)
		}
		bases = append(bases, b)
	}
	for _, v := range ref.SmallLeaves() {
		enc(v, ref.VList(v, ref.VUtf8("abc")), ref.VMap([]string{"a", "b"}, []*ref.V{v, ref.VLong(-500)}), ref.VSparse([]int{0, 300}, []*ref.V{v, v}))
	}
	for _, v := range ref.Trees(3, []*ref.V{ref.VLong(-200), ref.VUtf8("k"), ref.VExt(5, "zz")}, false) {
		enc(v, ref.VNull)
		enc(ref.VTrue, v, v)
	}
	for _, n := range []int{31, 32, 33, 255, 256, 257} {
		s := string(bytes.Repeat([]byte("s"), n))
		enc(ref.VLong(1), ref.VUtf8(s), ref.VRaw(s), ref.VExt(7, s), ref.VLong(2))
	}
	for _, n := range []int{15, 16, 17} {
		enc(ref.BigContainers(40)[3*n : 3*n+3]...)
	}
	ends := append([]error{io.EOF}, readErrors...)
	c.Bound("streams", len(bases))
	c.Bound("endings", fmt.Sprintf("end of file and %d failures (own, standard, temporary, timeout, not comparable, system); bare or together with the last data; byte reader or not; whole, 1-byte and 3-byte chunks; with empty reads", len(readErrors)))
	run := func(w *kit.W, b []byte, k int, chunks []int) {
		cut := b[:k:k]
		x := expect(cut)
		for ei, end := range ends {
			if ei > 3 && c.Tier == "quick" && len(b) > 60 && ei%4 != k%4 {
				continue
			}
			for opt := 0; opt < 16; opt++ {
				for _, ch := range chunks {
					if opt&4 != 0 && (opt&2 != 0 || ch != chunks[0]) || opt&8 != 0 && (opt&3 != 0 || ch == 1) {
						continue
					}
					w.NewState()
					streamCase(w, x, end, func() string {
						return fmt.Sprintf("first %d bytes of %s, then %v (with data %v), chunks of %d, empty reads %d, single-byte reads %v, goes on afterwards %v", k, hexs(b), end, opt&2 != 0, ch, opt&1, opt&4 != 0, opt&8 != 0)
					}, func() (io.Reader, *scriptReader) {
						s := &scriptReader{data: cut, cuts: chunked(cut, ch), zeros: opt & 1, end: end, withIt: opt&2 != 0, zpos: -1}
						if opt&8 != 0 { // the failure passes
							s.more = append(b[k:len(b):len(b)], 5, 6)
						}
						if opt&4 != 0 {
							return byteReader{s}, s
						}
						return s, s
					})
				}
			}
		}
	}
	type bc struct{ b, k int }
	var all []bc
	for i, b := range bases {
		for k := 0; k <= len(b); k++ {
			all = append(all, bc{i, k})
		}
	}
	c.Par("every-cut", len(all), func(w *kit.W, i int) {
		run(w, bases[all[i].b], all[i].k, []int{1 << 20, 1, 3})
	})
	// long payloads: cuts around the header, the buffer sizes and the end
	big := []*ref.V{ref.VUtf8(string(bytes.Repeat([]byte("s"), 70000))), ref.VRaw(string(bytes.Repeat([]byte{0xc1}, 200000))), ref.VExt(9, string(bytes.Repeat([]byte("e"), 66000))), ref.VRaw(string(bytes.Repeat([]byte{0}, 65536)))}
	type pc struct{ v, k int }
	var cs []pc
	for vi, v := range big {
		L := len(v.Encode())
		for _, m := range []int{0, 512, 4096, 32768, 65536, 131072, L} {
			for d := -3; d <= 7; d++ {
				if k := m + d; k >= 0 && k <= L+1 {
					cs = append(cs, pc{vi, k})
				}
			}
		}
	}
	c.Par("long-payloads", len(cs), func(w *kit.W, i int) {
		b := append(big[cs[i].v].Encode(), 0x05)
		run(w, b, cs[i].k, []int{1 << 20, 4096})
	})
}

// failWriter fails at one point.
type failWriter struct {
	calls   int
	written []byte
	at      int  // failing call, -1: none
	limit   int  // byte position from which calls fail, -1: none
	partial int  // bytes accepted by the failing call (calls mode)
	sticky  bool // later calls fail as well, otherwise they succeed
	failed  bool
	after   int // calls after the failing one
	err     error
}

// bytesWriter also takes single bytes, strings and whole readers, and can be flushed.
type bytesWriter struct{ *failWriter }

func (b bytesWriter) WriteByte(c byte) error {
	_, err := b.Write([]byte{c})
	return err
}

func (b bytesWriter) WriteString(s string) (int, error) { return b.Write([]byte(s)) }

func (b bytesWriter) ReadFrom(r io.Reader) (int64, error) {
	p, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := b.Write(p)
	return int64(n), err
}

func (b bytesWriter) Flush() error { return nil }
func (b bytesWriter) Sync() error  { return nil }

func (f *failWriter) Write(p []byte) (int, error) {
	k := f.calls
	f.calls++
	if f.failed {
		f.after++
		if f.sticky {
			return 0, f.err
		}
		f.written = append(f.written, p...)
		return len(p), nil
	}
	if f.at >= 0 && k == f.at {
		f.failed = true
		n := f.partial
		if n > len(p) {
			n = len(p)
		}
		f.written = append(f.written, p[:n]...)
		return n, f.err
	}
	if f.limit >= 0 && len(f.written)+len(p) > f.limit {
		f.failed = true
		n := f.limit - len(f.written)
		f.written = append(f.written, p[:n]...)
		return n, f.err
	}
	f.written = append(f.written, p...)
	return len(p), nil
}

type writeCall struct {
	name string
	run  func(w io.Writer, xs []value.Value) error
}

var writeCalls = []writeCall{
	{"WriteStream", func(w io.Writer, xs []value.Value) error {
		ch := make(chan value.Value, len(xs))
		for _, x := range xs {
			ch <- x
		}
		close(ch)
		return value.WriteStream(w, ch)
	}},
	{"one packer", func(w io.Writer, xs []value.Value) error {
		p := value.MessagePacker(w)
		for _, x := range xs {
			if x == nil {
				p.PackNil()
			} else {
				x.Pack(p)
			}
		}
		return p.Error()
	}},
	{"Write", func(w io.Writer, xs []value.Value) error {
		for _, x := range xs {
			if err := value.Write(w, x); err != nil {
				return err
			}
		}
		return nil
	}},
}

// C08: every failing call and every failing byte position.
func C08(c *kit.Ctx) {
	var seqs [][]*ref.V
	for _, v := range ref.SmallLeaves() {
		seqs = append(seqs, []*ref.V{v})
		for _, u := range ref.SmallLeaves() {
			seqs = append(seqs, []*ref.V{v, u})
		}
	}
	for _, v := range ref.Trees(2, ref.SmallLeaves(), true) {
		seqs = append(seqs, []*ref.V{v}, []*ref.V{v, ref.VLong(1), v})
	}
	for _, v := range ref.Trees(3, []*ref.V{ref.VNil, ref.VLong(-200), ref.VUtf8("k"), ref.VExt(5, "zzz")}, true) {
		seqs = append(seqs, []*ref.V{v})
	}
	for _, v := range ref.Trees(3, ref.SmallLeaves(), true) {
		seqs = append(seqs, []*ref.V{v})
	}
	if c.Thorough() {
		for _, v := range ref.Trees(4, []*ref.V{ref.VNil, ref.VUtf8("k"), ref.VExt(5, "zzz"), ref.VRaw("r")}, true) {
			seqs = append(seqs, []*ref.V{v})
		}
		for _, v := range ref.Trees(3, ref.SmallLeaves(), false) {
			seqs = append(seqs, []*ref.V{v, ref.VRaw("ab")})
		}
	}
	for _, n := range []int{31, 32, 255, 256, 65536} {
		s := string(bytes.Repeat([]byte("w"), n))
		seqs = append(seqs, []*ref.V{ref.VUtf8(s), ref.VRaw(s), ref.VExt(7, s)})
	}
	for _, n := range []int{15, 16, 40} {
		seqs = append(seqs, []*ref.V{ref.BigContainers(40)[3*n], ref.BigContainers(40)[3*n+1], ref.BigContainers(40)[3*n+2]})
	}
	for _, n := range []int{260, 300, c.Pick(520, 1100)} { // long ones
		var nulls, mixed []*ref.V
		for i := 0; i < n; i++ {
			nulls = append(nulls, ref.VNull)
			mixed = append(mixed, []*ref.V{ref.VLong(int64(i)), ref.VUtf8("ab"), ref.VTrue}[i%3])
		}
		seqs = append(seqs, nulls, mixed)
	}
	c.Bound("sequences", len(seqs))
	c.Bound("failures", "at every write call (0, 1 or all bytes accepted) and at every byte position, permanent or only once")
	c.Par("write-failures", len(seqs), func(w *kit.W, i int) {
		vs := seqs[i]
		var want []byte
		for _, v := range vs {
			want = v.Enc(want)
		}
		for _, fl := range []int{ref.FImmutable, ref.FMutable} {
			var xs []value.Value
			for _, v := range vs {
				xs = append(xs, ref.Build(v, fl))
			}
			for ci := range writeCalls {
				wc := &writeCalls[ci]
				extra := fl == ref.FMutable // with single-byte and string writes
				dry := &failWriter{at: -1, limit: -1}
				w.Step(func() string { return wc.name + " of " + ref.VList(vs...).Short() })
				if err := wc.run(dry, xs); err != nil || !bytes.Equal(dry.written, want) {
					w.Fail("without failures: error %v, bytes %s, expected %s", err, hexs(dry.written), hexs(want))
				}
				try := func(desc string, f *failWriter) {
					w.NewState()
					w.Step(func() string {
						return fmt.Sprintf("%s of %s, writer fails %s", wc.name, ref.VList(vs...).Short(), desc)
					})
					var wr io.Writer = f
					if extra {
						wr = bytesWriter{f}
					}
					err := wc.run(wr, xs)
					w.Trace()
					if !f.failed {
						if err != nil || !bytes.Equal(f.written, want) {
							w.Fail("no write failed: error %v, bytes %s, expected %s", err, hexs(f.written), hexs(want))
						}
						return
					}
					if err == nil {
						w.Fail("the write failure was not reported")
					}
					if !errors.Is(err, f.err) {
						w.Fail("the write failure %q was reported as %v", f.err, err)
					}
					if f.after > 0 {
						w.Fail("%d more writes after the failing one", f.after)
					}
					if !bytes.HasPrefix(want, f.written) {
						w.Fail("written %s, which is no prefix of %s", hexs(f.written), hexs(want))
					}
				}
				for k := 0; k <= dry.calls; k++ {
					for _, sticky := range []bool{true, false} {
						for pi, part := range []int{0, 1, 1 << 30} {
							for ei, e := range writeErrors {
								if ei > 0 && len(want) > 100 && ei%5 != (k+pi)%5 {
									continue
								}
								try(fmt.Sprintf("with %q at call %d after %d bytes of it, permanently=%v", e, k, part, sticky), &failWriter{at: k, limit: -1, partial: part, sticky: sticky, err: e})
							}
						}
					}
				}
				for k := 0; k <= len(want); k++ {
					if k > 300 && k < len(want)-300 && (k < 65000 || k > 66000) {
						continue
					}
					if len(want) > 100000 && k%7 != 0 && k > 20 && k < len(want)-5 {
						continue
					}
					try(fmt.Sprintf("with errors after %d bytes", k), &failWriter{at: -1, limit: k, sticky: k%2 == 0, err: writeErrors[k%len(writeErrors)]})
				}
			}
		}
	})
	c08Calls(c)
	openStreams(c)
}

// openStreams: the producer of a stream does not close the channel. The call returns at the failing
// write, whether or not more values are waiting.
func openStreams(c *kit.Ctx) {
	vals := []*ref.V{ref.VNil, ref.VLong(300), ref.VUtf8("abc"), ref.VRaw(string(make([]byte, 300))), ref.VList(ref.VLong(1), ref.VExt(9, "zz")), ref.VMap([]string{"k"}, []*ref.V{ref.VDouble(1.5)})}
	maxN := c.Pick(3, 4)
	n := 0
	for k, p := 1, len(vals); k <= maxN; k, p = k+1, p*len(vals) {
		n += p
	}
	c.Bound("values_of_open_streams", maxN)
	c.Seq("open-streams", n, func(w *kit.W, i int) {
		var vs []*ref.V
		var xs []value.Value
		var want []byte
		for k, p := 1, len(vals); ; k, p = k+1, p*len(vals) {
			if i >= p {
				i -= p
				continue
			}
			for ; k > 0; k-- {
				vs = append(vs, vals[i%len(vals)])
				i /= len(vals)
			}
			break
		}
		for _, v := range vs {
			xs = append(xs, ref.Build(v, 0))
			want = v.Enc(want)
		}
		for k := 0; k <= len(want); k++ {
			if k > 30 && k < len(want)-30 && k%50 != 0 {
				continue
			}
			w.NewState()
			w.Step(func() string {
				return fmt.Sprintf("WriteStream of %s from a channel that stays open, writer fails after %d bytes", ref.VList(vs...).Short(), k)
			})
			ch := make(chan value.Value, len(xs))
			for _, x := range xs {
				ch <- x
			}
			f := &failWriter{at: -1, limit: k, sticky: k%2 == 0, err: errBoom}
			errc := make(chan error, 1)
			go func() { errc <- value.WriteStream(f, ch) }()
			settled(func() bool { return len(errc) > 0 })
			returned := len(errc) > 0
			for t := 0; t < 100 && !returned && k < len(want); t++ {
				time.Sleep(20 * time.Millisecond) // it must stay blocked to count as waiting
				returned = len(errc) > 0
			}
			if k < len(want) {
				if !returned {
					w.Fail("the call waits for more values instead of reporting the failure")
				}
			} else {
				if returned {
					w.Fail("the call returned %v while the channel was open", <-errc)
				}
				close(ch)
			}
			if err := <-errc; k < len(want) && !errors.Is(err, errBoom) || k == len(want) && err != nil {
				w.Fail("the call returned %v", err)
			}
			if f.after > 0 || !bytes.Equal(f.written, want[:k]) {
				w.Fail("%d writes after the failing one, written %s, expected %s", f.after, hexs(f.written), hexs(want[:k]))
			}
			w.Trace()
		}
	})
}

// c08Calls: sequences of direct packer calls with a failure at each write.
func c08Calls(c *kit.Ctx) {
	type call struct {
		name string
		do   func(p value.Packer)
		enc  func(b []byte) []byte
	}
	calls := []call{
		{"PackNil", func(p value.Packer) { p.PackNil() }, ref.VNull.Enc},
		{"PackBool", func(p value.Packer) { p.PackBool(true) }, ref.VTrue.Enc},
		{"PackLong", func(p value.Packer) { p.PackLong(300) }, ref.VLong(300).Enc},
		{"PackDouble", func(p value.Packer) { p.PackDouble(1.5) }, ref.VDouble(1.5).Enc},
		{"PackStr", func(p value.Packer) { p.PackStr("abc") }, ref.VUtf8("abc").Enc},
		{"PackBin", func(p value.Packer) { p.PackBin([]byte{1, 2, 3}) }, ref.VRaw("\x01\x02\x03").Enc},
		{"PackExt", func(p value.Packer) { p.PackExt(9, []byte("zz")) }, ref.VExt(9, "zz").Enc},
		{"PackList", func(p value.Packer) { p.PackList(20) }, func(b []byte) []byte { return ref.EncListHeader(b, 20) }},
		{"PackMap", func(p value.Packer) { p.PackMap(20) }, func(b []byte) []byte { return ref.EncMapHeader(b, 20) }},
		{"PackRaw", func(p value.Packer) { p.PackRaw([]byte{0xc0, 0xc3}) }, func(b []byte) []byte { return append(b, 0xc0, 0xc3) }},
	}
	depth := c.Pick(3, 4)
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(calls)
	}
	c.Bound("packer_call_sequence_depth", depth)
	c.Par("packer-calls", n, func(w *kit.W, i int) {
		seq := make([]int, depth)
		for j := range seq {
			seq[j] = i % len(calls)
			i /= len(calls)
		}
		var want []byte
		name := ""
		for _, k := range seq {
			want = calls[k].enc(want)
			name += " " + calls[k].name
		}
		run := func(f *failWriter, desc string) {
			w.NewState()
			w.Step(func() string { return "packer calls" + name + ", writer fails " + desc })
			p := value.MessagePacker(f)
			for _, k := range seq {
				calls[k].do(p)
				if f.failed && !errors.Is(p.Error(), f.err) {
					w.Fail("after %s the packer reports %v", calls[k].name, p.Error())
				}
				if !f.failed && p.Error() != nil {
					w.Fail("after %s the packer reports %v without a failure", calls[k].name, p.Error())
				}
			}
			w.Trace()
			if f.after > 0 {
				w.Fail("%d more writes after the failing one", f.after)
			}
			if !bytes.HasPrefix(want, f.written) || !f.failed && !bytes.Equal(want, f.written) {
				w.Fail("written %s, expected %s", hexs(f.written), hexs(want))
			}
		}
		for k := 0; k <= 2*depth; k++ {
			for _, sticky := range []bool{true, false} {
				for ei, e := range writeErrors {
					if ei > 3 && ei%4 != k%4 {
						continue
					}
					run(&failWriter{at: k, limit: -1, sticky: sticky, err: e}, fmt.Sprintf("with %q at call %d permanently=%v", e, k, sticky))
				}
			}
		}
		for k := 0; k <= len(want); k++ {
			run(&failWriter{at: -1, limit: k, err: writeErrors[k%len(writeErrors)]}, fmt.Sprintf("after %d bytes", k))
		}
	})
}
