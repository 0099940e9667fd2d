package props

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

func init() { All["C28"] = C28 }

// ---------- C28: streams move in lockstep with their sources ----------

// gateReader hands out the chunks it is given one by one; asked for more it says that it is
// starved and waits for the next chunk. Closing in is the end of the input.
type gateReader struct {
	in      chan []byte
	starved chan struct{}
	rest    []byte
	ended   bool
}

func newGate() *gateReader {
	return &gateReader{in: make(chan []byte), starved: make(chan struct{})}
}

func (g *gateReader) fill() bool {
	if len(g.rest) > 0 {
		return true
	}
	if !g.ended {
		g.starved <- struct{}{}
		b, ok := <-g.in
		g.rest, g.ended = b, !ok
	}
	return !g.ended
}

// Read waits also if no bytes are asked for, as a pipe does.
func (g *gateReader) Read(p []byte) (int, error) {
	if !g.fill() {
		return 0, io.EOF
	}
	n := copy(p, g.rest)
	g.rest = g.rest[n:]
	return n, nil
}

// gateByteReader also reads single bytes.
type gateByteReader struct{ *gateReader }

func (g gateByteReader) ReadByte() (byte, error) {
	var b [1]byte
	_, err := g.Read(b[:])
	return b[0], err
}

// streamers deliver the values of a reader one by one to out, close it, and return the error.
var streamers = []struct {
	name string
	run  func(r io.Reader, out chan<- value.Value) error
}{
	{"ReadStream", value.ReadStream},
	{"repeated Read", func(r io.Reader, out chan<- value.Value) error {
		defer close(out)
		for {
			x, err := value.Read(r)
			if err != nil {
				return err
			}
			out <- x
		}
	}},
	{"Parse of one MessageReader", func(r io.Reader, out chan<- value.Value) error {
		defer close(out)
		u, p := value.MessageReader(r), value.MessageParser()
		for {
			x, err := value.Parse(u, p)
			if err != nil {
				return err
			}
			out <- x
		}
	}},
}

var gateKinds = []struct {
	name string
	mk   func(g *gateReader) io.Reader
}{
	{"a plain reader", func(g *gateReader) io.Reader { return g }},
	{"a byte reader", func(g *gateReader) io.Reader { return gateByteReader{g} }},
	{"a bufio.Reader", func(g *gateReader) io.Reader { return bufio.NewReaderSize(g, 16) }},
}

// patience is how long something that has to happen by itself is waited for.
const patience = 30 * time.Second

// incoming lets the bytes of seq arrive in chunks (cut at the given offsets) and checks after
// every chunk that just the complete values were delivered.
func incoming(w *kit.W, seq []*ref.V, all []byte, ends []int, cuts []int, st, gk int) {
	w.Step(func() string {
		return fmt.Sprintf("%s from %s of %s, arriving in parts cut at %v", streamers[st].name, gateKinds[gk].name, ref.VList(seq...).Short(), cuts)
	})
	g := newGate()
	out := make(chan value.Value)
	errc := make(chan error, 1)
	r := gateKinds[gk].mk(g)
	go func() { errc <- streamers[st].run(r, out) }()
	var got []value.Value
	take := func(x value.Value, ok bool, complete int) {
		if !ok {
			w.Fail("the stream was closed after %d values (error %v) while its source was open", len(got), <-errc)
		}
		if len(got) >= complete {
			w.Fail("value %d was delivered before its bytes had arrived", len(got))
		}
		if x == nil || !ref.Same(ref.Observe(x), seq[len(got)].Norm()) {
			w.Fail("value %d is %s, expected %s", len(got), ref.Observe(x).Short(), seq[len(got)].Short())
		}
		got = append(got, x)
	}
	pos := 0
	for ci := 0; ; ci++ {
		complete := 0
		for complete < len(ends) && ends[complete] <= pos {
			complete++
		}
		for hungry := false; !hungry; {
			select {
			case x, ok := <-out:
				take(x, ok, complete)
			case <-g.starved:
				hungry = true
			}
		}
		for len(got) < complete {
			select {
			case x, ok := <-out:
				take(x, ok, complete)
			case <-time.After(patience):
				w.Fail("%d bytes arrived, which are %d complete values, but only %d were delivered and more bytes are waited for", pos, complete, len(got))
			}
		}
		w.Trace()
		if pos == len(all) {
			break
		}
		next := len(all)
		if ci < len(cuts) {
			next = cuts[ci]
		}
		g.in <- all[pos:next:next]
		pos = next
	}
	close(g.in)
	if x, ok := <-out; ok {
		w.Fail("after the end of the input %s was delivered", ref.Observe(x).Short())
	}
	if err := <-errc; err != io.EOF {
		w.Fail("the stream ended with %v", err)
	}
	for i, x := range got {
		if !ref.Same(ref.Observe(x), seq[i].Norm()) {
			w.Fail("value %d has become %s, expected %s", i, ref.Observe(x).Short(), seq[i].Short())
		}
	}
}

// outWriter tells about every write.
type outWriter struct {
	mu  sync.Mutex
	b   []byte
	wok chan struct{}
}

func newOut() *outWriter { return &outWriter{wok: make(chan struct{}, 1)} }

func (o *outWriter) Write(p []byte) (int, error) {
	o.mu.Lock()
	o.b = append(o.b, p...)
	o.mu.Unlock()
	select {
	case o.wok <- struct{}{}:
	default:
	}
	return len(p), nil
}

// await waits until n bytes were written and returns all that were.
func (o *outWriter) await(n int) []byte {
	for {
		o.mu.Lock()
		b := append([]byte(nil), o.b...)
		o.mu.Unlock()
		if len(b) >= n {
			return b
		}
		select {
		case <-o.wok:
		case <-time.After(patience):
			return b
		}
	}
}

// burstWriter sends the next values when the bytes of those sent before are all there.
type burstWriter struct {
	*outWriter
	next func(n int)
}

func (o burstWriter) Write(p []byte) (int, error) {
	n, err := o.outWriter.Write(p)
	o.mu.Lock()
	total := len(o.b)
	o.mu.Unlock()
	o.next(total)
	return n, err
}

// bursts sends several values at once to an open channel, and the next ones as soon as the last
// byte of these has reached the writer (from within its Write) or after that; the bytes of all of
// them must reach it without anything else.
func bursts(w *kit.W, seq []*ref.V, ends []int, all []byte, cuts []int, inside bool, fl int) {
	w.Step(func() string {
		return fmt.Sprintf("WriteStream of %s, sent in bursts cut at %v, sent from inside Write=%v", ref.VList(seq...).Short(), cuts, inside)
	})
	cuts = append(append([]int(nil), cuts...), len(seq))
	ch := make(chan value.Value, len(seq)+1)
	sent, burst := 0, 0
	push := func() {
		for ; burst < len(cuts) && sent < cuts[burst]; sent++ {
			ch <- ref.Build(seq[sent], fl)
		}
		burst++
	}
	o := newOut()
	bw := burstWriter{o, func(n int) {
		if inside && burst < len(cuts) && n >= ends[sent-1] {
			push()
		}
	}}
	push()
	errc := make(chan error, 1)
	go func() { errc <- value.WriteStream(bw, ch) }()
	if !inside {
		for burst < len(cuts) {
			if b := o.await(ends[sent-1]); !bytes.Equal(b, all[:ends[sent-1]]) {
				w.Fail("%d values were sent and the writer has %s, expected %s", sent, hexs(b), hexs(all[:ends[sent-1]]))
			}
			w.Trace()
			push()
		}
	}
	if b := o.await(len(all)); !bytes.Equal(b, all) {
		w.Fail("all values were sent and the writer has %s, expected %s", hexs(b), hexs(all))
	}
	close(ch)
	if err := <-errc; err != nil {
		w.Fail("WriteStream returned %v", err)
	}
	w.Trace()
}

// outKinds are the writers, all of them passing on to o.
var outKinds = []struct {
	name string
	mk   func(o *outWriter) io.Writer
}{
	{"a plain writer", func(o *outWriter) io.Writer { return o }},
	{"a writer with more methods", func(o *outWriter) io.Writer { return richWriter{o} }},
	{"an io.MultiWriter", func(o *outWriter) io.Writer { return io.MultiWriter(o, io.Discard) }},
}

// richWriter has every optional method of a writer.
type richWriter struct{ *outWriter }

func (r richWriter) WriteByte(c byte) error { _, err := r.Write([]byte{c}); return err }
func (r richWriter) WriteString(s string) (int, error) {
	return r.Write([]byte(s))
}
func (r richWriter) ReadFrom(src io.Reader) (int64, error) {
	return io.Copy(r.outWriter, src)
}
func (r richWriter) Flush() error { return nil }

// outgoing sends the values one by one and checks that each has reached the writer before the
// next one is sent or the channel closed.
func outgoing(w *kit.W, seq []*ref.V, ends []int, all []byte, capn, ok, fl int) {
	w.Step(func() string {
		return fmt.Sprintf("WriteStream to %s of %s, sent one by one to a channel of %d", outKinds[ok].name, ref.VList(seq...).Short(), capn)
	})
	o := newOut()
	ch := make(chan value.Value, capn)
	errc := make(chan error, 1)
	wr := outKinds[ok].mk(o)
	go func() { errc <- value.WriteStream(wr, ch) }()
	for i, v := range seq {
		ch <- ref.Build(v, fl)
		if b := o.await(ends[i]); !bytes.Equal(b, all[:ends[i]]) {
			w.Fail("value %d was sent and the writer has %s, expected %s", i, hexs(b), hexs(all[:ends[i]]))
		}
		w.Trace()
	}
	close(ch)
	if err := <-errc; err != nil {
		w.Fail("WriteStream returned %v", err)
	}
	if b := o.await(len(all)); !bytes.Equal(b, all) {
		w.Fail("in the end the writer has %s, expected %s", hexs(b), hexs(all))
	}
	w.Trace()
	// the same without a channel: what returns has written
	for _, how := range []string{"Write", "a MessagePacker"} {
		w.Step(func() string {
			return fmt.Sprintf("%s to %s, value by value of %s", how, outKinds[ok].name, ref.VList(seq...).Short())
		})
		o := newOut()
		wr := outKinds[ok].mk(o)
		p := value.MessagePacker(wr)
		for i, v := range seq {
			x := ref.Build(v, fl)
			switch {
			case how == "Write":
				if err := value.Write(wr, x); err != nil {
					w.Fail("value %d: error %v", i, err)
				}
			case x == nil:
				p.PackNil()
			default:
				x.Pack(p)
			}
			if err := p.Error(); err != nil || !bytes.Equal(o.b, all[:ends[i]]) {
				w.Fail("value %d is written (error %v) and the writer has %s, expected %s", i, err, hexs(o.b), hexs(all[:ends[i]]))
			}
			w.Trace()
		}
	}
	// every single call of a packer
	w.Step(func() string {
		return fmt.Sprintf("the calls of %s on a MessagePacker to %s, one by one", ref.VList(seq...).Short(), outKinds[ok].name)
	})
	o = newOut()
	p := &steppedPacker{p: value.MessagePacker(outKinds[ok].mk(o)), o: o}
	for _, v := range seq {
		if x := ref.Build(v, fl); x == nil {
			p.PackNil()
		} else {
			x.Pack(p)
		}
		w.Trace()
	}
	if p.bad != "" {
		w.Fail("%s", p.bad)
	}
}

// steppedPacker checks after every call of p that the bytes of the call are written.
type steppedPacker struct {
	p    value.Packer
	o    *outWriter
	want bytes.Buffer
	bad  string
}

func (s *steppedPacker) call(name string, f func(p value.Packer)) {
	f(s.p)
	f(value.MessagePacker(&s.want))
	if err := s.p.Error(); s.bad == "" && (err != nil || !bytes.Equal(s.o.b, s.want.Bytes())) {
		s.bad = fmt.Sprintf("after %s (error %v) the writer has %s, the calls until here are %s", name, err, hexs(s.o.b), hexs(s.want.Bytes()))
	}
}
func (s *steppedPacker) PackNil()         { s.call("PackNil", func(p value.Packer) { p.PackNil() }) }
func (s *steppedPacker) PackBool(b bool)  { s.call("PackBool", func(p value.Packer) { p.PackBool(b) }) }
func (s *steppedPacker) PackLong(v int64) { s.call("PackLong", func(p value.Packer) { p.PackLong(v) }) }
func (s *steppedPacker) PackDouble(v float64) {
	s.call("PackDouble", func(p value.Packer) { p.PackDouble(v) })
}
func (s *steppedPacker) PackStr(v string) { s.call("PackStr", func(p value.Packer) { p.PackStr(v) }) }
func (s *steppedPacker) PackBin(v []byte) { s.call("PackBin", func(p value.Packer) { p.PackBin(v) }) }
func (s *steppedPacker) PackExt(t value.Ext, v []byte) {
	s.call("PackExt", func(p value.Packer) { p.PackExt(t, v) })
}
func (s *steppedPacker) PackList(n int) { s.call("PackList", func(p value.Packer) { p.PackList(n) }) }
func (s *steppedPacker) PackMap(n int)  { s.call("PackMap", func(p value.Packer) { p.PackMap(n) }) }
func (s *steppedPacker) PackRaw(v []byte) {
	s.call("PackRaw", func(p value.Packer) { p.PackRaw(v) })
}
func (s *steppedPacker) Error() error { return s.p.Error() }

// links connect two parties.
var links = []struct {
	name string
	mk   func() (ar io.Reader, aw io.WriteCloser, br io.Reader, bw io.WriteCloser, err error)
}{
	{"io.Pipe", func() (io.Reader, io.WriteCloser, io.Reader, io.WriteCloser, error) {
		r1, w1 := io.Pipe()
		r2, w2 := io.Pipe()
		return r1, w2, r2, w1, nil
	}},
	{"net.Pipe", func() (io.Reader, io.WriteCloser, io.Reader, io.WriteCloser, error) {
		a, b := net.Pipe()
		return a, a, b, b, nil
	}},
	{"os.Pipe", func() (io.Reader, io.WriteCloser, io.Reader, io.WriteCloser, error) {
		r1, w1, err := os.Pipe()
		if err != nil {
			return nil, nil, nil, nil, err
		}
		r2, w2, err := os.Pipe()
		return r1, w2, r2, w1, err
	}},
	{"bufio over io.Pipe", func() (io.Reader, io.WriteCloser, io.Reader, io.WriteCloser, error) {
		r1, w1 := io.Pipe()
		r2, w2 := io.Pipe()
		return bufio.NewReader(r1), w2, bufio.NewReader(r2), w1, nil
	}},
}

// conversation is a dialogue of two parties: the first says a value and waits for the answer,
// which is what it said, before it says the next one.
func conversation(w *kit.W, seq []*ref.V, link, capn int, streams bool) {
	w.Step(func() string {
		return fmt.Sprintf("dialogue over %s, streams=%v, channels of %d: %s", links[link].name, streams, capn, ref.VList(seq...).Short())
	})
	ar, aw, br, bw, err := links[link].mk()
	if err != nil {
		return // no pipes here; the other links were explored
	}
	ended := make(chan error, 4)
	said, heard := make(chan value.Value, capn), make(chan value.Value, capn)
	question, answer := make(chan value.Value, capn), make(chan value.Value, capn)
	talk := func(wr io.WriteCloser, r io.Reader, say <-chan value.Value, hear chan<- value.Value) {
		go func() {
			var err error
			if streams {
				err = value.WriteStream(wr, say)
			} else {
				for x := range say {
					if e := value.Write(wr, x); e != nil && err == nil {
						err = e
					}
				}
			}
			if err != nil {
				err = fmt.Errorf("writing: %v", err)
			}
			wr.Close()
			ended <- err
		}()
		go func() {
			st := 0
			if !streams {
				st = 1
			}
			err := streamers[st].run(r, hear)
			if err == io.EOF || streams == false && strings.Contains(fmt.Sprint(err), "closed") {
				err = nil
			}
			ended <- err
		}()
	}
	talk(aw, ar, said, heard)
	talk(bw, br, question, answer)
	go func() {
		for x := range answer {
			question <- x
		}
		if links[link].name != "net.Pipe" {
			close(question)
		}
	}()
	for i, v := range seq {
		said <- ref.Build(v, 0)
		x, ok := <-heard
		if !ok {
			w.Fail("value %d was not answered; the parties ended with %v", i, <-ended)
		}
		if x == nil || !ref.Same(ref.Observe(x), v.Norm()) {
			w.Fail("value %d came back as %s, expected %s", i, ref.Observe(x).Short(), v.Short())
		}
		w.Trace()
	}
	close(said)
	if links[link].name == "net.Pipe" {
		// the close of one side ends both directions
		close(question)
		for range heard {
		}
		for i := 0; i < 4; i++ {
			<-ended
		}
		return
	}
	if x, ok := <-heard; ok {
		w.Fail("after the last answer came %s", ref.Observe(x).Short())
	}
	for i := 0; i < 4; i++ {
		if err := <-ended; err != nil {
			w.Fail("a party ended with %v", err)
		}
	}
	for _, c := range []any{ar, br} {
		if f, ok := c.(*os.File); ok {
			f.Close()
		}
	}
}

// compositions are all sets of cuts of n bytes if n is small, all of up to k cuts and the cut
// into single bytes otherwise.
func compositions(n, all, k int) [][]int {
	var res [][]int
	if n <= 1 {
		return [][]int{nil}
	}
	if n <= all {
		for m := 0; m < 1<<(n-1); m++ {
			var cuts []int
			for i := 1; i < n; i++ {
				if m>>(i-1)&1 == 1 {
					cuts = append(cuts, i)
				}
			}
			res = append(res, cuts)
		}
		return res
	}
	var rec func(from, left int, cuts []int)
	rec = func(from, left int, cuts []int) {
		res = append(res, append([]int(nil), cuts...))
		if left == 0 {
			return
		}
		for i := from; i < n; i++ {
			rec(i+1, left-1, append(cuts, i))
		}
	}
	rec(1, k, nil)
	var single []int
	for i := 1; i < n; i++ {
		single = append(single, i)
	}
	return append(res, single)
}

func encodings(seq []*ref.V) (all []byte, ends []int) {
	for _, v := range seq {
		all = v.Enc(all)
		ends = append(ends, len(all))
	}
	return
}

func C28(c *kit.Ctx) {
	c.HangLimit = 90 * time.Second
	alpha := []*ref.V{ref.VNil, ref.VLong(5), ref.VLong(-70000), ref.VUtf8(""), ref.VUtf8("abc"), ref.VRaw("q"), ref.VExt(7, "wxyz5"),
		ref.VList(), ref.VMap(nil, nil), ref.VList(ref.VNil, ref.VLong(1)), ref.VMap([]string{"a"}, []*ref.V{ref.VList(ref.VUtf8("x"))}), ref.VDouble(2.5)}
	maxN := 4
	small, k := c.Pick(10, 13), c.Pick(1, 2)
	c.Bound("sequence_length", maxN)
	c.Bound("value_alphabet", len(alpha))
	c.Bound("arrivals", fmt.Sprintf("every division into parts of sequences of up to %d bytes, every division by up to %d cuts and into single bytes of longer ones", small, k))
	for n := 0; n <= maxN; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(alpha)
		}
		pick := func(idx int) []*ref.V {
			seq := make([]*ref.V, n)
			for j := range seq {
				seq[j] = alpha[idx%len(alpha)]
				idx /= len(alpha)
			}
			return seq
		}
		c.Par(fmt.Sprintf("arriving/%d-values", n), total, func(w *kit.W, idx int) {
			seq := pick(idx)
			all, ends := encodings(seq)
			for i, cuts := range compositions(len(all), small, k) {
				w.NewState()
				for st := range streamers {
					incoming(w, seq, all, ends, cuts, st, (i+idx)%len(gateKinds))
					if n <= 3 {
						incoming(w, seq, all, ends, cuts, st, (i+idx+1)%len(gateKinds))
						incoming(w, seq, all, ends, cuts, st, (i+idx+2)%len(gateKinds))
					}
				}
			}
		})
		c.Par(fmt.Sprintf("leaving/%d-values", n), total*3, func(w *kit.W, idx int) {
			seq := pick(idx / 3)
			all, ends := encodings(seq)
			w.NewState()
			outgoing(w, seq, ends, all, idx%3, idx/3%len(outKinds), idx%2)
			if n <= 3 {
				outgoing(w, seq, ends, all, idx%3, (idx/3+1)%len(outKinds), idx%2)
				outgoing(w, seq, ends, all, idx%3, (idx/3+2)%len(outKinds), idx%2)
			}
			if n > 0 && idx%3 == 0 {
				for _, cuts := range compositions(n, n, 0) {
					bursts(w, seq, ends, all, cuts, false, idx/3%2)
					bursts(w, seq, ends, all, cuts, true, idx/3%2)
				}
			}
		})
		c.Par(fmt.Sprintf("dialogues/%d-values", n), total*len(links), func(w *kit.W, idx int) {
			w.NewState()
			conversation(w, pick(idx/len(links)), idx%len(links), idx/len(links)%3, idx/len(links)/3%2 == 0)
		})
	}
	// every kind of value, alone and between others, with a cut at every byte
	vals := append(ref.Trees(1, ref.SmallLeaves(), false), ref.Trees(2, ref.SmallLeaves(), false)...)
	vals = append(append(vals, ref.Trees(3, ref.SmallLeaves()[:c.Pick(6, 12)], false)...), ref.Scalars(70)...)
	vals = append(append(vals, ref.BigContainers(300)...), ref.SpecialKeyMaps()[:200]...)
	c.Bound("values_of_every_kind", len(vals))
	c.Par("values-of-every-kind", len(vals), func(w *kit.W, i int) {
		v := vals[i]
		if v.HasEmptySparse() {
			return
		}
		w.NewState()
		seq := []*ref.V{v, ref.VLong(5), v}
		all, ends := encodings(seq)
		for st := range streamers {
			for _, cuts := range compositions(len(all), 0, 1) {
				if len(all) > 400 && len(cuts) == 1 && cuts[0] > 20 && cuts[0] < len(all)-20 && (cuts[0] < ends[0]-10 || cuts[0] > ends[1]+10) {
					continue
				}
				incoming(w, seq, all, ends, cuts, st, (st+i)%len(gateKinds))
			}
		}
		for k := range outKinds {
			outgoing(w, seq, ends, all, k, k, i%2)
		}
		for _, cuts := range compositions(len(seq), 4, 0) {
			bursts(w, seq, ends, all, cuts, i%2 == 0, i/2%2)
		}
		for l := range links {
			conversation(w, seq, l, i%2, (i+l)%2 == 0)
		}
	})
	// values as long as any buffer
	lens := []int{31, 32, 255, 256, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 1 << 20}
	c.Bound("long_values", lens)
	c.Par("long-values", len(lens)*4, func(w *kit.W, i int) {
		s := strings.Repeat("m", lens[i/4])
		v := []*ref.V{ref.VUtf8(s), ref.VRaw(s), ref.VExt(9, s), ref.VList(ref.VUtf8(s), ref.VNil)}[i%4]
		w.NewState()
		seq := []*ref.V{v, ref.VTrue, v, ref.VUtf8("abc")}
		all, ends := encodings(seq)
		for _, cuts := range [][]int{nil, {ends[0]}, ends[:3], {1}, {1, ends[0] - 1}, {ends[0] - 1, ends[1]}, {ends[0] + 1, ends[2] + 1}, {len(all) - 1}, {5, len(all) / 2}} {
			for st := range streamers {
				for gk := range gateKinds {
					incoming(w, seq, all, ends, cuts, st, gk)
				}
			}
		}
		for k := range outKinds {
			outgoing(w, seq, ends, all, k, k, 0)
		}
		for _, cuts := range compositions(len(seq), 4, 0) {
			bursts(w, seq, ends, all, cuts, false, 0)
			bursts(w, seq, ends, all, cuts, true, 0)
		}
		for l := range links {
			conversation(w, seq, l, l%2, l%2 == 0)
			conversation(w, seq, l, l%2, l%2 == 1)
		}
	})
	// long dialogues: positions on the boundaries of any buffering
	turns := []int{15, 16, 17, 63, 64, 65, 255, 256, 257, 1000, 4097}
	c.Bound("long_dialogues", turns)
	c.Par("long-dialogues", len(turns)*len(alpha), func(w *kit.W, i int) {
		w.NewState()
		seq := make([]*ref.V, turns[i/len(alpha)])
		for j := range seq {
			seq[j] = alpha[(i%len(alpha)+j*(i%3+1))%len(alpha)]
		}
		all, ends := encodings(seq)
		for st := range streamers {
			for gk := range gateKinds {
				incoming(w, seq, all, ends, ends[:len(ends)-1], st, gk)
			}
		}
		outgoing(w, seq, ends, all, i%3, i%len(outKinds), i%2)
		for _, cuts := range [][]int{nil, {1}, {len(seq) / 2}, {1, 2, len(seq) - 1}} {
			bursts(w, seq, ends, all, cuts, i%2 == 0, i%2)
			bursts(w, seq, ends, all, cuts, i%2 == 1, i%2)
		}
		for l := range links {
			conversation(w, seq, l, i%3, (i+l)%2 == 0)
		}
	})
}
