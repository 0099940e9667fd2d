package props

import (
	"bytes"
	"crypto"
	"crypto/rand"
	_ "crypto/sha256"
	"errors"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
	"golang.org/x/crypto/nacl/box"
	"verif/mc/kit"
	"verif/mc/ref"
)

func init() { All["C30"] = C30 }

// ---------- C30: code of the user called by the library ----------

// bomb counts the calls of user code; the at-th one does something.
type bomb struct {
	n, at int
	do    func()
}

func (b *bomb) tick() {
	b.n++
	if b.n == b.at {
		b.do()
	}
}

// Values of the user: they behave like what they wrap, every call ticks.
type (
	bombBase struct {
		b *bomb
		x value.Value
	}
	deepBool   struct{ value.Bool }
	deepNumber struct{ value.Number }
	deepString struct{ ownString }
	deepExt    struct{ value.Extension }
	deepList   struct{ value.List }
	deepMap    struct{ value.Map }
	bombBool   struct {
		bombBase
		deepBool
	}
	bombNumber struct {
		bombBase
		deepNumber
	}
	bombString struct {
		bombBase
		deepString
	}
	bombExt struct {
		bombBase
		deepExt
	}
	bombList struct {
		bombBase
		deepList
	}
	bombMap struct {
		bombBase
		deepMap
	}
)

func (o bombBase) String() string                 { o.b.tick(); return o.x.String() }
func (o bombBase) MarshalJSON() ([]byte, error)   { o.b.tick(); return o.x.MarshalJSON() }
func (o bombBase) MarshalBinary() ([]byte, error) { o.b.tick(); return o.x.MarshalBinary() }
func (o bombBase) Kind() value.Kind               { o.b.tick(); return o.x.Kind() }
func (o bombBase) Class() reflect.Type            { o.b.tick(); return o.x.Class() }
func (o bombBase) Object() interface{}            { o.b.tick(); return o.x.Object() }
func (o bombBase) Pack(p value.Packer)            { o.b.tick(); o.x.Pack(p) }
func (o bombBase) PrintJSON(out *strings.Builder) { o.b.tick(); o.x.PrintJSON(out) }
func (o bombBase) Equal(y value.Value) bool       { o.b.tick(); return o.x.Equal(y) }

func (o bombBool) Boolean() bool                  { o.b.tick(); return o.Bool.Boolean() }
func (o bombNumber) Type() value.NumberType       { o.b.tick(); return o.Number.Type() }
func (o bombNumber) IsNaN() bool                  { o.b.tick(); return o.Number.IsNaN() }
func (o bombNumber) Long() int64                  { o.b.tick(); return o.Number.Long() }
func (o bombNumber) Double() float64              { o.b.tick(); return o.Number.Double() }
func (o bombNumber) BigInt() *big.Int             { o.b.tick(); return o.Number.BigInt() }
func (o bombNumber) Decimal() decimal.Decimal     { o.b.tick(); return o.Number.Decimal() }
func (o bombString) Type() value.StringType       { o.b.tick(); return o.ownString.Type() }
func (o bombString) Len() int                     { o.b.tick(); return o.ownString.Len() }
func (o bombString) Utf8() string                 { o.b.tick(); return o.ownString.Utf8() }
func (o bombString) Raw() []byte                  { o.b.tick(); return o.ownString.Raw() }
func (o bombExt) Native() []byte                  { o.b.tick(); return o.Extension.Native() }
func (o bombList) Len() int                       { o.b.tick(); return o.List.Len() }
func (o bombList) Entries() []value.MapEntry      { o.b.tick(); return o.List.Entries() }
func (o bombList) Items() []value.ListItem        { o.b.tick(); return o.List.Items() }
func (o bombList) Values() []value.Value          { o.b.tick(); return o.List.Values() }
func (o bombList) GetAt(i int) value.Value        { o.b.tick(); return o.List.GetAt(i) }
func (o bombMap) Len() int                        { o.b.tick(); return o.Map.Len() }
func (o bombMap) Entries() []value.MapEntry       { o.b.tick(); return o.Map.Entries() }
func (o bombMap) HashMap() map[string]value.Value { o.b.tick(); return o.Map.HashMap() }
func (o bombMap) Keys() []string                  { o.b.tick(); return o.Map.Keys() }
func (o bombMap) Values() []value.Value           { o.b.tick(); return o.Map.Values() }
func (o bombMap) Get(k string) value.Value        { o.b.tick(); return o.Map.Get(k) }

func (b *bomb) wrap(x value.Value) value.Value {
	base := bombBase{b, x}
	switch t := x.(type) {
	case value.Bool:
		return bombBool{base, deepBool{t}}
	case value.Number:
		return bombNumber{base, deepNumber{t}}
	case value.String:
		return bombString{base, deepString{t}}
	case value.Extension:
		return &bombExt{base, deepExt{t}}
	case value.List:
		return bombList{base, deepList{t}}
	case value.Map:
		return &bombMap{base, deepMap{t}}
	}
	return x
}

// The other parts a user can bring.
type bombPacker struct {
	b *bomb
	value.Packer
}

func (o bombPacker) PackNil()                      { o.b.tick(); o.Packer.PackNil() }
func (o bombPacker) PackBool(v bool)               { o.b.tick(); o.Packer.PackBool(v) }
func (o bombPacker) PackLong(v int64)              { o.b.tick(); o.Packer.PackLong(v) }
func (o bombPacker) PackDouble(v float64)          { o.b.tick(); o.Packer.PackDouble(v) }
func (o bombPacker) PackStr(v string)              { o.b.tick(); o.Packer.PackStr(v) }
func (o bombPacker) PackBin(v []byte)              { o.b.tick(); o.Packer.PackBin(v) }
func (o bombPacker) PackExt(t value.Ext, v []byte) { o.b.tick(); o.Packer.PackExt(t, v) }
func (o bombPacker) PackList(n int)                { o.b.tick(); o.Packer.PackList(n) }
func (o bombPacker) PackMap(n int)                 { o.b.tick(); o.Packer.PackMap(n) }
func (o bombPacker) PackRaw(v []byte)              { o.b.tick(); o.Packer.PackRaw(v) }
func (o bombPacker) Error() error                  { o.b.tick(); return o.Packer.Error() }

type bombUnpacker struct {
	b *bomb
	u value.Unpacker
}

func (o bombUnpacker) Next() (value.Format, []byte) { o.b.tick(); return o.u.Next() }
func (o bombUnpacker) Read(n int) ([]byte, error)   { o.b.tick(); return o.u.Read(n) }

type bombParser struct {
	b *bomb
	p value.Parser
}

func (o bombParser) ParseBool(h []byte) bool         { o.b.tick(); return o.p.ParseBool(h) }
func (o bombParser) ParseLong(h []byte) int64        { o.b.tick(); return o.p.ParseLong(h) }
func (o bombParser) ParseDouble(h []byte) float64    { o.b.tick(); return o.p.ParseDouble(h) }
func (o bombParser) ParseBin(h []byte) int           { o.b.tick(); return o.p.ParseBin(h) }
func (o bombParser) ParseStr(h []byte) int           { o.b.tick(); return o.p.ParseStr(h) }
func (o bombParser) ParseList(h []byte) int          { o.b.tick(); return o.p.ParseList(h) }
func (o bombParser) ParseMap(h []byte) int           { o.b.tick(); return o.p.ParseMap(h) }
func (o bombParser) ParseExt(h []byte) (int, []byte) { o.b.tick(); return o.p.ParseExt(h) }
func (o bombParser) Error() error                    { o.b.tick(); return o.p.Error() }

type bombReader struct {
	b *bomb
	r io.Reader
}

func (o bombReader) Read(p []byte) (int, error) { o.b.tick(); return o.r.Read(p) }

type bombWriter struct {
	b *bomb
	w io.Writer
}

func (o bombWriter) Write(p []byte) (int, error) { o.b.tick(); return o.w.Write(p) }

type bombUpdater struct {
	b *bomb
	f func(old value.Value) value.Value
}

func (o bombUpdater) Update(old value.Value) value.Value { o.b.tick(); return o.f(old) }

// userItem and userEntry are items and entries of the user.
type userItem struct {
	b *bomb
	value.ListItem
}

func (o userItem) Key() int                    { o.b.tick(); return o.ListItem.Key() }
func (o userItem) Value() value.Value          { o.b.tick(); return o.ListItem.Value() }
func (o userItem) Equal(y value.ListItem) bool { o.b.tick(); return o.ListItem.Equal(y) }

type userEntry struct {
	b *bomb
	value.MapEntry
}

func (o userEntry) Key() string                 { o.b.tick(); return o.MapEntry.Key() }
func (o userEntry) Value() value.Value          { o.b.tick(); return o.MapEntry.Value() }
func (o userEntry) Equal(y value.MapEntry) bool { o.b.tick(); return o.MapEntry.Equal(y) }

// subject is what an operation works on.
type subject struct {
	v    *ref.V
	enc  []byte
	x    value.Value // with values of the user in it
	same value.Value // the same, of the library alone
	b    *bomb
	keys *[2]*[32]byte
}

// calls are operations that call code of the user. Each returns what it brought about, and
// writes what it writes to sink, step by step.
type call struct {
	name string
	run  func(s *subject, sink *bytes.Buffer) string
}

func textOf(x any, err error) string {
	switch t := x.(type) {
	case []byte:
		return fmt.Sprintf("%x %v", t, err)
	case value.Value:
		return fmt.Sprintf("%s %v", ref.Observe(t).Canon(), err)
	case nil:
		return fmt.Sprintf("nil %v", err)
	}
	return fmt.Sprintf("%v %v", x, err)
}

// show is fmt.Sprint with the panics of values left alone.
func show(xs ...any) string {
	out := ""
	for _, x := range xs {
		if v, ok := x.(value.Value); ok {
			x = v.String()
		}
		out += fmt.Sprint(x, " ")
	}
	return out
}

// newTypes counts the types of structs that were made.
var newTypes atomic.Int64

type boxed struct {
	V value.Value   `tag:"1"`
	L []value.Value `tag:"2"`
	R []value.Value `tag:"3" repeated:"true"`
}

func calls() []call {
	var cs []call
	add := func(name string, run func(s *subject, sink *bytes.Buffer) string) {
		cs = append(cs, call{name, run})
	}
	for _, e := range encoders[:5] {
		e := e
		if e.name == "Write" || e.name == "WriteStream" {
			continue
		}
		add(e.name, func(s *subject, sink *bytes.Buffer) string { b, err := e.run(s.x); return textOf(b, err) })
	}
	add("Write", func(s *subject, sink *bytes.Buffer) string {
		return textOf(nil, value.Write(bombWriter{s.b, sink}, s.x))
	})
	add("WriteStream", func(s *subject, sink *bytes.Buffer) string {
		c := make(chan value.Value, 4)
		c <- s.same
		c <- s.x
		c <- nil
		c <- s.x
		close(c)
		return textOf(nil, value.WriteStream(bombWriter{s.b, sink}, c))
	})
	add("Pack into a packer of the user", func(s *subject, sink *bytes.Buffer) string {
		s.x.Pack(bombPacker{s.b, value.MessagePacker(sink)})
		return ""
	})
	add("Pack of a library value into a packer of the user", func(s *subject, sink *bytes.Buffer) string {
		s.same.Pack(bombPacker{s.b, value.MessagePacker(sink)})
		return ""
	})
	add("PackStruct", func(s *subject, sink *bytes.Buffer) string {
		b, err := value.PackStruct(&boxed{V: s.x, L: []value.Value{s.same, s.x}, R: []value.Value{s.x, s.same}})
		return textOf(b, err)
	})
	add("PackStruct of a new type", func(s *subject, sink *bytes.Buffer) string {
		n := 1 + int(newTypes.Add(1))%200000
		t := structOf([]int{5*nWraps + wPlain, 5*nWraps + wSlice, 5*nWraps + wRepeated}, []int{-n, 1, n + 1})
		x := reflect.New(t)
		l := reflect.ValueOf([]value.Value{s.same, s.x})
		x.Elem().Field(0).Set(reflect.ValueOf(s.x))
		x.Elem().Field(1).Set(l)
		x.Elem().Field(2).Set(l)
		b, err := value.PackStruct(x.Interface())
		if err != nil {
			return err.Error()
		}
		y := reflect.New(t)
		if err := value.UnpackStruct(b, y.Interface(), true); err != nil {
			return err.Error()
		}
		out := ""
		for i := 0; i < 2; i++ {
			out += textOf(y.Elem().Field(0).Interface(), nil) + textOf(y.Elem().Field(1+i).Index(1).Interface(), nil)
		}
		return out
	})
	add("Hex", func(s *subject, sink *bytes.Buffer) string { return value.Hex(s.x) })
	add("Hash", func(s *subject, sink *bytes.Buffer) string {
		b, h, err := value.Hash(s.x, crypto.SHA256)
		return textOf(b, err) + textOf(h, nil)
	})
	add("Seal", func(s *subject, sink *bytes.Buffer) string {
		b, err := value.Seal(s.x, s.keys[0], s.keys[1])
		if err != nil {
			return err.Error()
		}
		y, err := value.Unseal(b, s.keys[0], s.keys[1])
		return textOf(y, err)
	})
	add("Jsonify", func(s *subject, sink *bytes.Buffer) string { return value.Jsonify(s.x) })
	add("PrintJSON", func(s *subject, sink *bytes.Buffer) string {
		var out strings.Builder
		defer func() { sink.WriteString(out.String()) }()
		s.x.PrintJSON(&out)
		return ""
	})
	add("MarshalJSON", func(s *subject, sink *bytes.Buffer) string { b, err := s.x.MarshalJSON(); return textOf(b, err) })
	add("String", func(s *subject, sink *bytes.Buffer) string { return s.x.String() })
	add("Equal of the user's and the library's", func(s *subject, sink *bytes.Buffer) string {
		return fmt.Sprint(value.Equal(s.x, s.same))
	})
	add("Equal of the library's and the user's", func(s *subject, sink *bytes.Buffer) string {
		return fmt.Sprint(value.Equal(s.same, s.x))
	})
	add("Equal with itself", func(s *subject, sink *bytes.Buffer) string { return fmt.Sprint(s.x.Equal(s.x)) })
	add("Read", func(s *subject, sink *bytes.Buffer) string {
		y, err := value.Read(bombReader{s.b, bytes.NewReader(s.enc)})
		return textOf(y, err)
	})
	add("Read of single bytes", func(s *subject, sink *bytes.Buffer) string {
		y, err := value.Read(bombReader{s.b, OneByte{bytes.NewReader(s.enc)}})
		return textOf(y, err)
	})
	add("ReadStream", func(s *subject, sink *bytes.Buffer) string {
		c := make(chan value.Value, 4)
		got := ""
		// whatever happens the stream ends
		defer func() {
			for y := range c {
				sink.WriteString(textOf(y, nil))
			}
		}()
		all := append(append([]byte(nil), s.enc...), s.enc...)
		err := value.ReadStream(bombReader{s.b, bytes.NewReader(all)}, c)
		return got + textOf(nil, err)
	})
	add("Parse with an unpacker of the user", func(s *subject, sink *bytes.Buffer) string {
		y, err := value.Parse(bombUnpacker{s.b, value.MessageUnpacker(s.enc, true)}, value.MessageParser())
		return textOf(y, err)
	})
	add("Parse with a parser of the user", func(s *subject, sink *bytes.Buffer) string {
		y, err := value.Parse(value.MessageUnpacker(s.enc, false), bombParser{s.b, value.MessageParser()})
		return textOf(y, err)
	})
	add("containers around it", func(s *subject, sink *bytes.Buffer) string {
		out := ""
		for _, l := range []value.List{value.ImmutableList([]value.Value{s.x}), value.MutableList([]value.Value{s.x}), value.SparseListOf([]value.Value{s.x})} {
			l = l.Append(s.x).InsertAt(0, s.x).PutAt(1, s.same)
			l = l.InsertAll(0, []value.Value{s.x, s.same}).RemoveAt(l.Len() - 1)
			out += textOf(l, nil)
			if i := l.Len() - 1; i >= 0 {
				out += show(l.GetBoolAt(i), l.GetNumberAt(i), l.GetStringAt(i), l.GetListAt(i) == nil, l.GetMapAt(i) == nil)
			}
		}
		for _, m := range []value.Map{value.EmptyImmutableMap(), value.EmptyMutableMap()} {
			m = m.Put("b", s.x).Insert("a", s.x).Insert("b", s.same).InsertAll("c", []value.Value{s.x, nil}).Put("a", s.same).Remove("b")
			out += textOf(m, nil)
			out += show(m.GetBool("c"), m.GetNumber("c"), m.GetString("c"), m.GetList("c") == nil, m.GetMap("c") == nil)
		}
		return out
	})
	add("items and entries of the user", func(s *subject, sink *bytes.Buffer) string {
		its := []value.ListItem{userItem{s.b, value.ImmutableItem(3, s.x)}, userItem{s.b, value.MutableItem(1, s.same)}, userItem{s.b, value.MutableItem(3, s.same)}}
		l := value.SparseList(append([]value.ListItem(nil), its...), false)
		out := textOf(l, nil) + value.Jsonify(l) + fmt.Sprint(l.Equal(l), its[0].Equal(its[2]), value.ImmutableItem(3, s.same).Equal(its[0]))
		es := []value.MapEntry{userEntry{s.b, value.ImmutableEntry("c", s.x)}, userEntry{s.b, value.MutableEntry("a", s.same)}, userEntry{s.b, value.MutableEntry("b", s.x)}}
		for _, m := range []value.Map{value.ImmutableMap(append([]value.MapEntry(nil), es...), false), value.SortedMap(append([]value.MapEntry(nil), es...), false)} {
			out += textOf(m, nil) + value.Jsonify(m) + fmt.Sprint(m.Equal(m), es[0].Equal(es[2]), value.ImmutableEntry("c", s.same).Equal(es[0]))
			out += textOf(m.Put("b", s.same).Insert("bb", s.x), nil)
		}
		return out
	})
	add("copies and views", func(s *subject, sink *bytes.Buffer) string {
		out := ""
		switch t := s.x.(type) {
		case value.Map:
			out = textOf(value.ImmutableMapCopyOf(t), nil) + textOf(value.SortedMapCopyOf(t), nil)
			hm := t.HashMap()
			out += textOf(value.ImmutableMapOf(hm), nil) + textOf(value.SortedMapOf(hm), nil)
			for _, k := range t.Keys() {
				out += textOf(t.Get(k), nil) + show(t.GetBool(k), t.GetNumber(k), t.GetString(k), len(t.Select(k)))
			}
			for _, e := range t.Entries() {
				out += e.Key() + textOf(e.Value(), nil)
			}
		case value.List:
			out = textOf(value.SparseListOf(t.Values()), nil) + textOf(value.ImmutableList(value.CopyOf(t.Values())), nil)
			for _, it := range t.Items() {
				k := it.Key()
				out += textOf(it.Value(), nil) + show(t.GetBoolAt(k), t.GetNumberAt(k), t.GetStringAt(k), len(t.Select(k)))
			}
			for _, e := range t.Entries() {
				out += e.Key() + textOf(e.Value(), nil)
			}
		case value.Number:
			for _, y := range []value.Number{value.Long(3), value.Double(0.5), value.BigInt(big.NewInt(7)), value.Decimal(decimal.New(5, -1))} {
				out += y.Add(t).String() + y.Subtract(t).String() + fmt.Sprint(y.Equal(t))
			}
		}
		return out
	})
	for _, f := range []string{"list", "sparse list", "map", "item", "entry"} {
		f := f
		add("Update of a "+f, func(s *subject, sink *bytes.Buffer) string {
			up := bombUpdater{s.b, func(old value.Value) value.Value { return value.Tuple(old, s.x) }}
			twice := func(update func(u value.Updater) bool, get func() value.Value) string {
				before := textOf(get(), nil)
				var ok bool
				func() {
					done := false
					defer func() {
						if !done && textOf(get(), nil) != before {
							sink.WriteString("DAMAGED: " + textOf(get(), nil) + " instead of " + before)
						}
					}()
					ok = update(up)
					done = true
				}()
				return fmt.Sprint(ok) + textOf(get(), nil)
			}
			switch f {
			case "list":
				l := value.MutableList([]value.Value{s.x, s.same, s.x})
				return twice(func(u value.Updater) bool { return l.UpdateAt(1, u) && l.UpdateAt(1, bombUpdater{&bomb{}, up.f}) }, func() value.Value { return l })
			case "sparse list":
				l := value.SparseList([]value.ListItem{value.MutableItem(1, s.x), value.MutableItem(4, s.same)}, true)
				return twice(func(u value.Updater) bool { return l.UpdateAt(4, u) && l.UpdateAt(1, bombUpdater{&bomb{}, up.f}) }, func() value.Value { return l })
			case "map":
				m := value.SortedMap([]value.MapEntry{value.MutableEntry("a", s.x), value.MutableEntry("b", s.same), value.MutableEntry("b", s.x)}, true)
				return twice(func(u value.Updater) bool { return m.Update("b", u) && m.Update("a", bombUpdater{&bomb{}, up.f}) }, func() value.Value { return m })
			case "item":
				it := value.MutableItem(2, s.x)
				return twice(it.Update, it.Value)
			default:
				e := value.MutableEntry("k", s.same)
				return twice(e.Update, e.Value)
			}
		})
	}
	return cs
}

// OneByte delivers one byte at a time.
type OneByte struct{ R io.Reader }

func (o OneByte) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1]
	}
	return o.R.Read(p)
}

// ending is how a run went.
type ending struct {
	result   string
	sink     string
	thrown   any
	returned bool // it came back
	exited   bool // the goroutine ended
	calls    int
}

// perform runs f in a goroutine of its own, with the at-th call of user code doing do.
func perform(s *subject, c *call, at int, do func()) ending {
	var o ending
	var sink bytes.Buffer
	done := make(chan struct{})
	*s.b = bomb{at: at, do: do}
	go func() {
		defer close(done)
		defer func() {
			if !o.returned {
				if o.thrown = recover(); o.thrown == nil {
					o.exited = true
				}
			}
		}()
		o.result = c.run(s, &sink)
		o.returned = true
	}()
	<-done
	o.sink, o.calls = sink.String(), s.b.n
	*s.b = bomb{}
	return o
}

// like is whether two runs brought about the same, with however many calls of user code.
func (o ending) like(p ending) bool {
	o.calls, p.calls = 0, 0
	return o == p
}

type boom struct{ where int }

// explosions are the ways user code can end.
var explosions = []struct {
	name string
	do   func(k int) (func(), func(o ending) string)
}{
	{"panics", func(k int) (func(), func(o ending) string) {
		p := &boom{k}
		return func() { panic(p) }, func(o ending) string {
			if o.thrown != any(p) {
				return fmt.Sprintf("the panic became: returned=%v %q, exited=%v, panic %v", o.returned, short(o.result), o.exited, o.thrown)
			}
			return ""
		}
	}},
	{"panics with an error", func(k int) (func(), func(o ending) string) {
		e := []error{io.EOF, errors.New("user"), io.ErrUnexpectedEOF}[k%3]
		return func() { panic(e) }, func(o ending) string {
			if o.thrown != any(e) {
				return fmt.Sprintf("the panic with the error %v became: returned=%v %q, exited=%v, panic %v", e, o.returned, short(o.result), o.exited, o.thrown)
			}
			return ""
		}
	}},
	{"has a run-time error", func(k int) (func(), func(o ending) string) {
		return func() {
				var m map[string]int
				m["x"] = k
			}, func(o ending) string {
				if _, ok := o.thrown.(runtime.Error); !ok || !strings.Contains(fmt.Sprint(o.thrown), "nil map") {
					return fmt.Sprintf("the run-time error became: returned=%v %q, exited=%v, panic %v", o.returned, short(o.result), o.exited, o.thrown)
				}
				return ""
			}
	}},
	{"ends its goroutine", func(k int) (func(), func(o ending) string) {
		return runtime.Goexit, func(o ending) string {
			if !o.exited {
				return fmt.Sprintf("the end of the goroutine became: returned=%v %q, panic %v", o.returned, short(o.result), o.thrown)
			}
			return ""
		}
	}},
}

func (s *subject) intact() string {
	for _, x := range []value.Value{s.x, s.same} {
		if g := ref.Observe(x); !ref.Same(g, s.v) {
			return fmt.Sprintf("the value has become %s", g.Short())
		}
		if b, err := value.Pack(x); err != nil || !bytes.Equal(b, s.enc) {
			return fmt.Sprintf("the value is encoded as %s (error %v), before %s", hexs(b), err, hexs(s.enc))
		}
	}
	return ""
}

func C30(c *kit.Ctx) {
	c.HangLimit = 45 * time.Second
	c.Assume("user code is entered through the interfaces of the package: values, lists, maps, items, entries, updaters, packers, unpackers, parsers, io.Reader and io.Writer")
	pub, priv, err := box.GenerateKey(rand.Reader)
	if err != nil {
		panic(err)
	}
	keys := &[2]*[32]byte{pub, priv}
	cs := calls()
	names := make([]string, len(cs))
	for i := range cs {
		names[i] = cs[i].name
	}
	c.Bound("operations", names)
	var vs []*ref.V
	leaves := ref.SmallLeaves()
	vs = append(append(vs, ref.Trees(1, leaves, true)...), ref.Trees(2, leaves[:c.Pick(5, 9)], true)...)
	vs = append(vs, ref.Trees(3, leaves[:c.Pick(1, 3)], c.Thorough())...)
	for i, v := range ref.Scalars(60) {
		if moderate(v) && i%c.Pick(60, 7) == 0 {
			vs = append(vs, v, ref.VList(v), ref.VMap([]string{"k"}, []*ref.V{v}), ref.VSparse([]int{-4}, []*ref.V{v}))
		}
	}
	c.Bound("values", len(vs))
	mk := func(v *ref.V, f int, mask uint) *subject {
		s := &subject{v: v, enc: v.Encode(), b: &bomb{}, keys: keys}
		n, m := 0, 0
		s.x = otherwiseBy(s.b.wrap, v, f, mask, &n)
		s.same = otherwiseBy(func(x value.Value) value.Value { return x }, v, f, 0, &m)
		return s
	}
	masks := []uint{0xff, 0xfe, 0x55}
	c.Par("ends-of-user-code", len(vs)*len(cs), func(w *kit.W, i int) {
		v, cl := vs[i/len(cs)], &cs[i%len(cs)]
		if v.K == ref.Nil || v.HasEmptySparse() {
			return
		}
		for mi, mask := range masks {
			if mi > 0 && !v.IsContainer() {
				break
			}
			s := mk(v, []int{ref.FImmutable, ref.FMutable}[(i+mi)%2], mask)
			w.NewState()
			w.Step(func() string {
				return fmt.Sprintf("%s of %s with values of the user by the mask %x", cl.name, v.Short(), mask)
			})
			w.Trace()
			normal := perform(s, cl, 0, nil)
			if !normal.returned {
				w.Fail("panics by itself: %v", normal.thrown)
			}
			for k := 1; k <= normal.calls; k++ {
				for xi := range explosions {
					if (k+xi+i)%2 == 1 && normal.calls > c.Pick(12, 200) {
						continue
					}
					x := &explosions[xi]
					w.NewState()
					w.Step(func() string {
						return fmt.Sprintf("%s of %s with values of the user by the mask %x, call %d of %d of user code %s", cl.name, v.Short(), mask, k, normal.calls, x.name)
					})
					w.Trace()
					do, check := x.do(k)
					o := perform(s, cl, k, do)
					if m := check(o); o.calls >= k && m != "" {
						w.Fail("%s", m)
					}
					if !strings.HasPrefix(normal.sink, o.sink) {
						w.Fail("what was written by then is %q, without it %q", o.sink, normal.sink)
					}
					if m := s.intact(); m != "" {
						w.Fail("%s", m)
					}
					if again := perform(s, cl, 0, nil); !again.like(normal) {
						w.Fail("done again it gives %+v, before %+v", again, normal)
					}
				}
			}
		}
	})
	// user code that uses the library in turn
	var few []*ref.V
	for i := 0; i < len(vs); i += len(vs)/c.Pick(60, 400) + 1 {
		if vs[i].K != ref.Nil && !vs[i].HasEmptySparse() {
			few = append(few, vs[i])
		}
	}
	c.Bound("values_with_reentry", len(few))
	c.Par("user-code-using-the-library", len(few)*len(cs), func(w *kit.W, i int) {
		v, cl := few[i/len(cs)], &cs[i%len(cs)]
		s := mk(v, []int{ref.FImmutable, ref.FMutable}[i%2], 0xff)
		t := mk(few[(i/len(cs)*7+1)%len(few)], ref.FMutable, 0xfe)
		normal := perform(s, cl, 0, nil)
		inner := make([]ending, 2*len(cs))
		subj := []*subject{s, t}
		for j := range inner {
			inner[j] = perform(subj[j%2], &cs[j/2], 0, nil)
		}
		for k := 1; k <= normal.calls; k++ {
			for j := range inner {
				if len(inner)*normal.calls > c.Pick(1000, 20000) && (j+k)%5 != 0 {
					continue
				}
				w.NewState()
				w.Step(func() string {
					return fmt.Sprintf("%s of %s, call %d of %d of user code does %s of %s", cl.name, v.Short(), k, normal.calls, cs[j/2].name, subj[j%2].v.Short())
				})
				w.Trace()
				in := ending{}
				o := perform(s, cl, k, func() {
					at := *s.b
					var sink bytes.Buffer
					*s.b = bomb{}
					n := t.b
					*n = bomb{}
					in.result = cs[j/2].run(subj[j%2], &sink)
					in.sink, in.returned, in.calls = sink.String(), true, subj[j%2].b.n
					*s.b = at
				})
				if !in.like(inner[j]) {
					w.Fail("inside it gives %+v, outside %+v", in, inner[j])
				}
				if !o.like(normal) {
					w.Fail("gives %+v, without it %+v", o, normal)
				}
				if m := s.intact(); m != "" {
					w.Fail("%s", m)
				}
			}
		}
	})
}
