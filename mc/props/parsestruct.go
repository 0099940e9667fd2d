package props

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing/iotest"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

// ownSchema is a schema a user makes for ParseStruct.
func ownSchema(t reflect.Type, made map[reflect.Type]*value.Schema) *value.Schema {
	if s := made[t]; s != nil {
		return s
	}
	s := &value.Schema{Fields: map[int]*value.Field{}}
	made[t] = s
	for _, f := range modelFields(t) {
		et := f.typ
		if f.multi() {
			et = et.Elem()
		}
		x := &value.Field{FieldNum: f.num, FieldType: f.typ, FieldName: t.Field(f.num).Name, Array: f.multi(), Struct: isStructPtr(et), Repeated: f.repeated, Tag: f.tag}
		if x.Struct {
			x.FieldSchema = ownSchema(et.Elem(), made)
		}
		s.Fields[f.tag] = x
		s.SortedFields = append(s.SortedFields, x)
	}
	return s
}

// parseStructs explores ParseStruct: through readers, foreign unpackers and
// parsers, several structs in one stream, failing calls, targets not settable.
func parseStructs(c *kit.Ctx) {
	zoo := structZoo()
	through := func(w *kit.W, t reflect.Type, s *value.Schema, b []byte, what func() string) {
		w.NewState()
		text, used, st := modelUnpack(t, b)
		for k, in := range []struct {
			name string
			u    value.Unpacker
			p    value.Parser
			left func() int
		}{
			{"a reader byte by byte", value.MessageReader(iotest.OneByteReader(bytes.NewReader(b))), value.MessageParser(), nil},
			{"a reader of the last bytes together with EOF", value.MessageReader(iotest.DataErrReader(bytes.NewReader(b))), value.MessageParser(), nil},
			{"a foreign unpacker", &refUnpacker{b: b}, value.MessageParser(), nil},
			{"a foreign unpacker and a foreign parser", &refUnpacker{b: b}, &refParser{}, nil},
			{"hidden unpacker and parser", plainUnpacker{value.MessageUnpacker(b, true)}, plainParser{value.MessageParser()}, nil},
		} {
			w.Step(func() string {
				return fmt.Sprintf("%s: ParseStruct of %s through %s into %v", what(), hexs(b), in.name, t)
			})
			w.Trace()
			x := reflect.New(t)
			err := value.ParseStruct(in.u, in.p, x.Elem(), s)
			switch {
			case st == bad && err == nil:
				w.Fail("succeeds with %s", dump(x.Elem()))
			case st == good && err != nil:
				w.Fail("fails: %v, the bytes say %s", err, text)
			case st == good && dump(x.Elem()) != text:
				w.Fail("gives %s, the bytes say %s", dump(x.Elem()), text)
			}
			if u, ok := in.u.(*refUnpacker); ok && st == good && u.at != used {
				w.Fail("takes %d bytes, the struct has %d", u.at, used)
			}
			_ = k
		}
	}
	c.Par("parse-struct", len(zoo)*3, func(w *kit.W, i int) {
		t := zoo[i/3]
		s := ownSchema(t, map[reflect.Type]*value.Schema{})
		p := populated(t, 1)[i%3]
		b := modelPack(p.Elem())
		through(w, t, s, b, func() string { return "unchanged" })
		if len(b) < c.Pick(60, 400) {
			mutants(b, false, func(m []byte, what func() string) { through(w, t, s, m, what) })
		}
		if _, _, st := modelUnpack(t, b); st != good {
			return
		}
		// every call of the parser and every read of the unpacker failing
		rp := &refParser{}
		if err := value.ParseStruct(&refUnpacker{b: b}, rp, reflect.New(t).Elem(), s); err != nil {
			w.Fail("fails: %v", err)
		}
		for n := 1; n <= rp.calls; n++ {
			w.NewState()
			w.Step(func() string {
				return fmt.Sprintf("ParseStruct of %s into %v with call %d of the parser failing", hexs(b), t, n)
			})
			w.Trace()
			err := value.ParseStruct(&refUnpacker{b: b}, &refParser{fail: n, with: errForeign}, reflect.New(t).Elem(), s)
			if err == nil || !strings.Contains(err.Error(), "foreign error") {
				w.Fail("error %v", err)
			}
		}
		for n := 1; ; n++ {
			u := &refUnpacker{b: b, fail: n, err: errForeign}
			err := value.ParseStruct(u, value.MessageParser(), reflect.New(t).Elem(), s)
			if u.fail > 0 {
				break
			}
			w.NewState()
			w.Step(func() string {
				return fmt.Sprintf("ParseStruct of %s into %v with read %d of the unpacker failing", hexs(b), t, n)
			})
			w.Trace()
			if err == nil || !strings.Contains(err.Error(), "foreign error") {
				w.Fail("error %v", err)
			}
		}
		// a struct that can not be set
		w.NewState()
		w.Step(func() string { return fmt.Sprintf("ParseStruct of %s into an unaddressable %v", hexs(b), t) })
		w.Trace()
		err := value.ParseStruct(value.MessageUnpacker(b, true), value.MessageParser(), reflect.Zero(t), s)
		if n, _, _ := mapHeader(b); n > 0 && err == nil {
			w.Fail("succeeds")
		}
	})
	// structs one after the other in a stream, values in between
	var types []reflect.Type
	for i := 0; i < len(zoo); i += c.Pick(5, 1) {
		types = append(types, zoo[i])
	}
	c.Par("structs-in-streams", len(types)*len(types), func(w *kit.W, i int) {
		made := map[reflect.Type]*value.Schema{}
		ts := []reflect.Type{types[i/len(types)], types[i%len(types)], types[i/len(types)]}
		var b []byte
		var texts []string
		for k, t := range ts {
			e := modelPack(populated(t, 1)[(i+k)%3].Elem())
			text, _, st := modelUnpack(t, e)
			if st != good {
				return
			}
			texts = append(texts, text)
			b = append(append(b, e...), ref.VUtf8("between").Encode()...)
		}
		for _, in := range []struct {
			name string
			u    value.Unpacker
		}{
			{"MessageReader byte by byte", value.MessageReader(iotest.OneByteReader(bytes.NewReader(b)))},
			{"MessageReader", value.MessageReader(bytes.NewReader(b))},
			{"MessageUnpacker", value.MessageUnpacker(b, false)},
			{"MessageUnpacker copying", value.MessageUnpacker(b, true)},
		} {
			w.NewState()
			var xs []reflect.Value
			p := value.MessageParser()
			for k, t := range ts {
				w.Step(func() string { return fmt.Sprintf("struct %d of the types %v in a stream through %s", k, ts, in.name) })
				w.Trace()
				x := reflect.New(t)
				xs = append(xs, x)
				if err := value.ParseStruct(in.u, p, x.Elem(), ownSchema(t, made)); err != nil {
					w.Fail("error %v", err)
				}
				y, err := value.Parse(in.u, p)
				if err != nil || y == nil || y.String() != "between" {
					w.Fail("the value behind it is %v, error %v", y, err)
				}
			}
			for k, x := range xs {
				if d := dump(x.Elem()); d != texts[k] {
					w.Fail("struct %d is %s in the end, the bytes say %s", k, d, texts[k])
				}
			}
			if err := value.ParseStruct(in.u, p, reflect.New(ts[0]).Elem(), ownSchema(ts[0], made)); err == nil {
				w.Fail("a struct is read at the end")
			}
			if _, err := value.Parse(in.u, p); err != io.EOF {
				w.Fail("error %v at the end", err)
			}
		}
	})
}
