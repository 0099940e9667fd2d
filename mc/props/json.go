package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

func init() { All["C18"] = C18 }

// jnode is parsed JSON with the order and the repetitions of keys.
type jnode struct {
	kind byte // n null, t true, f false, # number, s string, [ array, { object
	text string
	keys []string
	kids []*jnode
}

func parseJSON(text string) (*jnode, error) {
	if !json.Valid([]byte(text)) {
		return nil, fmt.Errorf("not valid JSON")
	}
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var node func() (*jnode, error)
	node = func() (*jnode, error) {
		t, err := d.Token()
		if err != nil {
			return nil, err
		}
		switch x := t.(type) {
		case nil:
			return &jnode{kind: 'n'}, nil
		case bool:
			if x {
				return &jnode{kind: 't'}, nil
			}
			return &jnode{kind: 'f'}, nil
		case json.Number:
			return &jnode{kind: '#', text: x.String()}, nil
		case string:
			return &jnode{kind: 's', text: x}, nil
		case json.Delim:
			n := &jnode{kind: byte(x)}
			for d.More() {
				if x == '{' {
					k, err := d.Token()
					if err != nil {
						return nil, err
					}
					n.keys = append(n.keys, k.(string))
				}
				e, err := node()
				if err != nil {
					return nil, err
				}
				n.kids = append(n.kids, e)
			}
			_, err := d.Token()
			return n, err
		}
		return nil, fmt.Errorf("unknown token %v", t)
	}
	n, err := node()
	if err != nil {
		return nil, err
	}
	return n, nil
}

// sameText compares text with its JSON form; invalid UTF-8 may be replaced byte by byte or in runs.
func sameText(got, want string) bool {
	if utf8.ValidString(want) {
		return got == want
	}
	squash := func(s string) string {
		var b strings.Builder
		last := rune(0)
		for _, r := range s {
			if r == utf8.RuneError && last == r {
				continue
			}
			b.WriteRune(r)
			last = r
		}
		return b.String()
	}
	return squash(got) == squash(want)
}

// sameJSON compares parsed JSON with a value; it returns "" or what differs.
func sameJSON(j *jnode, v *ref.V) string {
	bad := func() string { return fmt.Sprintf("JSON %c %q does not match %s", j.kind, j.text, v.Short()) }
	want := func(ok bool) string {
		if !ok {
			return bad()
		}
		return ""
	}
	switch v.K {
	case ref.Nil, ref.Null:
		return want(j.kind == 'n')
	case ref.Bool:
		return want(j.kind == 't' && v.B || j.kind == 'f' && !v.B)
	case ref.Long:
		n, ok := new(big.Rat).SetString(j.text)
		return want(j.kind == '#' && ok && n.Cmp(v.Rat()) == 0)
	case ref.Double:
		if !v.Finite() {
			return want(j.kind == 'n')
		}
		f, err := strconv.ParseFloat(j.text, 64)
		return want(j.kind == '#' && err == nil && f == v.Float() && math.Signbit(f) == math.Signbit(v.Float()))
	case ref.Big, ref.Dec, ref.Raw, ref.Ext:
		return want(j.kind == 's' && j.text == v.Text())
	case ref.Utf8:
		return want(j.kind == 's' && sameText(j.text, v.S))
	case ref.List:
		if j.kind != '[' || len(j.kids) != len(v.L) {
			return bad()
		}
	case ref.Map, ref.Sparse:
		if j.kind != '{' || len(j.kids) != len(v.L) {
			return bad()
		}
		for i, k := range j.keys {
			w := ""
			if v.K == ref.Map {
				w = v.SK[i]
			} else {
				w = strconv.Itoa(v.IK[i])
			}
			if !sameText(k, w) {
				return fmt.Sprintf("key %d is %q, expected %q", i, k, w)
			}
		}
	}
	for i, e := range v.L {
		if m := sameJSON(j.kids[i], e); m != "" {
			return m
		}
	}
	return ""
}

type printer struct {
	name string
	run  func(x value.Value) (string, error)
	sub  func(j *jnode) *jnode // where the value is in the parsed JSON
}

func wholeDoc(j *jnode) *jnode { return j }

var printers = []printer{
	{"Jsonify", func(x value.Value) (string, error) { return value.Jsonify(x), nil }, wholeDoc},
	{"PrintJSON", func(x value.Value) (string, error) {
		var b strings.Builder
		b.WriteString("[0,")
		if x == nil {
			b.WriteString("null")
		} else {
			x.PrintJSON(&b)
		}
		b.WriteString("]")
		return b.String(), nil
	}, func(j *jnode) *jnode { return j.kids[1] }},
	{"MarshalJSON", func(x value.Value) (string, error) {
		if x == nil {
			return "null", nil
		}
		b, err := x.MarshalJSON()
		return string(b), err
	}, wholeDoc},
	{"json.Marshal", func(x value.Value) (string, error) {
		b, err := json.Marshal(x)
		return string(b), err
	}, wholeDoc},
	{"json.Marshal in a document", func(x value.Value) (string, error) {
		b, err := json.Marshal(map[string]interface{}{"a": []value.Value{x, value.Long(1)}})
		return string(b), err
	}, func(j *jnode) *jnode { return j.kids[0].kids[0] }},
	{"json.MarshalIndent", func(x value.Value) (string, error) {
		b, err := json.MarshalIndent(struct{ F value.Value }{x}, " ", "\t")
		return string(b), err
	}, func(j *jnode) *jnode { return j.kids[0] }},
	{"json.Encoder", func(x value.Value) (string, error) {
		var b bytes.Buffer
		e := json.NewEncoder(&b)
		e.SetEscapeHTML(false)
		err := e.Encode(x)
		return b.String(), err
	}, wholeDoc},
	{"fmt of a container", func(x value.Value) (string, error) {
		if x != nil && (x.Kind() == value.LIST || x.Kind() == value.MAP) {
			return fmt.Sprint(x), nil
		}
		return value.Jsonify(x), nil
	}, wholeDoc},
}

// C18: every value of the codec families, texts of every character, through every way to print JSON.
func C18(c *kit.Ctx) {
	check := func(w *kit.W, v *ref.V, f int, x value.Value, ps []printer) {
		for _, p := range ps {
			w.Step(func() string { return fmt.Sprintf("%s of the %s value %s", p.name, ref.FlavourName(f), v.Short()) })
			text, err := p.run(x)
			w.Trace()
			if err != nil {
				w.Fail("fails: %v", err)
			}
			j, err := parseJSON(text)
			if err != nil {
				w.Fail("%v: %.300q", err, text)
			}
			if m := sameJSON(p.sub(j), v); m != "" {
				w.Fail("%s in %.300q", m, text)
			}
		}
	}
	for _, fam := range families(c) {
		fs := fam
		c.Par("values/"+fs.name, len(fs.vs), func(w *kit.W, i int) {
			v := fs.vs[i]
			depth := 0
			for x := v; len(x.L) > 0; x = x.L[0] {
				depth++
			}
			if depth > 9000 {
				return // encoding/json refuses to embed deeper values
			}
			ps := printers
			if depth > 900 || v.Nodes() > 5000 {
				ps = printers[:2]
			}
			w.NewState()
			for f := 0; f < ref.NFlavours; f++ {
				if !v.IsContainer() && f > 0 || f > 0 && v.Nodes() > 5000 {
					break
				}
				if f == ref.FDecoded && v.HasEmptySparse() {
					continue
				}
				x := ref.Build(v, f)
				check(w, ref.Observe(x), f, x, ps)
			}
		})
	}
	// one special character in a long text
	lens := []int{31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 511, 512, 1023, 1024, 1025, 2048, 3000, 4096, 5000, c.Pick(10000, 70000)}
	odd := []string{"\"", "\\", "\n", "\x00", "\x1f", "\x7f", "é", "\u2028", "\u2029", "\ufffd", "\U0001F600", "<", "\xff", "\xc3", "\xed\xa0\x80", "\\\"", "\u0080"}
	c.Bound("long_texts", fmt.Sprintf("lengths %v, one of %d special characters at 8 places or more, as text and as key", lens, len(odd)))
	c.Par("long-texts", len(lens)*len(odd), func(w *kit.W, ci int) {
		n, ch := lens[len(lens)-1-ci/len(odd)], odd[ci%len(odd)]
		places := []int{0, 1, 7, n / 2, n - 17, n - 2, n - 1, n}
		for k := 16; k < n; k *= 2 {
			places = append(places, k-1, k)
		}
		for _, p := range uniq(places) {
			s := strings.Repeat("a", p) + ch + strings.Repeat("b", n-p)
			w.NewState()
			t := ref.VUtf8(s)
			check(w, t, 0, value.Utf8(s), []printer{printers[0], printers[2], printers[4]})
			m := ref.VMap([]string{s}, []*ref.V{ref.VTrue})
			check(w, m, p%2, ref.Build(m, p%2), printers[:1])
		}
	})
	// every string over an alphabet of characters JSON treats specially, as text, key and in nested places
	chars := []string{"\"", "\\", "/", "\n", "\x00", "\x1f", "\x7f", "a", "é", "\u2028", "\u2029", "\ufffd", "\U0001F600", "<", "&", "'", "\xff", "\xc3", "\xed\xa0\x80", "\ufeff", "\\u0041", "\\\"", " ", "\u0080", "{", "["}
	max := c.Pick(3, 4)
	c.Bound("texts", fmt.Sprintf("all strings of up to %d of %d special characters, as text and as key", max, len(chars)))
	c.Par("texts", len(chars)*len(chars)+1, func(w *kit.W, i int) {
		one := func(s string) {
			w.NewState()
			t := ref.VUtf8(s)
			x := value.Utf8(s)
			check(w, t, 0, x, printers[:7])
			m := ref.VMap([]string{s}, []*ref.V{ref.VList(t)})
			y := ref.Build(m, len(s)%2)
			check(w, m, len(s)%2, y, []printer{printers[0], printers[2], printers[4]})
		}
		if i == len(chars)*len(chars) {
			one("")
			for _, ch := range chars {
				one(ch)
			}
			return
		}
		var rec func(s string, left int)
		rec = func(s string, left int) {
			one(s)
			if left > 0 {
				for _, ch := range chars {
					rec(s+ch, left-1)
				}
			}
		}
		rec(chars[i/len(chars)]+chars[i%len(chars)], max-2)
	})
	// every code point, and every pair of bytes
	c.Bound("code_points", "all (quick: planes 0, 1 and 16), as text and as key; all byte strings of up to 2 bytes")
	c.Par("code-points", 0x1100, func(w *kit.W, i int) {
		if !c.Thorough() && i >= 0x200 && i < 0x1000 {
			return
		}
		var m ref.V
		m.K = ref.Map
		for r := rune(i * 256); r < rune(i*256+256); r++ {
			if r >= 0xd800 && r < 0xe000 {
				continue
			}
			w.NewState()
			s := string(r)
			check(w, ref.VUtf8(s), 0, value.Utf8(s), printers[:1])
			m.SK = append(m.SK, s)
			m.L = append(m.L, ref.VUtf8("x"+s+"y"))
		}
		if len(m.L) > 0 {
			for f := 0; f < 2; f++ {
				x := ref.Build(&m, f)
				check(w, &m, f, x, printers)
			}
		}
	})
	c.Par("bytes", 256, func(w *kit.W, i int) {
		for k := 0; k < 256; k++ {
			s := string([]byte{byte(i), byte(k)})
			w.NewState()
			check(w, ref.VUtf8(s), 0, value.Utf8(s), printers[:4])
			m := ref.VMap([]string{s}, []*ref.V{ref.VRaw(s)})
			check(w, m, k%2, ref.Build(m, k%2), printers[:4])
		}
	})
	// texts around buffer sizes
	c.Par("long-texts", 70, func(w *kit.W, i int) {
		for _, base := range []int{0, 64, 128, 512, 1024, 4096, 8192} {
			n := base + i - 35
			if n < 0 {
				continue
			}
			s := strings.Repeat("a", n) + "\"é\n"
			w.NewState()
			check(w, ref.VUtf8(s), 0, value.Utf8(s), printers[:4])
			r := ref.VRaw(s)
			check(w, r, 0, ref.Scalar(r), printers[:4])
		}
	})
	// doubles and longs on all boundaries
	c.Par("double-exponents", 2098+640, func(w *kit.W, i int) {
		f := math.Ldexp(1, i-1074)
		if i >= 2098 {
			f, _ = strconv.ParseFloat(fmt.Sprintf("1e%d", i-2098-325), 64)
		}
		for d := -1; d <= 1; d++ {
			for _, sg := range []uint64{0, 1 << 63} {
				v := ref.VDoubleBits((math.Float64bits(f)+uint64(int64(d)))&^(1<<63) | sg)
				if d == 0 || v.Finite() {
					w.NewState()
					check(w, v, 0, ref.Scalar(v), printers[:4])
				}
			}
		}
	})
}
