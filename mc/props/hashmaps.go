package props

import (
	"bytes"
	"fmt"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
)

// fromHashMaps: maps of every size made of Go maps, again and again, because Go delivers their keys in another
// order each time.
func fromHashMaps(c *kit.Ctx) {
	var sizes []int
	for n := 0; n <= c.Pick(40, 140); n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 256, 1000)
	reps := c.Pick(40, 200)
	c.Bound("hash_maps", fmt.Sprintf("sizes 0 to %d, 256, 1000, five families of keys, each %d times", sizes[len(sizes)-3], reps))
	c.Assume("the orders in which Go iterates over a map are not under control: each hash map is converted many times")
	c.Par("hash-maps", len(sizes), func(w *kit.W, si int) {
		n := sizes[si]
		for name, ks := range keyFamilies(n) {
			v := &ref.V{K: ref.Map}
			h := map[string]value.Value{}
			for _, k := range ks {
				if len(v.SK) > 0 && v.SK[len(v.SK)-1] == k {
					continue
				}
				e := ref.VLong(int64(len(v.L)))
				v.SK, v.L = append(v.SK, k), append(v.L, e)
				h[k] = ref.Build(e, 0)
			}
			enc := v.Encode()
			r := reps
			if n > 200 {
				r = 5
			}
			for k := 0; k < r; k++ {
				for i, x := range []value.Map{value.ImmutableMapOf(h), value.SortedMapOf(h)} {
					w.NewState()
					w.Trace()
					w.Step(func() string {
						return fmt.Sprintf("%s of %d keys: %s", []string{"ImmutableMapOf", "SortedMapOf"}[i], len(v.SK), name)
					})
					b, err := value.Pack(x)
					if err != nil || !bytes.Equal(b, enc) {
						w.Fail("bytes %s (%v), expected %s", hexs(b), err, hexs(enc))
					}
					if k == 0 {
						if m := CheckViews(x, v); m != "" {
							w.Fail("%s", short(m))
						}
					}
				}
			}
		}
	})
}
