package props

import (
	"bytes"
	"crypto/rand"
	"errors"
	"fmt"
	"io"

	"github.com/codeallergy/value"
	"golang.org/x/crypto/nacl/box"
	"verif/mc/kit"
	"verif/mc/ref"
)

func init() { All["C21"] = C21 }

type keyPair struct{ pub, priv *[32]byte }

// keyReader is a deterministic source for keys, so that a replay uses the same ones.
type keyReader struct{ n byte }

func (r *keyReader) Read(b []byte) (int, error) {
	for i := range b {
		r.n = r.n*5 + 17
		b[i] = r.n ^ byte(i)
	}
	return len(b), nil
}

func makeKeys(seed byte) keyPair {
	pub, priv, err := box.GenerateKey(&keyReader{seed})
	if err != nil {
		panic(err)
	}
	return keyPair{pub, priv}
}

func shared(pub, priv *[32]byte) (k [32]byte) {
	box.Precompute(&k, pub, priv)
	return
}

// dribble delivers random bytes one at a time.
type dribble struct{ r io.Reader }

func (d dribble) Read(b []byte) (int, error) {
	if len(b) > 1 {
		b = b[:1]
	}
	return d.r.Read(b)
}

// C21: every alteration of sealed values and of keys.
func C21(c *kit.Ctx) {
	alice, bob, eve := makeKeys(1), makeKeys(2), makeKeys(3)
	seal := func(w *kit.W, x value.Value) []byte {
		b, err := value.Seal(x, bob.pub, alice.priv)
		if err != nil {
			w.Fail("sealing fails: %v", err)
		}
		return b
	}
	opens := func(w *kit.W, b []byte, v *ref.V) {
		x, err := value.Unseal(b, alice.pub, bob.priv)
		w.Trace()
		if err != nil {
			w.Fail("the sealed value does not open: %v", err)
		}
		if g := ref.Observe(x); !ref.Same(g, v.Norm()) {
			w.Fail("opens to %s", g.Short())
		}
	}
	refuses := func(w *kit.W, b []byte, pub, priv *[32]byte) {
		in := append([]byte(nil), b...)
		x, err := value.Unseal(b, pub, priv)
		w.Trace()
		if err == nil || x != nil {
			w.Fail("opens to %s with error %v", ref.Observe(x).Short(), err)
		}
		if !bytes.Equal(in, b) {
			w.Fail("unsealing changed the input")
		}
	}
	relatedKeys(c, bob, alice)
	// round trips of every kind of value
	var vs []*ref.V
	for _, v := range append(append(append(ref.Scalars(300), ref.Trees(2, ref.SmallLeaves(), true)...), ref.SpecialKeyMaps()[:200]...), ref.Nested(16)...) {
		if !v.HasEmptySparse() {
			vs = append(vs, v)
		}
	}
	for _, n := range []int{65536, 70000, 1 << 20} {
		vs = append(vs, ref.VRaw(string(make([]byte, n))))
	}
	if c.Thorough() {
		for _, v := range ref.Trees(3, ref.SmallLeaves(), true) {
			if !v.HasEmptySparse() {
				vs = append(vs, v)
			}
		}
	}
	c.Bound("values", len(vs))
	c.Par("round-trips", len(vs), func(w *kit.W, i int) {
		v := vs[i]
		w.NewState()
		w.Step(func() string { return "sealing " + v.Short() })
		x := ref.Build(v, i%3)
		a, b := seal(w, x), seal(w, x)
		if bytes.Equal(a, b) || bytes.Equal(a[:24], b[:24]) {
			w.Fail("two sealed copies are the same or share their nonce")
		}
		if len(v.S) > 8 && bytes.Contains(a, []byte(v.S)) {
			w.Fail("the sealed value contains the plain text")
		}
		opens(w, a, v)
		opens(w, b, v)
		opens(w, a, v) // again
		if !ref.Same(ref.Observe(x), v) {
			w.Fail("sealing changed the value to %s", ref.Observe(x).Short())
		}
		// wrong keys and roles, then the right ones again
		for _, k := range [][2]*[32]byte{{eve.pub, bob.priv}, {alice.pub, eve.priv}, {alice.pub, alice.priv}, {bob.pub, bob.priv}, {bob.pub, eve.priv}, {eve.pub, eve.priv}} {
			refuses(w, a, k[0], k[1])
		}
		opens(w, a, v)
	})
	// every single alteration of small sealed values
	small := []*ref.V{ref.VNil, ref.VNull, ref.VTrue, ref.VLong(5), ref.VUtf8("some text"), ref.VList(), ref.VMap([]string{"a"}, []*ref.V{ref.VLong(1)}), ref.VRaw("\x00\x00\x00"), ref.VList(ref.VLong(1), ref.VUtf8("xyz"), ref.VNil)}
	type alt struct {
		v   *ref.V
		pos int
	}
	var alts []alt
	for _, v := range small {
		for p := 0; p < 24+16+len(v.Encode()); p++ {
			alts = append(alts, alt{v, p})
		}
	}
	c.Bound("single_byte_alterations", "every other value of every byte of every sealed value of the small set (quick: every bit flip everywhere, every value at every fourth position)")
	c.Par("alterations", len(alts), func(w *kit.W, i int) {
		a := alts[i]
		s := seal(w, ref.Build(a.v, 0))
		if len(s) != 40+len(a.v.Encode()) {
			w.C.Assume(fmt.Sprintf("sealed values have %d bytes of overhead", len(s)-len(a.v.Encode())))
		}
		if a.pos >= len(s) {
			return
		}
		for x := 1; x < 256; x++ {
			if !c.Thorough() && bitsOf(byte(x)) > 1 && a.pos%4 != 0 {
				continue
			}
			w.NewState()
			w.Step(func() string { return fmt.Sprintf("sealed %s with byte %d xor %02x", a.v.Short(), a.pos, x) })
			m := append([]byte(nil), s...)
			m[a.pos] ^= byte(x)
			refuses(w, m, alice.pub, bob.priv)
		}
		w.Step(func() string { return "the intact sealed " + a.v.Short() })
		opens(w, s, a.v)
	})
	c.Par("cuts-and-extensions", len(small), func(w *kit.W, i int) {
		s := seal(w, ref.Build(small[i], 0))
		no := func(what string, m []byte) {
			w.NewState()
			w.Step(func() string { return fmt.Sprintf("sealed %s, %s", small[i].Short(), what) })
			refuses(w, m, alice.pub, bob.priv)
		}
		for n := 0; n < len(s); n++ {
			no(fmt.Sprintf("cut to %d bytes", n), append([]byte(nil), s[:n]...))
			no(fmt.Sprintf("cut to %d bytes of a longer buffer", n), s[:n])
			no(fmt.Sprintf("without the first %d bytes", n+1), s[n+1:])
			no(fmt.Sprintf("without byte %d", n), append(append([]byte(nil), s[:n]...), s[n+1:]...))
			no(fmt.Sprintf("with byte %d doubled", n), append(append([]byte(nil), s[:n+1]...), s[n:]...))
			z := append([]byte(nil), s...)
			for k := n; k < len(z); k++ {
				z[k] = 0
			}
			if !bytes.Equal(z, s) {
				no(fmt.Sprintf("zeroed from byte %d on", n), z)
			}
			for k := n + 1; k < len(s); k++ {
				if s[k] != s[n] {
					z := append([]byte(nil), s...)
					z[k], z[n] = z[n], z[k]
					no(fmt.Sprintf("with bytes %d and %d exchanged", n, k), z)
				}
			}
		}
		for x := 0; x < 256; x++ {
			no(fmt.Sprintf("followed by %02x", x), append(append([]byte(nil), s...), byte(x)))
			no(fmt.Sprintf("preceded by %02x", x), append([]byte{byte(x)}, s...))
		}
		for k := 2; k <= 70; k++ {
			no(fmt.Sprintf("followed by %d zeros", k), append(append([]byte(nil), s...), make([]byte, k)...))
		}
		no("twice", append(append([]byte(nil), s...), s...))
		other := seal(w, ref.Build(small[(i+1)%len(small)], 0))
		no("with the nonce of another", append(append([]byte(nil), other[:24]...), s[24:]...))
		again := seal(w, ref.Build(small[i], 0))
		no("with the nonce of another of the same value", append(append([]byte(nil), again[:24]...), s[24:]...))
		no("with the tag of another of the same value", append(append(append([]byte(nil), s[:24]...), again[24:40]...), s[40:]...))
		w.Step(func() string { return "the intact sealed " + small[i].Short() })
		opens(w, s, small[i])
	})
	// alterations of longer sealed values
	lens := []int{100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 100000}
	step := c.Pick(5, 1)
	for n := 1; n < c.Pick(100, 700); n += step {
		lens = append(lens, n)
	}
	c.Bound("longer_altered_lengths", lens)
	c.Par("alterations-by-length", len(lens), func(w *kit.W, i int) {
		n := lens[i]
		p := make([]byte, n)
		for k := range p {
			p[k] = byte(k*7 + k>>8)
		}
		v := ref.VRaw(string(p))
		s := seal(w, ref.Build(v, 0))
		buf := make([]byte, 0, len(s)+200)
		no := func(what string, x, y, z []byte) {
			w.NewState()
			w.Step(func() string { return fmt.Sprintf("sealed blob of %d bytes, %s", n, what) })
			refuses(w, append(append(append(buf[:0], x...), y...), z...), alice.pub, bob.priv)
		}
		zeros, ones := make([]byte, 80), bytes.Repeat([]byte{255}, 80)
		for k := 1; k <= 80; k++ {
			no(fmt.Sprintf("followed by %d zeros", k), s, zeros[:k], nil)
			no(fmt.Sprintf("followed by %d bytes ff", k), s, ones[:k], nil)
			no(fmt.Sprintf("preceded by %d zeros", k), zeros[:k], s, nil)
			no(fmt.Sprintf("with %d zeros behind the nonce", k), s[:24], zeros[:k], s[24:])
			if k <= len(s) {
				no(fmt.Sprintf("followed by its last %d bytes", k), s, s[len(s)-k:], nil)
				no(fmt.Sprintf("followed by its first %d bytes", k), s, s[:k], nil)
				no(fmt.Sprintf("without the last %d bytes", k), s[:len(s)-k], nil, nil)
				no(fmt.Sprintf("without the first %d bytes", k), s[k:], nil, nil)
			}
			if k+40 <= len(s) {
				no(fmt.Sprintf("without %d bytes behind the tag", k), s[:40], s[40+k:], nil)
			}
		}
		// cuts and flipped bits at the places where blocks could end
		seen := map[int]bool{}
		at := func(pos int) {
			if pos < 0 || pos >= len(s) || seen[pos] {
				return
			}
			seen[pos] = true
			m := append([]byte(nil), s...)
			m[pos] ^= 1 << (pos % 8)
			no(fmt.Sprintf("with a flipped bit of byte %d", pos), m, nil, nil)
			no(fmt.Sprintf("cut to %d bytes", pos), s[:pos], nil, nil)
		}
		for _, b := range []int{0, 16, 24, 40} {
			for k := b; k < len(s); k = k*2 + 1 {
				at(k)
				at(b + k - 1)
			}
			for k := 16; k < len(s); k *= 2 {
				at(b + k - 1)
				at(b + k)
				at(b + k + 1)
			}
		}
		for k := 1; k < 40; k++ {
			at(len(s) - k)
		}
		w.Step(func() string { return fmt.Sprintf("the intact sealed blob of %d bytes", n) })
		opens(w, s, v)
	})
	c.Par("short-inputs", 120, func(w *kit.W, n int) {
		for _, x := range []int{0, 1, 0x7f, 0xff, -1} {
			b := make([]byte, n)
			for k := range b {
				b[k] = byte(x)
				if x < 0 {
					b[k] = byte(k)
				}
			}
			w.NewState()
			w.Step(func() string { return fmt.Sprintf("unsealing %x", b) })
			refuses(w, b, alice.pub, bob.priv)
		}
		if n == 0 {
			refuses(w, nil, alice.pub, bob.priv)
		}
	})
	// every bit of every key
	c.Bound("key_alterations", "every bit flip and every byte zeroed of both keys, all zero and all one keys")
	c.Par("key-bits", 256, func(w *kit.W, bit int) {
		v := small[5]
		s := seal(w, ref.Build(v, 0))
		right := shared(alice.pub, bob.priv)
		try := func(what string, pub, priv *[32]byte) {
			w.NewState()
			w.Step(func() string { return what })
			p0, s0 := *pub, *priv
			if shared(pub, priv) == right { // bits without meaning in this curve
				opens2, err := value.Unseal(s, pub, priv)
				w.Trace()
				if err != nil || !ref.Same(ref.Observe(opens2), v) {
					w.Fail("an equivalent key does not open: %v", err)
				}
			} else {
				refuses(w, s, pub, priv)
			}
			if *pub != p0 || *priv != s0 {
				w.Fail("the keys were changed")
			}
		}
		pub, priv := *alice.pub, *bob.priv
		pub[bit/8] ^= 1 << (bit % 8)
		priv[bit/8] ^= 1 << (bit % 8)
		try(fmt.Sprintf("public key with bit %d flipped", bit), &pub, bob.priv)
		try(fmt.Sprintf("private key with bit %d flipped", bit), alice.pub, &priv)
		try(fmt.Sprintf("both keys with bit %d flipped", bit), &pub, &priv)
		if bit < 32 {
			pub, priv = *alice.pub, *bob.priv
			pub[bit], priv[bit] = 0, 0
			try(fmt.Sprintf("public key with byte %d zeroed", bit), &pub, bob.priv)
			try(fmt.Sprintf("private key with byte %d zeroed", bit), alice.pub, &priv)
			k := makeKeys(byte(40 + bit))
			try("another public key", k.pub, bob.priv)
			try("another private key", alice.pub, k.priv)
		}
		var zero, ones [32]byte
		for k := range ones {
			ones[k] = 255
		}
		if bit == 0 {
			for _, k := range []*[32]byte{&zero, &ones} {
				try("constant public key", k, bob.priv)
				try("constant private key", alice.pub, k)
				try("constant keys", k, k)
			}
		}
	})
	// every key in every role
	c.Par("keys-in-roles", len(small), func(w *kit.W, i int) {
		keys := []*[32]byte{alice.pub, alice.priv, bob.pub, bob.priv, eve.pub, eve.priv}
		names := []string{"alice's public key", "alice's private key", "bob's public key", "bob's private key", "eve's public key", "eve's private key"}
		right := shared(alice.pub, bob.priv)
		for from := 0; from < 2; from++ {
			s := seal(w, ref.Build(small[i], 0))
			if from == 1 { // the other way
				b, err := value.Seal(ref.Build(small[i], 0), alice.pub, bob.priv)
				if err != nil {
					w.Fail("sealing fails: %v", err)
				}
				s = b
			}
			for p := range keys {
				for q := range keys {
					w.NewState()
					w.Step(func() string {
						return fmt.Sprintf("sealed %s opened with %s as the sender's public key, %s as the recipient's private key", small[i].Short(), names[p], names[q])
					})
					if shared(keys[p], keys[q]) != right {
						refuses(w, s, keys[p], keys[q])
						continue
					}
					x, err := value.Unseal(s, keys[p], keys[q])
					w.Trace()
					if err != nil || !ref.Same(ref.Observe(x), small[i].Norm()) {
						w.Fail("the keys of the two do not open it: %v", err)
					}
				}
			}
		}
	})
	// many sealings of one value
	n := c.Pick(2000, 20000)
	c.Bound("repeated_sealings", n)
	var seen kit.Map
	c.Par("repeated-sealings", n/100, func(w *kit.W, i int) {
		for k := 0; k < 100; k++ {
			w.NewState()
			w.Step(func() string { return "sealing null repeatedly" })
			s := seal(w, value.Null)
			w.Trace()
			id := fmt.Sprintf("%d/%d", i, k)
			if o := seen.Claim(string(s[:24]), id); o != id {
				w.Fail("the nonce of sealing %s was used before in %s", id, o)
			}
		}
	})
	// authentic boxes with arbitrary content
	c.Par("authentic-content", 257, func(w *kit.W, i int) {
		one := func(plain []byte) {
			w.NewState()
			w.Step(func() string { return fmt.Sprintf("a box holding %s", hexs(plain)) })
			var nonce [24]byte
			nonce[3] = byte(i)
			s := box.Seal(nonce[:], plain, &nonce, bob.pub, alice.priv)
			x, err := value.Unseal(s, alice.pub, bob.priv)
			w.Trace()
			r := ref.Decode(plain)
			if r.Loose {
				return
			}
			if r.St == ref.OK && (err != nil || !ref.Same(ref.Observe(x), r.V)) && r.N == len(plain) {
				w.Fail("gives %s %v", ref.Observe(x).Short(), err)
			}
			if r.St != ref.OK && err == nil {
				w.Fail("gives %s", ref.Observe(x).Short())
			}
		}
		if i == 256 {
			one(nil)
			for _, v := range small {
				b := v.Encode()
				for n := 0; n <= len(b); n++ {
					one(b[:n])
				}
			}
			return
		}
		one([]byte{byte(i)})
		for _, x := range []byte{0, 1, 0x7f, 0x80, 0x91, 0xa1, 0xc0, 0xc1, 0xff} {
			one([]byte{byte(i), x})
			one([]byte{byte(i), x, x})
		}
	})
	// a source of randomness that delivers its bytes in pieces
	c.Seq("slow-randomness", 1, func(w *kit.W, _ int) {
		old := rand.Reader
		defer func() { rand.Reader = old }()
		rand.Reader = dribble{old}
		w.Step(func() string { return "sealing while random bytes arrive one by one" })
		for k := 0; k < 100; k++ {
			w.NewState()
			s := seal(w, value.Utf8("slow"))
			opens(w, s, ref.VUtf8("slow"))
			for p := 20; p < 24; p++ {
				id := fmt.Sprintf("slow %d", k)
				if o := seen.Claim("slow"+string(s[1:24]), id); o != id {
					w.Fail("two nonces end in the same 23 bytes")
				}
			}
		}
	})
	_ = errors.New
}

// relatedKeys: one pair of keys after another that resembles it; each seals and opens with its own.
func relatedKeys(c *kit.Ctx, to, from keyPair) {
	var forms []func(a, b *[32]byte)
	for i := 0; i < 32; i++ {
		forms = append(forms,
			func(a, b *[32]byte) { a[i]++; b[i]-- },
			func(a, b *[32]byte) { a[i] ^= 0x10; b[i] ^= 0x10 },
			func(a, b *[32]byte) { a[i] ^= 8 },
			func(a, b *[32]byte) { b[i] ^= 8 },
			func(a, b *[32]byte) { a[i], a[31-i] = a[31-i], a[i] },
			func(a, b *[32]byte) { b[i], b[(i+7)%32] = b[(i+7)%32], b[i] },
			func(a, b *[32]byte) { a[i], b[i] = b[i], a[i] })
	}
	forms = append(forms, func(a, b *[32]byte) { *a, *b = *b, *a }, func(a, b *[32]byte) { *a = *b }, func(a, b *[32]byte) { *b = *a },
		func(a, b *[32]byte) {
			for i := 16; i < 32; i++ {
				a[i] = ^a[i]
			}
		},
		func(a, b *[32]byte) {
			for i := 0; i < 16; i++ {
				b[i] = ^b[i]
			}
		})
	c.Bound("related_keys", fmt.Sprintf("%d pairs that resemble another one, used right after it", len(forms)))
	v := value.Utf8("text")
	plain, _ := value.Pack(v)
	c.Par("related-keys", len(forms), func(w *kit.W, i int) {
		p, q := *to.pub, *from.priv
		forms[i](&p, &q)
		w.NewState()
		w.Step(func() string { return fmt.Sprintf("sealing and opening with keys %x and %x after those they are made of", p, q) })
		var k0, k [32]byte
		box.Precompute(&k0, to.pub, from.priv)
		box.Precompute(&k, &p, &q)
		run := func(pub, priv, shared, other *[32]byte, what string) {
			b, err := value.Seal(v, pub, priv)
			if err != nil || len(b) < 24 {
				w.Fail("%s: sealing fails: %v", what, err)
			}
			w.Trace()
			var nonce [24]byte
			copy(nonce[:], b)
			got, ok := box.OpenAfterPrecomputation(nil, b[24:], &nonce, shared)
			if !ok || !bytes.Equal(got, plain) {
				w.Fail("%s: what is sealed is not for these keys", what)
			}
			if x, err := value.Unseal(b, pub, priv); err != nil || !x.Equal(v) {
				w.Fail("%s: does not open: %v", what, err)
			}
			foreign := box.SealAfterPrecomputation(append([]byte(nil), nonce[:]...), plain, &nonce, other)
			if x, err := value.Unseal(foreign, pub, priv); *shared != *other && (err == nil || x != nil) {
				w.Fail("%s: opens what was sealed with other keys", what)
			}
			w.Trace()
		}
		for round := 0; round < 2; round++ {
			run(to.pub, from.priv, &k0, &k, "the first pair")
			run(&p, &q, &k, &k0, "the other pair")
		}
		// the same memory with other keys
		a, b := *to.pub, *from.priv
		run(&a, &b, &k0, &k, "before the memory is reused")
		a, b = p, q
		run(&a, &b, &k, &k0, "the memory is reused")
	})
}
