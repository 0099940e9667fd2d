From 4e45a17572830c0e70c9897d7d0b8097db3a9eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 01/52] fix: write 32-bit array headers with the array32 code

---
 msgpack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index 1af483e..59d2b28 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -434,7 +434,7 @@ func (p messageWriter) WriteArrayHeader(len int) []byte {
 		binary.BigEndian.PutUint16(p.buf[1:3], uint16(len))
 		return p.buf[:3]
 	default:
-		p.buf[0] = mpArray16
+		p.buf[0] = mpArray32
 		binary.BigEndian.PutUint32(p.buf[1:5], uint32(len))
 		return p.buf[:5]
 	}
-- 
2.43.0


From 5afb4dd7aa6e4b09968466ed3eac5d2781ca84a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 02/52] fix: keep write errors in the packer instead of in a
 copy of it

---
 msgpack.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 59d2b28..b8a6404 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -191,31 +191,31 @@ func MessagePacker(w io.Writer) *messagePacker {
 	return &messagePacker{w: w}
 }
 
-func (p messagePacker) PackNil()  {
+func (p *messagePacker) PackNil()  {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteNil())
 	}
 }
 
-func (p messagePacker) PackBool(val bool) {
+func (p *messagePacker) PackBool(val bool) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteBool(val))
 	}
 }
 
-func (p messagePacker) PackLong(val int64) {
+func (p *messagePacker) PackLong(val int64) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteLong(val))
 	}
 }
 
-func (p messagePacker) PackDouble(val float64) {
+func (p *messagePacker) PackDouble(val float64) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteDouble(val))
 	}
 }
 
-func (p messagePacker) PackStr(str string) {
+func (p *messagePacker) PackStr(str string) {
 	b := []byte(str)
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteStrHeader(len(b)))
@@ -225,7 +225,7 @@ func (p messagePacker) PackStr(str string) {
 	}
 }
 
-func (p messagePacker) PackBin(b []byte) {
+func (p *messagePacker) PackBin(b []byte) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteBinHeader(len(b)))
 	}
@@ -243,7 +243,7 @@ func (p *messagePacker) PackExt(xtag Ext, data []byte) {
 	}
 }
 
-func (p messagePacker) PackList(size int) {
+func (p *messagePacker) PackList(size int) {
 	if size < 0 {
 		size = 0
 	}
@@ -252,7 +252,7 @@ func (p messagePacker) PackList(size int) {
 	}
 }
 
-func (p messagePacker) PackMap(size int) {
+func (p *messagePacker) PackMap(size int) {
 	if size < 0 {
 		size = 0
 	}
@@ -261,13 +261,13 @@ func (p messagePacker) PackMap(size int) {
 	}
 }
 
-func (p messagePacker) PackRaw(b []byte) {
+func (p *messagePacker) PackRaw(b []byte) {
 	if p.err == nil {
 		_, p.err = p.w.Write(b)
 	}
 }
 
-func (p messagePacker) Error() error {
+func (p *messagePacker) Error() error {
 	return p.err
 }
 
-- 
2.43.0


From 59dc14764987c261aa9c88193974b183be167e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 03/52] fix: write nil values as nil in Write and WriteStream,
 like Pack does

---
 utils.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 3a0a323..092ba67 100644
--- a/utils.go
+++ b/utils.go
@@ -41,7 +41,11 @@ func Read(r io.Reader) (Value, error) {
 
 func Write(w io.Writer, val Value) error {
 	p := MessagePacker(w)
-	val.Pack(p)
+	if val != nil {
+		val.Pack(p)
+	} else {
+		p.PackNil()
+	}
 	return p.Error()
 }
 
@@ -120,7 +124,11 @@ func WriteStream(w io.Writer, valueC <-chan Value) error {
 			break
 		}
 
-		val.Pack(p)
+		if val != nil {
+			val.Pack(p)
+		} else {
+			p.PackNil()
+		}
 
 	}
 
-- 
2.43.0


From 2eb8a3ac9f65a7ddc4ce20d121af881ec105c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 04/52] fix: accept readers without ReadByte in MessageReader

---
 msgpack.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index b8a6404..ce437fe 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -693,7 +693,8 @@ type messageIOUnpacker struct {
 }
 
 func MessageReader(r io.Reader) *messageIOUnpacker {
-	return &messageIOUnpacker{r: r, br: r.(io.ByteReader)}
+	br, _ := r.(io.ByteReader)
+	return &messageIOUnpacker{r: r, br: br}
 }
 
 func (p *messageIOUnpacker) Next() (Format, []byte) {
@@ -705,8 +706,7 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 		}
 		p.buf[0] = code
 	}  else {
-		n, _ := p.r.Read(p.buf[:1])
-		if n == 0 {
+		if _, err := io.ReadFull(p.r, p.buf[:1]); err != nil {
 			return EOF, nil
 		}
 	}
-- 
2.43.0


From 234d46a59d1e21bc41ef307ce0926d361b488124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 05/52] fix: read whole headers and payloads when the reader
 delivers them in pieces

---
 msgpack.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index ce437fe..4005583 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -714,8 +714,7 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 	format, len := nextFormat(p.buf[0])
 	n := 1 + len
 
-	m, _ := p.r.Read(p.buf[1:n])
-	if m != len {
+	if _, err := io.ReadFull(p.r, p.buf[1:n]); err != nil {
 		return UnexpectedEOF, nil
 	}
 
@@ -724,11 +723,8 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 
 func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
 	b = make([]byte, n)
-	m, err := p.r.Read(b)
-	if m != n {
-		if err == nil {
-			err = io.ErrUnexpectedEOF
-		}
+	if _, err = io.ReadFull(p.r, b); err == io.EOF {
+		err = io.ErrUnexpectedEOF
 	}
 	return b, err
 }
-- 
2.43.0


From 8b6fddde5a17e30f5833e99326f659fe45f2d988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 06/52] fix: report failures of the underlying reader instead
 of end of file

---
 msgpack.go | 18 +++++++++++++++---
 unpack.go  | 12 ++++++++++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 4005583..0ed0439 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -690,6 +690,7 @@ type messageIOUnpacker struct {
 	buf 	[defReadBufSize]byte
 	r       io.Reader
 	br      io.ByteReader  // can be null
+	err     error          // failure of the reader, except end of file
 }
 
 func MessageReader(r io.Reader) *messageIOUnpacker {
@@ -702,12 +703,12 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 	if p.br != nil {
 		code, err := p.br.ReadByte()
 		if err != nil {
-			return EOF, nil
+			return p.fail(EOF, err)
 		}
 		p.buf[0] = code
 	}  else {
 		if _, err := io.ReadFull(p.r, p.buf[:1]); err != nil {
-			return EOF, nil
+			return p.fail(EOF, err)
 		}
 	}
 
@@ -715,7 +716,7 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 	n := 1 + len
 
 	if _, err := io.ReadFull(p.r, p.buf[1:n]); err != nil {
-		return UnexpectedEOF, nil
+		return p.fail(UnexpectedEOF, err)
 	}
 
 	return format, p.buf[0:n]
@@ -729,6 +730,17 @@ func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
 	return b, err
 }
 
+func (p *messageIOUnpacker) fail(format Format, err error) (Format, []byte) {
+	if err != io.EOF && err != io.ErrUnexpectedEOF {
+		p.err = err
+	}
+	return format, nil
+}
+
+func (p *messageIOUnpacker) Error() error {
+	return p.err
+}
+
 func nextFormat(code byte) (Format, int) {
 
 	switch {
diff --git a/unpack.go b/unpack.go
index 10ad764..2de8789 100644
--- a/unpack.go
+++ b/unpack.go
@@ -19,9 +19,9 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 
 	switch format {
 	case EOF:
-		return nil, io.EOF
+		return nil, readError(unpacker, io.EOF)
 	case UnexpectedEOF:
-		return nil, io.ErrUnexpectedEOF
+		return nil, readError(unpacker, io.ErrUnexpectedEOF)
 	case NilToken:
 		return Null, nil
 	case BoolToken:
@@ -73,6 +73,14 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 
 }
 
+// failure of the underlying reader if there was one, otherwise the given end of input
+func readError(unpacker Unpacker, eof error) error {
+	if u, ok := unpacker.(interface{ Error() error }); ok && u.Error() != nil {
+		return u.Error()
+	}
+	return eof
+}
+
 func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error) {
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
-- 
2.43.0


From 2dcd0363168582c460c725fed454a0d962ec6a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 07/52] fix: report end of input inside of a list or map as
 unexpected

---
 unpack.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/unpack.go b/unpack.go
index 2de8789..76c63aa 100644
--- a/unpack.go
+++ b/unpack.go
@@ -81,6 +81,15 @@ func readError(unpacker Unpacker, eof error) error {
 	return eof
 }
 
+// parses value inside of another one, where end of input is never expected
+func doParseInner(unpacker Unpacker, parser Parser) (Value, error) {
+	value, err := doParse(unpacker, parser)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return value, err
+}
+
 func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error) {
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
@@ -91,7 +100,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	}
 	list := make([]Value, cnt)
 	for i := 0; i < cnt; i++ {
-		el, err := doParse(unpacker, parser)
+		el, err := doParseInner(unpacker, parser)
 		if err != nil {
 			return nil, err
 		}
@@ -116,11 +125,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 	var prevMapKey string
 
 	for i := 0; i < cnt; i++ {
-		key, err := doParse(unpacker, parser)
+		key, err := doParseInner(unpacker, parser)
 		if err != nil {
 			return nil, err
 		}
-		value, err := doParse(unpacker, parser)
+		value, err := doParseInner(unpacker, parser)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 3843abcb334fe713d05ff687242f3836115949aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 08/52] fix: report a reader's own unexpected end of file
 between two values

---
 msgpack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index 0ed0439..796ba78 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -731,7 +731,7 @@ func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
 }
 
 func (p *messageIOUnpacker) fail(format Format, err error) (Format, []byte) {
-	if err != io.EOF && err != io.ErrUnexpectedEOF {
+	if err != io.EOF {
 		p.err = err
 	}
 	return format, nil
-- 
2.43.0


From 70b4692cdfaca912cb73b0e6ed4a8e8fe91ba166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 09/52] fix: decode maps that mix integer and text keys

---
 unpack.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/unpack.go b/unpack.go
index 76c63aa..3b75f39 100644
--- a/unpack.go
+++ b/unpack.go
@@ -165,13 +165,12 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 				mayBeList = false
 				sortedMapEntries = make([]MapEntry, cnt)
 				for j := 0; j < i; j++ {
-					item := sparseListItems[i]
-					sortedMapEntries[i] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
+					item := sparseListItems[j]
+					sortedMapEntries[j] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
 				}
+				// order of numbers is not the order of their text forms
+				sorted = false
 				k := key.String()
-				if i > 0 && prevMapKey > k {
-					sorted = false
-				}
 				sortedMapEntries[i] = ImmutableEntry(k, value)
 				prevMapKey = k
 			}
-- 
2.43.0


From 0ea9165b6a12d890b29d5c362e1cc181bf5ae37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 10/52] fix: refuse unsigned integers that do not fit in a long

---
 msgpack.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index 796ba78..fb95ff6 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -491,7 +491,12 @@ func (r *messageParser) ParseLong(b []byte) int64 {
 	case mpUint32:
 		return int64(binary.BigEndian.Uint32(b[1:]))
 	case mpUint64:
-		return int64(binary.BigEndian.Uint64(b[1:]))
+		val := binary.BigEndian.Uint64(b[1:])
+		if val > math.MaxInt64 {
+			r.err = errors.Errorf("long: value %v is out of range", val)
+			return 0
+		}
+		return int64(val)
 	case mpInt8:
 		return int64(int8(b[1]))
 	case mpInt16:
-- 
2.43.0


From 31cc674670e23be3d763e41178f6b0c3ded01b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 11/52] fix: refuse the never used code 0xc1

---
 msgpack.go | 2 +-
 pack.go    | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index fb95ff6..dfec7a5 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -89,7 +89,7 @@ var (
 	mpCodeFormat = []Format {
 
 		NilToken, 	// mpNil        0xc0
-		NilToken,     // mpNeverUsed  0xc1
+		InvalidFormat, // mpNeverUsed  0xc1
 		BoolToken, 	// mpFalse      0xc2
 		BoolToken, 	// mpTrue       0xc3
 
diff --git a/pack.go b/pack.go
index 3735bbd..4b4c1d9 100644
--- a/pack.go
+++ b/pack.go
@@ -91,6 +91,7 @@ const (
 	ListHeader
 	MapHeader
 	ExtHeader
+	InvalidFormat
 )
 
 type Unpacker interface {
-- 
2.43.0


From e5aa48a26ea42ec11f1aac9f699a888fbc47ec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 12/52] fix: copy the data of fixed size extensions out of the
 unpacker's buffer

---
 unpack.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 3b75f39..277ae93 100644
--- a/unpack.go
+++ b/unpack.go
@@ -32,7 +32,11 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 		return Double(parser.ParseDouble(header)), parser.Error()
 	case FixExtToken:
 		_, tagAndData := parser.ParseExt(header)
-		return doParseExt(tagAndData)
+		if parser.Error() != nil {
+			return nil, parser.Error()
+		}
+		// header is the part of the input or the scratch buffer of unpacker
+		return doParseExt(append([]byte(nil), tagAndData...))
 	case BinHeader:
 		size := parser.ParseBin(header)
 		if parser.Error() != nil {
-- 
2.43.0


From d03dd69119246b53c795811556e3e698a9eb3d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 13/52] fix: decode a zero with the sign bit set as zero

---
 number.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/number.go b/number.go
index 858e894..a0a33bf 100644
--- a/number.go
+++ b/number.go
@@ -334,12 +334,18 @@ func (n decimalNumber) Pack(p Packer) {
 func UnpackBigInt(data []byte) (*big.Int, error) {
 	x := new(big.Int)
 	err := x.GobDecode(data)
+	if x.Sign() == 0 {
+		x.SetInt64(0)  // there is no negative zero
+	}
 	return x, err
 }
 
 func UnpackDecimal(data []byte) (decimal.Decimal, error) {
 	d := decimal.Decimal{}
 	err := d.UnmarshalBinary(data)
+	if err == nil && d.Sign() == 0 {
+		d = decimal.New(0, d.Exponent())  // there is no negative zero
+	}
 	return d, err
 }
 
-- 
2.43.0


From 0ee7ad1c7ba1482d945a1e42176e1a234dab2c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 14/52] fix: do not preallocate the declared number of list and
 map elements

---
 unpack.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/unpack.go b/unpack.go
index 277ae93..4913107 100644
--- a/unpack.go
+++ b/unpack.go
@@ -94,6 +94,16 @@ func doParseInner(unpacker Unpacker, parser Parser) (Value, error) {
 	return value, err
 }
 
+const maxPrealloc = 16
+
+// declared count is not trusted, because the input could be shorter
+func preallocSize(cnt int) int {
+	if cnt > maxPrealloc {
+		return maxPrealloc
+	}
+	return cnt
+}
+
 func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error) {
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
@@ -102,13 +112,13 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	if cnt == 0 {
 		return EmptyImmutableList(), nil
 	}
-	list := make([]Value, cnt)
+	list := make([]Value, 0, preallocSize(cnt))
 	for i := 0; i < cnt; i++ {
 		el, err := doParseInner(unpacker, parser)
 		if err != nil {
 			return nil, err
 		}
-		list[i] = el
+		list = append(list, el)
 	}
 	return ImmutableList(list), nil
 }
@@ -148,10 +158,10 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 			if key.Kind() == NUMBER {
 				// try to build sparse list
 				mayBeList = true
-				sparseListItems = make([]ListItem, cnt)
+				sparseListItems = make([]ListItem, 0, preallocSize(cnt))
 			} else {
 				mayBeList = false
-				sortedMapEntries = make([]MapEntry, cnt)
+				sortedMapEntries = make([]MapEntry, 0, preallocSize(cnt))
 			}
 		}
 
@@ -162,20 +172,18 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 				if i > 0 && prevListKey > k {
 					sorted = false
 				}
-				sparseListItems[i] = ImmutableItem(int(k), value)
+				sparseListItems = append(sparseListItems, ImmutableItem(int(k), value))
 				prevListKey = k
 			} else {
 				// not a list
 				mayBeList = false
-				sortedMapEntries = make([]MapEntry, cnt)
-				for j := 0; j < i; j++ {
-					item := sparseListItems[j]
-					sortedMapEntries[j] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
+				for _, item := range sparseListItems {
+					sortedMapEntries = append(sortedMapEntries, ImmutableEntry(strconv.Itoa(item.Key()), item.Value()))
 				}
 				// order of numbers is not the order of their text forms
 				sorted = false
 				k := key.String()
-				sortedMapEntries[i] = ImmutableEntry(k, value)
+				sortedMapEntries = append(sortedMapEntries, ImmutableEntry(k, value))
 				prevMapKey = k
 			}
 
@@ -184,14 +192,16 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 			if i > 0 && prevMapKey > k {
 				sorted = false
 			}
-			sortedMapEntries[i] = ImmutableEntry(k, value)
+			sortedMapEntries = append(sortedMapEntries, ImmutableEntry(k, value))
 			prevMapKey = k
 		}
 
 	}
 
 	if mayBeList {
-		return SparseList(sparseListItems, sorted), nil
+		// no spare capacity, because fast appends would share it
+		n := len(sparseListItems)
+		return SparseList(sparseListItems[:n:n], sorted), nil
 	} else {
 		return ImmutableMap(sortedMapEntries, sorted), nil
 	}
-- 
2.43.0


From 928547e3d45b7f8d044cf7e1a376241d3880638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 15/52] fix: do not preallocate the declared length of strings
 read from a reader

---
 msgpack.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index dfec7a5..859367b 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -7,6 +7,7 @@
 package value
 
 import (
+	"bytes"
 	"io"
 	"math"
 	"encoding/binary"
@@ -78,6 +79,7 @@ const (
 
 	defWriteBufSize 	= 16
 	defReadBufSize 		= 24
+	maxReadPrealloc 	= 65536
 
 	mpCodeMin 			= mpNil
 	mpCodeMax 			= mpMap32
@@ -728,8 +730,16 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 }
 
 func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
-	b = make([]byte, n)
-	if _, err = io.ReadFull(p.r, b); err == io.EOF {
+	if n > maxReadPrealloc {
+		// declared length is not trusted, because the input could be shorter
+		var buf bytes.Buffer
+		_, err = io.CopyN(&buf, p.r, int64(n))
+		b = buf.Bytes()
+	} else {
+		b = make([]byte, n)
+		_, err = io.ReadFull(p.r, b)
+	}
+	if err == io.EOF {
 		err = io.ErrUnexpectedEOF
 	}
 	return b, err
-- 
2.43.0


From 70989b2ebcab17eadec93f1b43a3da5c6c0cb184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 16/52] fix: keep decoded lists without spare capacity

---
 unpack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 4913107..209e30f 100644
--- a/unpack.go
+++ b/unpack.go
@@ -120,7 +120,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 		}
 		list = append(list, el)
 	}
-	return ImmutableList(list), nil
+	return ImmutableList(list[:cnt:cnt]), nil
 }
 
 func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error) {
-- 
2.43.0


From 6da55801057c716e6f84df60046e9b17a5900710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 17/52] fix: refuse input nested deeper than 10000 levels

---
 struct.go | 25 ++++++++++++++++---------
 unpack.go | 28 ++++++++++++++++++----------
 utils.go  |  4 ++--
 3 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/struct.go b/struct.go
index 8629bc5..59ba663 100644
--- a/struct.go
+++ b/struct.go
@@ -235,6 +235,13 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 
 
 func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *Schema) error {
+	return doParseStruct(unpacker, parser, value, schema, 0)
+}
+
+func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *Schema, depth int) error {
+	if depth > maxDepth {
+		return errTooDeep
+	}
 	format, header := unpacker.Next()
 	if format != MapHeader {
 		return errors.Errorf("expected MapHeader for struct, but got %v", format)
@@ -244,7 +251,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 		return parser.Error()
 	}
 	for i := 0; i < cnt; i++ {
-		key, err := doParse(unpacker, parser)
+		key, err := doParse(unpacker, parser, depth+1)
 		if err != nil {
 			return errors.Errorf("fail to parse key on position %d, %v", i, err)
 		}
@@ -274,12 +281,12 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						if field.Struct {
 							structValue := reflect.New(elemValue.Type().Elem())
 							elemValue.Set(structValue)
-							err := ParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema)
+							err := doParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema, depth+1)
 							if err != nil {
 								return errors.Errorf("fail to set struct value %v", err)
 							}
 						} else {
-							val, err := doParse(unpacker, parser)
+							val, err := doParse(unpacker, parser, depth+1)
 							if err != nil {
 								return errors.Errorf("fail to parse value %v", err)
 							}
@@ -304,14 +311,14 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						structValue := reflect.New(ptrType.Elem())
 						elemValue.Set(structValue)
 						sliceValue = reflect.Append(sliceValue, elemValue)
-						err := ParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema)
+						err := doParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema, depth+1)
 						if err != nil {
 							return errors.Errorf("fail to set struct value %v", err)
 						}
 					} else {
 						elemValue = reflect.New(field.FieldType.Elem()).Elem()
 						sliceValue = reflect.Append(sliceValue, elemValue)
-						val, err := doParse(unpacker, parser)
+						val, err := doParse(unpacker, parser, depth+1)
 						if err != nil {
 							return errors.Errorf("fail to parse value %v", err)
 						}
@@ -323,7 +330,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 					fieldValue.Set(sliceValue)
 				}
 			} else {
-				err = parseFieldValue(unpacker, parser, field, fieldValue)
+				err = parseFieldValue(unpacker, parser, field, fieldValue, depth)
 				if err != nil {
 					return errors.Errorf("parse field on position %d, %v", i, err)
 				}
@@ -335,7 +342,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 	return nil
 }
 
-func parseFieldValue(unpacker Unpacker, parser Parser, field *Field, fieldValue reflect.Value) error {
+func parseFieldValue(unpacker Unpacker, parser Parser, field *Field, fieldValue reflect.Value, depth int) error {
 	if field.Struct {
 		if fieldValue.IsNil() {
 			if fieldValue.CanSet() {
@@ -344,12 +351,12 @@ func parseFieldValue(unpacker Unpacker, parser Parser, field *Field, fieldValue
 				return errors.Errorf("can not set empty struct value to field %v", field.FieldName)
 			}
 		}
-		err := ParseStruct(unpacker, parser, fieldValue.Elem(), field.FieldSchema)
+		err := doParseStruct(unpacker, parser, fieldValue.Elem(), field.FieldSchema, depth+1)
 		if err != nil {
 			return errors.Errorf("fail to set struct value %v", err)
 		}
 	} else {
-		val, err := doParse(unpacker, parser)
+		val, err := doParse(unpacker, parser, depth+1)
 		if err != nil {
 			return errors.Errorf("fail to parse value %v", err)
 		}
diff --git a/unpack.go b/unpack.go
index 209e30f..c1570ae 100644
--- a/unpack.go
+++ b/unpack.go
@@ -13,7 +13,12 @@ import (
 )
 
 
-func doParse(unpacker Unpacker, parser Parser) (Value, error) {
+// values nested deeper are refused, because every level takes the stack
+const maxDepth = 10000
+
+var errTooDeep = errors.New("parse: value is nested too deep")
+
+func doParse(unpacker Unpacker, parser Parser, depth int) (Value, error) {
 
 	format, header := unpacker.Next()
 
@@ -58,9 +63,9 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 		}
 		return Utf8(string(str)), nil
 	case ListHeader:
-		return doParseList(header, unpacker, parser)
+		return doParseList(header, unpacker, parser, depth)
 	case MapHeader:
-		return doParseMap(header, unpacker, parser)
+		return doParseMap(header, unpacker, parser, depth)
 	case ExtHeader:
 		n, _ := parser.ParseExt(header)
 		if parser.Error() != nil {
@@ -86,8 +91,11 @@ func readError(unpacker Unpacker, eof error) error {
 }
 
 // parses value inside of another one, where end of input is never expected
-func doParseInner(unpacker Unpacker, parser Parser) (Value, error) {
-	value, err := doParse(unpacker, parser)
+func doParseInner(unpacker Unpacker, parser Parser, depth int) (Value, error) {
+	if depth > maxDepth {
+		return nil, errTooDeep
+	}
+	value, err := doParse(unpacker, parser, depth)
 	if err == io.EOF {
 		err = io.ErrUnexpectedEOF
 	}
@@ -104,7 +112,7 @@ func preallocSize(cnt int) int {
 	return cnt
 }
 
-func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error) {
+func doParseList(header []byte, unpacker Unpacker, parser Parser, depth int) (List, error) {
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -114,7 +122,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	}
 	list := make([]Value, 0, preallocSize(cnt))
 	for i := 0; i < cnt; i++ {
-		el, err := doParseInner(unpacker, parser)
+		el, err := doParseInner(unpacker, parser, depth+1)
 		if err != nil {
 			return nil, err
 		}
@@ -123,7 +131,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	return ImmutableList(list[:cnt:cnt]), nil
 }
 
-func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error) {
+func doParseMap(header []byte, unpacker Unpacker, parser Parser, depth int) (Value, error) {
 	cnt := parser.ParseMap(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -139,11 +147,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 	var prevMapKey string
 
 	for i := 0; i < cnt; i++ {
-		key, err := doParseInner(unpacker, parser)
+		key, err := doParseInner(unpacker, parser, depth+1)
 		if err != nil {
 			return nil, err
 		}
-		value, err := doParseInner(unpacker, parser)
+		value, err := doParseInner(unpacker, parser, depth+1)
 		if err != nil {
 			return nil, err
 		}
diff --git a/utils.go b/utils.go
index 092ba67..cdd6376 100644
--- a/utils.go
+++ b/utils.go
@@ -110,7 +110,7 @@ func Equal(left Value, right Value) bool {
 }
 
 func Parse(unpacker Unpacker, parser Parser) (Value, error) {
-	return doParse(unpacker, parser)
+	return doParse(unpacker, parser, 0)
 }
 
 func WriteStream(w io.Writer, valueC <-chan Value) error {
@@ -144,7 +144,7 @@ func ReadStream(r io.Reader, out chan<- Value) error {
 
 	for {
 
-		value, err := doParse(unpacker, parser)
+		value, err := doParse(unpacker, parser, 0)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From c96452110b44c7a62d29e2535d59f06c15c876c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 18/52] fix: do not repeat the error message on every level of
 nested structs

---
 struct.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index 59ba663..43f6197 100644
--- a/struct.go
+++ b/struct.go
@@ -283,7 +283,7 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 							elemValue.Set(structValue)
 							err := doParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema, depth+1)
 							if err != nil {
-								return errors.Errorf("fail to set struct value %v", err)
+								return err
 							}
 						} else {
 							val, err := doParse(unpacker, parser, depth+1)
@@ -313,7 +313,7 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 						sliceValue = reflect.Append(sliceValue, elemValue)
 						err := doParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema, depth+1)
 						if err != nil {
-							return errors.Errorf("fail to set struct value %v", err)
+							return err
 						}
 					} else {
 						elemValue = reflect.New(field.FieldType.Elem()).Elem()
@@ -332,6 +332,9 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 			} else {
 				err = parseFieldValue(unpacker, parser, field, fieldValue, depth)
 				if err != nil {
+					if field.Struct {
+						return err  // messages of all levels together would be too long
+					}
 					return errors.Errorf("parse field on position %d, %v", i, err)
 				}
 			}
@@ -353,7 +356,7 @@ func parseFieldValue(unpacker Unpacker, parser Parser, field *Field, fieldValue
 		}
 		err := doParseStruct(unpacker, parser, fieldValue.Elem(), field.FieldSchema, depth+1)
 		if err != nil {
-			return errors.Errorf("fail to set struct value %v", err)
+			return err
 		}
 	} else {
 		val, err := doParse(unpacker, parser, depth+1)
-- 
2.43.0


From bff2940827104fd235d0c817e3604907a811f450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 19/52] fix: keep the elements of repeated value fields

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 43f6197..3feda2c 100644
--- a/struct.go
+++ b/struct.go
@@ -317,7 +317,6 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 						}
 					} else {
 						elemValue = reflect.New(field.FieldType.Elem()).Elem()
-						sliceValue = reflect.Append(sliceValue, elemValue)
 						val, err := doParse(unpacker, parser, depth+1)
 						if err != nil {
 							return errors.Errorf("fail to parse value %v", err)
@@ -326,6 +325,7 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 						if err != nil {
 							return errors.Errorf("fail to set value %v", err)
 						}
+						sliceValue = reflect.Append(sliceValue, elemValue)
 					}
 					fieldValue.Set(sliceValue)
 				}
-- 
2.43.0


From 8e2191f4ab92ed6d71c5b16bfd2b97b29f40c944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 20/52] fix: build slice fields element by element

---
 struct.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index 3feda2c..a0ed362 100644
--- a/struct.go
+++ b/struct.go
@@ -273,11 +273,13 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 						return errors.Errorf("expected ListHeader for array field, but got %v", listFormat)
 					}
 					listCnt := parser.ParseList(listHeader)
-					arrayType := reflect.ArrayOf(listCnt, field.FieldType.Elem())
-					arrayValue := reflect.New(arrayType).Elem()
+					if parser.Error() != nil {
+						return parser.Error()
+					}
+					sliceValue := reflect.MakeSlice(field.FieldType, 0, preallocSize(listCnt))
 
 					for j := 0; j < listCnt; j++ {
-						elemValue := arrayValue.Index(j)
+						elemValue := reflect.New(field.FieldType.Elem()).Elem()
 						if field.Struct {
 							structValue := reflect.New(elemValue.Type().Elem())
 							elemValue.Set(structValue)
@@ -295,8 +297,9 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 								return errors.Errorf("fail to set value %v", err)
 							}
 						}
+						sliceValue = reflect.Append(sliceValue, elemValue)
 					}
-					fieldValue.Set(arrayValue.Slice(0, listCnt))
+					fieldValue.Set(sliceValue)
 				} else {
 					var sliceValue reflect.Value
 					if !fieldValue.IsNil() {
-- 
2.43.0


From 239645cc4135ea79fb5deee87a0233810cb5b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 21/52] fix: support fixed size array fields of structs

---
 struct.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index a0ed362..b59dbc2 100644
--- a/struct.go
+++ b/struct.go
@@ -73,7 +73,7 @@ func doReflectPackStruct(p *messagePacker, value reflect.Value, schema *Schema)
 			field: field,
 			fieldValue: value.Field(field.FieldNum),
 		}
-		if !f.fieldValue.IsNil() {
+		if !isUnset(f.fieldValue) {
 			list = append(list, f)
 			if f.field.Array && f.field.Repeated {
 				cnt += f.fieldValue.Len()
@@ -112,6 +112,18 @@ func doReflectPackStruct(p *messagePacker, value reflect.Value, schema *Schema)
 	return nil
 }
 
+func isUnset(value reflect.Value) bool {
+	if value.Kind() != reflect.Array {
+		return value.IsNil()
+	}
+	for i := 0; i < value.Len(); i++ {
+		if !value.Index(i).IsNil() {
+			return false
+		}
+	}
+	return true
+}
+
 func doReflectPackValue(p *messagePacker, value reflect.Value, entry *packingField) error {
 	if entry.field.Struct {
 		if err := doReflectPackStruct(p, value.Elem(), entry.field.FieldSchema); err != nil {
@@ -195,6 +207,9 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 			fieldType = fieldType.Elem()
 			array = true
 		}
+		if repeated && field.Type.Kind() == reflect.Array {
+			return nil, errors.Errorf("fixed size array field '%s' in class '%v' can not be repeated", field.Name, classPtr)
+		}
 		if fieldType.Implements(ValueClass) {
 			f := &Field{
 				FieldNum:   j,
@@ -276,7 +291,14 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 					if parser.Error() != nil {
 						return parser.Error()
 					}
-					sliceValue := reflect.MakeSlice(field.FieldType, 0, preallocSize(listCnt))
+					if fieldValue.Kind() == reflect.Array && listCnt != fieldValue.Len() {
+						return errors.Errorf("expected %d elements for array field, but got %d", fieldValue.Len(), listCnt)
+					}
+					sliceType := reflect.SliceOf(field.FieldType.Elem())
+					if fieldValue.Kind() == reflect.Slice {
+						sliceType = field.FieldType
+					}
+					sliceValue := reflect.MakeSlice(sliceType, 0, preallocSize(listCnt))
 
 					for j := 0; j < listCnt; j++ {
 						elemValue := reflect.New(field.FieldType.Elem()).Elem()
@@ -299,7 +321,11 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 						}
 						sliceValue = reflect.Append(sliceValue, elemValue)
 					}
-					fieldValue.Set(sliceValue)
+					if fieldValue.Kind() == reflect.Array {
+						reflect.Copy(fieldValue, sliceValue)
+					} else {
+						fieldValue.Set(sliceValue)
+					}
 				} else {
 					var sliceValue reflect.Value
 					if !fieldValue.IsNil() {
-- 
2.43.0


From 527c7904b9d5ecde9e8950e89a58e013d4e5c47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 22/52] fix: support struct types that refer to themselves

---
 struct.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/struct.go b/struct.go
index b59dbc2..6607c2e 100644
--- a/struct.go
+++ b/struct.go
@@ -175,7 +175,7 @@ func (t sortableFields) Less(i, j int) bool {
 func reflectSchema(classPtr reflect.Type) (*Schema, error) {
 	if val, ok := schemaCache.Load(classPtr); ok {
 		return val.(*Schema), nil
-	} else if schema, err := doReflectSchema(classPtr); err != nil {
+	} else if schema, err := doReflectSchema(classPtr, make(map[reflect.Type]*Schema)); err != nil {
 		return nil, err
 	} else {
 		schemaCache.Store(classPtr, schema)
@@ -183,7 +183,13 @@ func reflectSchema(classPtr reflect.Type) (*Schema, error) {
 	}
 }
 
-func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
+// pending are the schemas under construction, types could refer to themselves
+func doReflectSchema(classPtr reflect.Type, pending map[reflect.Type]*Schema) (*Schema, error) {
+	if schema, ok := pending[classPtr]; ok {
+		return schema, nil
+	}
+	schema := new(Schema)
+	pending[classPtr] = schema
 	fields := make(map[int]*Field)
 	var sortedFields []*Field
 	class := classPtr.Elem()
@@ -224,7 +230,7 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 			sortedFields = append(sortedFields, f)
 		} else if fieldType.Kind() != reflect.Ptr {
 			return nil, errors.Errorf("tagged field '%s' in class '%v' with type '%v' does not implement value.Value interface and non-ptr", field.Name, field.Type, classPtr)
-		} else if fieldSchema, err := reflectSchema(fieldType); err != nil {
+		} else if fieldSchema, err := doReflectSchema(fieldType, pending); err != nil {
 			return nil, errors.Errorf("struct field '%s' in class '%v' has wrong schema, %v", field.Name, classPtr, err)
 		} else {
 			f := &Field{
@@ -242,10 +248,9 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 		}
 	}
 	sort.Sort(sortableFields(sortedFields))
-	return &Schema {
-		Fields: fields,
-		SortedFields: sortedFields,
-	}, nil
+	schema.Fields = fields
+	schema.SortedFields = sortedFields
+	return schema, nil
 }
 
 
-- 
2.43.0


From 71658e5a812ba51849f83ac40d7d950b71f399e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 23/52] fix: refuse nil targets and pointers to non-structs

---
 struct.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/struct.go b/struct.go
index 6607c2e..b508daa 100644
--- a/struct.go
+++ b/struct.go
@@ -33,6 +33,9 @@ func PackStruct(obj interface{}) ([]byte, error) {
 func UnpackStruct(buf []byte, obj interface{}, copy bool) error {
 	unpacker := MessageUnpacker(buf, copy)
 	parser := MessageParser()
+	if obj == nil {
+		return errors.New("nil instance is not allowed")
+	}
 	classPtr := reflect.TypeOf(obj)
 	if classPtr.Kind() != reflect.Ptr {
 		return errors.Errorf("non-pointer instance is not allowed in '%v'", classPtr)
@@ -41,6 +44,9 @@ func UnpackStruct(buf []byte, obj interface{}, copy bool) error {
 		return errors.Errorf("error on reflect schema for '%v', %v", classPtr, err)
 	} else {
 		valuePtr := reflect.ValueOf(obj)
+		if valuePtr.IsNil() {
+			return errors.Errorf("nil instance is not allowed in '%v'", classPtr)
+		}
 		value := valuePtr.Elem()
 		return ParseStruct(unpacker, parser, value, schema)
 	}
@@ -56,6 +62,9 @@ func reflectPackStruct(p *messagePacker, obj interface{}) error {
 		return err
 	}
 	valuePtr := reflect.ValueOf(obj)
+	if valuePtr.IsNil() {
+		return errors.Errorf("nil instance is not allowed in '%v'", classPtr)
+	}
 	value := valuePtr.Elem()
 	return doReflectPackStruct(p, value, schema)
 }
@@ -193,6 +202,9 @@ func doReflectSchema(classPtr reflect.Type, pending map[reflect.Type]*Schema) (*
 	fields := make(map[int]*Field)
 	var sortedFields []*Field
 	class := classPtr.Elem()
+	if class.Kind() != reflect.Struct {
+		return nil, errors.Errorf("expected pointer to struct, but got '%v'", classPtr)
+	}
 	for j := 0; j < class.NumField(); j++ {
 		field := class.Field(j)
 		repeated := false
-- 
2.43.0


From 9eb8bc9a981090a8de9e5b9d0c127dba0f2c609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 24/52] fix: refuse nil struct elements of slices

---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index b508daa..44da927 100644
--- a/struct.go
+++ b/struct.go
@@ -135,6 +135,9 @@ func isUnset(value reflect.Value) bool {
 
 func doReflectPackValue(p *messagePacker, value reflect.Value, entry *packingField) error {
 	if entry.field.Struct {
+		if value.IsNil() {
+			return errors.Errorf("can not pack nil element of field %s", entry.field.FieldName)
+		}
 		if err := doReflectPackStruct(p, value.Elem(), entry.field.FieldSchema); err != nil {
 			return errors.Errorf("can not pack field %v, inner struct error %v", value, err)
 		}
-- 
2.43.0


From 4987311d1003005540f2fff3f6a62ff547935a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 25/52] fix: refuse duplicate tags and unexported fields

---
 struct.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/struct.go b/struct.go
index 44da927..61d708e 100644
--- a/struct.go
+++ b/struct.go
@@ -222,6 +222,12 @@ func doReflectSchema(classPtr reflect.Type, pending map[reflect.Type]*Schema) (*
 		if err != nil {
 			return nil, errors.Errorf("invalid tag number '%s' in field '%s' in class '%v'", tagStr, field.Name, classPtr)
 		}
+		if _, ok := fields[tag]; ok {
+			return nil, errors.Errorf("duplicate tag number '%s' in field '%s' in class '%v'", tagStr, field.Name, classPtr)
+		}
+		if field.PkgPath != "" {
+			return nil, errors.Errorf("unexported field '%s' in class '%v'", field.Name, classPtr)
+		}
 		array := false
 		fieldType := field.Type
 		if field.Type.Kind() == reflect.Slice || field.Type.Kind() == reflect.Array {
-- 
2.43.0


From 4dc4ae4cf221be9004c6c7d08cf0db03b4744839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 26/52] fix: accept only integers as struct tags

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 61d708e..f371cc9 100644
--- a/struct.go
+++ b/struct.go
@@ -296,7 +296,7 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 		if err != nil {
 			return errors.Errorf("fail to parse key on position %d, %v", i, err)
 		}
-		if key.Kind() != NUMBER {
+		if key.Kind() != NUMBER || key.(Number).Type() != LONG {
 			return errors.Errorf("expected int key, but got %s on position %d", key.Kind().String(), i)
 		}
 		tag := int(key.(Number).Long())
-- 
2.43.0


From 961cd8cbefee4f53751ddeb9cea4f14dcd1ad0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 27/52] fix: refuse struct fields of value types that can not
 be nil

---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index f371cc9..2ed3304 100644
--- a/struct.go
+++ b/struct.go
@@ -238,6 +238,9 @@ func doReflectSchema(classPtr reflect.Type, pending map[reflect.Type]*Schema) (*
 			return nil, errors.Errorf("fixed size array field '%s' in class '%v' can not be repeated", field.Name, classPtr)
 		}
 		if fieldType.Implements(ValueClass) {
+			if fieldType.Kind() != reflect.Interface && fieldType.Kind() != reflect.Ptr {
+				return nil, errors.Errorf("tagged field '%s' in class '%v' has unsupported type '%v'", field.Name, classPtr, field.Type)
+			}
 			f := &Field{
 				FieldNum:   j,
 				FieldType:  field.Type,
-- 
2.43.0


From 97bcd823c5a5958418af884c1d3bd1726b434582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 28/52] fix: return ErrUnseal for ciphertexts shorter than the
 nonce

---
 utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils.go b/utils.go
index cdd6376..3a88039 100644
--- a/utils.go
+++ b/utils.go
@@ -94,6 +94,9 @@ var ErrUnseal = errors.New("unseal error")
 
 func Unseal(encrypted []byte, senderPublicKey, recipientPrivateKey *[32]byte) (Value, error) {
 	var decryptNonce [24]byte
+	if len(encrypted) < len(decryptNonce) {
+		return nil, ErrUnseal
+	}
 	copy(decryptNonce[:], encrypted[:24])
 	decrypted, ok := box.Open(nil, encrypted[24:], &decryptNonce, senderPublicKey, recipientPrivateKey)
 	if !ok {
-- 
2.43.0


From 16ca8bec9a3fa492412fd3aa24785fa65172a46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 29/52] fix: return own bytes from MarshalBinary of booleans
 and null

---
 bool.go | 2 +-
 null.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bool.go b/bool.go
index 0f2ae96..5d96d7b 100644
--- a/bool.go
+++ b/bool.go
@@ -62,7 +62,7 @@ func (b boolValue) MarshalJSON() ([]byte, error) {
 
 func (b boolValue) MarshalBinary() ([]byte, error) {
 	var m messageWriter
-	return m.WriteBool(bool(b)), nil
+	return append([]byte(nil), m.WriteBool(bool(b))...), nil
 }
 
 func (b boolValue) Equal(val Value) bool {
diff --git a/null.go b/null.go
index 5d1ee8f..f1b85a3 100644
--- a/null.go
+++ b/null.go
@@ -57,7 +57,7 @@ func (n nullValue) MarshalJSON() ([]byte, error) {
 
 func (n nullValue) MarshalBinary() ([]byte, error) {
 	var m messageWriter
-	return m.WriteNil(), nil
+	return append([]byte(nil), m.WriteNil()...), nil
 }
 
 func (n nullValue) Equal(val Value) bool {
-- 
2.43.0


From bf982f3bcf3835f7dcab22029c7ba1fa9411de14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 30/52] fix: do not panic on long exponents of hexadecimal
 decimals

---
 number.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/number.go b/number.go
index a0a33bf..d6b7b06 100644
--- a/number.go
+++ b/number.go
@@ -287,6 +287,9 @@ func parseExp(s string) (int32, error) {
 	if err != nil {
 		return 0, err
 	}
+	if len(bytes) > 4 {
+		return 0, strconv.ErrRange
+	}
 	var buf [4]byte
 	copy(buf[len(buf)-len(bytes):], bytes)
 	val := int32(binary.BigEndian.Uint32(buf[:]))
-- 
2.43.0


From 8e6cd793e66d173804bf0656ee8e00156dd23ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 31/52] fix: parse hexadecimal numbers without digits or with
 exponents out of range as NaN

---
 number.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index d6b7b06..5c06efe 100644
--- a/number.go
+++ b/number.go
@@ -122,6 +122,9 @@ func parseHexNumber(s string) (Number, error) {
 		}
 		s = s[:expIdx]
 	}
+	if len(s) == 0 {
+		return nil, strconv.ErrSyntax
+	}
 
 	if len(s) % 2 == 1 {
 		s = "0" + s
@@ -278,6 +281,9 @@ func parseExp(s string) (int32, error) {
 		s = s[1:]
 		neg = true
 	}
+	if len(s) == 0 {
+		return 0, strconv.ErrSyntax
+	}
 
 	if len(s) % 2 == 1 {
 		s = "0" + s
@@ -292,11 +298,14 @@ func parseExp(s string) (int32, error) {
 	}
 	var buf [4]byte
 	copy(buf[len(buf)-len(bytes):], bytes)
-	val := int32(binary.BigEndian.Uint32(buf[:]))
+	val := int64(binary.BigEndian.Uint32(buf[:]))
 	if neg {
 		val = -val
 	}
-	return val, nil
+	if val < math.MinInt32 || val > math.MaxInt32 {
+		return 0, strconv.ErrRange
+	}
+	return int32(val), nil
 }
 
 func (n longNumber) Object() interface{} {
-- 
2.43.0


From 228860b97373fa0a563ef877e883be62b60c8058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 32/52] fix: apply positive exponents when converting decimals
 to big integers

---
 number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number.go b/number.go
index 5c06efe..3bd9fda 100644
--- a/number.go
+++ b/number.go
@@ -511,7 +511,7 @@ func (n bigIntNumber) BigInt() *big.Int {
 }
 
 func (n decimalNumber) BigInt() *big.Int {
-	return decimal.Decimal(n).Floor().Coefficient()
+	return decimal.Decimal(n).Floor().BigInt()
 }
 
 func (n longNumber) Decimal() decimal.Decimal {
-- 
2.43.0


From ef09c00c6414e9b081aafd8488a973cad2b91b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 33/52] fix: convert infinities to big integer and decimal
 zero, like NaN

---
 number.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index 3bd9fda..d40985f 100644
--- a/number.go
+++ b/number.go
@@ -497,7 +497,7 @@ func (n longNumber) BigInt() *big.Int {
 
 func (n doubleNumber) BigInt() *big.Int {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return big.NewInt(0)
 	}
 	f := new(big.Float)
@@ -520,7 +520,7 @@ func (n longNumber) Decimal() decimal.Decimal {
 
 func (n doubleNumber) Decimal() decimal.Decimal {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return decimal.NewFromInt(0)
 	}
 	return decimal.NewFromFloat(d)
-- 
2.43.0


From 28cb616f0d427f25404f3d31e09f1bc9f5737d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 34/52] fix: compare numbers of different types by value in
 both directions

---
 number.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/number.go b/number.go
index d40985f..9ca02ca 100644
--- a/number.go
+++ b/number.go
@@ -586,34 +586,44 @@ func (n longNumber) Equal(val Value) bool {
 	if val == nil || val.Kind() != NUMBER {
 		return false
 	}
-	other := val.(Number)
-	return n.Long() == other.Long()
+	return equalNumbers(n, val.(Number))
 }
 
 func (n doubleNumber) Equal(val Value) bool {
 	if val == nil || val.Kind() != NUMBER {
 		return false
 	}
-	other := val.(Number)
-	if n.IsNaN() || other.IsNaN() {
-		return false
-	}
-	return  math.Abs(n.Double() - other.Double()) < PrecisionLevel
+	return equalNumbers(n, val.(Number))
 }
 
 func (n bigIntNumber) Equal(val Value) bool {
 	if val == nil || val.Kind() != NUMBER {
 		return false
 	}
-	other := val.(Number)
-	return n.Int.Cmp(other.BigInt()) == 0
+	return equalNumbers(n, val.(Number))
 }
 
 func (n decimalNumber) Equal(val Value) bool {
 	if val == nil || val.Kind() != NUMBER {
 		return false
 	}
-	other := val.(Number)
-	return n.Decimal().Cmp(other.Decimal()) == 0
+	return equalNumbers(n, val.(Number))
 }
 
+// compares numeric values in the widest of both types
+func equalNumbers(left, right Number) bool {
+	if left.IsNaN() || right.IsNaN() {
+		return false
+	}
+	if left.Type() == DOUBLE || right.Type() == DOUBLE {
+		l, r := left.Double(), right.Double()
+		if math.IsInf(l, 0) || math.IsInf(r, 0) {
+			return left.Type() == right.Type() && l == r
+		}
+		return math.Abs(l - r) < PrecisionLevel
+	}
+	if left.Type() == DECIMAL || right.Type() == DECIMAL {
+		return left.Decimal().Cmp(right.Decimal()) == 0
+	}
+	return left.BigInt().Cmp(right.BigInt()) == 0
+}
-- 
2.43.0


From c9dfbc50fdd06c73c572e531c8dc4fa997ce2f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 35/52] fix: let nil be equal to null in both directions

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 3a88039..9703c45 100644
--- a/utils.go
+++ b/utils.go
@@ -107,7 +107,7 @@ func Unseal(encrypted []byte, senderPublicKey, recipientPrivateKey *[32]byte) (V
 
 func Equal(left Value, right Value) bool {
 	if left == nil {
-		return right == nil
+		return right == nil || right.Kind() == NULL
 	}
 	return left.Equal(right)
 }
-- 
2.43.0


From 71aa285e2df48a1bd4ea62483564bf6113726ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 36/52] fix: compare text with blobs by their bytes in both
 directions

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 441535b..7211f3c 100644
--- a/string.go
+++ b/string.go
@@ -85,7 +85,7 @@ func (s uft8String) Equal(val Value) bool {
 	if val == nil || val.Kind() != STRING {
 		return false
 	}
-	return string(s) == val.String()
+	return string(s) == val.(String).Utf8()
 }
 
 func (s uft8String) Len() int {
-- 
2.43.0


From 6c6a579a51a131ea7d4806693d84d6bab4a76b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 37/52] fix: compare sparse lists by all entries and with dense
 lists like these do

---
 sparselist.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sparselist.go b/sparselist.go
index 47719a2..7e3af43 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -166,8 +166,11 @@ func (t sparseListValue) Equal(val Value) bool {
 	if val == nil || val.Kind() != LIST {
 		return false
 	}
-	o := val.(List)
-	if t.Len() != o.Len() {
+	o, ok := val.(sparseListValue)
+	if !ok {
+		return val.Equal(t)
+	}
+	if len(t) != len(o) {
 		return false
 	}
 	// entries are sorted
-- 
2.43.0


From 5bbcc09ad0a5d6c3f7a4dd5e25035fd120613c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 38/52] fix: give a sparse list with only negative indexes the
 length zero

---
 sparselist.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sparselist.go b/sparselist.go
index 7e3af43..d4c49cc 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -86,12 +86,11 @@ func (t sparseListValue) Entries() []MapEntry {
 
 // ignore negative keys
 func (t sparseListValue) Values() []Value {
-	n := len(t)
+	n := t.Len()
 	if n == 0 {
 		return nil
 	}
-	maxKey := t[n-1].Key()
-	values := make([]Value, maxKey+1)
+	values := make([]Value, n)
 
 	for _, item := range t {
 		if item.Key() >= 0 {
@@ -107,6 +106,9 @@ func (t sparseListValue) Len() int {
 		return 0
 	} else {
 		maxKey := t[n-1].Key()
+		if maxKey < 0 {
+			return 0
+		}
 		return maxKey+1
 	}
 }
-- 
2.43.0


From 8cf64d13d52006cf8df69191bfc186db4098a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 39/52] fix: make the entries view of sparse lists immutable,
 like that of other lists

---
 sparselist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparselist.go b/sparselist.go
index d4c49cc..f326778 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -79,7 +79,7 @@ func (t sparseListValue) Items() []ListItem {
 func (t sparseListValue) Entries() []MapEntry {
 	var entries []MapEntry
 	for _, item := range t {
-		entries = append(entries, MutableEntry(strconv.Itoa(item.Key()), item.Value()))
+		entries = append(entries, ImmutableEntry(strconv.Itoa(item.Key()), item.Value()))
 	}
 	return entries
 }
-- 
2.43.0


From 77cddc794da66cc162665dece23010bebf9d8c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 40/52] fix: treat nil elements as null in typed getters

---
 immutablelist.go | 10 +++++-----
 immutablemap.go  | 10 +++++-----
 solidlist.go     | 10 +++++-----
 sortedmap.go     | 10 +++++-----
 sparselist.go    | 10 +++++-----
 5 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/immutablelist.go b/immutablelist.go
index a1f2c36..27df64a 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -137,7 +137,7 @@ func (t immutableListValue) GetAt(i int) Value {
 
 func (t immutableListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -148,7 +148,7 @@ func (t immutableListValue) GetBoolAt(index int) Bool {
 
 func (t immutableListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -159,7 +159,7 @@ func (t immutableListValue) GetNumberAt(index int) Number {
 
 func (t immutableListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -170,7 +170,7 @@ func (t immutableListValue) GetStringAt(index int) String {
 
 func (t immutableListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -183,7 +183,7 @@ func (t immutableListValue) GetListAt(index int) List {
 
 func (t immutableListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return ImmutableMap(value.(List).Entries(), false)
diff --git a/immutablemap.go b/immutablemap.go
index eb65218..1d25bda 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -194,7 +194,7 @@ func (t immutableMapValue) Get(key string) Value {
 
 func (t immutableMapValue) GetBool(key string) Bool {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -205,7 +205,7 @@ func (t immutableMapValue) GetBool(key string) Bool {
 
 func (t immutableMapValue) GetNumber(key string) Number {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -216,7 +216,7 @@ func (t immutableMapValue) GetNumber(key string) Number {
 
 func (t immutableMapValue) GetString(key string) String {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -227,7 +227,7 @@ func (t immutableMapValue) GetString(key string) String {
 
 func (t immutableMapValue) GetList(key string) List {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -240,7 +240,7 @@ func (t immutableMapValue) GetList(key string) List {
 
 func (t immutableMapValue) GetMap(key string) Map {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return ImmutableMap(value.(List).Entries(), false)
diff --git a/solidlist.go b/solidlist.go
index c3ab6e1..70c701c 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -145,7 +145,7 @@ func (t solidListValue) GetAt(i int) Value {
 
 func (t solidListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -156,7 +156,7 @@ func (t solidListValue) GetBoolAt(index int) Bool {
 
 func (t solidListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -167,7 +167,7 @@ func (t solidListValue) GetNumberAt(index int) Number {
 
 func (t solidListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -178,7 +178,7 @@ func (t solidListValue) GetStringAt(index int) String {
 
 func (t solidListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -191,7 +191,7 @@ func (t solidListValue) GetListAt(index int) List {
 
 func (t solidListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
diff --git a/sortedmap.go b/sortedmap.go
index 36733c2..8639b48 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -195,7 +195,7 @@ func (t sortedMapValue) Get(key string) Value {
 
 func (t sortedMapValue) GetBool(key string) Bool {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -206,7 +206,7 @@ func (t sortedMapValue) GetBool(key string) Bool {
 
 func (t sortedMapValue) GetNumber(key string) Number {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -217,7 +217,7 @@ func (t sortedMapValue) GetNumber(key string) Number {
 
 func (t sortedMapValue) GetString(key string) String {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -228,7 +228,7 @@ func (t sortedMapValue) GetString(key string) String {
 
 func (t sortedMapValue) GetList(key string) List {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -241,7 +241,7 @@ func (t sortedMapValue) GetList(key string) List {
 
 func (t sortedMapValue) GetMap(key string) Map {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
diff --git a/sparselist.go b/sparselist.go
index f326778..a5b2950 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -201,7 +201,7 @@ func (t sparseListValue) GetAt(key int) Value {
 
 func (t sparseListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -212,7 +212,7 @@ func (t sparseListValue) GetBoolAt(index int) Bool {
 
 func (t sparseListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -223,7 +223,7 @@ func (t sparseListValue) GetNumberAt(index int) Number {
 
 func (t sparseListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -234,7 +234,7 @@ func (t sparseListValue) GetStringAt(index int) String {
 
 func (t sparseListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -247,7 +247,7 @@ func (t sparseListValue) GetListAt(index int) List {
 
 func (t sparseListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
-- 
2.43.0


From 6c467c2c0a673d4de743205214d2fc2b770f6eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 41/52] fix: do not modify or keep the slice given to InsertAll

---
 immutablelist.go | 1 +
 immutablemap.go  | 1 +
 solidlist.go     | 1 +
 sortedmap.go     | 1 +
 sparselist.go    | 1 +
 5 files changed, 5 insertions(+)

diff --git a/immutablelist.go b/immutablelist.go
index 27df64a..ba37b15 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -313,6 +313,7 @@ func (t immutableListValue) InsertAll(i int, list []Value) List {
 		return t
 	}
 
+	list = CopyOf(list)
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/immutablemap.go b/immutablemap.go
index 1d25bda..0ef816d 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -371,6 +371,7 @@ func (t immutableMapValue) InsertAll(key string, list []Value) Map {
 		return t
 	}
 
+	list = CopyOf(list)
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/solidlist.go b/solidlist.go
index 70c701c..e3bd90d 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -320,6 +320,7 @@ func (t solidListValue) InsertAll(i int, list []Value) List {
 		return t
 	}
 
+	list = CopyOf(list)
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/sortedmap.go b/sortedmap.go
index 8639b48..d95ae43 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -370,6 +370,7 @@ func (t sortedMapValue) InsertAll(key string, list []Value) Map {
 		return t
 	}
 
+	list = CopyOf(list)
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/sparselist.go b/sparselist.go
index a5b2950..1939568 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -407,6 +407,7 @@ func (t sparseListValue) InsertAll(key int, list []Value) List {
 		return t
 	}
 
+	list = CopyOf(list)
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
-- 
2.43.0


From 73589897ffc811d26297ce8f8f5568c874122865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 42/52] fix: copy the entries in ImmutableMapCopyOf and
 SortedMapCopyOf

---
 immutablemap.go | 3 +++
 sortedmap.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/immutablemap.go b/immutablemap.go
index 0ef816d..6caa1e3 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -48,6 +48,9 @@ func ImmutableMap(entries []MapEntry, sorted bool) Map {
 
 func ImmutableMapCopyOf(other Map) Map {
 	t := immutableMapValue(mapEntryCopyOf(other.Entries()))
+	for i, entry := range t {
+		t[i] = ImmutableEntry(entry.Key(), entry.Value())
+	}
 	return t
 }
 
diff --git a/sortedmap.go b/sortedmap.go
index d95ae43..3c09883 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -49,6 +49,9 @@ func SortedMap(entries []MapEntry, sorted bool) Map {
 
 func SortedMapCopyOf(other Map) Map {
 	t := sortedMapValue(mapEntryCopyOf(other.Entries()))
+	for i, entry := range t {
+		t[i] = MutableEntry(entry.Key(), entry.Value())
+	}
 	return t
 }
 
-- 
2.43.0


From 604d15d7bd43f1385e1acc23938ade2ebfb88aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 43/52] fix: print infinities as null in JSON

---
 number.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index 9ca02ca..5bd0278 100644
--- a/number.go
+++ b/number.go
@@ -367,7 +367,7 @@ func (n longNumber) PrintJSON(out *strings.Builder) {
 
 func (n doubleNumber) PrintJSON(out *strings.Builder) {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		out.WriteString("null")
 	} else {
 		out.WriteString(strconv.FormatFloat(d, 'f', -1, 64))
@@ -392,7 +392,7 @@ func (n longNumber) MarshalJSON() ([]byte, error) {
 
 func (n doubleNumber) MarshalJSON() ([]byte, error) {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return []byte("null"), nil
 	} else {
 		return []byte(strconv.FormatFloat(d, 'f', -1, 64)), nil
-- 
2.43.0


From 34fdc79e4b334f402feb31bf77d21429d10deb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 44/52] fix: quote text and map keys as JSON

---
 immutablemap.go |  5 +----
 sortedmap.go    |  5 +----
 string.go       | 14 +++++++++++---
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/immutablemap.go b/immutablemap.go
index 6caa1e3..9f5d309 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -135,10 +135,7 @@ func (t immutableMapValue) PrintJSON(out *strings.Builder) {
 		if i != 0 {
 			out.WriteRune(',')
 		}
-		out.WriteRune(jsonQuote)
-		out.WriteString(entry.Key())
-		out.WriteRune(jsonQuote)
-
+		out.WriteString(quoteJSON(entry.Key()))
 		out.WriteString(": ")
 		value := entry.Value()
 		if value != nil {
diff --git a/sortedmap.go b/sortedmap.go
index 3c09883..0eb7d56 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -136,10 +136,7 @@ func (t sortedMapValue) PrintJSON(out *strings.Builder) {
 		if i != 0 {
 			out.WriteRune(',')
 		}
-		out.WriteRune(jsonQuote)
-		out.WriteString(entry.Key())
-		out.WriteRune(jsonQuote)
-
+		out.WriteString(quoteJSON(entry.Key()))
 		out.WriteString(": ")
 		value := entry.Value()
 		if value != nil {
diff --git a/string.go b/string.go
index 7211f3c..fb8edc1 100644
--- a/string.go
+++ b/string.go
@@ -9,9 +9,9 @@ package value
 import (
 	"bytes"
 	"encoding/base64"
+	"encoding/json"
 	"fmt"
 	"reflect"
-	"strconv"
 	"strings"
 )
 
@@ -67,11 +67,19 @@ func (s uft8String) Pack(p Packer) {
 }
 
 func (s uft8String) PrintJSON(out *strings.Builder) {
-	out.WriteString(strconv.Quote(string(s)))
+	out.WriteString(quoteJSON(string(s)))
 }
 
 func (s uft8String) MarshalJSON() ([]byte, error) {
-	return []byte(strconv.Quote(string(s))), nil
+	return []byte(quoteJSON(string(s))), nil
+}
+
+func quoteJSON(s string) string {
+	var out strings.Builder
+	enc := json.NewEncoder(&out)
+	enc.SetEscapeHTML(false)
+	enc.Encode(s)
+	return strings.TrimSuffix(out.String(), "\n")
 }
 
 func (s uft8String) MarshalBinary() ([]byte, error) {
-- 
2.43.0


From ef960e341715ffbd74dc29a2a1cf160fecf57db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 45/52] fix: do not compute huge powers of ten for decimals

---
 number.go | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/number.go b/number.go
index 5bd0278..4d75ac6 100644
--- a/number.go
+++ b/number.go
@@ -468,7 +468,12 @@ func (n bigIntNumber) Long() int64 {
 }
 
 func (n decimalNumber) Long() int64 {
-	return decimal.Decimal(n).IntPart()
+	dec := decimal.Decimal(n)
+	// no need to compute powers of ten, that do not leave anything in 64 bits
+	if dec.Exponent() >= 64 || decimalMagnitude(dec) < 0 {
+		return 0
+	}
+	return dec.IntPart()
 }
 
 func (n longNumber) Double() float64 {
@@ -487,10 +492,27 @@ func (n bigIntNumber) Double() float64 {
 }
 
 func (n decimalNumber) Double() float64 {
-	v, _ := decimal.Decimal(n).Float64()
+	dec := decimal.Decimal(n)
+	// no need to compute powers of ten far outside of the range of doubles
+	if m := decimalMagnitude(dec); m > 400 {
+		return math.Inf(dec.Sign())
+	} else if m < -400 {
+		return math.Copysign(0, float64(dec.Sign()))
+	}
+	v, _ := dec.Float64()
 	return v
 }
 
+// number of digits before the decimal point, negative number of zeros after it, precise to few digits
+func decimalMagnitude(dec decimal.Decimal) int64 {
+	coef := dec.Coefficient()
+	if coef.Sign() == 0 {
+		return math.MinInt32
+	}
+	digits := int64(float64(coef.BitLen()) * math.Log10(2)) + 1
+	return int64(dec.Exponent()) + digits
+}
+
 func (n longNumber) BigInt() *big.Int {
 	return big.NewInt(int64(n))
 }
@@ -511,7 +533,11 @@ func (n bigIntNumber) BigInt() *big.Int {
 }
 
 func (n decimalNumber) BigInt() *big.Int {
-	return decimal.Decimal(n).Floor().BigInt()
+	dec := decimal.Decimal(n)
+	if decimalMagnitude(dec) < 0 {
+		dec = decimal.New(int64(dec.Sign()), -1)  // has the same floor
+	}
+	return dec.Floor().BigInt()
 }
 
 func (n longNumber) Decimal() decimal.Decimal {
@@ -623,7 +649,18 @@ func equalNumbers(left, right Number) bool {
 		return math.Abs(l - r) < PrecisionLevel
 	}
 	if left.Type() == DECIMAL || right.Type() == DECIMAL {
-		return left.Decimal().Cmp(right.Decimal()) == 0
+		return equalDecimals(left.Decimal(), right.Decimal())
 	}
 	return left.BigInt().Cmp(right.BigInt()) == 0
 }
+
+func equalDecimals(left, right decimal.Decimal) bool {
+	if left.Sign() != right.Sign() || left.Sign() == 0 {
+		return left.Sign() == right.Sign()
+	}
+	// no need to compute powers of ten for numbers of different size
+	if d := decimalMagnitude(left) - decimalMagnitude(right); d < -2 || d > 2 {
+		return false
+	}
+	return left.Cmp(right) == 0
+}
-- 
2.43.0


From 4c73d54627d77b198176c3e1e6fc284115ccef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 46/52] fix: limit nesting of keys in keys

---
 struct.go |  2 +-
 unpack.go | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/struct.go b/struct.go
index 2ed3304..f9958b7 100644
--- a/struct.go
+++ b/struct.go
@@ -295,7 +295,7 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 		return parser.Error()
 	}
 	for i := 0; i < cnt; i++ {
-		key, err := doParse(unpacker, parser, depth+1)
+		key, err := doParse(unpacker, parser, depth+keyDepth)
 		if err != nil {
 			return errors.Errorf("fail to parse key on position %d, %v", i, err)
 		}
diff --git a/unpack.go b/unpack.go
index c1570ae..0f547c4 100644
--- a/unpack.go
+++ b/unpack.go
@@ -16,6 +16,10 @@ import (
 // values nested deeper are refused, because every level takes the stack
 const maxDepth = 10000
 
+// maps in keys are converted to text, and quotes of the inner text are doubled on every level of keys
+const maxKeyDepth = 4
+const keyDepth = maxDepth / maxKeyDepth
+
 var errTooDeep = errors.New("parse: value is nested too deep")
 
 func doParse(unpacker Unpacker, parser Parser, depth int) (Value, error) {
@@ -92,9 +96,6 @@ func readError(unpacker Unpacker, eof error) error {
 
 // parses value inside of another one, where end of input is never expected
 func doParseInner(unpacker Unpacker, parser Parser, depth int) (Value, error) {
-	if depth > maxDepth {
-		return nil, errTooDeep
-	}
 	value, err := doParse(unpacker, parser, depth)
 	if err == io.EOF {
 		err = io.ErrUnexpectedEOF
@@ -113,6 +114,9 @@ func preallocSize(cnt int) int {
 }
 
 func doParseList(header []byte, unpacker Unpacker, parser Parser, depth int) (List, error) {
+	if depth > maxDepth {
+		return nil, errTooDeep
+	}
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -132,6 +136,9 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser, depth int) (Li
 }
 
 func doParseMap(header []byte, unpacker Unpacker, parser Parser, depth int) (Value, error) {
+	if depth > maxDepth {
+		return nil, errTooDeep
+	}
 	cnt := parser.ParseMap(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -147,7 +154,7 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser, depth int) (Val
 	var prevMapKey string
 
 	for i := 0; i < cnt; i++ {
-		key, err := doParseInner(unpacker, parser, depth+1)
+		key, err := doParseInner(unpacker, parser, depth+keyDepth)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 9869c85039fcf6e1b4cf370be321fcbfa75838a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 47/52] fix: accept leading zeros in exponents of hexadecimal
 decimals

---
 number.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/number.go b/number.go
index 4d75ac6..6498ea5 100644
--- a/number.go
+++ b/number.go
@@ -285,6 +285,7 @@ func parseExp(s string) (int32, error) {
 		return 0, strconv.ErrSyntax
 	}
 
+	s = strings.TrimLeft(s, "0")
 	if len(s) % 2 == 1 {
 		s = "0" + s
 	}
-- 
2.43.0


From 28f6a39bdd2d64f17b773706d19d835f852aaf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 48/52] fix: print all digits of doubles that parse as long

---
 number.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/number.go b/number.go
index 6498ea5..d5a8a2a 100644
--- a/number.go
+++ b/number.go
@@ -212,6 +212,8 @@ func (n doubleNumber) String() string {
 	d := float64(n)
 	if math.IsNaN(d) {
 		return "NaN"
+	} else if d == math.Trunc(d) && math.Abs(d) < 1<<63 {
+		return strconv.FormatFloat(d, 'f', 0, 64)  // all digits, they are parsed as long
 	} else {
 		return strconv.FormatFloat(d, 'f', -1, 64)
 	}
-- 
2.43.0


From 721f5d62ce6c11c0951f661a97cbe6681c414c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 49/52] fix: do not remove items of sparse lists in place

---
 sparselist.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sparselist.go b/sparselist.go
index 1939568..dc33c8e 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -378,9 +378,8 @@ func (t sparseListValue) removeAt(i, n int) List {
 	if i == 0 {
 		return t[1:]
 	} else if i+1 == n {
-		return t[:i]
-	} else if AllowFastAppends {
-		return append(t[:i], t[i+1:]...)
+		// no spare capacity, because fast appends would overwrite the removed item of this list
+		return t[:i:i]
 	} else {
 		dst := make([]ListItem, n-1)
 		copy(dst, t[:i])
@@ -483,9 +482,8 @@ func (t sparseListValue) removeSliceAt(i, cnt, n int) List {
 	if i == 0 {
 		return t[cnt:]
 	} else if i+cnt == n {
-		return t[:i]
-	} else if AllowFastAppends  {
-		return append(t[:i], t[i+cnt:]...)
+		// no spare capacity, because fast appends would overwrite the removed items of this list
+		return t[:i:i]
 	} else {
 		dst := make([]ListItem, n-cnt)
 		copy(dst, t[:i])
-- 
2.43.0


From 44ebf804ecfaddef7a96379b407761fbd384c5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 50/52] fix: keep the order of entries with equal keys when
 sorting them

---
 immutablemap.go | 2 +-
 sortedmap.go    | 2 +-
 sparselist.go   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/immutablemap.go b/immutablemap.go
index 9f5d309..f6e6d1a 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -41,7 +41,7 @@ func ImmutableMapOf(src map[string]Value) Map {
 func ImmutableMap(entries []MapEntry, sorted bool) Map {
 	t := immutableMapValue(entries)
 	if !sorted {
-		sort.Sort(t)
+		sort.Stable(t)
 	}
 	return t
 }
diff --git a/sortedmap.go b/sortedmap.go
index 0eb7d56..5269510 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -42,7 +42,7 @@ func SortedMapOf(src map[string]Value) Map {
 func SortedMap(entries []MapEntry, sorted bool) Map {
 	t := sortedMapValue(entries)
 	if !sorted {
-		sort.Sort(t)
+		sort.Stable(t)
 	}
 	return t
 }
diff --git a/sparselist.go b/sparselist.go
index dc33c8e..bd69cea 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -49,7 +49,7 @@ func SparseListOf(list []Value) List {
 
 func SparseList(items []ListItem, sorted bool) List {
 	if !sorted {
-		sort.Sort(sortableItems(items))
+		sort.Stable(sortableItems(items))
 	}
 	return sparseListValue(items)
 }
-- 
2.43.0


From 33abf33305ed16d19f951edb9fa0163d2100f765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 51/52] fix: removing the last entry of an immutable map gives
 away no room of it

---
 immutablemap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immutablemap.go b/immutablemap.go
index f6e6d1a..0ae818d 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -344,7 +344,7 @@ func (t immutableMapValue) removeAt(i, n int) Map {
 	if i == 0 {
 		return t[1:]
 	} else if i+1 == n {
-		return t[:i]
+		return t[:i:i]
 	}  else {
 		dst := make([]MapEntry, n-1)
 		copy(dst, t[:i])
-- 
2.43.0


From b783d6e3d5deba67fa45f78ccabc25337125cd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:07 +0000
Subject: [PATCH 52/52] fix: counts and lengths of 2^32 and more were truncated
 in headers

---
 msgpack.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/msgpack.go b/msgpack.go
index 859367b..65eca6b 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -217,7 +217,15 @@ func (p *messagePacker) PackDouble(val float64) {
 	}
 }
 
+// lengths and counts in headers have at most 32 bits
+func (p *messagePacker) checkSize(size int) {
+	if p.err == nil && uint64(size) > math.MaxUint32 {
+		p.err = errors.Errorf("pack: size %d is out of range", size)
+	}
+}
+
 func (p *messagePacker) PackStr(str string) {
+	p.checkSize(len(str))
 	b := []byte(str)
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteStrHeader(len(b)))
@@ -228,6 +236,7 @@ func (p *messagePacker) PackStr(str string) {
 }
 
 func (p *messagePacker) PackBin(b []byte) {
+	p.checkSize(len(b))
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteBinHeader(len(b)))
 	}
@@ -237,6 +246,7 @@ func (p *messagePacker) PackBin(b []byte) {
 }
 
 func (p *messagePacker) PackExt(xtag Ext, data []byte) {
+	p.checkSize(len(data))
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteExtHeader(len(data), byte(xtag)))
 	}
@@ -249,6 +259,7 @@ func (p *messagePacker) PackList(size int) {
 	if size < 0 {
 		size = 0
 	}
+	p.checkSize(size)
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteArrayHeader(size))
 	}
@@ -258,6 +269,7 @@ func (p *messagePacker) PackMap(size int) {
 	if size < 0 {
 		size = 0
 	}
+	p.checkSize(size)
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteMapHeader(size))
 	}
-- 
2.43.0

