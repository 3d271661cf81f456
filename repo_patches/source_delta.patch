From aa98b85fb882abf9b833117a0fb868cf468fb968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 01/87] fix: encode values of named unsigned and sized signed
 integer types

encodeViaReflection called rv.Int() on unsigned kinds, which panics, and
passed the sized kind to encodeInt, which only knew reflect.Int, so that a
negative value of a named int8 came out as a huge positive VARINT.
---
 Go/sereal/encode.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 57b4a39..7b67174 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -498,9 +498,11 @@ func (e *Encoder) encodeViaReflection(b []byte, rv reflect.Value, isKeyOrClass b
 			b = append(b, typeFALSE)
 		}
 
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
-		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		b = e.encodeInt(b, rk, rv.Int())
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		b = e.encodeInt(b, reflect.Int, rv.Int())
+
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		b = e.encodeInt(b, reflect.Uint, int64(rv.Uint()))
 
 	case reflect.Float32:
 		b = e.encodeFloat(b, float32(rv.Float()))
-- 
2.43.0


From 401e164cfd16cbb18b12bc175f0d9f670f3e8a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 02/87] fix: mark v1 documents with incremental snappy as such

A v1 encoder with SnappyCompressor{Incremental: true} wrote the length prefix
of the incremental format under the plain snappy document type, which no
decoder can read.
---
 Go/sereal/encode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 7b67174..d8246ff 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -168,10 +168,10 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 			if e.version > 1 && !c.Incremental {
 				return nil, errors.New("non-incremental snappy compression only valid for v1 documents")
 			}
-			if e.version == 1 {
-				doctype = serealSnappy
-			} else {
+			if c.Incremental {
 				doctype = serealSnappyIncremental
+			} else {
+				doctype = serealSnappy
 			}
 		case ZlibCompressor:
 			if e.version < 3 {
-- 
2.43.0


From 8c40d8d9bc60c3a1d6b5dc021dd24e18cb159c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 03/87] fix: encode and decode maps whose key type is not plain
 string

Keys were encoded like any other value (an integer key gave a document no
decoder accepts), or with reflect.Value.String() under PerlCompat, which turned
every non-string key into the same text. Encode string keys of named and
interface key types, return an error for the others, and let the decoder fill
maps with a named string key type.
---
 Go/sereal/decode.go |  3 +++
 Go/sereal/encode.go | 28 ++++++++++++----------------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index fb9c6e6..a00c3be 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -952,6 +952,9 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 			}
 
 			keyValue := reflect.ValueOf(string(key))
+			if keyType := ptr.Type().Key(); keyType.Kind() == reflect.String {
+				keyValue = keyValue.Convert(keyType)
+			}
 			if value := ptr.MapIndex(keyValue); value.IsValid() {
 				// strkey exists in map, replace its content but respect structure
 				idx, err = d.decodeViaReflection(by, idx, value)
diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index d8246ff..026d78d 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -558,24 +558,20 @@ func (e *Encoder) encodeMap(by []byte, m reflect.Value, isRefNext bool, state *m
 	by = append(by, typeHASH)
 	by = varint(by, uint(len(keys)))
 
-	if e.PerlCompat {
-		var err error
-		for _, k := range keys {
-			by = e.encodeString(by, k.String(), true, state.strTable)
-			if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
-				return by, err
-			}
+	var err error
+	for _, k := range keys {
+		for k.Kind() == reflect.Interface {
+			k = k.Elem()
 		}
-	} else {
-		var err error
-		for _, k := range keys {
-			if by, err = e.encode(by, k, true, false, state, remainingDepth); err != nil {
-				return by, err
-			}
 
-			if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
-				return by, err
-			}
+		// hash keys are always strings
+		if k.Kind() != reflect.String {
+			return nil, fmt.Errorf("no support for map key of kind '%s' in %s", k.Kind(), m.Type())
+		}
+
+		by = e.encodeString(by, k.String(), true, state.strTable)
+		if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
+			return by, err
 		}
 	}
 
-- 
2.43.0


From 88e0e17eab5f4e57b41afe326d86eb6ebad492c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 04/87] fix: do not confuse pointers to different values at the
 same address

The encoder knew pointers, and the data of strings and slices, by address
only: a pointer to a struct and one to its first field, slices and strings
that start at the same place with different lengths, and values of size zero
were all encoded as references to whichever came first. It also wrote the
offset of the REFN tag instead of the item that follows it, which says
'reference to the reference', and failed on a pointer to an interface that
holds a string. Key the table by type and length as well, and register the
item before descending into it, so that cycles close at once.
---
 Go/sereal/decode.go |  5 +++
 Go/sereal/encode.go | 78 ++++++++++++++++++++++++++-------------------
 2 files changed, 50 insertions(+), 33 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index a00c3be..e0f82da 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -581,6 +581,11 @@ func (d *Decoder) decodeBinary(by []byte, idx int, ln int, makeCopy bool) ([]byt
 	}
 
 	if makeCopy {
+		if ln == 0 {
+			// like in decodeArray(), it needs an address of its own
+			return make([]byte, 0, 1), idx, nil
+		}
+
 		res := make([]byte, ln)
 		copy(res, by[idx:idx+ln])
 		return res, idx + ln, nil
diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 026d78d..d6f4db0 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -28,7 +28,17 @@ type Encoder struct {
 
 type marshalState struct {
 	strTable map[string]int
-	ptrTable map[uintptr]int
+	ptrTable map[ptrKey]int
+}
+
+// ptrKey identifies the value a pointer refers to, or the data of a string,
+// slice, map or pointer. An address alone does not: a struct shares it with its first
+// field, and a slice or a string with the others that start at the same place.
+type ptrKey struct {
+	typ  reflect.Type
+	ptr  uintptr
+	len  int
+	data bool
 }
 
 type compressor interface {
@@ -110,7 +120,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	if header != nil && e.version >= 2 {
 		state := marshalState{
 			strTable: make(map[string]int),
-			ptrTable: make(map[uintptr]int),
+			ptrTable: make(map[ptrKey]int),
 		}
 
 		// this is both the flag byte (== "there is user data") and also a hack to make 1-based offsets work
@@ -131,7 +141,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	remainingDepth := remainingRecursion(e.MaxRecursionDepth)
 	state := marshalState{
 		strTable: make(map[string]int),
-		ptrTable: make(map[uintptr]int),
+		ptrTable: make(map[ptrKey]int),
 	}
 
 	encBody := make([]byte, 0, e.ExpectedSize)
@@ -630,16 +640,16 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 		}
 	}
 
-	rvptr := rv.Pointer()
-	rvptr2 := getPointer(rv.Elem())
-
-	offs, ok := state.ptrTable[rvptr]
+	// values of size zero may share their address
+	key := ptrKey{typ: rv.Type().Elem(), ptr: rv.Pointer()}
+	if key.typ.Size() == 0 {
+		key.ptr = 0
+	}
+	dataKey := getDataKey(rv.Elem())
 
-	if !ok && rvptr2 != 0 {
-		offs, ok = state.ptrTable[rvptr2]
-		if ok {
-			rvptr = rvptr2
-		}
+	offs, ok := state.ptrTable[key]
+	if !ok {
+		offs, ok = state.ptrTable[dataKey]
 	}
 
 	if ok { // seen this before
@@ -647,12 +657,14 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 		by = varint(by, uint(offs))
 		by[offs] |= trackFlag // original offset now tracked
 	} else {
-		lenbOrig := len(by)
-
 		by = append(by, typeREFN)
 
-		if rvptr != 0 {
-			state.ptrTable[rvptr] = lenbOrig
+		// The thing that this points to starts one after the current pointer
+		if key.ptr != 0 {
+			state.ptrTable[key] = len(by)
+		}
+		if dataKey.ptr != 0 {
+			state.ptrTable[dataKey] = len(by)
 		}
 
 		var err error
@@ -660,11 +672,6 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 		if err != nil {
 			return nil, err
 		}
-
-		if rvptr2 != 0 {
-			// The thing this this points to starts one after the current pointer
-			state.ptrTable[rvptr2] = lenbOrig + 1
-		}
 	}
 
 	return by, nil
@@ -680,23 +687,28 @@ func varint(by []byte, n uint) []uint8 {
 	return append(by, byte(n))
 }
 
-func getPointer(rv reflect.Value) uintptr {
-	var rvptr uintptr
+// getDataKey returns the key of the data rv holds, which is shared between
+// copies of rv. Its ptr field is zero if there is none.
+func getDataKey(rv reflect.Value) ptrKey {
+	for rv.Kind() == reflect.Interface {
+		rv = rv.Elem()
+	}
 
 	switch rv.Kind() {
-	case reflect.Map, reflect.Slice:
-		rvptr = rv.Pointer()
-	case reflect.Interface:
-		// FIXME: still needed?
-		return getPointer(rv.Elem())
-	case reflect.Ptr:
-		rvptr = rv.Pointer()
+	case reflect.Map, reflect.Ptr:
+		return ptrKey{typ: rv.Type(), ptr: rv.Pointer(), data: true}
+	case reflect.Slice:
+		if rv.Cap() > 0 {
+			return ptrKey{typ: rv.Type(), ptr: rv.Pointer(), len: rv.Len(), data: true}
+		}
 	case reflect.String:
-		ps := (*reflect.StringHeader)(unsafe.Pointer(rv.UnsafeAddr()))
-		rvptr = ps.Data
+		if s := rv.String(); len(s) > 0 {
+			ps := (*reflect.StringHeader)(unsafe.Pointer(&s))
+			return ptrKey{typ: rv.Type(), ptr: ps.Data, len: len(s), data: true}
+		}
 	}
 
-	return rvptr
+	return ptrKey{}
 }
 
 func concreteName(value reflect.Value) string {
-- 
2.43.0


From 4e68f2cd093ca04c99effd072d29bf018a3020ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 05/87] fix: decode self-referential objects in place

A document whose root refers to itself failed to decode into a struct value
(the pointer to it could not be set) and, when the item is an object, into an
interface (it was decoded into a temporary, so the reference saw nil).
---
 Go/sereal/decode.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index e0f82da..13b7c8c 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -701,6 +701,13 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 
 	// at this point structure of decoding document is uknown, make a shortcut
 	if ptrKind == reflect.Interface && ptr.IsNil() {
+		if ptr.CanSet() {
+			if iptr, ok := ptr.Addr().Interface().(*interface{}); ok {
+				// decode in place because the data may refer to itself
+				return d.decode(by, idx, iptr)
+			}
+		}
+
 		var iface interface{}
 		var err error
 		idx, err = d.decode(by, idx, &iface)
@@ -860,7 +867,12 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 			return 0, err
 
 		}
-		ptr.Set(val.Elem())
+		if val.Type() == ptr.Type() {
+			// reference to a value that was decoded in place
+			ptr.Set(val)
+		} else {
+			ptr.Set(val.Elem())
+		}
 
 	case tag == typeWEAKEN:
 		if d.PerlCompat {
@@ -1071,8 +1083,12 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 	} else {
 		// rv contains original value
 		// i.e. it was saved in decodeViaReflection() path
-		res = reflect.New(rv.Type())
-		res.Elem().Set(rv)
+		if rv.CanAddr() {
+			res = rv.Addr()
+		} else {
+			res = reflect.New(rv.Type())
+			res.Elem().Set(rv)
+		}
 	}
 
 	return res, idx, nil
-- 
2.43.0


From 3fffac579d7fcdfeacbbe2d848128cba8965b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 06/87] fix: decode non-negative ZIGZAG integers

decodeZigzag took every value for a negative one.
---
 Go/sereal/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 13b7c8c..8c9c4c1 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -479,7 +479,7 @@ func (d *Decoder) decodeVarint(by []byte, idx int) (int, int, error) {
 
 func (d *Decoder) decodeZigzag(by []byte, idx int) (int, int, error) {
 	i, sz, err := varintdecode(by[idx:])
-	return int(-(1 + (uint64(i) >> 1))), idx + sz, err
+	return int(uint64(i)>>1) ^ -(i & 1), idx + sz, err
 }
 
 func (d *Decoder) decodeFloat(by []byte, idx int) (float32, int, error) {
-- 
2.43.0


From 59a6bba0210348fea1e6da2f9c02270e9dcdbeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 07/87] fix: resolve offsets in the user header relative to the
 header data

The decoder resolved COPY and REFP offsets in the user header from the start
of the document, although they are relative to the header data as the encoder
writes them, so headers with repeated hash keys did not decode. A suffix size
that is negative, or zero but not in its shortest form, was not handled.
---
 Go/sereal/decode.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 8c9c4c1..2cbf196 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -56,6 +56,10 @@ func readHeader(b []byte) (serealHeader, error) {
 		return serealHeader{}, err
 	}
 
+	if ln < 0 {
+		return serealHeader{}, ErrCorrupt{errBadOffset}
+	}
+
 	h.suffixSize = ln + sz
 	h.suffixStart = headerSize + sz
 
@@ -201,7 +205,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		return ErrCorrupt{errBadOffset}
 	}
 
-	if vheader != nil && header.suffixSize != 1 {
+	if vheader != nil && bodyStart > header.suffixStart {
 		d.tracked = make(map[int]reflect.Value)
 		defer func() { d.tracked = nil }()
 
@@ -212,10 +216,12 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 
 		header.suffixFlags = b[header.suffixStart]
 		if header.suffixFlags&1 == 1 {
+			// offsets are relative to the user data and 1-based, as in the body
+			suffix := b[header.suffixStart:bodyStart]
 			if ptr, ok := vheader.(*interface{}); ok && *ptr == nil {
-				_, err = d.decode(b[:bodyStart], header.suffixStart+1, ptr)
+				_, err = d.decode(suffix, 1, ptr)
 			} else {
-				_, err = d.decodeViaReflection(b[:bodyStart], header.suffixStart+1, headerValue.Elem())
+				_, err = d.decodeViaReflection(suffix, 1, headerValue.Elem())
 			}
 		}
 	}
-- 
2.43.0


From d820f624ee6a05c8e1f83929cc048e26d646091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 08/87] fix: forget the COPY depth of a failed call

After an error inside a COPY the decoder refused every later document that
uses COPY.
---
 Go/sereal/decode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 2cbf196..3338cc1 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -205,6 +205,8 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		return ErrCorrupt{errBadOffset}
 	}
 
+	d.copyDepth = 0 // a previous call may have failed half-way
+
 	if vheader != nil && bodyStart > header.suffixStart {
 		d.tracked = make(map[int]reflect.Value)
 		defer func() { d.tracked = nil }()
-- 
2.43.0


From e8ed263d5b57d97085c23cf212d4e21ad68ce02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 09/87] fix: accept a COPY of an item whose hash keys or class
 names are COPY tags

The specification makes this exception to the rule against nested COPY.
---
 Go/sereal/decode.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 3338cc1..c888cbe 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -84,6 +84,9 @@ type Decoder struct {
 	tcache    tagsCache
 	copyDepth int
 
+	// a value that is copied may itself copy hash keys and class names
+	strCopyDepth int
+
 	// PerlCompat produced a decoded data structure that preserves as much as possible the original Perl structure
 	PerlCompat bool
 	// DisableReferentialIntegrity produces a decoded data structure where Perl references are never decoded as Go pointers
@@ -205,7 +208,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		return ErrCorrupt{errBadOffset}
 	}
 
-	d.copyDepth = 0 // a previous call may have failed half-way
+	d.copyDepth, d.strCopyDepth = 0, 0 // a previous call may have failed half-way
 
 	if vheader != nil && bodyStart > header.suffixStart {
 		d.tracked = make(map[int]reflect.Value)
@@ -653,7 +656,7 @@ func (d *Decoder) decodeStringish(by []byte, idx int) ([]byte, int, error) {
 		idx += ln
 
 	case tag == typeCOPY:
-		if d.copyDepth > 0 {
+		if d.strCopyDepth > 0 {
 			return nil, 0, ErrCorrupt{errNestedCOPY}
 		}
 
@@ -666,9 +669,9 @@ func (d *Decoder) decodeStringish(by []byte, idx int) ([]byte, int, error) {
 		}
 		idx += sz
 
-		d.copyDepth++
+		d.strCopyDepth++
 		res, _, err = d.decodeStringish(by, offs)
-		d.copyDepth--
+		d.strCopyDepth--
 		if err != nil {
 			return nil, 0, err
 		}
-- 
2.43.0


From 4ecbae8c7ca47aa98ef8e20e41c8917f6a782aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 10/87] fix: do not allocate the claimed size of a compressed
 document unchecked

The uncompressed length in the zlib and snappy framing was used to size a
buffer as is: a few bytes could make the decoder panic (makeslice: cap out of
range) or allocate gigabytes.
---
 Go/sereal/snappy.go | 11 +++++++++++
 Go/sereal/zlib.go   |  9 +++++++++
 2 files changed, 20 insertions(+)

diff --git a/Go/sereal/snappy.go b/Go/sereal/snappy.go
index 8562ad1..4ac35de 100644
--- a/Go/sereal/snappy.go
+++ b/Go/sereal/snappy.go
@@ -6,6 +6,9 @@ import (
 	"github.com/golang/snappy"
 )
 
+// snappyMaxRatio is an upper bound on the compression ratio of snappy
+const snappyMaxRatio = 64
+
 // SnappyCompressor compresses a Sereal document using the Snappy format.
 type SnappyCompressor struct {
 	Incremental bool // enable incremental parsing
@@ -48,6 +51,14 @@ func (c SnappyCompressor) decompress(d, b []byte) ([]byte, error) {
 		b = b[sz : sz+ln]
 	}
 
+	// snappy allocates the claimed length of the uncompressed document up
+	// front, so do not trust one that b cannot possibly expand to
+	if uln, err := snappy.DecodedLen(b); err != nil {
+		return nil, err
+	} else if uln/snappyMaxRatio > len(b) {
+		return nil, ErrCorrupt{errBadOffset}
+	}
+
 	decompressed, err := snappy.Decode(d, b)
 	if err != nil {
 		return nil, err
diff --git a/Go/sereal/zlib.go b/Go/sereal/zlib.go
index 989dc27..226a0c4 100644
--- a/Go/sereal/zlib.go
+++ b/Go/sereal/zlib.go
@@ -17,6 +17,9 @@ const (
 	ZlibDefaultCompression = zlib.DefaultCompression
 )
 
+// zlibMaxRatio is an upper bound on the compression ratio of zlib
+const zlibMaxRatio = 1032
+
 func (c ZlibCompressor) compress(buf []byte) ([]byte, error) {
 	// Prepend a compressed block with its length, i.e.:
 	//
@@ -63,6 +66,12 @@ func (c ZlibCompressor) decompress(d, buf []byte) ([]byte, error) {
 
 	buf = buf[csz : csz+cln]
 
+	// the buffer for the uncompressed document is allocated up front, so do
+	// not trust a length that the compressed one cannot possibly expand to
+	if uln < 0 || uln/zlibMaxRatio > len(buf) {
+		return nil, ErrCorrupt{errBadOffset}
+	}
+
 	// XXX Perhaps check if len(buf) == cln
 
 	return zlibDecode(uln, buf)
-- 
2.43.0


From af69e42e047e28bb0215cc48cfe682e1c6595848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 11/87] fix: decompress a document with an empty body

DecompressDocument panicked on a compressed body that is empty when
it was given a destination buffer.
---
 Go/sereal/decode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index c888cbe..ff03edc 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1403,9 +1403,13 @@ func DecompressDocument(dst, b []byte) (r []byte, err error) {
 	return dst, nil
 }
 
-// hasSameBuffer returns true if the two slices share the same array (it only works for slices with capacity > 0)
+// hasSameBuffer returns true if the two slices share the same array (slices without capacity share nothing)
 func hasSameBuffer(a, b []byte) bool {
 	aCap, bCap := cap(a), cap(b)
+	if aCap == 0 || bCap == 0 {
+		return false
+	}
+
 	aExt, bExt := a[:aCap], b[:bCap]
 
 	return &aExt[aCap-1] == &bExt[bCap-1]
-- 
2.43.0


From 76cb46a84338cb048145816f1bae59f4fa60662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 12/87] fix: decode a reference to a tracked undef

---
 Go/sereal/decode.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index ff03edc..71ad9e7 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -878,7 +878,9 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 			return 0, err
 
 		}
-		if val.Type() == ptr.Type() {
+		if val.Kind() == reflect.Interface && val.IsNil() {
+			ptr.Set(reflect.Zero(ptr.Type()))
+		} else if val.Type() == ptr.Type() {
 			// reference to a value that was decoded in place
 			ptr.Set(val)
 		} else {
@@ -1082,7 +1084,9 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 
 		if isREFP {
 			rvData := rv.Elem().Elem()
-			if d.DisableReferentialIntegrity {
+			if !rvData.IsValid() {
+				res = rv.Elem() // reference to undef
+			} else if d.DisableReferentialIntegrity {
 				res = rvData
 			} else {
 				res = reflect.New(rvData.Type())
-- 
2.43.0


From 65944adaa1852ba7ae0e9d78f1446912415e6882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 13/87] fix: do not let a decoded regexp alias the input buffer

All other decoded values are copies, so callers may reuse the buffer.
---
 Go/sereal/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 71ad9e7..72c6a17 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -696,8 +696,8 @@ func (d *Decoder) decodeRegexp(by []byte, idx int) (*PerlRegexp, int, error) {
 		return nil, 0, err
 	}
 
-	// TODO perhaps, copy values
-	return &PerlRegexp{pattern, modifiers}, idx, nil
+	// decodeStringish() returns slices of by, which belongs to the caller
+	return &PerlRegexp{append([]byte{}, pattern...), append([]byte{}, modifiers...)}, idx, nil
 }
 
 /********************************************************************
-- 
2.43.0


From 919f451935651f77afd543b4c9c51bd2798390e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 14/87] fix: make the package-level Marshal safe for concurrent
 use

It shared one Encoder, whose cache of struct tags is a plain map, between all
callers: concurrent calls with structs raced and could crash the program.
Unmarshal already creates a Decoder per call.
---
 Go/sereal/encode.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index d6f4db0..5b0e3de 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -72,11 +72,10 @@ func NewEncoderV3() *Encoder {
 	}
 }
 
-var defaultEncoder = NewEncoderV3()
-
 // Marshal encodes body with the default encoder
 func Marshal(body interface{}) ([]byte, error) {
-	return defaultEncoder.MarshalWithHeader(nil, body)
+	// an Encoder is not safe for concurrent use, hence not a shared one
+	return NewEncoderV3().MarshalWithHeader(nil, body)
 }
 
 // Marshal returns the Sereal encoding of body
-- 
2.43.0


From b63205d2982351425f18fde560e0de0be967c153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 15/87] fix: limit the nesting depth of documents to decode

A document of about a megabyte that nests deeply enough made the decoder
overflow the stack, which is fatal to the whole program and cannot be
recovered from.
---
 Go/sereal/decode.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 72c6a17..92d4fe8 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -77,6 +77,10 @@ func LooksLikeSereal(b []byte) bool {
 	return err == nil
 }
 
+// maxDecodeDepth limits the nesting of a document: a decoder that followed it
+// any further might exhaust the stack, which cannot be recovered from
+const maxDecodeDepth = 100000
+
 // A Decoder reads and decodes Sereal objects from an input buffer
 type Decoder struct {
 	tracked   map[int]reflect.Value
@@ -84,6 +88,9 @@ type Decoder struct {
 	tcache    tagsCache
 	copyDepth int
 
+	// nesting depth of the item that is being decoded
+	depth int
+
 	// a value that is copied may itself copy hash keys and class names
 	strCopyDepth int
 
@@ -208,7 +215,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		return ErrCorrupt{errBadOffset}
 	}
 
-	d.copyDepth, d.strCopyDepth = 0, 0 // a previous call may have failed half-way
+	d.copyDepth, d.strCopyDepth, d.depth = 0, 0, 0 // a previous call may have failed half-way
 
 	if vheader != nil && bodyStart > header.suffixStart {
 		d.tracked = make(map[int]reflect.Value)
@@ -281,6 +288,10 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		return 0, ErrTruncated
 	}
 
+	if d.depth++; d.depth > maxDecodeDepth {
+		return 0, ErrMaxRecursionLimit
+	}
+
 	tag := by[idx]
 
 	// skip over any padding bytes
@@ -473,6 +484,7 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 	}
 
 	//fmt.Printf("stop decode: tag %d (0x%x)\n", int(tag), int(tag))
+	d.depth--
 	return idx, err
 }
 
@@ -728,6 +740,10 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		return idx, err
 	}
 
+	if d.depth++; d.depth > maxDecodeDepth {
+		return 0, ErrMaxRecursionLimit
+	}
+
 	tag := by[idx]
 	for tag == typePAD || tag == typePAD|trackFlag {
 		idx++
@@ -913,6 +929,7 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		return 0, fmt.Errorf("unknown tag byte: %d (0x%x)", int(tag), int(tag))
 	}
 
+	d.depth--
 	return idx, err
 }
 
-- 
2.43.0


From ca47834492a8e494e801d7ac3f72252f7d6c2eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 16/87] fix: do not let nested containers each claim the rest
 of the document

The declared size of an array or hash was checked against the length of the
whole document only, and the decoder allocates it up front: a document of
100 kB made of nested arrays could ask for tens of gigabytes.
---
 Go/sereal/decode.go | 46 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 92d4fe8..68ebd6a 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -91,6 +91,9 @@ type Decoder struct {
 	// nesting depth of the item that is being decoded
 	depth int
 
+	// number of items that the containers being decoded still expect
+	pending int
+
 	// a value that is copied may itself copy hash keys and class names
 	strCopyDepth int
 
@@ -215,7 +218,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		return ErrCorrupt{errBadOffset}
 	}
 
-	d.copyDepth, d.strCopyDepth, d.depth = 0, 0, 0 // a previous call may have failed half-way
+	d.copyDepth, d.strCopyDepth, d.depth, d.pending = 0, 0, 0, 0 // a previous call may have failed half-way
 
 	if vheader != nil && bodyStart > header.suffixStart {
 		d.tracked = make(map[int]reflect.Value)
@@ -430,9 +433,12 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		}
 		idx += sz
 
+		pending := d.pending
+		d.pending = 0 // they follow the COPY tag, not the item it refers to
 		d.copyDepth++
 		_, err = d.decode(by, offs, ptr)
 		d.copyDepth--
+		d.pending = pending
 
 	case tag == typeREFN:
 		if d.PerlCompat {
@@ -488,6 +494,18 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 	return idx, err
 }
 
+// expectItems checks that ln more items can follow at idx. Each of them takes
+// one byte at least, and so do the ones that the enclosing containers expect:
+// without those, nested containers could each claim the rest of the document.
+func (d *Decoder) expectItems(by []byte, idx int, ln int) error {
+	if ln > len(by)-idx-d.pending {
+		return ErrTruncated
+	}
+
+	d.pending += ln
+	return nil
+}
+
 func (d *Decoder) decodeInt(tag byte) int {
 	if (tag & 0x10) == 0x10 {
 		return int(tag) - 32 // negative number
@@ -528,8 +546,8 @@ func (d *Decoder) decodeHash(by []byte, idx int, ln int, ptr *interface{}, isRef
 		return 0, ErrCorrupt{errBadHashSize}
 	}
 
-	if idx+2*ln > len(by) {
-		return 0, ErrTruncated
+	if err := d.expectItems(by, idx, 2*ln); err != nil {
+		return 0, err
 	}
 
 	hash := make(map[string]interface{}, ln)
@@ -542,6 +560,7 @@ func (d *Decoder) decodeHash(by []byte, idx int, ln int, ptr *interface{}, isRef
 
 	var err error
 	for i := 0; i < ln; i++ {
+		d.pending -= 2
 		var key []byte
 		key, idx, err = d.decodeStringish(by, idx)
 		if err != nil {
@@ -565,8 +584,8 @@ func (d *Decoder) decodeArray(by []byte, idx int, ln int, ptr *interface{}, isRe
 		return 0, ErrCorrupt{errBadSliceSize}
 	}
 
-	if idx+ln > len(by) {
-		return 0, ErrTruncated
+	if err := d.expectItems(by, idx, ln); err != nil {
+		return 0, err
 	}
 
 	var slice []interface{}
@@ -586,6 +605,7 @@ func (d *Decoder) decodeArray(by []byte, idx int, ln int, ptr *interface{}, isRe
 
 	var err error
 	for i := 0; i < ln; i++ {
+		d.pending--
 		idx, err = d.decode(by, idx, &slice[i])
 		if err != nil {
 			return 0, err
@@ -881,9 +901,12 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		}
 		idx += sz
 
+		pending := d.pending
+		d.pending = 0 // they follow the COPY tag, not the item it refers to
 		d.copyDepth++
 		_, err = d.decodeViaReflection(by, offs, ptr)
 		d.copyDepth--
+		d.pending = pending
 
 	case tag == typeREFN:
 		idx, err = d.decodeViaReflection(by, idx, ptr)
@@ -938,8 +961,8 @@ func (d *Decoder) decodeArrayViaReflection(by []byte, idx int, ln int, ptr refle
 		return 0, ErrCorrupt{errBadSliceSize}
 	}
 
-	if idx+ln > len(by) {
-		return 0, ErrTruncated
+	if err := d.expectItems(by, idx, ln); err != nil {
+		return 0, err
 	}
 
 	switch ptr.Kind() {
@@ -959,6 +982,7 @@ func (d *Decoder) decodeArrayViaReflection(by []byte, idx int, ln int, ptr refle
 	ptrLen := ptr.Len()
 
 	for i := 0; i < ln; i++ {
+		d.pending--
 		if i < ptrLen {
 			idx, err = d.decodeViaReflection(by, idx, ptr.Index(i))
 		} else {
@@ -980,8 +1004,10 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 		return 0, ErrCorrupt{errBadHashSize}
 	}
 
-	if idx+2*ln > len(by) {
-		return 0, ErrTruncated
+	if ptr.Kind() != reflect.Ptr {
+		if err := d.expectItems(by, idx, 2*ln); err != nil {
+			return 0, err
+		}
 	}
 
 	switch ptr.Kind() {
@@ -992,6 +1018,7 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 
 		var err error
 		for i := 0; i < ln; i++ {
+			d.pending -= 2
 			var key []byte
 			key, idx, err = d.decodeStringish(by, idx)
 			if err != nil {
@@ -1032,6 +1059,7 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 		tags := d.tcache.Get(ptr)
 		var err error
 		for i := 0; i < ln; i++ {
+			d.pending -= 2
 			var key []byte
 			key, idx, err = d.decodeStringish(by, idx)
 			if err != nil {
-- 
2.43.0


From 5949618c6ee4f8930fd03cc3c7e1d626c5e8f1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:06 +0000
Subject: [PATCH 17/87] fix: finish a merged document that grows when it is
 compressed

The compressed body was copied over the uncompressed one, which cut off
whatever did not fit, and panicked if the buffer had no room left.
---
 Go/sereal/merge.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index eca2046..fa38283 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -218,8 +218,7 @@ func (m *Merger) Finish() ([]byte, error) {
 			}
 
 			// TODO think about some optimizations here
-			copy(m.buf[m.bodyOffset+1:], compressed)
-			m.buf = m.buf[:len(compressed)+m.bodyOffset+1]
+			m.buf = append(m.buf[:m.bodyOffset+1], compressed...)
 
 			// verify compressor, there was little point in veryfing compressor in initMerger()
 			// because use can change it meanwhile
-- 
2.43.0


From dd7deb4e56e2fdce8763b52f7c44615bf4c17f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:06 +0000
Subject: [PATCH 18/87] fix: check the header of documents to merge like the
 decoder does

Append ignored unsupported document types and versions, merging their bodies
as if they were plain, and panicked on a user header longer than the document.
---
 Go/sereal/merge.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index fa38283..a2b6fb1 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -157,19 +157,27 @@ func (m *Merger) Append(b []byte) (int, error) {
 		return 0, errors.New("finished document")
 	}
 
-	docHeader, err := readHeader(b)
+	docHeader, err := checkHeader(b)
 	if err != nil {
 		return 0, err
 	}
 
+	bodyStart := headerSize + docHeader.suffixSize
+	if bodyStart > len(b) || bodyStart < 0 {
+		return 0, ErrCorrupt{errBadOffset}
+	}
+
 	doc := mergerDoc{
-		buf:        b[headerSize+docHeader.suffixSize:],
+		buf:        b[bodyStart:],
 		version:    int(docHeader.version),
 		startIdx:   0,
 		bodyOffset: -1, // 1-based offsets
 	}
 
 	decomp, err := documentDecompressor(docHeader.version, docHeader.doctype)
+	if err != nil {
+		return 0, err
+	}
 
 	if decomp != nil {
 		if doc.buf, err = decomp.decompress(nil, doc.buf); err != nil {
-- 
2.43.0


From d4dad1e145ff019cc9accfa6227b0bc945cc626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 19/87] fix: reject truncated documents when merging

Append accepted documents that end before all the items they announce, which
made the merged document undecodable, and panicked on others: on a float cut
short, an object without a class name, or an empty body with KeepFlat.
---
 Go/sereal/merge.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index a2b6fb1..d54756f 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -303,13 +303,10 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 			if err != nil {
 				return err
 			}
-			idx += sz + ln + 1
-
 			if ln < 0 || ln > math.MaxUint32 {
 				return fmt.Errorf("bad size for string: %d", ln)
-			} else if idx > len(buf) {
-				return fmt.Errorf("truncated document, expect %d bytes", len(buf)-idx)
 			}
+			idx += sz + ln + 1
 
 		case tag == typeARRAY, tag == typeHASH:
 			_, sz, err := varintdecode(buf[idx+1:])
@@ -348,6 +345,10 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 		default:
 			return fmt.Errorf("unknown tag: %d (0x%x) at offset %d", tag, tag, idx)
 		}
+
+		if idx > len(buf) {
+			return ErrTruncated
+		}
 	}
 
 	for idx := range doc.trackTable {
@@ -367,7 +368,7 @@ func (m *Merger) mergeItems(doc *mergerDoc) error {
 	if err != nil {
 		return err
 	}
-	if expElements < 0 || expElements > math.MaxUint32 {
+	if expElements < 0 || expElements > len(dbuf) {
 		return fmt.Errorf("bad amount of expected elements: %d", expElements)
 	}
 
@@ -511,7 +512,7 @@ LOOP:
 				return err
 
 			}
-			if ln < 0 {
+			if ln < 0 || ln > len(dbuf) {
 				return errors.New("bad array or hash length")
 			}
 
@@ -595,15 +596,24 @@ LOOP:
 		}
 	}
 
+	for _, expected := range stack {
+		if expected&^hashKeysValuesFlag != 0 {
+			return ErrTruncated
+		}
+	}
+
 	m.length += expElements
 	m.buf = mbuf
 	return nil
 }
 
 func (m *Merger) expectedElements(b []byte) (int, int, error) {
-	if m.KeepFlat {
+	if m.KeepFlat && len(b) > 0 {
 		tag0 := b[0] &^ trackFlag
-		tag1 := b[1] &^ trackFlag
+		tag1 := byte(typePAD)
+		if len(b) > 1 {
+			tag1 = b[1] &^ trackFlag
+		}
 
 		switch m.TopLevelElement {
 		case TopLevelArray:
@@ -630,6 +640,10 @@ func isShallowStringish(tag byte) bool {
 }
 
 func readString(buf []byte) (int, []byte, error) {
+	if len(buf) == 0 {
+		return 0, nil, ErrTruncated
+	}
+
 	tag := buf[0]
 	tag &^= trackFlag
 
-- 
2.43.0


From 22599e46578c92846ab664b53d15199f543f5b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 20/87] fix: compute offsets correctly when merging

Append rejected references to an item of one byte right before the tag, took
the offsets of v1 documents for body-relative ones, and set the track bit of
a byte five positions away from the tag that is referred to, which could
corrupt the data there.
---
 Go/sereal/merge.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index d54756f..ae94df3 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -66,7 +66,7 @@ type mergerDoc struct {
 	trackTable map[int]int
 	version    int
 	startIdx   int // 0-based
-	bodyOffset int // 1-based
+	bodyOffset int // 1-based since v2
 }
 
 // NewMerger returns a merger using the latest sereal version
@@ -171,7 +171,11 @@ func (m *Merger) Append(b []byte) (int, error) {
 		buf:        b[bodyStart:],
 		version:    int(docHeader.version),
 		startIdx:   0,
-		bodyOffset: -1, // 1-based offsets
+		bodyOffset: -1, // 1-based offsets since v2
+	}
+
+	if docHeader.version == 1 {
+		doc.bodyOffset = -bodyStart // offsets are relative to the document header
 	}
 
 	decomp, err := documentDecompressor(docHeader.version, docHeader.doctype)
@@ -322,7 +326,7 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 			if err != nil {
 				return err
 			}
-			if offset < 0 || offset >= idx {
+			if target := offset + doc.bodyOffset; target < 0 || target >= idx {
 				return fmt.Errorf("tag %d refers to invalid offset: %d", tag, offset)
 			}
 
@@ -501,7 +505,7 @@ LOOP:
 			didx += sz + 1
 
 			if tag == typeALIAS || tag == typeREFP {
-				mbuf[targetOffset] |= trackFlag
+				mbuf[targetOffset+m.bodyOffset] |= trackFlag
 			} else if tag == typeOBJECTV || tag == typeOBJECTV_FREEZE {
 				stack = append(stack, 1)
 			}
-- 
2.43.0


From fa7123259bd72e047f6739463ac16450d2f16b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 21/87] fix: merge documents that reuse class names and parts
 of regexps

Append failed on a class name that is a COPY of a string, which is what the
Go encoder writes for the second object of a class, on OBJECTV tags, and on
any reference after a class name that something refers to; a reference to an
object was turned into one to its class name. An empty pattern or modifiers
string of a regexp, such as those of qr/foo/, was taken for one with a varint
length.
---
 Go/sereal/merge.go | 112 +++++++++++++++++++++++++++++++++------------
 1 file changed, 82 insertions(+), 30 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index ae94df3..cd77ac9 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -393,7 +393,6 @@ LOOP:
 
 		docRelativeIdx := didx - doc.bodyOffset
 		mrgRelativeIdx := len(mbuf) - m.bodyOffset
-		trackme := len(doc.trackIdxs) > 0 && doc.trackIdxs[0] == docRelativeIdx
 
 		level := len(stack) - 1
 		for stack[level]&^hashKeysValuesFlag == 0 {
@@ -541,47 +540,51 @@ LOOP:
 			}
 
 		case tag == typeREGEXP:
-			offset, str, err := readString(dbuf[didx+1:])
-			if err != nil {
-				return err
-			}
+			doc.track(docRelativeIdx, mrgRelativeIdx)
+			mbuf = append(mbuf, dbuf[didx])
+			didx++
 
-			sizeToCopy := offset + len(str) + 1
-			offset, str, err = readString(dbuf[didx+sizeToCopy:])
-			if err != nil {
-				return err
-			}
+			// pattern and modifiers
+			for i := 0; i < 2; i++ {
+				str, err := doc.readString(didx)
+				if err != nil {
+					return err
+				}
 
-			sizeToCopy += offset + len(str)
-			mbuf = append(mbuf, dbuf[didx:didx+sizeToCopy]...)
-			didx += sizeToCopy
+				doc.track(str.start-doc.bodyOffset, len(mbuf)-m.bodyOffset)
+				mbuf = append(mbuf, str.literal...)
+				didx = str.end
+			}
 
 		case tag == typeOBJECT, tag == typeOBJECT_FREEZE:
+			doc.track(docRelativeIdx, mrgRelativeIdx)
+
 			// skip main tag for a second, and parse <STR-TAG>
-			offset, str, err := readString(dbuf[didx+1:])
+			str, err := doc.readString(didx + 1)
 			if err != nil {
 				return err
 			}
 
-			length := offset + len(str) + 1 // respect typeOBJECT tag
-			if savedOffset, ok := m.objTable[string(str)]; ok {
+			classOffset, ok := m.objTable[string(str.value)]
+			if ok {
 				if tag == typeOBJECT {
-					mbuf = appendTagVarint(mbuf, typeOBJECTV, uint(savedOffset))
+					mbuf = appendTagVarint(mbuf, typeOBJECTV, uint(classOffset))
 				} else {
-					mbuf = appendTagVarint(mbuf, typeOBJECTV_FREEZE, uint(savedOffset))
+					mbuf = appendTagVarint(mbuf, typeOBJECTV_FREEZE, uint(classOffset))
 				}
-
-				mrgRelativeIdx = savedOffset
 			} else {
 				// +1 because we should refer to string tag, not object tag
-				mrgRelativeIdx++
-				m.objTable[string(str)] = mrgRelativeIdx
-				mbuf = append(mbuf, dbuf[didx:didx+length]...)
+				classOffset = mrgRelativeIdx + 1
+				m.objTable[string(str.value)] = classOffset
+				mbuf = append(mbuf, dbuf[didx])
+				mbuf = append(mbuf, str.literal...)
 			}
 
+			doc.track(str.start-doc.bodyOffset, classOffset)
+
 			// parse <ITEM-TAG>
 			stack = append(stack, 1)
-			didx += length
+			didx = str.end
 
 		case tag == typePACKET_START:
 			return errors.New("unexpected start of new document")
@@ -593,11 +596,8 @@ LOOP:
 
 		stack[level]--
 
-		if trackme {
-			// if tag is tracked, remember its offset
-			doc.trackTable[docRelativeIdx] = mrgRelativeIdx
-			doc.trackIdxs = doc.trackIdxs[1:]
-		}
+		// if tag is tracked, remember its offset
+		doc.track(docRelativeIdx, mrgRelativeIdx)
 	}
 
 	for _, expected := range stack {
@@ -643,6 +643,58 @@ func isShallowStringish(tag byte) bool {
 	return tag == typeBINARY || tag == typeSTR_UTF8 || (tag >= typeSHORT_BINARY_0 && tag < typeSHORT_BINARY_0+32)
 }
 
+// track remembers the offset mrgIdx of the item at docIdx in the merged document
+// if something refers to it. Items have to be passed in document order.
+func (doc *mergerDoc) track(docIdx, mrgIdx int) {
+	for len(doc.trackIdxs) > 0 && doc.trackIdxs[0] <= docIdx {
+		if doc.trackIdxs[0] == docIdx {
+			doc.trackTable[docIdx] = mrgIdx
+		}
+		doc.trackIdxs = doc.trackIdxs[1:]
+	}
+}
+
+// mergerString is a class name, or a part of a regexp
+type mergerString struct {
+	start   int    // where its tag is
+	end     int    // where the next item starts
+	literal []byte // string tag, length and value
+	value   []byte
+}
+
+// readString reads the string at idx, which may be a COPY of an earlier one
+func (doc *mergerDoc) readString(idx int) (str mergerString, err error) {
+	for idx < len(doc.buf) && doc.buf[idx]&^trackFlag == typePAD {
+		idx++
+	}
+
+	str.start = idx
+	if idx < len(doc.buf) && doc.buf[idx]&^trackFlag == typeCOPY {
+		offset, sz, err := varintdecode(doc.buf[idx+1:])
+		if err != nil {
+			return str, err
+		}
+
+		str.end = idx + 1 + sz
+		idx = offset + doc.bodyOffset
+		if idx < 0 || idx >= str.start {
+			return str, ErrCorrupt{errBadOffset}
+		}
+	}
+
+	sz, value, err := readString(doc.buf[idx:])
+	if err != nil {
+		return str, err
+	}
+
+	str.literal, str.value = doc.buf[idx:idx+sz+len(value)], value
+	if str.end == 0 {
+		str.end = idx + sz + len(value)
+	}
+
+	return str, nil
+}
+
 func readString(buf []byte) (int, []byte, error) {
 	if len(buf) == 0 {
 		return 0, nil, ErrTruncated
@@ -656,7 +708,7 @@ func readString(buf []byte) (int, []byte, error) {
 	}
 
 	var ln, offset int
-	if tag > typeSHORT_BINARY_0 {
+	if tag >= typeSHORT_BINARY_0 {
 		ln = int(tag & 0x1F) // get length from tag
 	} else {
 		var err error
-- 
2.43.0


From 97f672bade57d71b878db2df23e0144e87b2eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 22/87] fix: keep string types and identities apart when
 deduplicating merged strings

A UTF-8 string became a COPY of a binary string with the same bytes and the
other way round, and a string that is referred to became a COPY of another
one, so that the reference pointed to the wrong string. Strings and class
names of a document that failed to merge were still used for later ones.
---
 Go/sereal/merge.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index cd77ac9..100f415 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -23,7 +23,8 @@ const hashKeysValuesFlag = uint32(1 << 31)
 // Merger merges multiple sereal documents without reconstructing them
 type Merger struct {
 	buf        []byte
-	strTable   map[string]int
+	strTable   map[string]int // BINARY and SHORT_BINARY
+	utf8Table  map[string]int // STR_UTF8
 	objTable   map[string]int
 	version    int
 	length     int
@@ -102,6 +103,7 @@ func (m *Merger) initMerger() error {
 
 	// initialize internal fields
 	m.strTable = make(map[string]int)
+	m.utf8Table = make(map[string]int)
 	m.objTable = make(map[string]int)
 
 	if m.ExpectedSize > 0 {
@@ -207,6 +209,13 @@ func (m *Merger) Append(b []byte) (int, error) {
 	// second pass: do the work
 	if err := m.mergeItems(&doc); err != nil {
 		m.buf = m.buf[0:lastElementOffset] // remove appended stuff
+		for _, table := range []map[string]int{m.strTable, m.utf8Table, m.objTable} {
+			for str, offset := range table {
+				if offset >= lastElementOffset-m.bodyOffset {
+					delete(table, str)
+				}
+			}
+		}
 		return 0, err
 	}
 
@@ -473,12 +482,20 @@ LOOP:
 			}
 
 			if dedupString {
+				strTable := m.strTable
+				if tag == typeSTR_UTF8 {
+					strTable = m.utf8Table
+				}
+
+				// a string that is referred to has an identity of its own
+				tracked := (dbuf[didx] & trackFlag) == trackFlag
+
 				val := dbuf[didx+sz+1 : didx+length]
-				if savedOffset, ok := m.strTable[string(val)]; ok {
+				if savedOffset, ok := strTable[string(val)]; ok && !tracked {
 					mbuf = appendTagVarint(mbuf, typeCOPY, uint(savedOffset))
 					mrgRelativeIdx = savedOffset
 				} else {
-					m.strTable[string(val)] = mrgRelativeIdx
+					strTable[string(val)] = mrgRelativeIdx
 					mbuf = append(mbuf, dbuf[didx:didx+length]...)
 				}
 			} else {
-- 
2.43.0


From 597a51a320931375bcca9fec4c5f798bf29d6d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 23/87] fix: decode frozen objects with PerlCompat

---
 Go/sereal/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 68ebd6a..49abcbd 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1227,6 +1227,10 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 		return 0, err
 	}
 
+	if ref, ok := iface.(*[]interface{}); ok {
+		iface = *ref // PerlCompat keeps the reference
+	}
+
 	wrapper, ok := iface.([]interface{})
 	if !ok {
 		return 0, ErrCorrupt{errFreezeNotArray}
-- 
2.43.0


From 45bdb9a140545eec68148f825d04efd1eea6613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 24/87] fix: reject class name offsets that do not point
 backwards

---
 Go/sereal/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 49abcbd..b7db3c0 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1168,6 +1168,9 @@ func (d *Decoder) decodeObjectViaReflection(by []byte, idx int, ptr reflect.Valu
 		if err != nil {
 			return 0, err
 		}
+		if offs < 0 || offs >= idx {
+			return 0, ErrCorrupt{errBadOffset}
+		}
 		idx += sz
 		className, _, err = d.decodeStringish(by, offs)
 	}
@@ -1203,6 +1206,9 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 		if err != nil {
 			return 0, err
 		}
+		if offs < 0 || offs >= idx {
+			return 0, ErrCorrupt{errBadOffset}
+		}
 		idx += sz
 		className, _, err = d.decodeStringish(by, offs)
 		if err != nil {
-- 
2.43.0


From a4ffc6a469cf030e0bd67bf729ab2ed904381706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 25/87] fix: accept a small ExpectedSize when merging

---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 100f415..7b84fc7 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -106,7 +106,7 @@ func (m *Merger) initMerger() error {
 	m.utf8Table = make(map[string]int)
 	m.objTable = make(map[string]int)
 
-	if m.ExpectedSize > 0 {
+	if m.ExpectedSize > headerSize {
 		m.buf = make([]byte, headerSize, m.ExpectedSize)
 	} else {
 		m.buf = make([]byte, headerSize)
-- 
2.43.0


From 4811390aa3e3f68feb6a065fa160109cb1584429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 26/87] fix: do not change the string type of class names when
 merging

---
 Go/sereal/merge.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 7b84fc7..228f346 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -25,7 +25,7 @@ type Merger struct {
 	buf        []byte
 	strTable   map[string]int // BINARY and SHORT_BINARY
 	utf8Table  map[string]int // STR_UTF8
-	objTable   map[string]int
+	objTable   map[string]int // by string type and class name
 	version    int
 	length     int
 	lenOffset  int
@@ -582,7 +582,12 @@ LOOP:
 				return err
 			}
 
-			classOffset, ok := m.objTable[string(str.value)]
+			class := "b:" + string(str.value)
+			if str.literal[0]&^trackFlag == typeSTR_UTF8 {
+				class = "u:" + string(str.value)
+			}
+
+			classOffset, ok := m.objTable[class]
 			if ok {
 				if tag == typeOBJECT {
 					mbuf = appendTagVarint(mbuf, typeOBJECTV, uint(classOffset))
@@ -592,7 +597,7 @@ LOOP:
 			} else {
 				// +1 because we should refer to string tag, not object tag
 				classOffset = mrgRelativeIdx + 1
-				m.objTable[string(str.value)] = classOffset
+				m.objTable[class] = classOffset
 				mbuf = append(mbuf, dbuf[didx])
 				mbuf = append(mbuf, str.literal...)
 			}
-- 
2.43.0


From 7c10270b2562476decf90799f8ea653a4451efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 27/87] fix: do not panic on a zstd frame that claims to be
 empty

---
 Go/sereal/zstd_cgo.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Go/sereal/zstd_cgo.go b/Go/sereal/zstd_cgo.go
index bc6a245..bdca433 100644
--- a/Go/sereal/zstd_cgo.go
+++ b/Go/sereal/zstd_cgo.go
@@ -12,6 +12,12 @@ func zstdEncode(buf []byte, level int) ([]byte, error) {
 }
 
 func zstdDecode(d, buf []byte) ([]byte, error) {
+	if cap(d) == 0 {
+		// zstd.Decompress() takes the address of the first byte even if the
+		// frame claims to be empty
+		d = make([]byte, 0, 1)
+	}
+
 	dst, err := zstd.Decompress(d, buf)
 	return dst, err
 }
-- 
2.43.0


From 20411f9328b5cf18c402b157a8db9f5ea2afc91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:43 +0000
Subject: [PATCH 28/87] fix: forget the frozen objects of one packet before the
 next (Perl decoder)

---
 Perl/Decoder/srl_decoder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 92c26b4..05e3a31 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -545,6 +545,12 @@ srl_clear_decoder_body_state(pTHX_ srl_decoder_t *dec)
         PTABLE_clear(dec->ref_stashes);
         PTABLE_clear(dec->ref_bless_av);
     }
+    /* the frozen objects of the last packet must not be mistaken for those of
+     * the next one, which may well live at the same addresses */
+    if (dec->thaw_av)
+        av_clear(dec->thaw_av);
+    if (dec->ref_thawhash)
+        PTABLE_clear(dec->ref_thawhash);
 
     dec->recursion_depth = 0;
 }
-- 
2.43.0


From 43662baf99be2fe872bfb52eff97d360696282cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 29/87] fix: do not alias hash keys (Perl encoder)

---
 Perl/Encoder/srl_encoder.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Perl/Encoder/srl_encoder.c b/Perl/Encoder/srl_encoder.c
index bb3929f..b58a95f 100644
--- a/Perl/Encoder/srl_encoder.c
+++ b/Perl/Encoder/srl_encoder.c
@@ -1425,7 +1425,15 @@ srl_dump_hv_sorted_sv_slow(pTHX_ srl_encoder_t *enc, HV *src, const UV n, HE_SV
         srl_qsort(aTHX_ enc, n, array);
 
         while ( array < array_end ) {
-            CALL_SRL_DUMP_SV(enc, array->key.sv);
+            if ( SRL_ENC_HAVE_OPTION(enc, SRL_F_ALIASED_DEDUPE_STRINGS) ) {
+                /* a key has to be a string, it can neither be an ALIAS nor
+                 * can something else be an ALIAS of it */
+                STRLEN len;
+                const char * const str= SvPV(array->key.sv, len);
+                srl_dump_pv(aTHX_ enc, str, len, SvUTF8(array->key.sv));
+            } else {
+                CALL_SRL_DUMP_SV(enc, array->key.sv);
+            }
             CALL_SRL_DUMP_SV(enc, array->val.sv);
             array++;
         }
-- 
2.43.0


From 9e2d036585e5945996ec1aa42ebf1e29d2f5276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 30/87] fix: check the merger's compressor before compressing

Finish marked the document as finished and compressed its body before it
refused the compressor, so that the next call returned that body without
an error, in a document of type raw.
---
 Go/sereal/merge.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 228f346..df17929 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -229,17 +229,10 @@ func (m *Merger) Finish() ([]byte, error) {
 	}
 
 	if !m.finished {
-		m.finished = true
 		binary.PutUvarint(m.buf[m.lenOffset:], uint64(m.length))
 
 		if m.Compression != nil && (m.CompressionThreshold == 0 || len(m.buf) >= m.CompressionThreshold) {
-			compressed, err := m.Compression.compress(m.buf[m.bodyOffset+1:])
-			if err != nil {
-				return m.buf, err
-			}
-
-			// TODO think about some optimizations here
-			m.buf = append(m.buf[:m.bodyOffset+1], compressed...)
+			var doctype documentType
 
 			// verify compressor, there was little point in veryfing compressor in initMerger()
 			// because use can change it meanwhile
@@ -249,19 +242,30 @@ func (m *Merger) Finish() ([]byte, error) {
 					return nil, errors.New("non-incremental snappy compression is not supported")
 				}
 
-				m.buf[4] |= byte(serealSnappyIncremental) << 4
+				doctype = serealSnappyIncremental
 
 			case ZlibCompressor:
 				if m.version < 3 {
 					return nil, errors.New("zlib compression only valid for v3 documents and up")
 				}
 
-				m.buf[4] |= byte(serealZlib) << 4
+				doctype = serealZlib
 
 			default:
 				return nil, errors.New("unknown compressor")
 			}
+
+			compressed, err := m.Compression.compress(m.buf[m.bodyOffset+1:])
+			if err != nil {
+				return m.buf, err
+			}
+
+			// TODO think about some optimizations here
+			m.buf = append(m.buf[:m.bodyOffset+1], compressed...)
+			m.buf[4] |= byte(doctype) << 4
 		}
+
+		m.finished = true
 	}
 
 	return m.buf, nil
-- 
2.43.0


From a6f7d44377b0a3f14616ea926a50dc8e49d1fa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 31/87] fix: resolve references from behind fewer pointers

A *T that refers to a value which was decoded through a **T could not be
decoded.
---
 Go/sereal/decode.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index b7db3c0..9d945ac 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -923,7 +923,12 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 			// reference to a value that was decoded in place
 			ptr.Set(val)
 		} else {
-			ptr.Set(val.Elem())
+			val = val.Elem()
+			// the value may have been decoded behind more pointers than ptr has
+			for val.Kind() == reflect.Ptr && !val.IsNil() && !val.Type().AssignableTo(ptr.Type()) {
+				val = val.Elem()
+			}
+			ptr.Set(val)
 		}
 
 	case tag == typeWEAKEN:
-- 
2.43.0


From fc1a853e7ab6cba420e13c630a86e3c753d58a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 32/87] fix: Perl reader: do not read a varint beyond the end
 of the packet

---
 Perl/shared/srl_reader_varint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Perl/shared/srl_reader_varint.h b/Perl/shared/srl_reader_varint.h
index baea761..3799720 100644
--- a/Perl/shared/srl_reader_varint.h
+++ b/Perl/shared/srl_reader_varint.h
@@ -168,9 +168,9 @@ srl_read_varint_uv(pTHX_ srl_reader_buffer_t *buf)
      * is true if the varint continuation bit (high bit of the byte)
      * is not set on the last byte in the buffer (because then the
      * unrolled logic is guaranteed to terminate before over-reading
-     * past the end of the buffer. */
+     * past the end of the buffer. That takes a byte to be left at all. */
     if (expect_true( buf->end - buf->pos >= SRL_MAX_VARINT_LENGTH )
-                     || !(*(buf->end - 1) & 0x80))
+                     || (SRL_RDR_NOT_DONE(buf) && !(*(buf->end - 1) & 0x80)))
     {
         if (sizeof(UV) == sizeof(U32)) {
             return srl_read_varint_u32_nocheck(aTHX_ buf);
-- 
2.43.0


From 3154743a7fe33ba8b6fc8bc7e218327c659fe147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 33/87] fix: Perl reader: refuse offsets so large that they
 wrap around

---
 Perl/shared/srl_reader_varint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Perl/shared/srl_reader_varint.h b/Perl/shared/srl_reader_varint.h
index 3799720..2a57354 100644
--- a/Perl/shared/srl_reader_varint.h
+++ b/Perl/shared/srl_reader_varint.h
@@ -189,7 +189,7 @@ srl_read_varint_uv_offset(pTHX_ srl_reader_buffer_t *buf, const char * const err
     /* A "copy" reference can only refer to things that precede it
      * in the same body. This check asserts that it at least does not
      * refer to anything that is yet to be decoded. */
-    if (expect_false( buf->body_pos + offset >= buf->pos )) {
+    if (expect_false( offset >= (UV)SRL_RDR_BODY_POS_OFS(buf) )) {
         SRL_RDR_ERRORf4(buf, "Corrupted packet%s. Offset %"UVuf" points past current position %"UVuf" in packet with length of %"UVuf" bytes long",
                          errstr, offset, (UV)SRL_RDR_POS_OFS(buf), (UV)SRL_RDR_SIZE(buf));
     }
-- 
2.43.0


From 730c2feb68ab4de97e4beb4346e8f4f01dc7e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 34/87] fix: Perl decoder: check the length of a copied short
 string

---
 Perl/Decoder/srl_decoder.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 05e3a31..dafd0bc 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -1246,10 +1246,12 @@ srl_read_hash(pTHX_ srl_decoder_t *dec, SV* into, U8 tag) {
             UV ofs= srl_read_varint_uv_offset(aTHX_ dec->pbuf, " while reading COPY tag");
             from= dec->buf.body_pos + ofs;
             tag= *from++;
-            /* note we do NOT validate these items, as we have alread read them
-             * and if they were a problem we would not be here to process them! */
+            /* note that the offset need not be that of an item we have already read,
+             * it may point into the middle of one */
             if (IS_SRL_HDR_SHORT_BINARY(tag)) {
                 key_len= (KEYLENTYPE)SRL_HDR_SHORT_BINARY_LEN_FROM_TAG(tag);
+                if (expect_false( (STRLEN)(dec->buf.end - from) < (STRLEN)key_len ))
+                    SRL_RDR_ERROR_BAD_COPY(dec->pbuf, SRL_HDR_HASH);
             }
             else
             if (tag == SRL_HDR_BINARY) {
@@ -1571,10 +1573,12 @@ srl_read_object(pTHX_ srl_decoder_t *dec, SV* into, U8 obj_tag, int read_class_n
         if (!class_stash) {
             from= dec->buf.body_pos + ofs;
             tag= *from++;
-            /* Note we do NOT validate these items, as we have already read them
-             * and if they were a problem we would not be here to process them! */
+            /* Note that the offset need not be that of an item we have already read,
+             * it may point into the middle of one */
             if (IS_SRL_HDR_SHORT_BINARY(tag)) {
                 key_len= SRL_HDR_SHORT_BINARY_LEN_FROM_TAG(tag);
+                if (expect_false( (STRLEN)(dec->buf.end - from) < (STRLEN)key_len ))
+                    SRL_RDR_ERROR_BAD_COPY(dec->pbuf, SRL_HDR_OBJECT);
             }
             else
             if (tag == SRL_HDR_BINARY) {
-- 
2.43.0


From 8654e66151fac9b341f79e89930517feba1ab24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 35/87] fix: Perl decoder: count every kind of nesting towards
 max_recursion_depth

---
 Perl/Decoder/srl_decoder.c | 42 +++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index dafd0bc..3fecb63 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -114,6 +114,7 @@ SRL_STATIC_INLINE void srl_read_hash(pTHX_ srl_decoder_t *dec, SV* into, U8 tag)
 SRL_STATIC_INLINE void srl_read_array(pTHX_ srl_decoder_t *dec, SV* into, U8 tag);
 SRL_STATIC_INLINE void srl_read_regexp(pTHX_ srl_decoder_t *dec, SV* into);
 
+SRL_STATIC_INLINE void srl_read_prefixed_value(pTHX_ srl_decoder_t *dec, SV* into, int is_weaken);
 SRL_STATIC_INLINE void srl_read_refp(pTHX_ srl_decoder_t *dec, SV* into);
 SRL_STATIC_INLINE void srl_read_refn(pTHX_ srl_decoder_t *dec, SV* into);
 SRL_STATIC_INLINE void srl_read_weaken(pTHX_ srl_decoder_t *dec, SV* into);
@@ -1346,6 +1347,23 @@ srl_read_refn(pTHX_ srl_decoder_t *dec, SV* into)
     }
 }
 
+/* Read the value that a tag such as OBJECT or WEAKEN applies to. This should
+ * be a reference, which counts as a level of its own. Whatever else is there
+ * has to be counted here, as a packet could pile up such tags forever. */
+SRL_STATIC_INLINE void
+srl_read_prefixed_value(pTHX_ srl_decoder_t *dec, SV* into, int is_weaken)
+{
+    const U8 tag= SRL_RDR_DONE(dec->pbuf) ? 0 : *dec->buf.pos & ~SRL_HDR_TRACK_FLAG;
+    const int is_deeper= !(tag == SRL_HDR_REFN || IS_SRL_HDR_ARRAYREF(tag) || IS_SRL_HDR_HASHREF(tag)
+                           || (is_weaken && (tag == SRL_HDR_OBJECT || tag == SRL_HDR_OBJECTV
+                                             || tag == SRL_HDR_OBJECT_FREEZE || tag == SRL_HDR_OBJECTV_FREEZE)));
+    if (expect_false( is_deeper ))
+        DEPTH_INCREMENT(dec);
+    srl_read_single_value(aTHX_ dec, into, NULL);
+    if (expect_false( is_deeper ))
+        DEPTH_DECREMENT(dec);
+}
+
 SRL_STATIC_INLINE SV *
 srl_follow_refp_alias_reference(pTHX_ srl_decoder_t *dec, UV offset)
 {
@@ -1420,7 +1438,7 @@ srl_read_weaken(pTHX_ srl_decoder_t *dec, SV* into)
     SV* referent;
     /* TODO This really just wants a subset of the states that srl_read_single_value covers, right?
      *      Optimization opportunity? Or robustness against invalid packets issue? */
-    srl_read_single_value(aTHX_ dec, into, NULL);
+    srl_read_prefixed_value(aTHX_ dec, into, 1);
     if (expect_false( !SvROK(into) ))
         SRL_RDR_ERROR(dec->pbuf, "WEAKEN op");
     referent= SvRV(into);
@@ -1489,7 +1507,7 @@ srl_read_objectv(pTHX_ srl_decoder_t *dec, SV* into, U8 obj_tag)
     } else {
         /* SRL_HDR_OBJECTV, not SRL_HDR_OBJECTV_FREEZE */
         /* now deparse the thing we are going to bless */
-        srl_read_single_value(aTHX_ dec, into, NULL);
+        srl_read_prefixed_value(aTHX_ dec, into, 0);
 
         /* and also stuff it into the av - we dont have to do any more book-keeping */
         av_push(av, SvREFCNT_inc(into));
@@ -1649,7 +1667,7 @@ srl_read_object(pTHX_ srl_decoder_t *dec, SV* into, U8 obj_tag, int read_class_n
         av_push(av, SvREFCNT_inc(into));
 
         /* now deparse the thing we are going to bless */
-        srl_read_single_value(aTHX_ dec, into, NULL);
+        srl_read_prefixed_value(aTHX_ dec, into, 0);
 
 #if USE_588_WORKAROUND
         /* See 'define USE_588_WORKAROUND' above for a discussion of what this does. */
@@ -1676,7 +1694,7 @@ srl_read_frozen_object(pTHX_ srl_decoder_t *dec, HV *class_stash, SV *into)
     AV_PUSH(dec->thaw_av, into);
 
     /* now fill out into with the AV that represents the object */
-    srl_read_single_value(aTHX_ dec, into, NULL);
+    srl_read_prefixed_value(aTHX_ dec, into, 0);
 
     /* validate that we actually deparsed an AV */
     assert(SvROK(into) && SvTYPE(SvRV(into)) == SVt_PVAV);
@@ -1778,7 +1796,7 @@ SRL_STATIC_INLINE void
 srl_read_regexp(pTHX_ srl_decoder_t *dec, SV* into)
 {
     SV *sv_pat= sv_2mortal(FRESH_SV());
-    srl_read_single_value(aTHX_ dec, sv_pat, NULL);
+    srl_read_prefixed_value(aTHX_ dec, sv_pat, 0);
     SRL_RDR_ASSERT_SPACE(dec->pbuf, 1, " while reading regexp modifer tag");
     /* For now we will serialize the flags as ascii strings. Maybe we should use
      * something else but this is easy to debug and understand - since the modifiers
@@ -1987,8 +2005,18 @@ srl_read_single_value(pTHX_ srl_decoder_t *dec, SV* into, SV** container)
         case SRL_HDR_OBJECTV:       srl_read_objectv(aTHX_ dec, into, tag); is_ref=1; break;
         case SRL_HDR_COPY:          srl_read_copy(aTHX_ dec, into);                   break;
         case SRL_HDR_EXTEND:        srl_read_extend(aTHX_ dec, into);                 break;
-        case SRL_HDR_HASH:          srl_read_hash(aTHX_ dec, into, 0);                break;
-        case SRL_HDR_ARRAY:         srl_read_array(aTHX_ dec, into, 0);               break;
+        case SRL_HDR_HASH:
+        case SRL_HDR_ARRAY:
+            /* without a reference that would have been counted */
+            if (expect_false( container != NULL ))
+                DEPTH_INCREMENT(dec);
+            if (tag == SRL_HDR_HASH)
+                srl_read_hash(aTHX_ dec, into, 0);
+            else
+                srl_read_array(aTHX_ dec, into, 0);
+            if (expect_false( container != NULL ))
+                DEPTH_DECREMENT(dec);
+            break;
         case SRL_HDR_REGEXP:        srl_read_regexp(aTHX_ dec, into);                 break;
         case SRL_HDR_ALIAS:
         {
-- 
2.43.0


From 0f10af2db5e6eed4abba2f0ac6c0b8f3121a8ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:51 +0000
Subject: [PATCH 36/87] fix: Perl decoder: do not touch a scalar that a shared
 one has replaced

---
 Perl/Decoder/srl_decoder.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 3fecb63..f3a3397 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -1291,7 +1291,7 @@ srl_read_hash(pTHX_ srl_decoder_t *dec, SV* into, U8 tag) {
             SRL_RDR_ERROR_PANIC(dec->pbuf, "failed to hv_store");
         }
         else
-        if ( expect_false( SvTYPE(*fetched_sv) != SVt_NULL ) ) {
+        if ( expect_false( SvTYPE(*fetched_sv) != SVt_NULL || *fetched_sv == &PL_sv_undef ) ) {
             /* sv_dump(*fetched_sv); */
             SRL_RDR_ERRORf2(dec->pbuf, "duplicate key '%.*s' in hash", (int) key_len, (char *)from);
         }
@@ -1939,6 +1939,7 @@ srl_read_single_value(pTHX_ srl_decoder_t *dec, SV* into, SV** container)
     U8 tag;
     int is_ref = 0;
     const U8 *track_it = NULL;
+    const U8 *first_track = NULL; /* differs from track_it only when PADs are tracked too */
 
   read_again:
     if (expect_false( SRL_RDR_DONE(dec->pbuf) ))
@@ -2034,7 +2035,6 @@ srl_read_single_value(pTHX_ srl_decoder_t *dec, SV* into, SV** container)
             *container= alias;
             if (track_it)
                 srl_track_sv(aTHX_ dec, track_it, alias);
-            return;
         }
         break;
         case SRL_HDR_PAD:           /* no op */
@@ -2046,6 +2046,8 @@ srl_read_single_value(pTHX_ srl_decoder_t *dec, SV* into, SV** container)
             if (tag & SRL_HDR_TRACK_FLAG) {
                 tag= tag & ~SRL_HDR_TRACK_FLAG;
                 track_it = dec->buf.pos-1;
+                if (!first_track)
+                    first_track = track_it;
                 srl_track_sv(aTHX_ dec, track_it, into);
                 goto read_tag;
             } else { 
@@ -2054,6 +2056,15 @@ srl_read_single_value(pTHX_ srl_decoder_t *dec, SV* into, SV** container)
         break;
     }
 
+    /* into is gone if a shared scalar has taken its place in the container */
+    if (expect_false( container && *container != into )) {
+        for ( ; first_track < track_it ; first_track++ ) {
+            if (*first_track & SRL_HDR_TRACK_FLAG)
+                srl_track_sv(aTHX_ dec, first_track, *container);
+        }
+        return;
+    }
+
     /* they want us to set all SVs readonly, or only the non-ref */
 #define SUPPORT_READONLY 1
 #if SUPPORT_READONLY
-- 
2.43.0


From a4d745d9f85bf249e8449f0d05f34455c65284de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:51 +0000
Subject: [PATCH 37/87] fix: Perl decoder: set_readonly must not follow what is
 no reference

---
 Perl/Decoder/srl_decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index f3a3397..fedb3f4 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -2073,7 +2073,7 @@ srl_read_single_value(pTHX_ srl_decoder_t *dec, SV* into, SV** container)
         if (
              dec->flags_readonly == 1 || !is_ref
         ) {
-            if (is_ref && !SvREADONLY(SvRV(into)) ) {
+            if (is_ref && SvROK(into) && !SvREADONLY(SvRV(into)) ) {
                 SvREADONLY_on(SvRV(into));
             }
             if (!SvREADONLY(into)) {
-- 
2.43.0


From 89056a028d4da33eb661e4b31a684cc2386fe163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:06 +0000
Subject: [PATCH 38/87] fix: Perl decoder: a nested decode honours the alias
 and readonly options too

---
 Perl/Decoder/srl_decoder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index fedb3f4..e8cbbb8 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -379,6 +379,8 @@ srl_build_decoder_struct_alike(pTHX_ srl_decoder_t *proto)
         dec->alias_cache = proto->alias_cache;
         SvREFCNT_inc(dec->alias_cache);
     }
+    dec->alias_varint_under = proto->alias_varint_under;
+    dec->flags_readonly = proto->flags_readonly;
 
     SRL_RDR_CLEAR(&dec->buf);
     dec->pbuf = &dec->buf;
-- 
2.43.0


From 49938caa4d48e38e8cba7b64412bcbed035a820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:06 +0000
Subject: [PATCH 39/87] fix: Perl decoder: an empty input no longer leaves the
 decoder in use

---
 Perl/Decoder/srl_decoder.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index e8cbbb8..7687392 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -527,11 +527,12 @@ srl_decode_all_into(pTHX_ srl_decoder_t *dec, SV *src, SV *header_into, SV *body
 SRL_STATIC_INLINE void
 srl_clear_decoder(pTHX_ srl_decoder_t *dec)
 {
+    /* not even an empty input may leave the decoder marked as being in use */
+    SRL_DEC_RESET_VOLATILE_FLAGS(dec);
     if (dec->buf.start == dec->buf.end)
         return;
 
     srl_clear_decoder_body_state(aTHX_ dec);
-    SRL_DEC_RESET_VOLATILE_FLAGS(dec);
     dec->buf.body_pos = dec->buf.start = dec->buf.end = dec->buf.pos = dec->save_pos = NULL;
 }
 
-- 
2.43.0


From 22d9c62bfe37607c22fdd59e07bd2af8f06b2074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 40/87] fix: Perl decoder: clean up before the decoder object
 can be gone

---
 Perl/Decoder/Decoder.xs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Perl/Decoder/Decoder.xs b/Perl/Decoder/Decoder.xs
index ffec36b..d43c86d 100644
--- a/Perl/Decoder/Decoder.xs
+++ b/Perl/Decoder/Decoder.xs
@@ -104,6 +104,12 @@ THX_pp1_sereal_decode(pTHX_ U8 opopt)
     }
 
     decoder = (srl_decoder_t *)SvIV(decoder_sv);
+
+    /* The cleanup at the end of the scope needs the decoder, which may be a
+     * temporary or go away in a THAW method. So hold it, and end the scope here. */
+    ENTER;
+    SAVEFREESV(SvREFCNT_inc(decoder_sv));
+
     if (expect_true(opopt & OPOPT_DO_BODY)) {
         if (opopt & OPOPT_DO_HEADER) {
              srl_decode_all_into(aTHX_ decoder, src_sv, header_into,
@@ -115,6 +121,8 @@ THX_pp1_sereal_decode(pTHX_ U8 opopt)
         srl_decode_header_into(aTHX_ decoder, src_sv, header_into, offset);
     }
 
+    LEAVE;
+
     if (expect_true(need_retvalue)) {
         SV *retvalue;
         if (expect_true(opopt & OPOPT_DO_BODY)) {
-- 
2.43.0


From 56743d37b83715e373ddab51e3b138312b4c8a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 41/87] fix: Perl decoder: empty the variable that is decoded
 into

---
 Perl/Decoder/srl_decoder.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 7687392..7b06b8d 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -434,6 +434,27 @@ srl_decoder_destructor_hook(pTHX_ void *p)
     }
 }
 
+/* Empty the variable that the caller wants a result in. We fill it like a
+ * fresh one, so it must not own, share or refer to anything anymore. */
+SRL_STATIC_INLINE void
+srl_prepare_into(pTHX_ srl_decoder_t *dec, SV *into)
+{
+    if (SvTYPE(into) == SVt_NULL && !SvREADONLY(into))
+        return;
+    if (expect_false( SvREADONLY(into) )) {
+        /* it may be what we have decoded into before */
+        if (!dec->flags_readonly || SvIMMORTAL(into))
+            croak("%s", PL_no_modify);
+        SvREADONLY_off(into);
+    }
+    if (expect_false( SvTYPE(into) >= SVt_PVAV || (SvTYPE(into) == SVt_PVGV && !SvFAKE(into)) ))
+        croak("Cannot decode into anything but a scalar");
+    /* the old value could hold the input */
+    if (SvROK(into))
+        sv_2mortal(SvREFCNT_inc(SvRV(into)));
+    sv_setsv(into, &PL_sv_undef);
+}
+
 /* Logic shared by the various decoder entry points. */
 SRL_STATIC_INLINE void
 srl_decode_into_internal(pTHX_ srl_decoder_t *origdec, SV *src, SV *header_into, SV *body_into, UV start_offset)
@@ -441,7 +462,12 @@ srl_decode_into_internal(pTHX_ srl_decoder_t *origdec, SV *src, SV *header_into,
     srl_decoder_t *dec;
 
     assert(origdec != NULL);
+    if (expect_false( src == header_into || src == body_into ))
+        src = sv_mortalcopy(src);
     dec = srl_begin_decoding(aTHX_ origdec, src, start_offset);
+    if (header_into)
+        srl_prepare_into(aTHX_ dec, header_into);
+    srl_prepare_into(aTHX_ dec, body_into);
     srl_read_header(aTHX_ dec, header_into);
     if (expect_false( SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_DECOMPRESS_SNAPPY) )) {
         dec->bytes_consumed = srl_decompress_body_snappy(aTHX_ dec->pbuf, dec->encoding_flags, NULL, dec->max_uncompressed_size);
@@ -486,9 +512,12 @@ srl_decode_header_into(pTHX_ srl_decoder_t *origdec, SV *src, SV* header_into, U
 {
     srl_decoder_t *dec;
     assert(origdec != NULL);
+    if (expect_false( src == header_into ))
+        src = sv_mortalcopy(src);
     dec = srl_begin_decoding(aTHX_ origdec, src, start_offset);
     if (header_into == NULL)
         header_into = sv_newmortal();
+    srl_prepare_into(aTHX_ dec, header_into);
     srl_read_header(aTHX_ dec, header_into);
     return header_into;
 }
-- 
2.43.0


From 4d69b354fd55b6a2f54c4d6547baf3905ca24cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 42/87] fix: Perl decoder: decode into elements that do not
 exist yet

---
 Perl/Decoder/srl_decoder.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 7b06b8d..586a7b2 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -434,6 +434,19 @@ srl_decoder_destructor_hook(pTHX_ void *p)
     }
 }
 
+/* The variable may be an element that does not exist yet. Then make it one that does. */
+SRL_STATIC_INLINE SV *
+srl_existing_into(pTHX_ SV *into)
+{
+    if (expect_false( SvTYPE(into) == SVt_PVLV && LvTYPE(into) == 'y' )) {
+        sv_setsv(into, &PL_sv_undef);
+        SvSETMAGIC(into);
+        if (LvTARG(into) && !LvTARGLEN(into))
+            return LvTARG(into);
+    }
+    return into;
+}
+
 /* Empty the variable that the caller wants a result in. We fill it like a
  * fresh one, so it must not own, share or refer to anything anymore. */
 SRL_STATIC_INLINE void
@@ -465,8 +478,11 @@ srl_decode_into_internal(pTHX_ srl_decoder_t *origdec, SV *src, SV *header_into,
     if (expect_false( src == header_into || src == body_into ))
         src = sv_mortalcopy(src);
     dec = srl_begin_decoding(aTHX_ origdec, src, start_offset);
-    if (header_into)
+    if (header_into) {
+        header_into = srl_existing_into(aTHX_ header_into);
         srl_prepare_into(aTHX_ dec, header_into);
+    }
+    body_into = srl_existing_into(aTHX_ body_into);
     srl_prepare_into(aTHX_ dec, body_into);
     srl_read_header(aTHX_ dec, header_into);
     if (expect_false( SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_DECOMPRESS_SNAPPY) )) {
@@ -504,6 +520,11 @@ srl_decode_into_internal(pTHX_ srl_decoder_t *origdec, SV *src, SV *header_into,
     }
 
     srl_clear_decoder(aTHX_ dec);
+
+    /* the variables may be tied */
+    if (header_into)
+        SvSETMAGIC(header_into);
+    SvSETMAGIC(body_into);
 }
 
 /* This is the main routine to deserialize just the header of a document. */
@@ -517,8 +538,10 @@ srl_decode_header_into(pTHX_ srl_decoder_t *origdec, SV *src, SV* header_into, U
     dec = srl_begin_decoding(aTHX_ origdec, src, start_offset);
     if (header_into == NULL)
         header_into = sv_newmortal();
+    header_into = srl_existing_into(aTHX_ header_into);
     srl_prepare_into(aTHX_ dec, header_into);
     srl_read_header(aTHX_ dec, header_into);
+    SvSETMAGIC(header_into);
     return header_into;
 }
 
-- 
2.43.0


From 73f03e842a5c410ddb3a0220b833cde6dc658e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 43/87] fix: Perl decoder: thaw weakened, repeated and plain
 frozen objects safely

---
 Perl/Decoder/srl_decoder.c | 81 ++++++++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 29 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 586a7b2..a7c1d0b 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -133,7 +133,7 @@ SRL_STATIC_INLINE void srl_track_sv(pTHX_ srl_decoder_t *dec, const U8 *track_po
 SRL_STATIC_INLINE void srl_read_frozen_object(pTHX_ srl_decoder_t *dec, HV *class_stash, SV *into);
 SRL_STATIC_INLINE SV * srl_follow_refp_alias_reference(pTHX_ srl_decoder_t *dec, UV offset);
 SRL_STATIC_INLINE AV * srl_follow_objectv_reference(pTHX_ srl_decoder_t *dec, UV offset);
-SRL_STATIC_INLINE void srl_thaw_object(pTHX_ srl_decoder_t *dec, HV *class_stash, SV *sv);
+SRL_STATIC_INLINE SV * srl_thaw_object(pTHX_ srl_decoder_t *dec, HV *class_stash, SV *sv);
 
 /* FIXME unimplemented!!! */
 SRL_STATIC_INLINE SV *srl_read_extend(pTHX_ srl_decoder_t *dec, SV* into);
@@ -823,6 +823,22 @@ srl_fetch_register_frozen_object(pTHX_ srl_decoder_t *dec, SV *item, const int p
     return NULL;
 }
 
+/* Put what THAW returned where the frozen form is now */
+SRL_STATIC_INLINE void
+srl_replace_frozen_object(pTHX_ SV *into, SV *replacement)
+{
+    const int is_weak = SvWEAKREF(into);
+    const int is_readonly = SvREADONLY(into) ? 1 : 0;
+
+    if (is_readonly)
+        SvREADONLY_off(into);
+    sv_setsv(into, replacement);
+    if (is_weak && SvROK(into))
+        sv_rvweaken(into);
+    if (is_readonly)
+        SvREADONLY_on(into);
+}
+
 SRL_STATIC_INLINE void
 srl_finalize_structure(pTHX_ srl_decoder_t *dec)
 {
@@ -922,15 +938,23 @@ srl_finalize_structure(pTHX_ srl_decoder_t *dec)
          * in it.
          */
         for ( ; thaw_av_len > 0 ; thaw_av_len-- ) {
-            SV *sv = av_pop(dec->thaw_av);
-            HV *class_stash = (HV*)srl_fetch_register_frozen_object(aTHX_ dec, sv, 0);
+            /* remains in the array, and thus gets freed, if THAW dies */
+            SV *sv = AvARRAY(dec->thaw_av)[thaw_av_len - 1];
+            HV *class_stash;
             AV *additional_refs= NULL;
             IV fixups = 0;
+            /* a weak reference to an object nothing else refers to is gone already */
+            if (expect_false( !SvROK(sv) )) {
+                SvREFCNT_dec(av_pop(dec->thaw_av));
+                continue;
+            }
+            class_stash = (HV*)srl_fetch_register_frozen_object(aTHX_ dec, sv, 0);
+            if (expect_false( class_stash == NULL ))
+                SRL_RDR_ERROR(dec->pbuf, "missing class of frozen object!");
             if (SvTYPE(class_stash) == SVt_PVAV) {
                 additional_refs = (AV*)class_stash;
-                fixups = av_len(additional_refs); /* no +1 because we do it before the class_stash shift */
-                class_stash = (HV *)av_shift((AV*)additional_refs);
-                SvREFCNT_dec(class_stash);
+                fixups = av_len(additional_refs); /* no +1 because of the class_stash */
+                class_stash = (HV *)AvARRAY(additional_refs)[0];
             }
             if (nothaw) {
                 /* do not actually thaw. In order to make it easier to find these cases in a dump
@@ -938,24 +962,33 @@ srl_finalize_structure(pTHX_ srl_decoder_t *dec)
                  * private to the Sereal project. */
                 char *classname = HvNAME(class_stash);
                 AV *av= (AV*)SvRV(sv);
+                const int is_readonly= SvREADONLY(av) ? 1 : 0;
                 if (!debug_class) {
                     debug_class = gv_stashpvs("Sereal::Decoder::THAW_args",1);
                 }
+                if (is_readonly)
+                    SvREADONLY_off(av);
                 av_push(av,newSVpvn(classname, strlen(classname)));
                 sv_bless(sv,debug_class);
+                if (is_readonly)
+                    SvREADONLY_on(av);
             } else {
+                SV *frozen = SvRV(sv);
+                SV *replacement = srl_thaw_object(aTHX_ dec, class_stash, sv);
                 /* thaw the first ref. */
-                srl_thaw_object(aTHX_ dec, class_stash, sv);
+                SvREFCNT_inc(frozen);
+                srl_replace_frozen_object(aTHX_ sv, replacement);
                 /* if there are any additional refs then stitch them in */
                 for ( ; fixups > 0; fixups--) {
                     SV* into = av_pop(additional_refs);
-                    SvREFCNT_dec(SvRV(into));
-                    SvRV_set(into, SvRV(sv));
-                    SvREFCNT_inc(SvRV(sv));
+                    if (SvROK(into) && SvRV(into) == frozen)
+                        srl_replace_frozen_object(aTHX_ into, replacement);
                     SvREFCNT_dec(into);
                 }
+                SvREFCNT_dec(frozen);
+                SvREFCNT_dec(replacement);
             }
-            SvREFCNT_dec(sv);
+            SvREFCNT_dec(av_pop(dec->thaw_av));
         }
     }
 }
@@ -1752,7 +1785,9 @@ srl_read_frozen_object(pTHX_ srl_decoder_t *dec, HV *class_stash, SV *into)
     srl_read_prefixed_value(aTHX_ dec, into, 0);
 
     /* validate that we actually deparsed an AV */
-    assert(SvROK(into) && SvTYPE(SvRV(into)) == SVt_PVAV);
+    if (expect_false( !SvROK(into) || SvTYPE(SvRV(into)) != SVt_PVAV ))
+        SRL_RDR_ERROR(dec->pbuf, "Corrupted packet. OBJECT(V)_FREEZE used without "
+                  "being followed by an array reference");
 
     if (!dec->ref_thawhash)
         SAFE_PTABLE_NEW(dec->ref_thawhash);
@@ -1764,9 +1799,10 @@ srl_read_frozen_object(pTHX_ srl_decoder_t *dec, HV *class_stash, SV *into)
 }
 
 /* Invoke a THAW callback on the given class. Pass in the next item in the
- * decoder stream. This is implementing the FREEZE/THAW part of
+ * decoder stream. Returns what THAW returned, as an SV the caller has to free.
+ * This is implementing the FREEZE/THAW part of
  * SRL_HDR_OBJECT_FREEZE and SRL_HDR_OBJECTV_FREEZE. */
-SRL_STATIC_INLINE void
+SRL_STATIC_INLINE SV *
 srl_thaw_object(pTHX_ srl_decoder_t *dec, HV *class_stash, SV *into)
 {
     GV *method = gv_fetchmethod_autoload(class_stash, "THAW", 0);
@@ -1811,28 +1847,15 @@ srl_thaw_object(pTHX_ srl_decoder_t *dec, HV *class_stash, SV *into)
         SPAGAIN;
 
         if (expect_true( count == 1 )) {
-            replacement = POPs;
-            SvREFCNT_inc(replacement);
+            replacement = newSVsv(POPs);
         }
-        /* If count is not 1, then it's 0. Then into is already undef. */
 
         PUTBACK;
         FREETMPS;
         LEAVE;
     }
-    SvREFCNT_dec(arg_av);
 
-    if (replacement != NULL) {
-        if (SvROK(replacement)) {
-            SvRV_set(into,  SvRV(replacement));
-            SvREFCNT_inc(SvRV(replacement));
-        } else {
-            sv_setsv(into, newSVsv(replacement));
-        }
-        SvREFCNT_dec(replacement);
-    } else {
-        SvRV_set(into, newSV(0));
-    }
+    return replacement ? replacement : newSV(0);
 }
 
 
-- 
2.43.0


From 612b470bbb7970627bfe6914739b328a50ce8c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 44/87] fix: Perl decoder: bless neither weak references gone
 stale nor shared scalars

---
 Perl/Decoder/srl_decoder.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index a7c1d0b..1ace5fc 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -823,6 +823,15 @@ srl_fetch_register_frozen_object(pTHX_ srl_decoder_t *dec, SV *item, const int p
     return NULL;
 }
 
+/* Is this a scalar that others than the current packet use as well? */
+SRL_STATIC_INLINE int
+srl_is_shared_sv(pTHX_ srl_decoder_t *dec, SV *sv)
+{
+    return SvIMMORTAL(sv)
+        || (dec->alias_cache && SvIOK(sv) && !SvIsUV(sv) && IS_IV_ALIAS(dec, SvIVX(sv))
+            && AvARRAY(dec->alias_cache)[SvIVX(sv) + 16] == sv);
+}
+
 /* Put what THAW returned where the frozen form is now */
 SRL_STATIC_INLINE void
 srl_replace_frozen_object(pTHX_ SV *into, SV *replacement)
@@ -884,7 +893,11 @@ srl_finalize_structure(pTHX_ srl_decoder_t *dec)
                 SRL_RDR_ERROR(dec->pbuf, "missing stash or ref_bless_av!");
             }
             for( len= av_len(ref_bless_av) + 1 ; len > 0 ; len-- ) {
-                SV* obj= av_pop(ref_bless_av); /*note that av_pop does NOT refcnt dec the sv*/
+                /* remains in the array, and thus gets freed, if we cannot bless it */
+                SV* obj= AvARRAY(ref_bless_av)[len - 1];
+                if (expect_false( obj && !SvROK(obj) )) {
+                    /* a weak reference to an object nothing else refers to is gone already */
+                } else
                 if (SvREFCNT(obj)>1) {
                     /* It is possible that someone handcrafts a hash with a key collision,
                      * which could trick us into effectively blessing an object and then
@@ -898,7 +911,8 @@ srl_finalize_structure(pTHX_ srl_decoder_t *dec)
                         /* was blessed early, don't rebless */
 #else
                         if (!nobless) {
-                            if ( SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_READONLY_FLAGS) && SvREADONLY(SvRV(obj))) {
+                            if ( SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_READONLY_FLAGS) && SvREADONLY(SvRV(obj))
+                                 && !srl_is_shared_sv(aTHX_ dec, SvRV(obj))) {
                                 /* the referenced scalar was readonly, temporary 
                                    set it rw to bless its reference */
                                 SvREADONLY_off(SvRV(obj));
@@ -916,7 +930,7 @@ srl_finalize_structure(pTHX_ srl_decoder_t *dec)
                 } else {
                     warn("Not blessing object that would be DESTROYed immediately. Malformed packet?");
                 }
-                SvREFCNT_dec(obj);
+                SvREFCNT_dec(av_pop(ref_bless_av)); /* note that av_pop does NOT refcnt dec the sv */
             }
         }
         PTABLE_iter_free(it);
@@ -1596,6 +1610,8 @@ srl_read_objectv(pTHX_ srl_decoder_t *dec, SV* into, U8 obj_tag)
         /* SRL_HDR_OBJECTV, not SRL_HDR_OBJECTV_FREEZE */
         /* now deparse the thing we are going to bless */
         srl_read_prefixed_value(aTHX_ dec, into, 0);
+        if (expect_false( !SvROK(into) && !SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_NO_BLESS_OBJECTS) ))
+            SRL_RDR_ERROR(dec->pbuf, "Corrupted packet. OBJECT(V) used without being followed by a reference");
 
         /* and also stuff it into the av - we dont have to do any more book-keeping */
         av_push(av, SvREFCNT_inc(into));
@@ -1756,6 +1772,8 @@ srl_read_object(pTHX_ srl_decoder_t *dec, SV* into, U8 obj_tag, int read_class_n
 
         /* now deparse the thing we are going to bless */
         srl_read_prefixed_value(aTHX_ dec, into, 0);
+        if (expect_false( !SvROK(into) && !SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_NO_BLESS_OBJECTS) ))
+            SRL_RDR_ERROR(dec->pbuf, "Corrupted packet. OBJECT(V) used without being followed by a reference");
 
 #if USE_588_WORKAROUND
         /* See 'define USE_588_WORKAROUND' above for a discussion of what this does. */
-- 
2.43.0


From b7c822fded712e46525f2db0bd80b39e813efcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:58 +0000
Subject: [PATCH 45/87] fix: Perl reader: keep the header in front of a
 decompressed body

---
 Perl/shared/srl_reader_decompress.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Perl/shared/srl_reader_decompress.h b/Perl/shared/srl_reader_decompress.h
index e51ec49..204a82f 100644
--- a/Perl/shared/srl_reader_decompress.h
+++ b/Perl/shared/srl_reader_decompress.h
@@ -87,6 +87,9 @@ srl_realloc_empty_buffer(pTHX_ srl_reader_buffer_t *buf,
     }
     b = (srl_reader_char_ptr) SvPVX(b_sv);
 
+    /* offsets may point to before the body */
+    Copy(buf->start, b, header_len, char);
+
     buf->start = b;
     buf->pos = b + header_len;
     buf->end = buf->pos + body_len;
-- 
2.43.0


From 8ef3bd78fbd84effbaa994aee5d00de7bf8e23c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 46/87] fix: Perl reader: a decompressed body ends where the
 decompressor stopped

---
 Perl/shared/srl_reader_decompress.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Perl/shared/srl_reader_decompress.h b/Perl/shared/srl_reader_decompress.h
index 204a82f..58b5545 100644
--- a/Perl/shared/srl_reader_decompress.h
+++ b/Perl/shared/srl_reader_decompress.h
@@ -146,6 +146,9 @@ srl_decompress_body_snappy(pTHX_ srl_reader_buffer_t *buf, U8 encoding_flags, SV
                         decompress_ok);
     }
 
+    /* the packet may well hold less than it says it does */
+    buf->end = buf->pos + dest_len;
+
     return bytes_consumed;
 }
 
@@ -188,6 +191,8 @@ srl_decompress_body_zlib(pTHX_ srl_reader_buffer_t *buf, SV** buf_owner, size_t
         SRL_RDR_ERRORf1(buf, "ZLIB decompression of Sereal packet payload failed with error %i!", decompress_ok);
     }
 
+    buf->end = buf->pos + tmp;
+
     return bytes_consumed;
 }
 
@@ -232,6 +237,8 @@ srl_decompress_body_zstd(pTHX_ srl_reader_buffer_t *buf, SV** buf_owner, size_t
                         ZSTD_getErrorName(decompress_code));
     }
 
+    buf->end = buf->pos + decompress_code;
+
     return bytes_consumed;
 }
 
-- 
2.43.0


From 4be3a171ad133ddbc93bb341e94385157ef4485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 47/87] fix: Perl reader: snappy operations must not go beyond
 the end of the data

---
 Perl/shared/snappy/csnappy_decompress.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Perl/shared/snappy/csnappy_decompress.c b/Perl/shared/snappy/csnappy_decompress.c
index 4dd316c..9776a43 100644
--- a/Perl/shared/snappy/csnappy_decompress.c
+++ b/Perl/shared/snappy/csnappy_decompress.c
@@ -350,6 +350,8 @@ csnappy_decompress_noheader(
 			trailer = get_unaligned_le(src, extra_bytes);
 			length = opword & 0xff;
 			src += extra_bytes;
+			if (unlikely(src > end_minus5 + 5))
+				return CSNAPPY_E_DATA_MALFORMED;
 			trailer += opword & 0x700;
 			ret = SAW__AppendFromSelf(&writer, trailer, length);
 			if (ret < 0)
@@ -371,7 +373,7 @@ csnappy_decompress_noheader(
 				src += extra_bytes;
 				available = end_minus5 + 5 - src;
 			}
-                        if (unlikely(available < (int32_t)length))
+                        if (unlikely(available < 0 || (uint32_t)available < length))
 				return CSNAPPY_E_DATA_MALFORMED;
 			ret = SAW__Append(&writer, src, length);
 			if (ret < 0)
-- 
2.43.0


From 7048e29212756eaecb2fffe424e772bc50982892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 48/87] fix: Perl decoder: a regexp decoded into a variable
 that has a body

---
 Perl/Decoder/srl_decoder.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 1ace5fc..2794fff 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -1930,6 +1930,19 @@ srl_read_regexp(pTHX_ srl_decoder_t *dec, SV* into)
         {
             SV *referent;
             SV tmp;
+
+            /* compile the regex */
+            referent= (SV*)CALLREGCOMP(sv_pat, flags);
+            if (!referent)
+                SRL_RDR_ERROR(dec->pbuf, "bad regexp pattern");
+
+            /* a variable of the user's may have a body, and magic, of its own */
+            if (expect_false( SvTYPE(into) != SVt_NULL )) {
+                sv_setsv(into, referent);
+                SvREFCNT_dec(referent);
+                return;
+            }
+
             /* This is ugly. We have to swap out the insides of our SV
              * with the one we get back from CALLREGCOMP, as there is no
              * way to get it to fill our SV.
@@ -1939,15 +1952,6 @@ srl_read_regexp(pTHX_ srl_decoder_t *dec, SV* into)
              * better.
              */
 
-            /* compile the regex */
-            referent= (SV*)CALLREGCOMP(sv_pat, flags);
-            if (!referent)
-                SRL_RDR_ERROR(dec->pbuf, "bad regexp pattern");
-
-            /* make sure the SV came from us (it should) and
-             * is bodyless */
-            assert( SvTYPE(into) == SVt_NULL );
-
 #define SWAP_DEBUG 0
             if (SWAP_DEBUG) { warn("before swap:"); sv_dump(into); sv_dump(referent); }
 
-- 
2.43.0


From a2f41551e5742eda6e3cab24f65567f28d0e745d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 49/87] fix: Perl decoder: THAW gets the class name as the
 characters it is

---
 Perl/Decoder/srl_decoder.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 2794fff..ecf0aea 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -823,6 +823,17 @@ srl_fetch_register_frozen_object(pTHX_ srl_decoder_t *dec, SV *item, const int p
     return NULL;
 }
 
+SRL_STATIC_INLINE SV *
+srl_class_name(pTHX_ HV *stash)
+{
+    SV *name= newSVpvn(HvNAME(stash), HvNAMELEN_get(stash));
+#ifdef HvNAMEUTF8 /* not in older perls */
+    if (HvNAMEUTF8(stash))
+        SvUTF8_on(name);
+#endif
+    return name;
+}
+
 /* Is this a scalar that others than the current packet use as well? */
 SRL_STATIC_INLINE int
 srl_is_shared_sv(pTHX_ srl_decoder_t *dec, SV *sv)
@@ -974,7 +985,6 @@ srl_finalize_structure(pTHX_ srl_decoder_t *dec)
                 /* do not actually thaw. In order to make it easier to find these cases in a dump
                  * we push the class name into the AV, and then bless it into a special class
                  * private to the Sereal project. */
-                char *classname = HvNAME(class_stash);
                 AV *av= (AV*)SvRV(sv);
                 const int is_readonly= SvREADONLY(av) ? 1 : 0;
                 if (!debug_class) {
@@ -982,7 +992,7 @@ srl_finalize_structure(pTHX_ srl_decoder_t *dec)
                 }
                 if (is_readonly)
                     SvREADONLY_off(av);
-                av_push(av,newSVpvn(classname, strlen(classname)));
+                av_push(av, srl_class_name(aTHX_ class_stash));
                 sv_bless(sv,debug_class);
                 if (is_readonly)
                     SvREADONLY_on(av);
@@ -1850,7 +1860,7 @@ srl_thaw_object(pTHX_ srl_decoder_t *dec, HV *class_stash, SV *into)
 
         EXTEND(SP, 2+arg_av_len);
         /* TODO Consider more caching for some of this */
-        PUSHs(sv_2mortal(newSVpvn(classname, strlen(classname))));
+        PUSHs(sv_2mortal(srl_class_name(aTHX_ class_stash)));
         /* FIXME do not recreate the following SV. That's dumb and wasteful! -
          * So long as it doesnt get modified! */
         PUSHs(sv_2mortal(newSVpvs("Sereal")));
-- 
2.43.0


From 93538b9df9f6b16c37360145585e52a06d4c328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 50/87] fix: Perl reader: too little memory for decompression
 is an exception

---
 Perl/shared/srl_reader_decompress.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Perl/shared/srl_reader_decompress.h b/Perl/shared/srl_reader_decompress.h
index 58b5545..e4020fa 100644
--- a/Perl/shared/srl_reader_decompress.h
+++ b/Perl/shared/srl_reader_decompress.h
@@ -72,11 +72,14 @@ srl_realloc_empty_buffer(pTHX_ srl_reader_buffer_t *buf,
         if (total_requested < body_len)
             croak("Decompressed buffer is impossibly large. Refusing to decode.");
 
-        Newx(tmp_buf,total_requested,char);
-
+        /* Newx() would end the process */
+        tmp_buf= (char *)PerlMem_malloc(total_requested);
         if (!tmp_buf)
             croak("Insufficient memory to '%s' decompress. Size compressed=%"UVuf" uncompressed=%"UVuf,
                 compression_type, compressed_len, total_requested );
+        PerlMem_free(tmp_buf);
+
+        Newx(tmp_buf,total_requested,char);
 
         b_sv= sv_newmortal();
         sv_upgrade(b_sv,SVt_PV);
-- 
2.43.0


From 42850a24f17b3f490961db98de4d3be6fd933f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 51/87] fix: Perl decoder: check UTF-8 of empty strings and of
 class names

---
 Perl/Decoder/srl_decoder.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index ecf0aea..f7ef3b0 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -1146,7 +1146,8 @@ srl_read_string(pTHX_ srl_decoder_t *dec, int is_utf8, SV* into)
     }
     if (expect_false(is_utf8 && SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_VALIDATE_UTF8))) {
         /* checks for invalid byte sequences. */
-        if (expect_false( !is_utf8_string((U8*)dec->buf.pos, len) )) {
+        /* of length 0 means up to a NUL */
+        if (expect_false( len && !is_utf8_string((U8*)dec->buf.pos, len) )) {
             SRL_RDR_ERROR(dec->pbuf, "Invalid UTF8 byte sequence");
         }
     }
@@ -1679,6 +1680,9 @@ srl_read_object(pTHX_ srl_decoder_t *dec, SV* into, U8 obj_tag, int read_class_n
         flags = flags | SVf_UTF8;
         from= dec->buf.pos;
         SRL_RDR_ASSERT_SPACE(dec->pbuf,key_len," while reading utf8 string");
+        if (expect_false( key_len && !is_utf8_string(from, key_len) )) {
+            SRL_RDR_ERROR_PANIC(dec->pbuf, "utf8 flagged classname is not actually utf8");
+        }
         dec->buf.pos += key_len;
     }
     else
@@ -1726,7 +1730,7 @@ srl_read_object(pTHX_ srl_decoder_t *dec, SV* into, U8 obj_tag, int read_class_n
                     " while reading UTF8 string length for class name (via COPY)"
                 );
                 flags = flags | SVf_UTF8;
-                if (!is_utf8_string(from, key_len)) {
+                if (key_len && !is_utf8_string(from, key_len)) {
                     SRL_RDR_ERROR_PANIC(dec->pbuf, "utf8 flagged classname is not actually utf8");
                 }
             }
-- 
2.43.0


From e85217b9ecaeb1ade5df0af946f6cf8bff094ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 52/87] fix: Perl decoder: do not lose an iterator when
 blessing fails

---
 Perl/shared/ptable.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Perl/shared/ptable.h b/Perl/shared/ptable.h
index 9491a36..7c22e38 100644
--- a/Perl/shared/ptable.h
+++ b/Perl/shared/ptable.h
@@ -302,8 +302,12 @@ PTABLE_iter_new_flags(PTABLE_t *tbl, int flags)
     Newx(iter, 1, PTABLE_ITER_t);
     iter->table = tbl;
 
-    if (flags & PTABLE_FLAG_AUTOCLEAN)
+    if (flags & PTABLE_FLAG_AUTOCLEAN) {
+        /* an exception may have left the last one behind */
+        if (tbl->cur_iter)
+            Safefree(tbl->cur_iter);
         tbl->cur_iter = iter;
+    }
     return PTABLE_iter_reset(iter);
 }
 
-- 
2.43.0


From ae9082231058cb387ee87364a834480f9d16e8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 53/87] fix: Perl decoder: a magical variable cannot become an
 array or hash

---
 Perl/Decoder/srl_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index f7ef3b0..e2ea398 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -1251,6 +1251,8 @@ srl_read_array(pTHX_ srl_decoder_t *dec, SV *into, U8 tag) {
         DEPTH_INCREMENT(dec);
     } else {
         len= srl_read_varint_uv_count(aTHX_ dec->pbuf, " while reading ARRAY");
+        if (expect_false( SvMAGICAL(into) ))
+            SRL_RDR_ERROR(dec->pbuf, "Cannot turn a magical variable into an array");
         (void)SvUPGRADE(into, SVt_PVAV);
     }
 
@@ -1304,6 +1306,8 @@ srl_read_hash(pTHX_ srl_decoder_t *dec, SV* into, U8 tag) {
         DEPTH_INCREMENT(dec);
     } else {
         num_keys= srl_read_varint_uv_count(aTHX_ dec->pbuf, " while reading HASH");
+        if (expect_false( SvMAGICAL(into) ))
+            SRL_RDR_ERROR(dec->pbuf, "Cannot turn a magical variable into a hash");
         (void)SvUPGRADE(into, SVt_PVHV);
     }
     /* in some versions of Perl HvRITER() is not properly set on an upgrade SV
-- 
2.43.0


From 8bb4c45732a75c254a684098a42b73a57b45e932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 54/87] fix: Perl decoder: a decode inside THAW must not change
 how much is consumed

bytes_consumed was taken from the decoder after FREEZE/THAW callbacks, which
may have used the same decoder object.
---
 Perl/Decoder/srl_decoder.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index e2ea398..2053885 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -473,6 +473,7 @@ SRL_STATIC_INLINE void
 srl_decode_into_internal(pTHX_ srl_decoder_t *origdec, SV *src, SV *header_into, SV *body_into, UV start_offset)
 {
     srl_decoder_t *dec;
+    UV bytes_consumed = 0; /* a THAW method can decode something else with origdec meanwhile */
 
     assert(origdec != NULL);
     if (expect_false( src == header_into || src == body_into ))
@@ -486,14 +487,11 @@ srl_decode_into_internal(pTHX_ srl_decoder_t *origdec, SV *src, SV *header_into,
     srl_prepare_into(aTHX_ dec, body_into);
     srl_read_header(aTHX_ dec, header_into);
     if (expect_false( SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_DECOMPRESS_SNAPPY) )) {
-        dec->bytes_consumed = srl_decompress_body_snappy(aTHX_ dec->pbuf, dec->encoding_flags, NULL, dec->max_uncompressed_size);
-        origdec->bytes_consumed = dec->bytes_consumed;
+        bytes_consumed = srl_decompress_body_snappy(aTHX_ dec->pbuf, dec->encoding_flags, NULL, dec->max_uncompressed_size);
     } else if (expect_false( SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_DECOMPRESS_ZLIB) )) {
-        dec->bytes_consumed = srl_decompress_body_zlib(aTHX_ dec->pbuf, NULL, dec->max_uncompressed_size);
-        origdec->bytes_consumed = dec->bytes_consumed;
+        bytes_consumed = srl_decompress_body_zlib(aTHX_ dec->pbuf, NULL, dec->max_uncompressed_size);
     } else if (expect_false( SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_DECOMPRESS_ZSTD) )) {
-        dec->bytes_consumed = srl_decompress_body_zstd(aTHX_ dec->pbuf, NULL, dec->max_uncompressed_size);
-        origdec->bytes_consumed = dec->bytes_consumed;
+        bytes_consumed = srl_decompress_body_zstd(aTHX_ dec->pbuf, NULL, dec->max_uncompressed_size);
     }
 
     /* this function *MUST* be called right after srl_decompress* functions */
@@ -507,16 +505,15 @@ srl_decode_into_internal(pTHX_ srl_decoder_t *origdec, SV *src, SV *header_into,
 
     /* If we aren't reading from a decompressed buffer we have to remember the number
      * of bytes used for the user to query. */
-    if (dec->bytes_consumed == 0) {
-        dec->bytes_consumed = dec->buf.pos - dec->buf.start;
-        origdec->bytes_consumed = dec->bytes_consumed;
-    }
+    if (bytes_consumed == 0)
+        bytes_consumed = dec->buf.pos - dec->buf.start;
+    dec->bytes_consumed = origdec->bytes_consumed = bytes_consumed;
 
     if (SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_DESTRUCTIVE_INCREMENTAL)) {
         STRLEN len;
         char *pv= SvPV(src,len);
         /* check the length here? do something different if the string is now exhausted? */
-        sv_chop(src, pv + dec->bytes_consumed);
+        sv_chop(src, pv + bytes_consumed);
     }
 
     srl_clear_decoder(aTHX_ dec);
-- 
2.43.0


From 365017f1992fb2e194bba8838c7c45486b8d7d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:53 +0000
Subject: [PATCH 55/87] fix: Perl decoder: padding and track bits before hash
 keys and class names

---
 Perl/Decoder/srl_decoder.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 2053885..591a8c0 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -1292,6 +1292,15 @@ srl_read_array(pTHX_ srl_decoder_t *dec, SV *into, U8 tag) {
 #   define HvRITER_set(sv,v) HvRITER(sv) = v
 #endif
 
+/* read the tag of a hash key or class name, which like any other may be
+ * preceded by padding and carry the track flag */
+#define SRL_READ_STRING_TAG(dec, tag, msg) STMT_START {             \
+    do {                                                            \
+        SRL_RDR_ASSERT_SPACE((dec)->pbuf, 1, (msg));                \
+        (tag)= (*(dec)->buf.pos++) & ~SRL_HDR_TRACK_FLAG;           \
+    } while (expect_false( (tag) == SRL_HDR_PAD ));                 \
+} STMT_END
+
 SRL_STATIC_INLINE void
 srl_read_hash(pTHX_ srl_decoder_t *dec, SV* into, U8 tag) {
     UV num_keys;
@@ -1335,8 +1344,7 @@ srl_read_hash(pTHX_ srl_decoder_t *dec, SV* into, U8 tag) {
 #endif
         KEYLENTYPE key_len;
 
-        SRL_RDR_ASSERT_SPACE(dec->pbuf,1," while reading key tag byte for HASH");
-        tag= (*dec->buf.pos++)&127;
+        SRL_READ_STRING_TAG(dec, tag, " while reading key tag byte for HASH");
         if (IS_SRL_HDR_SHORT_BINARY(tag)) {
             key_len= (KEYLENTYPE)SRL_HDR_SHORT_BINARY_LEN_FROM_TAG(tag);
             SRL_RDR_ASSERT_SPACE(dec->pbuf,key_len," while reading string/SHORT_BINARY key");
@@ -1360,7 +1368,7 @@ srl_read_hash(pTHX_ srl_decoder_t *dec, SV* into, U8 tag) {
         } else if (tag == SRL_HDR_COPY) {
             UV ofs= srl_read_varint_uv_offset(aTHX_ dec->pbuf, " while reading COPY tag");
             from= dec->buf.body_pos + ofs;
-            tag= *from++;
+            tag= *from++ & ~SRL_HDR_TRACK_FLAG;
             /* note that the offset need not be that of an item we have already read,
              * it may point into the middle of one */
             if (IS_SRL_HDR_SHORT_BINARY(tag)) {
@@ -1663,11 +1671,10 @@ srl_read_object(pTHX_ srl_decoder_t *dec, SV* into, U8 obj_tag, int read_class_n
      * We could also have a copy of a previously mentioned class
      * name. We have to handle both, which leads to some non-linear
      * code flow in the below code. */
-    SRL_RDR_ASSERT_SPACE(dec->pbuf,1," while reading classname tag");
+    SRL_READ_STRING_TAG(dec, tag, " while reading classname tag");
 
     /* Now read the class name and cache it */
-    storepos= SRL_RDR_BODY_POS_OFS(dec->pbuf);
-    tag= *dec->buf.pos++;
+    storepos= SRL_RDR_BODY_POS_OFS(dec->pbuf) - 1;
 
     if (IS_SRL_HDR_SHORT_BINARY(tag)) {
         key_len= SRL_HDR_SHORT_BINARY_LEN_FROM_TAG(tag);
@@ -1709,7 +1716,7 @@ srl_read_object(pTHX_ srl_decoder_t *dec, SV* into, U8 obj_tag, int read_class_n
          * to deserialize the class name */
         if (!class_stash) {
             from= dec->buf.body_pos + ofs;
-            tag= *from++;
+            tag= *from++ & ~SRL_HDR_TRACK_FLAG;
             /* Note that the offset need not be that of an item we have already read,
              * it may point into the middle of one */
             if (IS_SRL_HDR_SHORT_BINARY(tag)) {
-- 
2.43.0


From 42d1787de1e49c48bf7c5537b911082abb88daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:53 +0000
Subject: [PATCH 56/87] fix: Perl decoder: take any string for the modifiers of
 a regexp

---
 Perl/Decoder/srl_decoder.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 591a8c0..0eec1aa 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -1914,18 +1914,19 @@ SRL_STATIC_INLINE void
 srl_read_regexp(pTHX_ srl_decoder_t *dec, SV* into)
 {
     SV *sv_pat= sv_2mortal(FRESH_SV());
+    SV *sv_mod= sv_2mortal(FRESH_SV());
     srl_read_prefixed_value(aTHX_ dec, sv_pat, 0);
-    SRL_RDR_ASSERT_SPACE(dec->pbuf, 1, " while reading regexp modifer tag");
+    srl_read_prefixed_value(aTHX_ dec, sv_mod, 0);
     /* For now we will serialize the flags as ascii strings. Maybe we should use
      * something else but this is easy to debug and understand - since the modifiers
      * are tagged it doesn't matter much, we can add other tags later */
-    if ( expect_true( IS_SRL_HDR_SHORT_BINARY(*dec->buf.pos) ) ) {
-        U8 mod_len= SRL_HDR_SHORT_BINARY_LEN_FROM_TAG(*dec->buf.pos++);
+    if ( expect_true( SvPOK(sv_mod) ) ) {
+        STRLEN mod_len;
+        const char *mod= SvPV(sv_mod, mod_len);
         U32 flags= 0;
-        SRL_RDR_ASSERT_SPACE(dec->pbuf, mod_len, " while reading regexp modifiers");
         while (mod_len > 0) {
             mod_len--;
-            switch (*dec->buf.pos++) {
+            switch (*mod++) {
                 case 'm':
                     flags= flags | PMf_MULTILINE;
                     break;
@@ -2013,7 +2014,7 @@ srl_read_regexp(pTHX_ srl_decoder_t *dec, SV* into)
 #endif
     }
     else {
-        SRL_RDR_ERROR(dec->pbuf, "Expecting SRL_HDR_SHORT_BINARY for modifiers of regexp");
+        SRL_RDR_ERROR(dec->pbuf, "Expecting a string for modifiers of regexp");
     }
 }
 
-- 
2.43.0


From ec475cf04f823df2c69380a58d923e4384541f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:55 +0000
Subject: [PATCH 57/87] fix: Perl decoder: bless an object although the
 reference that names its class is gone

---
 Perl/Decoder/srl_decoder.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 0eec1aa..1da055d 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -906,13 +906,13 @@ srl_finalize_structure(pTHX_ srl_decoder_t *dec)
                 if (expect_false( obj && !SvROK(obj) )) {
                     /* a weak reference to an object nothing else refers to is gone already */
                 } else
-                if (SvREFCNT(obj)>1) {
+                if (SvREFCNT(obj)>1 || SvREFCNT(SvRV(obj)) > (SvWEAKREF(obj) ? 0 : 1)) {
                     /* It is possible that someone handcrafts a hash with a key collision,
                      * which could trick us into effectively blessing an object and then
                      * calling DESTROY on it. So we track the refcount of the objects
                      * popped off the ref_bless_av, and only bless if their refcount *before*
-                     * we refcount dec is higher than 1. If it is 1 then we just destroy the 
-                     * object.
+                     * we refcount dec is higher than 1. If it is 1, and nothing else refers to
+                     * the object either, then we just destroy the object.
                      * */
                     if (expect_true( obj )) {
 #if USE_588_WORKAROUND
-- 
2.43.0


From 42ca61446f3c09bb6120dfa440c0b1d7ff1d37c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:55 +0000
Subject: [PATCH 58/87] fix: Perl decoder: an object that is COPYed must not
 lose its class

---
 Perl/Decoder/srl_decoder.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 1da055d..87e070f 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -1759,10 +1759,13 @@ srl_read_object(pTHX_ srl_decoder_t *dec, SV* into, U8 obj_tag, int read_class_n
         PTABLE_store(dec->ref_stashes, (void *)storepos, (void *)class_stash);
         /* Since this is the first time we have seen this stash then it is the first time
          * that we have stored an item in the ref_bless_av hash as well. So create a new one
-         * and store it away. */
-        av= newAV();
-        sv_2mortal((SV*)av);
-        PTABLE_store(dec->ref_bless_av, (void *)storepos, (void *)av);
+         * and store it away. Unless we get here again because the object is COPYed. */
+        av= (AV *)PTABLE_fetch(dec->ref_bless_av, (void *)storepos);
+        if (expect_true( !av )) {
+            av= newAV();
+            sv_2mortal((SV*)av);
+            PTABLE_store(dec->ref_bless_av, (void *)storepos, (void *)av);
+        }
     } else {
         /* we have a class stash so we should have a ref_bless_av as well. */
         av= (AV *)PTABLE_fetch(dec->ref_bless_av, (void *)storepos);
-- 
2.43.0


From 89715f06e87ae568b1f7dbdefb6043e0615615f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:13 +0000
Subject: [PATCH 59/87] fix: Perl decoder: references to a string must not lead
 to a copy of it

---
 Perl/Decoder/srl_decoder.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 87e070f..9365a11 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -1020,7 +1020,11 @@ srl_finalize_structure(pTHX_ srl_decoder_t *dec)
 SRL_STATIC_INLINE void
 srl_track_sv(pTHX_ srl_decoder_t *dec, const U8 *track_pos, SV *sv)
 {
-    PTABLE_store(dec->ref_seenhash, (void *)(track_pos - dec->buf.body_pos), (void *)sv);
+    void *ofs= (void *)(track_pos - dec->buf.body_pos);
+    /* what refers to an item means the item itself, and not what COPY made of it */
+    if (expect_false( dec->save_pos ) && PTABLE_fetch(dec->ref_seenhash, ofs))
+        return;
+    PTABLE_store(dec->ref_seenhash, ofs, (void *)sv);
 }
 
 
-- 
2.43.0


From c09673defcba6ba890c6f1e4dc3e517f376b6c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:39 +0000
Subject: [PATCH 60/87] fix: Perl encoder: keep the digits of a numeric string
 that was used as a number

---
 Perl/Encoder/srl_encoder.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Perl/Encoder/srl_encoder.c b/Perl/Encoder/srl_encoder.c
index b58a95f..b4026fb 100644
--- a/Perl/Encoder/srl_encoder.c
+++ b/Perl/Encoder/srl_encoder.c
@@ -269,7 +269,14 @@ SRL_STATIC_INLINE srl_encoder_t *srl_dump_data_structure(pTHX_ srl_encoder_t *en
                 srl_dump_svpv(aTHX_ enc, src);                              \
             }                                                               \
             else {                                                          \
-                srl_dump_nv(aTHX_ enc, src);                                \
+                /* the same for floats, a string that was used as a number  \
+                 * may have more digits than the number has */              \
+                sv_setnv(enc->scratch_sv,SvNV(src));                        \
+                if ( sv_cmp(enc->scratch_sv,src) ) {                        \
+                    srl_dump_svpv(aTHX_ enc, src);                          \
+                } else {                                                    \
+                    srl_dump_nv(aTHX_ enc, src);                            \
+                }                                                           \
             }                                                               \
         }                                                                   \
         else {                                                              \
-- 
2.43.0


From 44216cdc9fe901afd69f8d7cfa9137763bb8eb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:11 +0000
Subject: [PATCH 61/87] fix: the Perl encoder wrote zstd documents of version
 3, which has no such documents

---
 Perl/Encoder/srl_encoder.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Perl/Encoder/srl_encoder.c b/Perl/Encoder/srl_encoder.c
index b4026fb..7483996 100644
--- a/Perl/Encoder/srl_encoder.c
+++ b/Perl/Encoder/srl_encoder.c
@@ -539,8 +539,8 @@ srl_build_encoder_struct(pTHX_ HV *opt, sv_with_hash *options)
                 break;
             case 3:
                 SRL_ENC_SET_OPTION(enc, SRL_F_COMPRESS_ZSTD);
-                if (enc->protocol_version < 3)
-                    croak("zstd compression was introduced in protocol version 3 and you are asking for only version %i", (int)enc->protocol_version);
+                if (enc->protocol_version < 4)
+                    croak("zstd compression was introduced in protocol version 4 and you are asking for only version %i", (int)enc->protocol_version);
 
                 enc->compress_level = 3; /* default compression level */
                 my_hv_fetchs(he, val, opt, SRL_ENC_OPT_IDX_COMPRESS_LEVEL);
-- 
2.43.0


From 9d72aca6c4100a4dc647328c7089c33fc243b106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:12 +0000
Subject: [PATCH 62/87] fix: the string the Perl encoder returns had no NUL at
 its end when it took over the buffer

---
 Perl/Encoder/srl_encoder.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Perl/Encoder/srl_encoder.c b/Perl/Encoder/srl_encoder.c
index 7483996..6392752 100644
--- a/Perl/Encoder/srl_encoder.c
+++ b/Perl/Encoder/srl_encoder.c
@@ -1106,13 +1106,15 @@ srl_dump_data_structure_mortal_sv(pTHX_ srl_encoder_t *enc, SV *src, SV *user_he
     assert(enc->buf.start && enc->buf.pos && enc->buf.pos > enc->buf.start);
 
     if ( flags && /* for now simpler and equivalent to: flags == SRL_ENC_SV_REUSE_MAYBE */
-         (BUF_POS_OFS(&enc->buf) > 20 && BUF_SPACE(&enc->buf) < BUF_POS_OFS(&enc->buf) )
+         (BUF_POS_OFS(&enc->buf) > 20 && BUF_SPACE(&enc->buf) < BUF_POS_OFS(&enc->buf)
+          && BUF_SPACE(&enc->buf) > 0 ) /* room for the NUL */
     ){
         /* If not wasting more than 2x memory - FIXME fungible */
         SV *sv = sv_2mortal(newSV_type(SVt_PV));
         SvPV_set(sv, (char *) enc->buf.start);
         SvLEN_set(sv, BUF_SIZE(&enc->buf));
         SvCUR_set(sv, BUF_POS_OFS(&enc->buf));
+        *SvEND(sv) = '\0';
         SvPOK_on(sv);
         enc->buf.start = enc->buf.pos = NULL; /* no need to free these guys now */
         return sv;
-- 
2.43.0


From d77de4fff2177d44228528431e7090d85b108ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:30 +0000
Subject: [PATCH 63/87] fix: the Perl encoder lost the track bit of weak
 references that it made strong

---
 Perl/Encoder/srl_encoder.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Perl/Encoder/srl_encoder.c b/Perl/Encoder/srl_encoder.c
index 6392752..d008e6e 100644
--- a/Perl/Encoder/srl_encoder.c
+++ b/Perl/Encoder/srl_encoder.c
@@ -1142,9 +1142,10 @@ srl_fixup_weakrefs(pTHX_ srl_encoder_t *enc)
             const ptrdiff_t offset = (ptrdiff_t)ent->value;
             if ( offset ) {
                 srl_buffer_char *pos = enc->buf.body_pos + offset;
-                assert(*pos == SRL_HDR_WEAKEN);
+                assert((*pos & ~SRL_HDR_TRACK_FLAG) == SRL_HDR_WEAKEN);
                 if (DEBUGHACK) warn("setting byte at offset %"UVuf" to PAD", (UV)offset);
-                *pos = SRL_HDR_PAD;
+                /* the weakref itself may be the target of a REFP or an ALIAS */
+                *pos = SRL_HDR_PAD | (*pos & SRL_HDR_TRACK_FLAG);
             }
         }
 
-- 
2.43.0


From 2e1f54e649462ee99fcced39dd7e5c929f3d0ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:30 +0000
Subject: [PATCH 64/87] fix: aliased_dedupe_strings made a referenced string an
 ALIAS, which no decoder reads, and shared blessed strings

---
 Perl/Encoder/srl_encoder.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/Perl/Encoder/srl_encoder.c b/Perl/Encoder/srl_encoder.c
index d008e6e..c1e9a57 100644
--- a/Perl/Encoder/srl_encoder.c
+++ b/Perl/Encoder/srl_encoder.c
@@ -84,7 +84,7 @@ extern "C" {
 /* some static function declarations */
 SRL_STATIC_INLINE void srl_clear_seen_hashes(pTHX_ srl_encoder_t *enc);
 static void srl_dump_sv(pTHX_ srl_encoder_t *enc, SV *src);
-SRL_STATIC_INLINE void srl_dump_svpv(pTHX_ srl_encoder_t *enc, SV *src);
+SRL_STATIC_INLINE void srl_dump_svpv(pTHX_ srl_encoder_t *enc, SV *src, const int can_alias);
 SRL_STATIC_INLINE void srl_dump_pv(pTHX_ srl_encoder_t *enc, const char* src, STRLEN src_len, int is_utf8);
 SRL_STATIC_INLINE void srl_fixup_weakrefs(pTHX_ srl_encoder_t *enc);
 SRL_STATIC_INLINE void srl_dump_av(pTHX_ srl_encoder_t *enc, AV *src, U32 refcnt);
@@ -211,7 +211,7 @@ SRL_STATIC_INLINE srl_encoder_t *srl_dump_data_structure(pTHX_ srl_encoder_t *en
 #define _SRL_CHECK_BOOL(enc, src, svt)
 #endif
 
-#define _SRL_IF_SIMPLE_DIRECT_DUMP_SV(enc, src, svt)                        \
+#define _SRL_IF_SIMPLE_DIRECT_DUMP_SV(enc, src, svt, can_alias)             \
     if (SvPOK(src)) {                                                       \
         STRLEN L;                                                           \
         char *PV= SvPV(src, L);                                             \
@@ -224,7 +224,7 @@ SRL_STATIC_INLINE srl_encoder_t *srl_dump_data_structure(pTHX_ srl_encoder_t *en
                 }                                                           \
                 else {                                                      \
                     /* must be a string */                                  \
-                    srl_dump_svpv(aTHX_ enc, src);                          \
+                    srl_dump_svpv(aTHX_ enc, src, can_alias);                          \
                 }                                                           \
             }                                                               \
             else                                                            \
@@ -237,7 +237,7 @@ SRL_STATIC_INLINE srl_encoder_t *srl_dump_data_structure(pTHX_ srl_encoder_t *en
                  : ( L < 2 || PV[0] != '-' || PV[1] == '0' || !isDIGIT(PV[1]) ) \
                 )                                                           \
             ) {                                                             \
-                srl_dump_svpv(aTHX_ enc, src);                              \
+                srl_dump_svpv(aTHX_ enc, src, can_alias);                              \
             }                                                               \
             else {                                                          \
                 if ( SvNOK(src) ) {                                         \
@@ -245,7 +245,7 @@ SRL_STATIC_INLINE srl_encoder_t *srl_dump_data_structure(pTHX_ srl_encoder_t *en
                     /* int is the same as the buffer */                     \
                     sv_setiv(enc->scratch_sv,SvIV(src));                    \
                     if ( sv_cmp(enc->scratch_sv,src) ) {                    \
-                        srl_dump_svpv(aTHX_ enc, src);                      \
+                        srl_dump_svpv(aTHX_ enc, src, can_alias);                      \
                     } else {                                                \
                         srl_dump_ivuv(aTHX_ enc, src);                      \
                     }                                                       \
@@ -266,14 +266,14 @@ SRL_STATIC_INLINE srl_encoder_t *srl_dump_data_structure(pTHX_ srl_encoder_t *en
                   : ( PV[0] != '-' || PV[1] == '.' || (PV[1] == '0' && PV[2] != '.')) \
                 )                                                           \
             ) {                                                             \
-                srl_dump_svpv(aTHX_ enc, src);                              \
+                srl_dump_svpv(aTHX_ enc, src, can_alias);                              \
             }                                                               \
             else {                                                          \
                 /* the same for floats, a string that was used as a number  \
                  * may have more digits than the number has */              \
                 sv_setnv(enc->scratch_sv,SvNV(src));                        \
                 if ( sv_cmp(enc->scratch_sv,src) ) {                        \
-                    srl_dump_svpv(aTHX_ enc, src);                          \
+                    srl_dump_svpv(aTHX_ enc, src, can_alias);                          \
                 } else {                                                    \
                     srl_dump_nv(aTHX_ enc, src);                            \
                 }                                                           \
@@ -281,7 +281,7 @@ SRL_STATIC_INLINE srl_encoder_t *srl_dump_data_structure(pTHX_ srl_encoder_t *en
         }                                                                   \
         else {                                                              \
             DO_POK_REGEXP(enc,src,svt)                                      \
-            srl_dump_svpv(aTHX_ enc, src);                                  \
+            srl_dump_svpv(aTHX_ enc, src, can_alias);                                  \
         }                                                                   \
     }                                                                       \
     else                                                                    \
@@ -298,7 +298,7 @@ SRL_STATIC_INLINE srl_encoder_t *srl_dump_data_structure(pTHX_ srl_encoder_t *en
     /* if its POK or POKp, then we treat it as a string */              \
     if (SvPOKp(src)) {                                                  \
         DO_POK_REGEXP(enc,src,svt)                                      \
-        srl_dump_svpv(aTHX_ enc, src);                                  \
+        srl_dump_svpv(aTHX_ enc, src, can_alias);                                  \
     }                                                                   \
     else                                                                \
     /* if its IOKp then we treat it as an int */                        \
@@ -324,7 +324,7 @@ SRL_STATIC_INLINE srl_encoder_t *srl_dump_data_structure(pTHX_ srl_encoder_t *en
             SvREFCNT((src)) == 1 &&                                                 \
             !SvROK((src))                                                           \
         ) {                                                                         \
-            _SRL_IF_SIMPLE_DIRECT_DUMP_SV(enc, src, svt)                            \
+            _SRL_IF_SIMPLE_DIRECT_DUMP_SV(enc, src, svt, 1)                         \
             else {                                                                  \
                 srl_dump_sv(aTHX_ (enc), (src));                                    \
             }                                                                       \
@@ -1595,11 +1595,14 @@ srl_dump_hk(pTHX_ srl_encoder_t *enc, HE *src, const int share_keys)
 }
 
 SRL_STATIC_INLINE void
-srl_dump_svpv(pTHX_ srl_encoder_t *enc, SV *src)
+srl_dump_svpv(pTHX_ srl_encoder_t *enc, SV *src, const int can_alias)
 {
     STRLEN len;
     const char * const str= SvPV(src, len);
-    if ( SRL_ENC_HAVE_OPTION(enc, SRL_F_DEDUPE_STRINGS) && len > 3 ) {
+    if ( SRL_ENC_HAVE_OPTION(enc, SRL_F_DEDUPE_STRINGS) && len > 3
+         /* ALIAS is for containers only, and objects do not share their class */
+         && ( !SRL_ENC_HAVE_OPTION(enc, SRL_F_ALIASED_DEDUPE_STRINGS)
+              || ( can_alias && !SvOBJECT(src) ) ) ) {
         HV *string_deduper_hv= SRL_GET_STR_DEDUPER_HV(enc);
         HE *dupe_offset_he= hv_fetch_ent(string_deduper_hv, src, 1, 0);
         if (!dupe_offset_he) {
@@ -1781,7 +1784,8 @@ redo_dump:
     }
 
     /* --------------------------------- */
-    _SRL_IF_SIMPLE_DIRECT_DUMP_SV(enc, src, svt)
+    /* what a reference refers to cannot be an ALIAS */
+    _SRL_IF_SIMPLE_DIRECT_DUMP_SV(enc, src, svt, !ref_rewrite_pos)
     else
 #if defined(MODERN_REGEXP) && defined(REGEXP_NO_LONGER_POK)
     /* Only need to enter here if we have rather modern regexps AND they're
-- 
2.43.0


From 14c988459f64fa2960a0f57cb5eda6f16447340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:30 +0000
Subject: [PATCH 65/87] fix: the Perl encoder left WEAKEN before what stands
 for an unrepresentable referent

---
 Perl/Encoder/srl_encoder.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Perl/Encoder/srl_encoder.c b/Perl/Encoder/srl_encoder.c
index c1e9a57..ae6b4d6 100644
--- a/Perl/Encoder/srl_encoder.c
+++ b/Perl/Encoder/srl_encoder.c
@@ -1867,6 +1867,12 @@ redo_dump:
                         PTABLE_t *ref_seenhash= SRL_GET_REF_SEENHASH(enc);                     \
                         PTABLE_delete(ref_seenhash, src);                                      \
                         enc->buf.pos= enc->buf.body_pos + ref_rewrite_pos;                     \
+                        if (SvWEAKREF(refsv)) {                                                \
+                            /* nor the WEAKEN in front of it */                                \
+                            PTABLE_t *weak_seenhash= SRL_GET_WEAK_SEENHASH(enc);               \
+                            PTABLE_delete(weak_seenhash, src);                                 \
+                            enc->buf.pos--;                                                    \
+                        }                                                                      \
                     }                                                                          \
                     srl_buf_cat_char(&(enc)->buf, SRL_HDR_UNDEF);                              \
                 }                                                                              \
@@ -1895,6 +1901,12 @@ redo_dump:
                         PTABLE_t *ref_seenhash= SRL_GET_REF_SEENHASH(enc);                     \
                         PTABLE_delete(ref_seenhash, src);                                      \
                         enc->buf.pos= enc->buf.body_pos + ref_rewrite_pos;                     \
+                        if (SvWEAKREF(refsv)) {                                                \
+                            /* nor the WEAKEN in front of it */                                \
+                            PTABLE_t *weak_seenhash= SRL_GET_WEAK_SEENHASH(enc);               \
+                            PTABLE_delete(weak_seenhash, src);                                 \
+                            enc->buf.pos--;                                                    \
+                        }                                                                      \
                         str = SvPV((refsv), len);                                              \
                     } else                                                                     \
                         str = SvPV((src), len);                                                \
-- 
2.43.0


From 23801bcd829a56564aaba8c3b368e632a7422c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 66/87] fix: encoders that are not used again, as those of
 encode_sereal, leaked what FREEZE returned

---
 Perl/Encoder/srl_encoder.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Perl/Encoder/srl_encoder.c b/Perl/Encoder/srl_encoder.c
index ae6b4d6..34ad021 100644
--- a/Perl/Encoder/srl_encoder.c
+++ b/Perl/Encoder/srl_encoder.c
@@ -411,8 +411,10 @@ srl_destroy_encoder(pTHX_ srl_encoder_t *enc)
 
     if (enc->ref_seenhash != NULL)
         PTABLE_free(enc->ref_seenhash);
-    if (enc->freezeobj_svhash != NULL)
+    if (enc->freezeobj_svhash != NULL) {
+        PTABLE_clear_dec(aTHX_ enc->freezeobj_svhash);
         PTABLE_free(enc->freezeobj_svhash);
+    }
     if (enc->str_seenhash != NULL)
         PTABLE_free(enc->str_seenhash);
     if (enc->weak_seenhash != NULL)
-- 
2.43.0


From e85cedc893273707b430621d9f42a0a688a48d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 67/87] fix: an encoder used while it is busy compressed at
 level 0

---
 Perl/Encoder/srl_encoder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Perl/Encoder/srl_encoder.c b/Perl/Encoder/srl_encoder.c
index 34ad021..0440fd4 100644
--- a/Perl/Encoder/srl_encoder.c
+++ b/Perl/Encoder/srl_encoder.c
@@ -669,6 +669,7 @@ srl_build_encoder_struct_alike(pTHX_ srl_encoder_t *proto)
     enc->flags = proto->flags;
     enc->max_recursion_depth = proto->max_recursion_depth;
     enc->compress_threshold = proto->compress_threshold;
+    enc->compress_level = proto->compress_level;
     if (expect_false(SRL_ENC_HAVE_OPTION(enc, SRL_F_ENABLE_FREEZE_SUPPORT))) {
         enc->sereal_string_sv = newSVpvs("Sereal");
     }
-- 
2.43.0


From 21488ca0a62a93b55381b8449b1d9d149182a77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:18 +0000
Subject: [PATCH 68/87] fix: an object that was frozen twice leaked what FREEZE
 returned first

---
 Perl/Encoder/srl_encoder.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Perl/Encoder/srl_encoder.c b/Perl/Encoder/srl_encoder.c
index 0440fd4..e7dcbdd 100644
--- a/Perl/Encoder/srl_encoder.c
+++ b/Perl/Encoder/srl_encoder.c
@@ -912,7 +912,10 @@ srl_get_frozen_object(pTHX_ srl_encoder_t *enc, SV *src, SV *referent)
             }
             if (!replacement) {
                 int count;
+                SV *old= (SV *) PTABLE_fetch(freezeobj_svhash, referent);
                 dSP;
+                if (expect_false( old != NULL ))
+                    sv_2mortal(old); /* it is replaced, but may be in use still */
                 ENTER;
                 SAVETMPS;
                 PUSHMARK(SP);
-- 
2.43.0


From 6f47824ea5d7b94dcf5a402b2ea626b3b7d93800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:59 +0000
Subject: [PATCH 69/87] fix: the Perl decoder left references of a frozen
 object to itself at what it was frozen to

---
 Perl/Decoder/srl_decoder.c | 32 +++++++++++++++++++++++++++++++-
 Perl/Decoder/srl_decoder.h |  7 +++++++
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 9365a11..e39009d 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -604,6 +604,7 @@ srl_clear_decoder_body_state(pTHX_ srl_decoder_t *dec)
         av_clear(dec->thaw_av);
     if (dec->ref_thawhash)
         PTABLE_clear(dec->ref_thawhash);
+    dec->open_frozen = NULL;
 
     dec->recursion_depth = 0;
 }
@@ -817,6 +818,23 @@ srl_fetch_register_frozen_object(pTHX_ srl_decoder_t *dec, SV *item, const int p
             return (SV*)info_av;
         }
     }
+    if (push && dec->open_frozen) {
+        struct srl_open_frozen *open = dec->open_frozen;
+        while (open && !(SvROK(open->into) && SvRV(open->into) == SvRV(item)))
+            open = open->outer;
+        if (open) {
+            /* the frozen form of an object that is still being read,
+             * whose class srl_read_frozen_object() puts in when it is done */
+            AV *info_av;
+            SAFE_NEW_AV(info_av);
+            sv_2mortal((SV*)info_av);
+            AV_PUSH(info_av, &PL_sv_undef);
+            AV_PUSH(info_av, item);
+            if (!dec->ref_thawhash)
+                SAFE_PTABLE_NEW(dec->ref_thawhash);
+            PTABLE_store(dec->ref_thawhash, (void *)SvRV(item), (void *)info_av);
+        }
+    }
     return NULL;
 }
 
@@ -1816,6 +1834,7 @@ srl_read_object(pTHX_ srl_decoder_t *dec, SV* into, U8 obj_tag, int read_class_n
 SRL_STATIC_INLINE void
 srl_read_frozen_object(pTHX_ srl_decoder_t *dec, HV *class_stash, SV *into)
 {
+    struct srl_open_frozen open;
 
     if (!dec->thaw_av)
         SAFE_NEW_AV(dec->thaw_av);
@@ -1829,7 +1848,11 @@ srl_read_frozen_object(pTHX_ srl_decoder_t *dec, HV *class_stash, SV *into)
     AV_PUSH(dec->thaw_av, into);
 
     /* now fill out into with the AV that represents the object */
+    open.into = into;
+    open.outer = dec->open_frozen;
+    dec->open_frozen = &open;
     srl_read_prefixed_value(aTHX_ dec, into, 0);
+    dec->open_frozen = open.outer;
 
     /* validate that we actually deparsed an AV */
     if (expect_false( !SvROK(into) || SvTYPE(SvRV(into)) != SVt_PVAV ))
@@ -1842,7 +1865,14 @@ srl_read_frozen_object(pTHX_ srl_decoder_t *dec, HV *class_stash, SV *into)
     /* we need to do this *after* we have called srl_read_single_value() as
        we use the address of the AV that into references as the key to find the
        class stash. */
-    PTABLE_store(dec->ref_thawhash, (void *)SvRV(into), (void *)class_stash);
+    {
+        SV *info = (SV *)PTABLE_fetch(dec->ref_thawhash, (void *)SvRV(into));
+        /* what it holds may refer to it already */
+        if (info && SvTYPE(info) == SVt_PVAV)
+            av_store((AV *)info, 0, SvREFCNT_inc((SV *)class_stash));
+        else
+            PTABLE_store(dec->ref_thawhash, (void *)SvRV(into), (void *)class_stash);
+    }
 }
 
 /* Invoke a THAW callback on the given class. Pass in the next item in the
diff --git a/Perl/Decoder/srl_decoder.h b/Perl/Decoder/srl_decoder.h
index 7d97d3b..9375bb1 100644
--- a/Perl/Decoder/srl_decoder.h
+++ b/Perl/Decoder/srl_decoder.h
@@ -9,6 +9,12 @@
 typedef struct PTABLE * ptable_ptr;
 typedef struct srl_decoder srl_decoder_t;
 
+/* a frozen object that is being read (lives on the C stack) */
+struct srl_open_frozen {
+    SV *into;
+    struct srl_open_frozen *outer;
+};
+
 struct srl_decoder {
     srl_reader_buffer_t buf;
     srl_reader_buffer_ptr pbuf;
@@ -32,6 +38,7 @@ struct srl_decoder {
                                            key: ofs, value: mortal AV (of refs)  */
     AV* weakref_av;
     AV* thaw_av;                        /* AV of refs which have to be thawed */
+    struct srl_open_frozen *open_frozen; /* the frozen objects that are being read, innermost first */
 
     AV* alias_cache; /* used to cache integers of different sizes. */
     IV alias_varint_under;
-- 
2.43.0


From 6465854531b1481cd5cc9d450dff4e9f838ec0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:59 +0000
Subject: [PATCH 70/87] fix: the Perl decoder, reading user data in the header,
 took what follows it there for the body

---
 Perl/Decoder/srl_decoder.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index e39009d..59e9001 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -736,6 +736,7 @@ srl_read_header(pTHX_ srl_decoder_t *dec, SV *header_user_data)
              *  => Only read header user data if an SV* was passed in to fill. */
 
             U8 bitfield;
+            const U8 *header_end= dec->buf.pos + header_len;
 
             SRL_RDR_ASSERT_SPACE(dec->pbuf, 1, " while reading header flags");
 
@@ -748,6 +749,10 @@ srl_read_header(pTHX_ srl_decoder_t *dec, SV *header_user_data)
                     srl_finalize_structure(aTHX_ dec);
                 }
                 srl_clear_decoder_body_state(aTHX_ dec); /* clean up for the main body decode */
+                /* the header may have more than we know of */
+                if (expect_false( dec->buf.pos > header_end ))
+                    SRL_RDR_ERROR(dec->pbuf, "Header user data goes beyond the end of the header");
+                dec->buf.pos= header_end;
             }
             else {
                 /* Either off in bitfield or no user data wanted, skip to end of header */
-- 
2.43.0


From c0adefb44cdbb017ede5e58b0a745e3b03546419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:52 +0000
Subject: [PATCH 71/87] fix: set_readonly_scalars made arrays, hashes and
 copied references read-only, depending on their tags

---
 Perl/Decoder/srl_decoder.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index 59e9001..f3a4a59 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -2169,7 +2169,7 @@ srl_read_single_value(pTHX_ srl_decoder_t *dec, SV* into, SV** container)
         case SRL_HDR_OBJECT:        srl_read_object(aTHX_ dec, into, tag, 0); is_ref=1; break;
         case SRL_HDR_OBJECTV_FREEZE:
         case SRL_HDR_OBJECTV:       srl_read_objectv(aTHX_ dec, into, tag); is_ref=1; break;
-        case SRL_HDR_COPY:          srl_read_copy(aTHX_ dec, into);                   break;
+        case SRL_HDR_COPY:          srl_read_copy(aTHX_ dec, into);         is_ref=1; break; /* its readonly flag is set */
         case SRL_HDR_EXTEND:        srl_read_extend(aTHX_ dec, into);                 break;
         case SRL_HDR_HASH:
         case SRL_HDR_ARRAY:
@@ -2182,6 +2182,7 @@ srl_read_single_value(pTHX_ srl_decoder_t *dec, SV* into, SV** container)
                 srl_read_array(aTHX_ dec, into, 0);
             if (expect_false( container != NULL ))
                 DEPTH_DECREMENT(dec);
+            is_ref=1; /* it is no scalar */
             break;
         case SRL_HDR_REGEXP:        srl_read_regexp(aTHX_ dec, into);                 break;
         case SRL_HDR_ALIAS:
-- 
2.43.0


From 64d268b80e123ebd8ccbac3ef7fa1cb252c105c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 72/87] fix: max_string_length and validate_utf8 did not look
 at hash keys, nor max_string_length at short strings

---
 Perl/Decoder/srl_decoder.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index f3a4a59..d80ff2c 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -1159,10 +1159,10 @@ srl_read_zigzag_into(pTHX_ srl_decoder_t *dec, SV* into, SV **container, const U
 }
 
 
+/* Whether we accept a string, be it a value or a hash key */
 SRL_STATIC_INLINE void
-srl_read_string(pTHX_ srl_decoder_t *dec, int is_utf8, SV* into)
+srl_check_string(pTHX_ srl_decoder_t *dec, const U8 *from, STRLEN len, int is_utf8)
 {
-    UV len= srl_read_varint_uv_length(aTHX_ dec->pbuf, " while reading string");
     /* Limit the maximum size of the string that we accept to whatever was configured */
     if (expect_false( dec->max_string_length != 0 && len > dec->max_string_length )) {
         SRL_RDR_ERRORf2(dec->pbuf, "Got input string with %u characters, but the configured maximum is just %u",
@@ -1171,10 +1171,17 @@ srl_read_string(pTHX_ srl_decoder_t *dec, int is_utf8, SV* into)
     if (expect_false(is_utf8 && SRL_DEC_HAVE_OPTION(dec, SRL_F_DECODER_VALIDATE_UTF8))) {
         /* checks for invalid byte sequences. */
         /* of length 0 means up to a NUL */
-        if (expect_false( len && !is_utf8_string((U8*)dec->buf.pos, len) )) {
+        if (expect_false( len && !is_utf8_string((U8*)from, len) )) {
             SRL_RDR_ERROR(dec->pbuf, "Invalid UTF8 byte sequence");
         }
     }
+}
+
+SRL_STATIC_INLINE void
+srl_read_string(pTHX_ srl_decoder_t *dec, int is_utf8, SV* into)
+{
+    UV len= srl_read_varint_uv_length(aTHX_ dec->pbuf, " while reading string");
+    srl_check_string(aTHX_ dec, dec->buf.pos, len, is_utf8);
     sv_setpvn(into,(char *)dec->buf.pos,len);
     if (is_utf8) {
         SvUTF8_on(into);
@@ -1428,6 +1435,11 @@ srl_read_hash(pTHX_ srl_decoder_t *dec, SV* into, U8 tag) {
         } else {
             SRL_RDR_ERROR_UNEXPECTED(dec->pbuf, tag, "a stringish type");
         }
+#ifdef OLDHASH
+        srl_check_string(aTHX_ dec, from, key_len < 0 ? -key_len : key_len, key_len < 0);
+#else
+        srl_check_string(aTHX_ dec, from, key_len, flags != 0);
+#endif
         if (SvREADONLY(into)) {
             SvREADONLY_off(into);
         }
@@ -2123,6 +2135,7 @@ srl_read_single_value(pTHX_ srl_decoder_t *dec, SV* into, SV** container)
         CASE_SRL_HDR_SHORT_BINARY:
             len= (STRLEN)SRL_HDR_SHORT_BINARY_LEN_FROM_TAG(tag);
             SRL_RDR_ASSERT_SPACE(dec->pbuf, len, " while reading ascii string");
+            srl_check_string(aTHX_ dec, dec->buf.pos, len, 0);
             sv_setpvn(into,(char*)dec->buf.pos,len);
             dec->buf.pos += len;
             break;
-- 
2.43.0


From 959ac15eb47bc32dcaf419559ebe8806b47d3826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:28 +0000
Subject: [PATCH 73/87] fix: looks_like_sereal said no of documents in perl's
 other string encoding, which decode

---
 Perl/Decoder/Decoder.xs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Perl/Decoder/Decoder.xs b/Perl/Decoder/Decoder.xs
index d43c86d..5cb95c5 100644
--- a/Perl/Decoder/Decoder.xs
+++ b/Perl/Decoder/Decoder.xs
@@ -156,7 +156,17 @@ THX_pp1_looks_like_sereal(pTHX)
     if ( SvOK(data) ) {
         STRLEN len;
         char *strdata= SvPV(data, len);
-        IV ret= srl_validate_header_version_pv_len(aTHX_ strdata, len);
+        IV ret= -1;
+        if ( SvUTF8(data) ) {
+            /* decoding downgrades its input, so look at what it would see */
+            data= sv_mortalcopy(data);
+            if ( sv_utf8_downgrade(data, 1) ) {
+                strdata= SvPV(data, len);
+                ret= srl_validate_header_version_pv_len(aTHX_ strdata, len);
+            }
+        } else {
+            ret= srl_validate_header_version_pv_len(aTHX_ strdata, len);
+        }
         if ( ret < 0 ) {
             SETs(&PL_sv_no);
         } else {
-- 
2.43.0


From 873e9639e94c214b4b2fdfc8adff39ecbac10696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:12 +0000
Subject: [PATCH 74/87] fix: perl crashed when something was assigned to a
 regexp that had been decoded without a reference

---
 Perl/Decoder/srl_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Perl/Decoder/srl_decoder.c b/Perl/Decoder/srl_decoder.c
index d80ff2c..4b118e6 100644
--- a/Perl/Decoder/srl_decoder.c
+++ b/Perl/Decoder/srl_decoder.c
@@ -2039,6 +2039,10 @@ srl_read_regexp(pTHX_ srl_decoder_t *dec, SV* into)
             SvREFCNT(referent)= SvREFCNT(into);
             SvREFCNT(into)= SvREFCNT(&tmp);
 
+            /* As in every regexp that perl code can get at. Without it perl does
+             * not take the regexp out when something else is assigned to it. */
+            SvFAKE_on(into);
+
             if (SWAP_DEBUG) { warn("after swap:"); sv_dump(into); sv_dump(referent); }
 
             /* and now throw away the head we got from the regexp engine. */
-- 
2.43.0


From e58f41ffcc2e6e497bd8ddb4c104c134729a01a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 75/87] fix: Java Decoder: a header is decoded with the data
 and the offsets of the header

decodeHeader() read the body's data after decode() of a compressed document,
and took offsets from the body.
---
 .../main/java/com/booking/sereal/Decoder.java  | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/Java/sereal/src/main/java/com/booking/sereal/Decoder.java b/Java/sereal/src/main/java/com/booking/sereal/Decoder.java
index edca41e..3598269 100644
--- a/Java/sereal/src/main/java/com/booking/sereal/Decoder.java
+++ b/Java/sereal/src/main/java/com/booking/sereal/Decoder.java
@@ -203,18 +203,24 @@ public class Decoder implements SerealHeader {
     parseHeader();
 
     if (userHeaderSize <= 0) throw new SerealException("Sereal user header not present");
-    byte[] originalData = data;
-    int originalPosition = position, originalSize = end;
+    byte[] savedData = data;
+    int savedPosition = position, savedEnd = end, savedBaseOffset = baseOffset;
     try {
-      data = originalData;
+      // the body might have been decompressed in the meantime
+      data = originalData.array;
       end = (int) (userHeaderPosition + userHeaderSize);
       position = (int) userHeaderPosition;
+      // because offsets start at 1
+      baseOffset = position - 1;
+      recursionDepth = 0;
+      resetTracked();
 
       return readSingleValue();
     } finally {
-      data = originalData;
-      end = originalSize;
-      position = originalPosition;
+      data = savedData;
+      end = savedEnd;
+      position = savedPosition;
+      baseOffset = savedBaseOffset;
       resetTracked();
     }
   }
-- 
2.43.0


From 19e30c3cb417a9e7a9dd1dc931a0e835ffcfdd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 76/87] fix: Java decoders: offsets of version 1 and the end of
 a slice count from its start

A ByteArray need not start at 0. TokenDecoder also kept half of a HASHREF or
ARRAYREF token when it was started again.
---
 Java/sereal/src/main/java/com/booking/sereal/Decoder.java  | 6 +++---
 .../src/main/java/com/booking/sereal/TokenDecoder.java     | 7 +++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/Java/sereal/src/main/java/com/booking/sereal/Decoder.java b/Java/sereal/src/main/java/com/booking/sereal/Decoder.java
index 3598269..f5c2fe2 100644
--- a/Java/sereal/src/main/java/com/booking/sereal/Decoder.java
+++ b/Java/sereal/src/main/java/com/booking/sereal/Decoder.java
@@ -254,12 +254,12 @@ public class Decoder implements SerealHeader {
       if (encoding == 1 || encoding == 2) uncompressSnappy();
       else if (encoding == 3) uncompressZlib();
       else if (encoding == 4) uncompressZstd();
-      if (protocolVersion == 1) baseOffset = 0;
+      if (protocolVersion == 1) baseOffset = originalData.start;
       else
         // because offsets start at 1
         baseOffset = -1;
     } else {
-      if (protocolVersion == 1) baseOffset = 0;
+      if (protocolVersion == 1) baseOffset = originalData.start;
       else
         // because offsets start at 1
         baseOffset = position - 1;
@@ -276,7 +276,7 @@ public class Decoder implements SerealHeader {
 
   private void uncompressSnappy() throws SerealException {
     int len = originalData.length - (position - originalData.start);
-    int pos = protocolVersion == 1 ? position : originalData.start;
+    int pos = protocolVersion == 1 ? position : 0;
 
     if (encoding == 2) {
       len = (int) read_varint();
diff --git a/Java/sereal/src/main/java/com/booking/sereal/TokenDecoder.java b/Java/sereal/src/main/java/com/booking/sereal/TokenDecoder.java
index aef8bd4..c9ff254 100644
--- a/Java/sereal/src/main/java/com/booking/sereal/TokenDecoder.java
+++ b/Java/sereal/src/main/java/com/booking/sereal/TokenDecoder.java
@@ -221,6 +221,7 @@ public class TokenDecoder {
     baseOffset = position - 1;
 
     currentContext = new Context(null, CONTEXT_ROOT, 1);
+    isSecondTime = false;
   }
 
   private void parseHeader() throws SerealException {
@@ -253,7 +254,7 @@ public class TokenDecoder {
     if (bodyData == null) {
       if (encoding != 0) {
         position = userHeaderPosition + userHeaderSize;
-        end = originalData.length;
+        end = originalData.start + originalData.length;
         if (encoding == SerealHeader.SRL_ENCODING_SNAPPY_LEGACY || encoding == SerealHeader.SRL_ENCODING_SNAPPY) {
           uncompressSnappy();
         } else if (encoding == SerealHeader.SRL_ENCODING_ZLIB) {
@@ -273,13 +274,15 @@ public class TokenDecoder {
     end = bodySize;
 
     if (protocolVersion == 1) {
-      baseOffset = 0;
+      // because offsets start at the document header
+      baseOffset = originalData.start;
     } else {
       // because offsets start at 1
       baseOffset = position - 1;
     }
 
     currentContext = new Context(null, CONTEXT_ROOT, 1);
+    isSecondTime = false;
   }
 
   private void uncompressSnappy() throws SerealException {
-- 
2.43.0


From 29d3d7bc44da488580305df88d743683dfea8f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 77/87] fix: Java Decoder: what is copied is not tracked again

A REFP to an item got its copy if the item had been copied.
---
 .../sereal/src/main/java/com/booking/sereal/Decoder.java | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Java/sereal/src/main/java/com/booking/sereal/Decoder.java b/Java/sereal/src/main/java/com/booking/sereal/Decoder.java
index f5c2fe2..a5e0d9f 100644
--- a/Java/sereal/src/main/java/com/booking/sereal/Decoder.java
+++ b/Java/sereal/src/main/java/com/booking/sereal/Decoder.java
@@ -61,6 +61,7 @@ public class Decoder implements SerealHeader {
   private Inflater inflater;
 
   private int recursionDepth = 0;
+  private boolean insideCopy = false;
 
   /** Create a new Decoder with default options. */
   public Decoder() {
@@ -470,7 +471,8 @@ public class Decoder implements SerealHeader {
     int track = 0;
     if ((tag & SRL_HDR_TRACK_FLAG) != 0) {
       tag = (byte) (tag & ~SRL_HDR_TRACK_FLAG);
-      track = position - 1 - baseOffset;
+      // others refer to the original and not to its copies
+      if (!insideCopy) track = position - 1 - baseOffset;
     }
 
     Object out;
@@ -723,8 +725,12 @@ public class Decoder implements SerealHeader {
     int originalPosition = (int) read_varint();
     int currentPosition = position; // remember where we parked
 
+    boolean wasInsideCopy = insideCopy;
+
     position = originalPosition + baseOffset;
+    insideCopy = true;
     Object copy = readSingleValue();
+    insideCopy = wasInsideCopy;
     position = currentPosition; // go back to where we were
 
     return copy;
@@ -886,6 +892,7 @@ public class Decoder implements SerealHeader {
   private void reset() {
     originalData = null;
     data = null;
+    insideCopy = false;
     protocolVersion = encoding = -1;
     baseOffset = Integer.MAX_VALUE;
     userHeaderPosition = userHeaderSize = -1;
-- 
2.43.0


From c34e2b86661eb5a474e7339eafe9bffe77cff025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 78/87] fix: Java Decoder: others refer to the PerlReference of
 ARRAYREF and HASHREF

With perlReferences the container within was tracked until it was complete, so
that a cycle got another reference than what comes later.
---
 .../main/java/com/booking/sereal/Decoder.java | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/Java/sereal/src/main/java/com/booking/sereal/Decoder.java b/Java/sereal/src/main/java/com/booking/sereal/Decoder.java
index a5e0d9f..9ca0de4 100644
--- a/Java/sereal/src/main/java/com/booking/sereal/Decoder.java
+++ b/Java/sereal/src/main/java/com/booking/sereal/Decoder.java
@@ -491,17 +491,29 @@ public class Decoder implements SerealHeader {
     } else if ((tag & SRL_HDR_HASHREF) == SRL_HDR_HASHREF) {
       depthIncrement();
 
-      Map<String, Object> hash = readMap(tag & 0xf, track);
       if (perlRefs) {
-        out = new PerlReference(hash);
+        PerlReference ref = new PerlReference(null);
+        if (track != 0) { // track early, it is the reference that others refer to
+          track_stuff(track, ref);
+        }
+        ref.setValue(readMap(tag & 0xf, 0));
+        out = ref;
       } else {
-        out = hash;
+        out = readMap(tag & 0xf, track);
       }
 
       depthDecrement();
     } else if ((tag & SRL_HDR_ARRAYREF) == SRL_HDR_ARRAYREF) {
       depthIncrement();
 
+      PerlReference ref = null;
+      if (perlRefs) {
+        ref = new PerlReference(null);
+        if (track != 0) { // track early, it is the reference that others refer to
+          track_stuff(track, ref);
+          track = 0;
+        }
+      }
       Object arr;
       if (useObjectArray) {
         arr = readNativeArray(tag & 0xf, track);
@@ -509,7 +521,8 @@ public class Decoder implements SerealHeader {
         arr = readList(tag & 0xf, track);
       }
       if (perlRefs) {
-        out = new PerlReference(arr);
+        ref.setValue(arr);
+        out = ref;
       } else {
         out = arr;
       }
-- 
2.43.0


From f96292a36a6fd3e4538e1d8c4b5076646d937169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 79/87] fix: Java decoders: padding and track bits before
 strings

Hash keys, class names, patterns and modifiers may be padded or tracked as
anything else, and modifiers may be of any string type.
---
 .../main/java/com/booking/sereal/Decoder.java | 62 ++++++++++---------
 .../java/com/booking/sereal/TokenDecoder.java |  8 ++-
 2 files changed, 37 insertions(+), 33 deletions(-)

diff --git a/Java/sereal/src/main/java/com/booking/sereal/Decoder.java b/Java/sereal/src/main/java/com/booking/sereal/Decoder.java
index 9ca0de4..1d06337 100644
--- a/Java/sereal/src/main/java/com/booking/sereal/Decoder.java
+++ b/Java/sereal/src/main/java/com/booking/sereal/Decoder.java
@@ -794,34 +794,28 @@ public class Decoder implements SerealHeader {
     }
 
     // now read modifiers
-    byte tag = data[position++];
-    if ((tag & SRL_HDR_SHORT_BINARY_LOW) == SRL_HDR_SHORT_BINARY_LOW) {
-      int length = tag & SRL_MASK_SHORT_BINARY_LEN;
-      while (length-- > 0) {
-        byte value = data[position++];
-        switch (value) {
-          case 'm':
-            flags = flags | Pattern.MULTILINE;
-            break;
-          case 's':
-            flags = flags | Pattern.DOTALL;
-            break;
-          case 'i':
-            flags = flags | Pattern.CASE_INSENSITIVE;
-            break;
-          case 'x':
-            flags = flags | Pattern.COMMENTS;
-            break;
-          case 'p':
-            // ignored
-            break;
-          default:
-            throw new SerealException("Unknown regex modifier: " + value);
-        }
+    String modifiers = readString();
+    for (int i = 0; i < modifiers.length(); i++) {
+      char value = modifiers.charAt(i);
+      switch (value) {
+        case 'm':
+          flags = flags | Pattern.MULTILINE;
+          break;
+        case 's':
+          flags = flags | Pattern.DOTALL;
+          break;
+        case 'i':
+          flags = flags | Pattern.CASE_INSENSITIVE;
+          break;
+        case 'x':
+          flags = flags | Pattern.COMMENTS;
+          break;
+        case 'p':
+          // ignored
+          break;
+        default:
+          throw new SerealException("Unknown regex modifier: " + value);
       }
-    } else {
-      throw new SerealException(
-          "Expecting SRL_HDR_SHORT_BINARY for modifiers of regexp, got: " + tag);
     }
 
     return Pattern.compile(regex, flags);
@@ -840,10 +834,18 @@ public class Decoder implements SerealHeader {
     return object;
   }
 
-  private String readString() throws SerealException {
-    checkNoEOD();
+  // padding may stand anywhere, and any tag may be tracked
+  private byte readStringTag() throws SerealException {
+    byte tag;
+    do {
+      checkNoEOD();
+      tag = (byte) (data[position++] & ~SRL_HDR_TRACK_FLAG);
+    } while (tag == SRL_HDR_PAD);
+    return tag;
+  }
 
-    byte tag = data[position++];
+  private String readString() throws SerealException {
+    byte tag = readStringTag();
 
     if ((tag & SRL_HDR_SHORT_BINARY_LOW) == SRL_HDR_SHORT_BINARY_LOW) {
       int length = tag & SRL_MASK_SHORT_BINARY_LEN;
diff --git a/Java/sereal/src/main/java/com/booking/sereal/TokenDecoder.java b/Java/sereal/src/main/java/com/booking/sereal/TokenDecoder.java
index c9ff254..aa6bb74 100644
--- a/Java/sereal/src/main/java/com/booking/sereal/TokenDecoder.java
+++ b/Java/sereal/src/main/java/com/booking/sereal/TokenDecoder.java
@@ -802,9 +802,11 @@ public class TokenDecoder {
   }
 
   private void readString() throws SerealException {
-    checkNoEOD();
-
-    byte tag = data[position++];
+    byte tag;
+    do {
+      checkNoEOD();
+      tag = (byte) (data[position++] & ~SerealHeader.SRL_HDR_TRACK_FLAG);
+    } while (tag == SerealHeader.SRL_HDR_PAD);
 
     if ((tag & SerealHeader.SRL_HDR_SHORT_BINARY_LOW) == SerealHeader.SRL_HDR_SHORT_BINARY_LOW) {
       readShortBinary(tag);
-- 
2.43.0


From 4d4ec365af924edde55a078088d9a383cb1bab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 80/87] fix: Java TokenDecoder: isHashKey of a reference

REFN and WEAKEN as a value were said to be a key.
---
 .../sereal/src/main/java/com/booking/sereal/TokenDecoder.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Java/sereal/src/main/java/com/booking/sereal/TokenDecoder.java b/Java/sereal/src/main/java/com/booking/sereal/TokenDecoder.java
index aa6bb74..4b8d27f 100644
--- a/Java/sereal/src/main/java/com/booking/sereal/TokenDecoder.java
+++ b/Java/sereal/src/main/java/com/booking/sereal/TokenDecoder.java
@@ -747,6 +747,10 @@ public class TokenDecoder {
 
   /** @return {@code true} if the current token is a hash key, {@code false} otherwise. */
   public boolean isHashKey() {
+    if (currentToken == SerealToken.REFN || currentToken == SerealToken.WEAKEN) {
+      // what is referred to is not counted yet
+      return false;
+    }
     Context context = currentContext;
     while (context.type == CONTEXT_SUBDECODE) {
       context = context.outer;
-- 
2.43.0


From 0cfc5f557d463fe67da53dfd47cd5317f9def768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 81/87] fix: Java Encoder: offsets in the user header start at
 1

---
 Java/sereal/src/main/java/com/booking/sereal/Encoder.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Java/sereal/src/main/java/com/booking/sereal/Encoder.java b/Java/sereal/src/main/java/com/booking/sereal/Encoder.java
index 390b747..e0a9352 100644
--- a/Java/sereal/src/main/java/com/booking/sereal/Encoder.java
+++ b/Java/sereal/src/main/java/com/booking/sereal/Encoder.java
@@ -194,6 +194,8 @@ public class Encoder {
 
     // be optimistic about encoded header size
     size += 2; // one for the size, one for 8bit bitfield
+    // because offsets start at 1
+    headerOffset = (int) size - 1;
     encode(header);
 
     int suffixSize = (int) (size - originalSize - 1);
-- 
2.43.0


From 391547d910c16337d87ffeada8d1adb9f70c2a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 82/87] fix: Java Encoder: patterns with characters beyond
 Latin-1

They were written as Latin-1 with question marks.
---
 .../src/main/java/com/booking/sereal/Encoder.java  | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Java/sereal/src/main/java/com/booking/sereal/Encoder.java b/Java/sereal/src/main/java/com/booking/sereal/Encoder.java
index e0a9352..fcc2bf9 100644
--- a/Java/sereal/src/main/java/com/booking/sereal/Encoder.java
+++ b/Java/sereal/src/main/java/com/booking/sereal/Encoder.java
@@ -468,11 +468,23 @@ public class Encoder {
     if ((p.flags() & Pattern.COMMENTS) != 0) flags[flags_size++] = 'x';
 
     appendByte(SerealHeader.SRL_HDR_REGEXP);
-    appendStringType(new Latin1String(p.pattern()));
+    String pattern = p.pattern();
+    if (isLatin1(pattern)) {
+      appendStringType(new Latin1String(pattern));
+    } else {
+      appendStringType(pattern);
+    }
     appendByte((byte) (flags_size | SerealHeader.SRL_HDR_SHORT_BINARY));
     appendBytes(flags, flags_size);
   }
 
+  private static boolean isLatin1(String s) {
+    for (int i = 0; i < s.length(); i++) {
+      if (s.charAt(i) > 255) return false;
+    }
+    return true;
+  }
+
   /**
    * Encodes a byte array emitting both length and data
    */
-- 
2.43.0


From 125250c2ffebee84dec74c18fe0b98317425be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 83/87] fix: Java Encoder: CANONICAL_UNDEF in version 4

---
 Java/sereal/src/main/java/com/booking/sereal/Encoder.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Java/sereal/src/main/java/com/booking/sereal/Encoder.java b/Java/sereal/src/main/java/com/booking/sereal/Encoder.java
index fcc2bf9..a7cbee6 100644
--- a/Java/sereal/src/main/java/com/booking/sereal/Encoder.java
+++ b/Java/sereal/src/main/java/com/booking/sereal/Encoder.java
@@ -571,7 +571,7 @@ public class Encoder {
 
     // this needs to be first for obvious reasons :)
     if (type == PerlUndef.class) {
-      if (protocolVersion == 3 && obj == PerlUndef.CANONICAL)
+      if (protocolVersion >= 3 && obj == PerlUndef.CANONICAL)
         appendByte(SerealHeader.SRL_HDR_CANONICAL_UNDEF);
       else appendByte(SerealHeader.SRL_HDR_UNDEF);
       return;
-- 
2.43.0


From 30df1dca87d9d12ca9ea70bb4aa7b104f3150cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 84/87] fix: Java Encoder: a hash key is not written as ALIAS

---
 Java/sereal/src/main/java/com/booking/sereal/Encoder.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Java/sereal/src/main/java/com/booking/sereal/Encoder.java b/Java/sereal/src/main/java/com/booking/sereal/Encoder.java
index a7cbee6..151d5bd 100644
--- a/Java/sereal/src/main/java/com/booking/sereal/Encoder.java
+++ b/Java/sereal/src/main/java/com/booking/sereal/Encoder.java
@@ -780,7 +780,8 @@ public class Encoder {
     appendVarint(hash.size());
 
     for (Map.Entry<Object, Object> entry : hash.entrySet()) {
-      encode(entry.getKey().toString());
+      // not encode(), a key can't be an alias nor the target of one
+      appendStringType(entry.getKey().toString());
       encode(entry.getValue());
     }
   }
-- 
2.43.0


From 07689fba4b1b38475ca83d50779b93ae5b601520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 85/87] fix: Java encoders: WEAKEN stands before a reference
 only, and references are recognised

The track bit hid that a tag is a reference, objects were not recognised as
references and short strings were. A PerlReference to a container was written
as REFP to itself if containers are references by themselves.
---
 .../main/java/com/booking/sereal/Encoder.java | 34 +++++++++++++------
 .../java/com/booking/sereal/TokenEncoder.java | 20 +++++------
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/Java/sereal/src/main/java/com/booking/sereal/Encoder.java b/Java/sereal/src/main/java/com/booking/sereal/Encoder.java
index 151d5bd..a05081a 100644
--- a/Java/sereal/src/main/java/com/booking/sereal/Encoder.java
+++ b/Java/sereal/src/main/java/com/booking/sereal/Encoder.java
@@ -789,6 +789,12 @@ public class Encoder {
   private void appendRef(PerlReference ref) throws SerealException {
     Object refValue = ref.getValue();
 
+    if (!perlRefs && isContainer(refValue)) {
+      // it is written as a reference as it is
+      encode(refValue);
+      return;
+    }
+
     appendByte(SerealHeader.SRL_HDR_REFN);
     track(refValue, size);
     encode(refValue);
@@ -929,7 +935,8 @@ public class Encoder {
 
   private boolean isDefinitelyReference(Object value) {
     if (value instanceof Map || value instanceof List) {
-      return true;
+      // with Perl references they are written as they are
+      return !perlRefs;
     } else if (value instanceof PerlReference) {
       return true;
     }
@@ -937,18 +944,23 @@ public class Encoder {
     return false;
   }
 
+  private static boolean isContainer(Object value) {
+    return value instanceof Map || value instanceof List ||
+        (value != null && value.getClass().isArray() && !(value instanceof byte[]));
+  }
+
   private boolean isRefTag(byte tag) {
-    // the first branch is the common case, the other two branchs are unlikely
-    if (tag == SerealHeader.SRL_HDR_REFN ||
-        tag == SerealHeader.SRL_HDR_REFP) {
-      return true;
-    } else if ((tag & SerealHeader.SRL_HDR_ARRAYREF) == SerealHeader.SRL_HDR_ARRAYREF) {
-      return true;
-    } else if ((tag & SerealHeader.SRL_HDR_HASHREF) == SerealHeader.SRL_HDR_HASHREF) {
-      return true;
+    tag = (byte) (tag & ~SerealHeader.SRL_HDR_TRACK_FLAG);
+    switch (tag) {
+      case SerealHeader.SRL_HDR_REFN:
+      case SerealHeader.SRL_HDR_REFP:
+      case SerealHeader.SRL_HDR_OBJECT:
+      case SerealHeader.SRL_HDR_OBJECTV:
+        return true;
+      default:
+        // ARRAYREF_* and HASHREF_*, but not SHORT_BINARY_*
+        return (tag & 0xe0) == SerealHeader.SRL_HDR_ARRAYREF;
     }
-
-    return false;
   }
 
   /** Discard all previous tracking clear the buffers etc Call this when you reuse the encoder */
diff --git a/Java/sereal/src/main/java/com/booking/sereal/TokenEncoder.java b/Java/sereal/src/main/java/com/booking/sereal/TokenEncoder.java
index f323fe8..5826d84 100644
--- a/Java/sereal/src/main/java/com/booking/sereal/TokenEncoder.java
+++ b/Java/sereal/src/main/java/com/booking/sereal/TokenEncoder.java
@@ -1172,17 +1172,17 @@ public class TokenEncoder {
   }
 
   private static boolean isRefTag(byte tag) {
-    // the first branch is the common case, the other two branchs are unlikely
-    if (tag == SerealHeader.SRL_HDR_REFN ||
-        tag == SerealHeader.SRL_HDR_REFP) {
-      return true;
-    } else if ((tag & SerealHeader.SRL_HDR_ARRAYREF) == SerealHeader.SRL_HDR_ARRAYREF) {
-      return true;
-    } else if ((tag & SerealHeader.SRL_HDR_HASHREF) == SerealHeader.SRL_HDR_HASHREF) {
-      return true;
+    tag = (byte) (tag & ~SerealHeader.SRL_HDR_TRACK_FLAG);
+    switch (tag) {
+      case SerealHeader.SRL_HDR_REFN:
+      case SerealHeader.SRL_HDR_REFP:
+      case SerealHeader.SRL_HDR_OBJECT:
+      case SerealHeader.SRL_HDR_OBJECTV:
+        return true;
+      default:
+        // ARRAYREF_* and HASHREF_*, but not SHORT_BINARY_*
+        return (tag & 0xe0) == SerealHeader.SRL_HDR_ARRAYREF;
     }
-
-    return false;
   }
 
   private static int varintLength(long n) {
-- 
2.43.0


From c45cc6c61ed8a51f1b0b27ee6906d8e556332d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 86/87] fix: Java Decoder: damaged documents are refused and
 nothing outside of the data is read

Lengths, counts, varints and offsets were believed, so that bytes around the
slice became part of the value, and long padding overflowed the stack.
---
 .../main/java/com/booking/sereal/Decoder.java | 129 ++++++++++++------
 1 file changed, 89 insertions(+), 40 deletions(-)

diff --git a/Java/sereal/src/main/java/com/booking/sereal/Decoder.java b/Java/sereal/src/main/java/com/booking/sereal/Decoder.java
index 1d06337..d410942 100644
--- a/Java/sereal/src/main/java/com/booking/sereal/Decoder.java
+++ b/Java/sereal/src/main/java/com/booking/sereal/Decoder.java
@@ -60,6 +60,8 @@ public class Decoder implements SerealHeader {
   private long userHeaderSize = -1;
   private Inflater inflater;
 
+  // first position that offsets may point to
+  private int bodyStart;
   private int recursionDepth = 0;
   private boolean insideCopy = false;
 
@@ -113,8 +115,8 @@ public class Decoder implements SerealHeader {
     }
   }
 
-  private void checkHeaderSuffix() {
-    long suffix_size = read_varint();
+  private void checkHeaderSuffix() throws SerealException {
+    long suffix_size = readLength();
     long basePosition = position;
 
     userHeaderSize = 0;
@@ -138,6 +140,38 @@ public class Decoder implements SerealHeader {
     }
   }
 
+  private void checkAvailable(long length) throws SerealException {
+    if (length < 0 || length > end - position) {
+      throw new SerealException("Unexpected end of data at byte " + position);
+    }
+  }
+
+  // the size of something that follows in the document
+  private int readLength() throws SerealException {
+    long length = read_varint();
+    checkAvailable(length);
+    return (int) length;
+  }
+
+  // each of the items counted takes at least this number of bytes
+  private int readCount(int minimumSize) throws SerealException {
+    long count = read_varint();
+    if (count < 0 || count > (end - position) / minimumSize) {
+      throw new SerealException("Unexpected end of data at byte " + position);
+    }
+    return (int) count;
+  }
+
+  // copies are of something that has been there before
+  private int readCopyPosition() throws SerealException {
+    int tagPosition = position - 1;
+    long offset = read_varint();
+    if (offset < bodyStart - baseOffset || offset >= tagPosition - baseOffset) {
+      throw new SerealException("COPY of offset " + offset + ", which is not before it");
+    }
+    return (int) offset + baseOffset;
+  }
+
   private void checkProtoAndFlags() throws SerealException {
 
     if ((end - position) < 1) {
@@ -213,10 +247,14 @@ public class Decoder implements SerealHeader {
       position = (int) userHeaderPosition;
       // because offsets start at 1
       baseOffset = position - 1;
+      bodyStart = position;
       recursionDepth = 0;
+      insideCopy = false;
       resetTracked();
 
       return readSingleValue();
+    } catch (StackOverflowError error) {
+      throw new SerealException("StackOverflowError: Reached recursion limit during deserialization");
     } finally {
       data = savedData;
       end = savedEnd;
@@ -244,6 +282,7 @@ public class Decoder implements SerealHeader {
   public Object decode() throws SerealException {
 
     recursionDepth = 0;
+    insideCopy = false;
 
     if (data == null) {
       throw new SerealException("No data set");
@@ -265,6 +304,7 @@ public class Decoder implements SerealHeader {
         // because offsets start at 1
         baseOffset = position - 1;
     }
+    bodyStart = position;
     Object out;
     try {
       out = readSingleValue();
@@ -280,7 +320,7 @@ public class Decoder implements SerealHeader {
     int pos = protocolVersion == 1 ? position : 0;
 
     if (encoding == 2) {
-      len = (int) read_varint();
+      len = readLength();
     }
 
     byte[] uncompressed;
@@ -313,8 +353,8 @@ public class Decoder implements SerealHeader {
       throw new SerealException("The expected uncompressed size is larger than the allowed maximum size");
     }
 
-    long compressedLength = read_varint();
-    inflater.setInput(originalData.array, position, (int) compressedLength);
+    int compressedLength = readLength();
+    inflater.setInput(originalData.array, position, compressedLength);
     try (ByteArrayOutputStream outputStream = new ByteArrayOutputStream()) {
       byte[] buffer = new byte[this.decodeBufferSize];
       while (!inflater.finished()) {
@@ -329,6 +369,9 @@ public class Decoder implements SerealHeader {
         }
         outputStream.write(buffer, 0, count);
       }
+      if (!inflater.finished() || outputStream.size() != uncompressedLength) {
+        throw new SerealException("Error in zlib-compressed data");
+      }
       this.data = outputStream.toByteArray();
     } catch (DataFormatException | IOException e) {
       throw new SerealException(e);
@@ -338,7 +381,7 @@ public class Decoder implements SerealHeader {
   }
 
   private void uncompressZstd() throws SerealException {
-    int len = (int) read_varint();
+    int len = readLength();
 
     byte[] compressedData = Arrays.copyOfRange(originalData.array, position, position + len);
     long decompressedSize = Zstd.decompressedSize(compressedData);
@@ -411,8 +454,8 @@ public class Decoder implements SerealHeader {
    *
    * <p>For some reason we call them Latin1Strings.
    */
-  private byte[] read_binary() {
-    int length = (int) read_varint();
+  private byte[] read_binary() throws SerealException {
+    int length = readLength();
     byte[] out = Arrays.copyOfRange(data, position, position + length);
 
     position += length;
@@ -440,21 +483,30 @@ public class Decoder implements SerealHeader {
     return hash;
   }
 
-  private Object get_tracked_item() {
+  private Object get_tracked_item() throws SerealException {
     long offset = read_varint();
-    return tracked.get(offset);
+    Object item = tracked.get(offset);
+    if (item == RefpMap.NOT_FOUND) {
+      throw new SerealException("ALIAS to offset " + offset + ", which is not tracked");
+    }
+    return item;
   }
 
   // top bit set (0x80) means next byte is 7 bits more more varint
-  private long read_varint() {
+  private long read_varint() throws SerealException {
 
     long uv = 0;
     int lshift = 0;
 
+    checkNoEOD();
     byte b = data[position++];
-    while ((position < end) && (b < 0)) {
+    while (b < 0) {
       uv |= ((long) b & 127) << lshift; // add 7 bits
       lshift += 7;
+      if (lshift > 63) {
+        throw new SerealException("Varint too big at byte " + position);
+      }
+      checkNoEOD();
       b = data[position++];
     }
     uv |= (long) b << lshift; // add final (or first if there is only 1)
@@ -464,9 +516,11 @@ public class Decoder implements SerealHeader {
 
   private Object readSingleValue() throws SerealException {
 
-    checkNoEOD();
-
-    byte tag = data[position++];
+    byte tag;
+    do {
+      checkNoEOD();
+      tag = data[position++];
+    } while ((tag & ~SRL_HDR_TRACK_FLAG) == SRL_HDR_PAD);
 
     int track = 0;
     if ((tag & SRL_HDR_TRACK_FLAG) != 0) {
@@ -549,6 +603,7 @@ public class Decoder implements SerealHeader {
           out = zz;
           break;
         case SRL_HDR_FLOAT:
+          checkAvailable(4);
           int floatBits =
               ((int) (data[position + 3] & 0xff) << 24)
                   + ((int) (data[position + 2] & 0xff) << 16)
@@ -559,6 +614,7 @@ public class Decoder implements SerealHeader {
           out = f;
           break;
         case SRL_HDR_DOUBLE:
+          checkAvailable(8);
           long doubleBits =
               ((long) (data[position + 7] & 0xff) << 56)
                   + ((long) (data[position + 6] & 0xff) << 48)
@@ -676,16 +732,16 @@ public class Decoder implements SerealHeader {
           break;
         case SRL_HDR_HASH:
           depthIncrement();
-          Object hash = readMap((int) read_varint(), track);
+          Object hash = readMap(readCount(2), track);
           out = hash;
           depthDecrement();
           break;
         case SRL_HDR_ARRAY:
           depthIncrement();
           if (useObjectArray) {
-            out = readNativeArray((int) read_varint(), track);
+            out = readNativeArray(readCount(1), track);
           } else {
-            out = readList((int) read_varint(), track);
+            out = readList(readCount(1), track);
           }
           depthDecrement();
           break;
@@ -693,8 +749,6 @@ public class Decoder implements SerealHeader {
           Pattern pattern = read_regex();
           out = pattern;
           break;
-        case SRL_HDR_PAD:
-          return readSingleValue();
         default:
           throw new SerealException("Tag not supported: " + tag);
       }
@@ -712,8 +766,9 @@ public class Decoder implements SerealHeader {
    *
    * @param tag the Sereal SHORT_BINARY_* tag
    */
-  private byte[] read_short_binary(byte tag) {
+  private byte[] read_short_binary(byte tag) throws SerealException {
     int length = tag & SRL_MASK_SHORT_BINARY_LEN;
+    checkAvailable(length);
     byte[] buf = Arrays.copyOfRange(data, position, position + length);
     position += length;
     return buf;
@@ -735,25 +790,26 @@ public class Decoder implements SerealHeader {
    */
   private Object read_copy() throws SerealException {
 
-    int originalPosition = (int) read_varint();
+    if (insideCopy) {
+      throw new SerealException("COPY of something that contains a COPY at byte " + position);
+    }
+    int originalPosition = readCopyPosition();
     int currentPosition = position; // remember where we parked
 
-    boolean wasInsideCopy = insideCopy;
-
-    position = originalPosition + baseOffset;
+    position = originalPosition;
     insideCopy = true;
     Object copy = readSingleValue();
-    insideCopy = wasInsideCopy;
+    insideCopy = false;
     position = currentPosition; // go back to where we were
 
     return copy;
   }
 
   private String readStringCopy() throws SerealException {
-    int originalPosition = (int) read_varint();
+    int originalPosition = readCopyPosition();
     int currentPosition = position; // remember where we parked
 
-    position = originalPosition + baseOffset;
+    position = originalPosition;
     String copy = readString();
     position = currentPosition; // go back to where we were
 
@@ -761,7 +817,7 @@ public class Decoder implements SerealHeader {
   }
 
   private String read_UTF8() throws SerealException {
-    int length = (int) read_varint();
+    int length = readLength();
     int originalPosition = position;
 
     position += length;
@@ -773,7 +829,7 @@ public class Decoder implements SerealHeader {
     return new String(data, originalPosition, length, charset_utf8);
   }
 
-  private long read_zigzag() {
+  private long read_zigzag() throws SerealException {
 
     long n = read_varint();
 
@@ -783,15 +839,7 @@ public class Decoder implements SerealHeader {
   private Pattern read_regex() throws SerealException {
 
     int flags = 0;
-    Object str = readSingleValue();
-    String regex;
-    if (str instanceof CharSequence) {
-      regex = ((CharSequence) str).toString();
-    } else if (str instanceof byte[]) {
-      regex = (new Latin1String((byte[]) str)).toString();
-    } else {
-      throw new SerealException("Regex has to be built from a char or byte sequence");
-    }
+    String regex = readString();
 
     // now read modifiers
     String modifiers = readString();
@@ -849,13 +897,14 @@ public class Decoder implements SerealHeader {
 
     if ((tag & SRL_HDR_SHORT_BINARY_LOW) == SRL_HDR_SHORT_BINARY_LOW) {
       int length = tag & SRL_MASK_SHORT_BINARY_LEN;
+      checkAvailable(length);
       String string = new String(data, position, length, charset_latin1);
 
       position += length;
 
       return string;
     } else if (tag == SRL_HDR_BINARY) {
-      int length = (int) read_varint();
+      int length = readLength();
       String string = new String(data, position, length, charset_latin1);
 
       position += length;
-- 
2.43.0


From b3d38f3cb414fd7d520a20244e67f3507610d314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 87/87] fix: Java TokenDecoder: damaged documents are refused
 and nothing outside of the data is read

Lengths, counts, varints and offsets were believed, so that bytes around the
slice became part of the value, and long padding overflowed the stack.
---
 .../java/com/booking/sereal/TokenDecoder.java | 103 +++++++++++++-----
 1 file changed, 77 insertions(+), 26 deletions(-)

diff --git a/Java/sereal/src/main/java/com/booking/sereal/TokenDecoder.java b/Java/sereal/src/main/java/com/booking/sereal/TokenDecoder.java
index 4b8d27f..1a56f37 100644
--- a/Java/sereal/src/main/java/com/booking/sereal/TokenDecoder.java
+++ b/Java/sereal/src/main/java/com/booking/sereal/TokenDecoder.java
@@ -103,6 +103,8 @@ public class TokenDecoder {
   private int binarySliceStart, binarySliceEnd;
   private boolean binaryIsUtf8;
   private int backreferenceOffset;
+  // first position that offsets may point to
+  private int bodyStart;
 
   /** Create a new {@code TokenDecoder} with default options. */
   public TokenDecoder() {
@@ -117,8 +119,8 @@ public class TokenDecoder {
   public TokenDecoder(DecoderOptions options) {
   }
 
-  private void checkHeaderSuffix() {
-    int suffixSize = (int) readVarint();
+  private void checkHeaderSuffix() throws SerealException {
+    int suffixSize = readLength();
 
     userHeaderSize = 0;
     userHeaderPosition = position + suffixSize;
@@ -138,6 +140,38 @@ public class TokenDecoder {
     }
   }
 
+  private void checkAvailable(long length) throws SerealException {
+    if (length < 0 || length > end - position) {
+      throw new SerealException("Unexpected end of data at byte " + position);
+    }
+  }
+
+  // the size of something that follows in the document
+  private int readLength() throws SerealException {
+    long length = readVarint();
+    checkAvailable(length);
+    return (int) length;
+  }
+
+  // each of the items counted takes at least this number of bytes
+  private int readCount(int minimumSize) throws SerealException {
+    long count = readVarint();
+    if (count < 0 || count > (end - position) / minimumSize) {
+      throw new SerealException("Unexpected end of data at byte " + position);
+    }
+    return (int) count;
+  }
+
+  // offsets refer to something that has been there before
+  private int readOffset() throws SerealException {
+    int tagPosition = position - 1;
+    long offset = readVarint();
+    if (offset < bodyStart - baseOffset || offset >= tagPosition - baseOffset) {
+      throw new SerealException("Offset " + offset + " is not of something before it");
+    }
+    return (int) offset;
+  }
+
   private void checkMagicProtoAndFlags() throws SerealException {
     int magic =
         ((data[position] & 0xff) << 24)
@@ -219,6 +253,7 @@ public class TokenDecoder {
 
     // because offsets start at 1
     baseOffset = position - 1;
+    bodyStart = position;
 
     currentContext = new Context(null, CONTEXT_ROOT, 1);
     isSecondTime = false;
@@ -280,6 +315,7 @@ public class TokenDecoder {
       // because offsets start at 1
       baseOffset = position - 1;
     }
+    bodyStart = position;
 
     currentContext = new Context(null, CONTEXT_ROOT, 1);
     isSecondTime = false;
@@ -290,7 +326,7 @@ public class TokenDecoder {
     int pos = encoding == SerealHeader.SRL_ENCODING_SNAPPY_LEGACY ? position : originalData.start;
 
     if (encoding == SerealHeader.SRL_ENCODING_SNAPPY) {
-      len = (int) readVarint();
+      len = readLength();
     }
     byte[] uncompressed;
     try {
@@ -319,8 +355,13 @@ public class TokenDecoder {
     inflater.reset();
 
     long uncompressedLength = readVarint();
-    long compressedLength = readVarint();
-    inflater.setInput(originalData.array, position, (int) compressedLength);
+    int compressedLength = readLength();
+    // no data gets smaller than that
+    if (uncompressedLength < 0 || uncompressedLength / 1032 > compressedLength
+        || uncompressedLength > Integer.MAX_VALUE) {
+      throw new SerealException("Error in zlib-compressed data");
+    }
+    inflater.setInput(originalData.array, position, compressedLength);
     byte[] uncompressed = new byte[(int) uncompressedLength];
     try {
       int inflatedSize = inflater.inflate(uncompressed);
@@ -336,7 +377,7 @@ public class TokenDecoder {
   }
 
   private void uncompressZstd() throws SerealException {
-    int len = (int) readVarint();
+    int len = readLength();
 
     byte[] compressedData = Arrays.copyOfRange(originalData.array, position, position + len);
     long decompressedSize = Zstd.decompressedSize(compressedData);
@@ -354,8 +395,8 @@ public class TokenDecoder {
     this.bodySize = uncompressed.length;
   }
 
-  private void readBinary() {
-    int length = (int) readVarint();
+  private void readBinary() throws SerealException {
+    int length = readLength();
     binaryIsUtf8 = false;
     binarySliceStart = position;
     binarySliceEnd = position + length;
@@ -363,14 +404,19 @@ public class TokenDecoder {
   }
 
   // top bit set (0x80) means next byte is 7 bits more more varint
-  private long readVarint() {
+  private long readVarint() throws SerealException {
     long uv = 0;
     int lshift = 0;
 
+    checkNoEOD();
     byte b = data[position++];
-    while ((position < end) && (b < 0)) {
+    while (b < 0) {
       uv |= ((long) b & 127) << lshift; // add 7 bits
       lshift += 7;
+      if (lshift > 63) {
+        throw new SerealException("Varint too big at byte " + position);
+      }
+      checkNoEOD();
       b = data[position++];
     }
     uv |= (long) b << lshift; // add final (or first if there is only 1)
@@ -407,9 +453,11 @@ public class TokenDecoder {
       }
     }
 
-    checkNoEOD();
-
-    byte tag = data[position++];
+    byte tag;
+    do {
+      checkNoEOD();
+      tag = data[position++];
+    } while ((tag & ~SerealHeader.SRL_HDR_TRACK_FLAG) == SerealHeader.SRL_HDR_PAD);
 
     tokenOffset = position - 1 - baseOffset;
     trackOffset = 0;
@@ -464,6 +512,7 @@ public class TokenDecoder {
           longValue = readZigzag();
           return (currentToken = SerealToken.LONG);
         case SerealHeader.SRL_HDR_FLOAT:
+          checkAvailable(4);
           int floatBits =
               ((data[position + 3] & 0xff) << 24)
                   + ((data[position + 2] & 0xff) << 16)
@@ -473,6 +522,7 @@ public class TokenDecoder {
           floatValue = Float.intBitsToFloat(floatBits);
           return (currentToken = SerealToken.FLOAT);
         case SerealHeader.SRL_HDR_DOUBLE:
+          checkAvailable(8);
           long doubleBits =
               ((long) (data[position + 7] & 0xff) << 56)
                   + ((long) (data[position + 6] & 0xff) << 48)
@@ -503,7 +553,7 @@ public class TokenDecoder {
           currentContext.remaining++;
           return (currentToken = SerealToken.REFN);
         case SerealHeader.SRL_HDR_REFP:
-          backreferenceOffset = (int) readVarint();
+          backreferenceOffset = readOffset();
           return (currentToken = SerealToken.REFP);
         case SerealHeader.SRL_HDR_OBJECT:
           currentContext = new Context(currentContext, CONTEXT_OBJECT, 1);
@@ -514,28 +564,25 @@ public class TokenDecoder {
           readStringCopy();
           return (currentToken = SerealToken.OBJECT_START);
         case SerealHeader.SRL_HDR_COPY:
-          backreferenceOffset = (int) readVarint();
+          backreferenceOffset = readOffset();
           return (currentToken = SerealToken.COPY);
         case SerealHeader.SRL_HDR_ALIAS:
-          backreferenceOffset = (int) readVarint();
+          backreferenceOffset = readOffset();
           return (currentToken = SerealToken.ALIAS);
         case SerealHeader.SRL_HDR_WEAKEN:
           currentContext.remaining++;
           return (currentToken = SerealToken.WEAKEN);
         case SerealHeader.SRL_HDR_HASH:
-          int numKeys = (int) readVarint();
+          int numKeys = readCount(2);
           currentContext = new Context(currentContext, CONTEXT_HASH, numKeys * 2);
           return (currentToken = SerealToken.HASH_START);
         case SerealHeader.SRL_HDR_ARRAY:
-          int length = (int) readVarint();
+          int length = readCount(1);
           currentContext = new Context(currentContext, CONTEXT_ARRAY, length);
           return (currentToken = SerealToken.ARRAY_START);
         case SerealHeader.SRL_HDR_REGEXP:
           readRegexp();
           return (currentToken = SerealToken.REGEXP);
-        case SerealHeader.SRL_HDR_PAD:
-          currentContext.remaining++;
-          return nextToken();
         default:
           throw new SerealException("Tag not supported: " + tag);
       }
@@ -556,6 +603,9 @@ public class TokenDecoder {
    * @throws SerealException Token cannot be decoded.
    */
   public void startSubDecode(int offset) throws SerealException {
+    if (offset < bodyStart - baseOffset || offset >= end - baseOffset) {
+      throw new SerealException("Offset " + offset + " is outside of the document");
+    }
     currentContext = new Context(currentContext, CONTEXT_SUBDECODE, 1, position);
     position = offset + baseOffset;
   }
@@ -758,8 +808,9 @@ public class TokenDecoder {
     return context.type == CONTEXT_HASH && (context.remaining & 1) == 1;
   }
 
-  private void readShortBinary(byte tag) {
+  private void readShortBinary(byte tag) throws SerealException {
     int length = tag & SerealHeader.SRL_MASK_SHORT_BINARY_LEN;
+    checkAvailable(length);
     binaryIsUtf8 = false;
     binarySliceStart = position;
     binarySliceEnd = position + length;
@@ -767,7 +818,7 @@ public class TokenDecoder {
   }
 
   private void readStringCopy() throws SerealException {
-    int originalPosition = (int) readVarint();
+    int originalPosition = readOffset();
     int currentPosition = position; // remember where we parked
 
     position = originalPosition + baseOffset;
@@ -775,15 +826,15 @@ public class TokenDecoder {
     position = currentPosition; // go back to where we were
   }
 
-  private void readUTF8() {
-    int length = (int) readVarint();
+  private void readUTF8() throws SerealException {
+    int length = readLength();
     binaryIsUtf8 = true;
     binarySliceStart = position;
     binarySliceEnd = position + length;
     position += length;
   }
 
-  private long readZigzag() {
+  private long readZigzag() throws SerealException {
     long n = readVarint();
 
     return (n >>> 1) ^ (-(n & 1)); // note the unsigned right shift
-- 
2.43.0

