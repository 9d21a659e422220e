From 1ef058a8978b0ffa75c89fae9ee18cf610b72364 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 01/89] fix: do not drop the last character of a string or byte
 slice when it is the only one that needs escaping

---
 msgfmt/formatter_bytes.go       | 8 ++++----
 msgfmt/jsonfmt/encoder_bytes.go | 8 ++++----
 msgfmt/jsonfmt/encoder_str.go   | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/msgfmt/formatter_bytes.go b/msgfmt/formatter_bytes.go
index 646e5c8..3da4997 100644
--- a/msgfmt/formatter_bytes.go
+++ b/msgfmt/formatter_bytes.go
@@ -117,16 +117,16 @@ var hex = "0123456789abcdef"
 
 func writeBytes(space []byte, s []byte) []byte {
 	// write string, the fast path, without utf8 and escape support
-	var i int
-	var c byte
-	for i, c = range s {
+	i := 0
+	for ; i < len(s); i++ {
+		c := s[i]
 		if c < utf8.RuneSelf && safeSet[c] {
 			space = append(space, c)
 		} else {
 			break
 		}
 	}
-	if i == len(s)-1 {
+	if i == len(s) {
 		return space
 	}
 	return writeBytesSlowPath(space, s[i:])
diff --git a/msgfmt/jsonfmt/encoder_bytes.go b/msgfmt/jsonfmt/encoder_bytes.go
index 4c81ece..c13ad65 100644
--- a/msgfmt/jsonfmt/encoder_bytes.go
+++ b/msgfmt/jsonfmt/encoder_bytes.go
@@ -16,16 +16,16 @@ func (encoder *bytesEncoder) Encode(ctx context.Context, space []byte, ptr unsaf
 func WriteBytes(space []byte, s []byte) []byte {
 	space = append(space, '"')
 	// write string, the fast path, without utf8 and escape support
-	var i int
-	var c byte
-	for i, c = range s {
+	i := 0
+	for ; i < len(s); i++ {
+		c := s[i]
 		if c < utf8.RuneSelf && safeSet[c] {
 			space = append(space, c)
 		} else {
 			break
 		}
 	}
-	if i == len(s)-1 {
+	if i == len(s) {
 		space = append(space, '"')
 		return space
 	}
diff --git a/msgfmt/jsonfmt/encoder_str.go b/msgfmt/jsonfmt/encoder_str.go
index effd7cc..80b5ccc 100644
--- a/msgfmt/jsonfmt/encoder_str.go
+++ b/msgfmt/jsonfmt/encoder_str.go
@@ -123,16 +123,16 @@ func (encoder *stringEncoder) Encode(ctx context.Context, space []byte, ptr unsa
 func WriteString(space []byte, str string) []byte {
 	space = append(space, '"')
 	// write string, the fast path, without utf8 and escape support
-	var i int
-	var c byte
-	for i, c = range []byte(str) {
+	i := 0
+	for ; i < len(str); i++ {
+		c := str[i]
 		if c > 31 && c != '"' && c != '\\' {
 			space = append(space, c)
 		} else {
 			break
 		}
 	}
-	if i == len(str)-1 {
+	if i == len(str) {
 		space = append(space, '"')
 		return space
 	}
-- 
2.43.0


From dc4f2cbdaa4424047c23ee96a512c4557527ebd0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 02/89] fix: do not drop the ASCII bytes that precede a
 non-ASCII byte when escaping a byte slice

---
 msgfmt/formatter_bytes.go       | 3 +++
 msgfmt/jsonfmt/encoder_bytes.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/msgfmt/formatter_bytes.go b/msgfmt/formatter_bytes.go
index 3da4997..864bade 100644
--- a/msgfmt/formatter_bytes.go
+++ b/msgfmt/formatter_bytes.go
@@ -139,6 +139,9 @@ func writeBytesSlowPath(space []byte, s []byte) []byte {
 	var b byte
 	for i, b = range s {
 		if b >= utf8.RuneSelf {
+			if start < i {
+				space = append(space, s[start:i]...)
+			}
 			space = append(space, '\\', 'x', hex[b>>4], hex[b&0xF])
 			start = i + 1
 			continue
diff --git a/msgfmt/jsonfmt/encoder_bytes.go b/msgfmt/jsonfmt/encoder_bytes.go
index c13ad65..986f91d 100644
--- a/msgfmt/jsonfmt/encoder_bytes.go
+++ b/msgfmt/jsonfmt/encoder_bytes.go
@@ -39,6 +39,9 @@ func writeBytesSlowPath(space []byte, s []byte) []byte {
 	var b byte
 	for i, b = range s {
 		if b >= utf8.RuneSelf {
+			if start < i {
+				space = append(space, s[start:i]...)
+			}
 			space = append(space, '\\', '\\', 'x', hex[b>>4], hex[b&0xF])
 			start = i + 1
 			continue
-- 
2.43.0


From 2a0741bb5df6fb2ce8874aa9694c1c7606a36d1e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 03/89] fix: encode all digits of 32 bit integers with ten
 digits

---
 msgfmt/jsonfmt/encoder_int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder_int.go b/msgfmt/jsonfmt/encoder_int.go
index 654cc16..22ff9a8 100644
--- a/msgfmt/jsonfmt/encoder_int.go
+++ b/msgfmt/jsonfmt/encoder_int.go
@@ -140,7 +140,7 @@ func WriteUint32(space []byte, val uint32) []byte {
 	} else {
 		r3 := q2 - q3*1000
 		space = append(space, byte(q3 + '0'))
-		return writeBuf(space, digits[r3])
+		space = writeBuf(space, digits[r3])
 	}
 	space = writeBuf(space, digits[r2])
 	return writeBuf(space, digits[r1])
-- 
2.43.0


From 48566505e9dca12d09b83864a82e6b97cfa10efd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:54 +0000
Subject: [PATCH 04/89] fix: encode nil value as null instead of panic

---
 msgfmt/jsonfmt/encoder.go | 11 +++++++++++
 reflect2/reflect2.go      |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index f3a8cc2..13ccaf3 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -63,6 +63,9 @@ func (cfg *frozenConfig) EncoderOfObject(obj interface{}) Encoder {
 }
 
 func (cfg *frozenConfig) EncoderOf(valType reflect2.Type) Encoder {
+	if valType == nil {
+		return &nilEncoder{}
+	}
 	cacheKey := valType.RType()
 	encoderObj, found := cfg.encoderCache.Load(cacheKey)
 	if found {
@@ -175,6 +178,14 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 	return &unsupportedEncoder{fmt.Sprintf(`"can not encode %s %s to json"`, valType.String(), prefix)}
 }
 
+// nilEncoder encodes nil interface{} value
+type nilEncoder struct {
+}
+
+func (encoder *nilEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	return append(space, 'n', 'u', 'l', 'l')
+}
+
 type unsupportedEncoder struct {
 	msg string
 }
diff --git a/reflect2/reflect2.go b/reflect2/reflect2.go
index 7cf0365..49eada2 100644
--- a/reflect2/reflect2.go
+++ b/reflect2/reflect2.go
@@ -150,6 +150,9 @@ func (cfg *frozenConfig) TypeOf(obj interface{}) Type {
 }
 
 func (cfg *frozenConfig) Type2(type1 reflect.Type) Type {
+	if type1 == nil {
+		return nil
+	}
 	cacheKey := uintptr(unpackEFace(type1).data)
 	typeObj, found := cfg.cache.Load(cacheKey)
 	if found {
-- 
2.43.0


From ff97f236b3534992f34f0522e027a9e6cd39b24f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:54 +0000
Subject: [PATCH 05/89] fix: iterate map with the calling convention of go 1.18
 and above

---
 reflect2/go_above_118.go | 37 +++++++++++++++++++++++++++++++++++++
 reflect2/go_below_118.go | 25 +++++++++++++++++++++++++
 reflect2/unsafe_link.go  | 15 ---------------
 reflect2/unsafe_map.go   |  2 +-
 4 files changed, 63 insertions(+), 16 deletions(-)
 create mode 100644 reflect2/go_above_118.go
 create mode 100644 reflect2/go_below_118.go

diff --git a/reflect2/go_above_118.go b/reflect2/go_above_118.go
new file mode 100644
index 0000000..6a30d77
--- /dev/null
+++ b/reflect2/go_above_118.go
@@ -0,0 +1,37 @@
+//go:build go1.18
+// +build go1.18
+
+package reflect2
+
+import "unsafe"
+
+// since go 1.18 the caller provides the memory of the iterator
+//go:noescape
+//go:linkname mapiterinit reflect.mapiterinit
+func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer, it *hiter)
+
+func newMapIter(rtype unsafe.Pointer, m unsafe.Pointer) *hiter {
+	var it hiter
+	mapiterinit(rtype, m, &it)
+	return &it
+}
+
+// A hash iteration structure, must be the same as reflect.hiter.
+type hiter struct {
+	key         unsafe.Pointer // Must be in first position.  Write nil to indicate iteration end (see cmd/internal/gc/range.go).
+	value       unsafe.Pointer // Must be in second position (see cmd/internal/gc/range.go).
+	t           unsafe.Pointer
+	h           unsafe.Pointer
+	buckets     unsafe.Pointer
+	bptr        unsafe.Pointer
+	overflow    *[]unsafe.Pointer
+	oldoverflow *[]unsafe.Pointer
+	startBucket uintptr
+	offset      uint8
+	wrapped     bool
+	B           uint8
+	i           uint8
+	bucket      uintptr
+	checkBucket uintptr
+	clearSeq    uint64
+}
diff --git a/reflect2/go_below_118.go b/reflect2/go_below_118.go
new file mode 100644
index 0000000..2bc993e
--- /dev/null
+++ b/reflect2/go_below_118.go
@@ -0,0 +1,25 @@
+//go:build !go1.18
+// +build !go1.18
+
+package reflect2
+
+import "unsafe"
+
+// m escapes into the return value, but the caller of mapiterinit
+// doesn't let the return value escape.
+//go:noescape
+//go:linkname mapiterinit reflect.mapiterinit
+func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter
+
+func newMapIter(rtype unsafe.Pointer, m unsafe.Pointer) *hiter {
+	return mapiterinit(rtype, m)
+}
+
+// A hash iteration structure.
+// If you modify hiter, also change cmd/internal/gc/reflect.go to indicate
+// the layout of this structure.
+type hiter struct {
+	key   unsafe.Pointer // Must be in first position.  Write nil to indicate iteration end (see cmd/internal/gc/range.go).
+	value unsafe.Pointer // Must be in second position (see cmd/internal/gc/range.go).
+	// rest fields are ignored
+}
diff --git a/reflect2/unsafe_link.go b/reflect2/unsafe_link.go
index a25a5f4..f6de0d2 100644
--- a/reflect2/unsafe_link.go
+++ b/reflect2/unsafe_link.go
@@ -25,12 +25,6 @@ func mapassign(rtype unsafe.Pointer, m unsafe.Pointer, key, val unsafe.Pointer)
 //go:noescape
 func mapaccess(rtype unsafe.Pointer, m unsafe.Pointer, key unsafe.Pointer) (val unsafe.Pointer)
 
-// m escapes into the return value, but the caller of mapiterinit
-// doesn't let the return value escape.
-//go:noescape
-//go:linkname mapiterinit reflect.mapiterinit
-func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter
-
 //go:noescape
 //go:linkname mapiternext reflect.mapiternext
 func mapiternext(it *hiter)
@@ -38,15 +32,6 @@ func mapiternext(it *hiter)
 //go:linkname ifaceE2I reflect.ifaceE2I
 func ifaceE2I(rtype unsafe.Pointer, src interface{}, dst unsafe.Pointer)
 
-// A hash iteration structure.
-// If you modify hiter, also change cmd/internal/gc/reflect.go to indicate
-// the layout of this structure.
-type hiter struct {
-	key   unsafe.Pointer // Must be in first position.  Write nil to indicate iteration end (see cmd/internal/gc/range.go).
-	value unsafe.Pointer // Must be in second position (see cmd/internal/gc/range.go).
-	// rest fields are ignored
-}
-
 // add returns p+x.
 //
 // The whySafe string is ignored, so that the function still inlines
diff --git a/reflect2/unsafe_map.go b/reflect2/unsafe_map.go
index f2e76e6..449c304 100644
--- a/reflect2/unsafe_map.go
+++ b/reflect2/unsafe_map.go
@@ -109,7 +109,7 @@ func (type2 *UnsafeMapType) Iterate(obj interface{}) MapIterator {
 
 func (type2 *UnsafeMapType) UnsafeIterate(obj unsafe.Pointer) MapIterator {
 	return &UnsafeMapIterator{
-		hiter:      mapiterinit(type2.rtype, *(*unsafe.Pointer)(obj)),
+		hiter:      newMapIter(type2.rtype, *(*unsafe.Pointer)(obj)),
 		pKeyRType:  type2.pKeyRType,
 		pElemRType: type2.pElemRType,
 	}
-- 
2.43.0


From af216d1f275dda45257c73ccb26c9e62db8241ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:35 +0000
Subject: [PATCH 06/89] fix: treat unsafe.Pointer as pointer like type when
 packing it into interface

---
 reflect2/reflect2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reflect2/reflect2.go b/reflect2/reflect2.go
index 49eada2..a84a109 100644
--- a/reflect2/reflect2.go
+++ b/reflect2/reflect2.go
@@ -186,7 +186,7 @@ func (cfg *frozenConfig) wrapType(type1 reflect.Type) Type {
 			return &safeMapType{safeType}
 		}
 		return newUnsafeMapType(cfg, type1)
-	case reflect.Ptr, reflect.Chan, reflect.Func:
+	case reflect.Ptr, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		if cfg.useSafeImplementation {
 			return &safeMapType{safeType}
 		}
@@ -248,7 +248,7 @@ func IsNullable(kind reflect.Kind) bool {
 
 func likePtrKind(kind reflect.Kind) bool {
 	switch kind {
-	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		return true
 	}
 	return false
-- 
2.43.0


From 607637eaa521d887db6b06370b2d252c984e20b5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:35 +0000
Subject: [PATCH 07/89] fix: safe map TryGetIndex accepts and returns pointers
 like all the other operations

---
 reflect2/safe_map.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/reflect2/safe_map.go b/reflect2/safe_map.go
index 6a1ba23..88ab415 100644
--- a/reflect2/safe_map.go
+++ b/reflect2/safe_map.go
@@ -35,15 +35,13 @@ func (type2 *safeMapType) UnsafeSetIndex(obj unsafe.Pointer, key unsafe.Pointer,
 }
 
 func (type2 *safeMapType) TryGetIndex(obj interface{}, key interface{}) (interface{}, bool) {
-	keyVal := reflect.ValueOf(key)
-	if key == nil {
-		keyVal = reflect.New(type2.Type.Key()).Elem()
-	}
-	val := reflect.ValueOf(obj).MapIndex(keyVal)
-	if !val.IsValid() {
+	elemVal := reflect.ValueOf(obj).Elem().MapIndex(reflect.ValueOf(key).Elem())
+	if !elemVal.IsValid() {
 		return nil, false
 	}
-	return val.Interface(), true
+	ptr := reflect.New(elemVal.Type())
+	ptr.Elem().Set(elemVal)
+	return ptr.Interface(), true
 }
 
 func (type2 *safeMapType) GetIndex(obj interface{}, key interface{}) interface{} {
-- 
2.43.0


From 458e52e4f582a138ecc7db07484d8dec07b087c5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:35 +0000
Subject: [PATCH 08/89] fix: safe slice Grow extends the slice to the requested
 length

---
 reflect2/safe_slice.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/reflect2/safe_slice.go b/reflect2/safe_slice.go
index 7e348c1..b080434 100644
--- a/reflect2/safe_slice.go
+++ b/reflect2/safe_slice.go
@@ -43,11 +43,14 @@ func (type2 *safeSliceType) UnsafeMakeSlice(length int, cap int) unsafe.Pointer
 }
 
 func (type2 *safeSliceType) Grow(obj interface{}, newLength int) {
-	oldCap := type2.Cap(obj)
 	oldSlice := reflect.ValueOf(obj).Elem()
-	delta := newLength - oldCap
-	deltaVals := make([]reflect.Value, delta)
-	newSlice := reflect.Append(oldSlice, deltaVals...)
+	if newLength <= oldSlice.Cap() {
+		oldSlice.SetLen(newLength)
+		return
+	}
+	newCap := calcNewCap(oldSlice.Cap(), newLength)
+	newSlice := reflect.MakeSlice(type2.Type, newLength, newCap)
+	reflect.Copy(newSlice, oldSlice)
 	oldSlice.Set(newSlice)
 }
 
-- 
2.43.0


From d67ac04d87e9984c46ad7c017b2815230aac42cb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:35 +0000
Subject: [PATCH 09/89] fix: access field promoted from embedded struct at its
 real location

---
 reflect2/unsafe_field.go  | 33 +++++++++++++++++++++++++++++++--
 reflect2/unsafe_struct.go |  6 +++---
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/reflect2/unsafe_field.go b/reflect2/unsafe_field.go
index 5eb5313..a45ef53 100644
--- a/reflect2/unsafe_field.go
+++ b/reflect2/unsafe_field.go
@@ -10,6 +10,13 @@ type UnsafeStructField struct {
 	structType *UnsafeStructType
 	rtype      unsafe.Pointer
 	ptrRType   unsafe.Pointer
+	embeddedBy []embedding
+}
+
+// embedding is one step from the struct to the struct embedded by it
+type embedding struct {
+	offset uintptr
+	isPtr  bool
 }
 
 func newUnsafeStructField(structType *UnsafeStructType, structField reflect.StructField) *UnsafeStructField {
@@ -21,6 +28,23 @@ func newUnsafeStructField(structType *UnsafeStructType, structField reflect.Stru
 	}
 }
 
+// newPromotedStructField creates the accessor for field reached by index,
+// the offset of structField is relative to the innermost embedded struct.
+func newPromotedStructField(structType *UnsafeStructType, structField reflect.StructField, index []int) *UnsafeStructField {
+	field := newUnsafeStructField(structType, structField)
+	type1 := structType.Type
+	for _, i := range index[:len(index)-1] {
+		embedded := type1.Field(i)
+		type1 = embedded.Type
+		isPtr := type1.Kind() == reflect.Ptr
+		if isPtr {
+			type1 = type1.Elem()
+		}
+		field.embeddedBy = append(field.embeddedBy, embedding{embedded.Offset, isPtr})
+	}
+	return field
+}
+
 func (field *UnsafeStructField) Offset() uintptr {
 	return field.StructField.Offset
 }
@@ -58,8 +82,7 @@ func (field *UnsafeStructField) Set(obj interface{}, value interface{}) {
 }
 
 func (field *UnsafeStructField) UnsafeSet(obj unsafe.Pointer, value unsafe.Pointer) {
-	fieldPtr := add(obj, field.StructField.Offset, "same as non-reflect &v.field")
-	typedmemmove(field.rtype, fieldPtr, value)
+	typedmemmove(field.rtype, field.UnsafeGet(obj), value)
 }
 
 func (field *UnsafeStructField) Get(obj interface{}) interface{} {
@@ -70,5 +93,11 @@ func (field *UnsafeStructField) Get(obj interface{}) interface{} {
 }
 
 func (field *UnsafeStructField) UnsafeGet(obj unsafe.Pointer) unsafe.Pointer {
+	for _, step := range field.embeddedBy {
+		obj = add(obj, step.offset, "same as non-reflect &v.field")
+		if step.isPtr {
+			obj = *(*unsafe.Pointer)(obj)
+		}
+	}
 	return add(obj, field.StructField.Offset, "same as non-reflect &v.field")
 }
diff --git a/reflect2/unsafe_struct.go b/reflect2/unsafe_struct.go
index f91ef17..506f7cd 100644
--- a/reflect2/unsafe_struct.go
+++ b/reflect2/unsafe_struct.go
@@ -39,7 +39,7 @@ func (type2 *UnsafeStructType) FieldByName(name string) StructField {
 	if !found {
 		return nil
 	}
-	return newUnsafeStructField(type2, structField)
+	return newPromotedStructField(type2, structField, structField.Index)
 }
 
 func (type2 *UnsafeStructType) Field(i int) StructField {
@@ -47,7 +47,7 @@ func (type2 *UnsafeStructType) Field(i int) StructField {
 }
 
 func (type2 *UnsafeStructType) FieldByIndex(index []int) StructField {
-	return newUnsafeStructField(type2, type2.Type.FieldByIndex(index))
+	return newPromotedStructField(type2, type2.Type.FieldByIndex(index), index)
 }
 
 func (type2 *UnsafeStructType) FieldByNameFunc(match func(string) bool) StructField {
@@ -55,5 +55,5 @@ func (type2 *UnsafeStructType) FieldByNameFunc(match func(string) bool) StructFi
 	if !found {
 		panic("field match condition not found in " + type2.Type.String())
 	}
-	return newUnsafeStructField(type2, structField)
+	return newPromotedStructField(type2, structField, structField.Index)
 }
\ No newline at end of file
-- 
2.43.0


From fd9e56eba403bfe30058ca21ffa49ff58fb36330 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:13 +0000
Subject: [PATCH 10/89] fix: escape error message when encoding it as json
 string

---
 msgfmt/jsonfmt/encoder_error.go          | 5 +----
 msgfmt/jsonfmt/encoder_json_marshaler.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder_error.go b/msgfmt/jsonfmt/encoder_error.go
index 8cd46c2..a4fcf88 100644
--- a/msgfmt/jsonfmt/encoder_error.go
+++ b/msgfmt/jsonfmt/encoder_error.go
@@ -12,8 +12,5 @@ type errorEncoder struct {
 
 func (encoder *errorEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	obj := encoder.valType.UnsafeIndirect(ptr)
-	space = append(space, '"')
-	space = append(space, obj.(error).Error()...)
-	space = append(space, '"')
-	return space
+	return WriteString(space, obj.(error).Error())
 }
diff --git a/msgfmt/jsonfmt/encoder_json_marshaler.go b/msgfmt/jsonfmt/encoder_json_marshaler.go
index fc0cd76..7f632b2 100644
--- a/msgfmt/jsonfmt/encoder_json_marshaler.go
+++ b/msgfmt/jsonfmt/encoder_json_marshaler.go
@@ -15,10 +15,7 @@ func (encoder *jsonMarshalerEncoder) Encode(ctx context.Context, space []byte, p
 	obj := encoder.valType.UnsafeIndirect(ptr)
 	buf, err := obj.(json.Marshaler).MarshalJSON()
 	if err != nil {
-		space = append(space, '"')
-		space = append(space, err.Error()...)
-		space = append(space, '"')
-		return space
+		return WriteString(space, err.Error())
 	}
 	space = append(space, buf...)
 	return space
-- 
2.43.0


From 1ead6b863983c456c665e953b89201a6e009e043 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:13 +0000
Subject: [PATCH 11/89] fix: encode nil error and nil json.Marshaler as null
 instead of panic

---
 msgfmt/jsonfmt/encoder.go                | 8 ++++++++
 msgfmt/jsonfmt/encoder_error.go          | 3 +++
 msgfmt/jsonfmt/encoder_json_marshaler.go | 3 +++
 3 files changed, 14 insertions(+)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 13ccaf3..9ffebee 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -194,6 +194,14 @@ func (encoder *unsupportedEncoder) Encode(ctx context.Context, space []byte, ptr
 	return append(space, encoder.msg...)
 }
 
+func isNilPtrOrInterface(valType reflect2.Type, ptr unsafe.Pointer) bool {
+	switch valType.Kind() {
+	case reflect.Ptr, reflect.Interface:
+		return valType.UnsafeIsNil(ptr)
+	}
+	return false
+}
+
 func encoderOfMap(cfg *frozenConfig, prefix string, valType reflect2.MapType) *mapEncoder {
 	keyEncoder := encoderOfMapKey(cfg, prefix, valType.Key())
 	elemType := valType.Elem()
diff --git a/msgfmt/jsonfmt/encoder_error.go b/msgfmt/jsonfmt/encoder_error.go
index a4fcf88..4dbde98 100644
--- a/msgfmt/jsonfmt/encoder_error.go
+++ b/msgfmt/jsonfmt/encoder_error.go
@@ -11,6 +11,9 @@ type errorEncoder struct {
 }
 
 func (encoder *errorEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	if isNilPtrOrInterface(encoder.valType, ptr) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	obj := encoder.valType.UnsafeIndirect(ptr)
 	return WriteString(space, obj.(error).Error())
 }
diff --git a/msgfmt/jsonfmt/encoder_json_marshaler.go b/msgfmt/jsonfmt/encoder_json_marshaler.go
index 7f632b2..b4dae6b 100644
--- a/msgfmt/jsonfmt/encoder_json_marshaler.go
+++ b/msgfmt/jsonfmt/encoder_json_marshaler.go
@@ -12,6 +12,9 @@ type jsonMarshalerEncoder struct {
 }
 
 func (encoder *jsonMarshalerEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	if isNilPtrOrInterface(encoder.valType, ptr) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	obj := encoder.valType.UnsafeIndirect(ptr)
 	buf, err := obj.(json.Marshaler).MarshalJSON()
 	if err != nil {
-- 
2.43.0


From e9fcdf45ea5f4f0f9fb290646b5b18e263dd71a7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:14 +0000
Subject: [PATCH 12/89] fix: encode NaN and infinity as valid json

---
 msgfmt/jsonfmt/encoder_float.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/msgfmt/jsonfmt/encoder_float.go b/msgfmt/jsonfmt/encoder_float.go
index 572953c..7eae8d4 100644
--- a/msgfmt/jsonfmt/encoder_float.go
+++ b/msgfmt/jsonfmt/encoder_float.go
@@ -27,8 +27,18 @@ func (encoder *lossyFloat32Encoder) Encode(ctx context.Context, space []byte, pt
 	return WriteFloat32Lossy(space, *(*float32)(ptr))
 }
 
+// writeNonFinite write NaN, +Inf, -Inf as string, because there is no json number for them
+func writeNonFinite(space []byte, val float64) []byte {
+	space = append(space, '"')
+	space = strconv.AppendFloat(space, val, 'f', -1, 64)
+	return append(space, '"')
+}
+
 // WriteFloat64 write float64 to stream
 func WriteFloat64(space []byte, val float64) []byte {
+	if math.IsNaN(val) || math.IsInf(val, 0) {
+		return writeNonFinite(space, val)
+	}
 	abs := math.Abs(val)
 	fmt := byte('f')
 	// Note: Must use float32 comparisons for underlying float32 value to get precise cutoffs right.
@@ -41,6 +51,9 @@ func WriteFloat64(space []byte, val float64) []byte {
 }
 // WriteFloat64Lossy write float64 to stream with ONLY 6 digits precision although much much faster
 func WriteFloat64Lossy(space []byte, val float64) []byte {
+	if math.IsNaN(val) || math.IsInf(val, 0) {
+		return writeNonFinite(space, val)
+	}
 	if val < 0 {
 		space = append(space, '-')
 		val = -val
@@ -69,6 +82,9 @@ func WriteFloat64Lossy(space []byte, val float64) []byte {
 
 // WriteFloat32 write float32 to stream
 func WriteFloat32(space []byte, val float32) []byte {
+	if math.IsNaN(float64(val)) || math.IsInf(float64(val), 0) {
+		return writeNonFinite(space, float64(val))
+	}
 	abs := math.Abs(float64(val))
 	fmt := byte('f')
 	// Note: Must use float32 comparisons for underlying float32 value to get precise cutoffs right.
@@ -82,6 +98,9 @@ func WriteFloat32(space []byte, val float32) []byte {
 
 // WriteFloat32Lossy write float32 to stream with ONLY 6 digits precision although much much faster
 func WriteFloat32Lossy(space []byte, val float32) []byte {
+	if math.IsNaN(float64(val)) || math.IsInf(float64(val), 0) {
+		return writeNonFinite(space, float64(val))
+	}
 	if val < 0 {
 		space = append(space, '-')
 		val = -val
-- 
2.43.0


From 8eaf9106d529886b03a638f329f5d13ff5ee369e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:14 +0000
Subject: [PATCH 13/89] fix: escape struct field name and type name in json

---
 msgfmt/jsonfmt/encoder.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 9ffebee..cc56e8a 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -175,7 +175,7 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 	case reflect.Interface:
 		return &dynamicEncoder{valType:valType}
 	}
-	return &unsupportedEncoder{fmt.Sprintf(`"can not encode %s %s to json"`, valType.String(), prefix)}
+	return &unsupportedEncoder{string(WriteString(nil, fmt.Sprintf(`can not encode %s %s to json`, valType.String(), prefix)))}
 }
 
 // nilEncoder encodes nil interface{} value
@@ -244,9 +244,8 @@ func encoderOfStruct(cfg *frozenConfig, prefix string, valType reflect2.StructTy
 		if len(fields) != 0 {
 			prefix += ","
 		}
-		prefix += `"`
-		prefix += name
-		prefix += `":`
+		prefix += string(WriteString(nil, name))
+		prefix += `:`
 		fields = append(fields, structEncoderField{
 			structField: field.(*reflect2.UnsafeStructField),
 			prefix:      prefix,
-- 
2.43.0


From b71852db9ffe984ae6b47bdc41eaf58dc3ae37ab Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:14 +0000
Subject: [PATCH 14/89] fix: encode interface value with the config of the
 enclosing encoder

---
 msgfmt/jsonfmt/encoder.go         | 2 +-
 msgfmt/jsonfmt/encoder_dynamic.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index cc56e8a..a5a00fe 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -173,7 +173,7 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 		mapType := valType.(reflect2.MapType)
 		return encoderOfMap(cfg, prefix, mapType)
 	case reflect.Interface:
-		return &dynamicEncoder{valType:valType}
+		return &dynamicEncoder{cfg: cfg, valType: valType}
 	}
 	return &unsupportedEncoder{string(WriteString(nil, fmt.Sprintf(`can not encode %s %s to json`, valType.String(), prefix)))}
 }
diff --git a/msgfmt/jsonfmt/encoder_dynamic.go b/msgfmt/jsonfmt/encoder_dynamic.go
index 29106e1..19177e8 100644
--- a/msgfmt/jsonfmt/encoder_dynamic.go
+++ b/msgfmt/jsonfmt/encoder_dynamic.go
@@ -7,6 +7,7 @@ import (
 )
 
 type dynamicEncoder struct {
+	cfg     *frozenConfig
 	valType reflect2.Type
 }
 
@@ -15,5 +16,5 @@ func (encoder *dynamicEncoder) Encode(ctx context.Context, space []byte, ptr uns
 	if obj == nil {
 		return append(space, 'n', 'u', 'l', 'l')
 	}
-	return EncoderOf(reflect2.TypeOf(obj)).Encode(ctx, space, reflect2.PtrOf(obj))
+	return encoder.cfg.EncoderOf(reflect2.TypeOf(obj)).Encode(ctx, space, reflect2.PtrOf(obj))
 }
\ No newline at end of file
-- 
2.43.0


From ddf9fa71a7451bd1f418ebdaa0df3e4e40f6e901 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:15 +0000
Subject: [PATCH 15/89] fix: encode map key of any type as valid json string

---
 msgfmt/jsonfmt/encoder.go     |  2 +-
 msgfmt/jsonfmt/encoder_map.go | 31 ++++++++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index a5a00fe..af62f06 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -219,7 +219,7 @@ func _encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) E
 		return &mapStringKeyEncoder{keyEncoder}
 	}
 	if keyType.Kind() == reflect.Interface {
-		return &mapInterfaceKeyEncoder{cfg: cfg, prefix: prefix}
+		return &mapInterfaceKeyEncoder{cfg: cfg, prefix: prefix, keyType: keyType}
 	}
 	return &mapNumberKeyEncoder{keyEncoder}
 }
diff --git a/msgfmt/jsonfmt/encoder_map.go b/msgfmt/jsonfmt/encoder_map.go
index 58a49a2..5f96479 100644
--- a/msgfmt/jsonfmt/encoder_map.go
+++ b/msgfmt/jsonfmt/encoder_map.go
@@ -1,6 +1,7 @@
 package jsonfmt
 
 import (
+	"bytes"
 	"unsafe"
 	"context"
 	"github.com/v2pro/plz/reflect2"
@@ -36,7 +37,18 @@ type mapNumberKeyEncoder struct {
 
 func (encoder *mapNumberKeyEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	space = append(space, '"')
+	start := len(space)
 	space = encoder.valEncoder.Encode(ctx, space, ptr)
+	key := space[start:]
+	if len(key) > 0 && key[0] == '"' {
+		// already encoded as string
+		space = append(space[:start-1], key...)
+		return append(space, ':')
+	}
+	if bytes.IndexByte(key, '"') != -1 {
+		space = WriteString(space[:start-1], string(key))
+		return append(space, ':')
+	}
 	space = append(space, '"', ':')
 	return space
 }
@@ -52,12 +64,21 @@ func (encoder *mapStringKeyEncoder) Encode(ctx context.Context, space []byte, pt
 }
 
 type mapInterfaceKeyEncoder struct {
-	cfg    *frozenConfig
-	prefix string
+	cfg     *frozenConfig
+	prefix  string
+	keyType reflect2.Type
 }
 
 func (encoder *mapInterfaceKeyEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
-	keyObj := *(*interface{})(ptr)
-	keyEncoder := encoderOfMapKey(encoder.cfg, encoder.prefix, reflect2.TypeOf(keyObj))
-	return keyEncoder.Encode(ctx, space, reflect2.PtrOf(keyObj))
+	keyObj := encoder.keyType.UnsafeIndirect(ptr)
+	if keyObj == nil {
+		return append(space, `"null":`...)
+	}
+	keyType := reflect2.TypeOf(keyObj)
+	keyEncoder := encoderOfMapKey(encoder.cfg, encoder.prefix, keyType)
+	keyPtr := reflect2.PtrOf(keyObj)
+	if keyType.LikePtr() {
+		return keyEncoder.Encode(ctx, space, unsafe.Pointer(&keyPtr))
+	}
+	return keyEncoder.Encode(ctx, space, keyPtr)
 }
-- 
2.43.0


From 610d62a37c3d5e8e926eb27344bc664f8cea3613 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:05 +0000
Subject: [PATCH 16/89] fix: build the encoder of type referencing itself
 without infinite recursion

---
 msgfmt/jsonfmt/encoder.go     | 60 +++++++++++++++++++++++++----------
 msgfmt/jsonfmt/encoder_map.go |  2 +-
 2 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index af62f06..f426d31 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -71,7 +71,7 @@ func (cfg *frozenConfig) EncoderOf(valType reflect2.Type) Encoder {
 	if found {
 		return encoderObj.(Encoder)
 	}
-	encoder := encoderOf(cfg, "", valType)
+	encoder := encoderOf(cfg, building{}, "", valType)
 	if valType.LikePtr() {
 		encoder = &onePtrInterfaceEncoder{encoder}
 	}
@@ -79,14 +79,17 @@ func (cfg *frozenConfig) EncoderOf(valType reflect2.Type) Encoder {
 	return encoder
 }
 
-func encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) Encoder {
+func encoderOfMapKey(cfg *frozenConfig, building building, prefix string, keyType reflect2.Type) Encoder {
 	cacheKey := keyType.RType()
 	encoderObj, found := cfg.mapKeyEncoderCache.Load(cacheKey)
 	if found {
 		return encoderObj.(Encoder)
 	}
-	encoder := _encoderOfMapKey(cfg, prefix, keyType)
-	cfg.mapKeyEncoderCache.Store(cacheKey, encoder)
+	encoder := _encoderOfMapKey(cfg, building, prefix, keyType)
+	if len(building) == 0 {
+		// otherwise encoder might reference encoder not built yet
+		cfg.mapKeyEncoderCache.Store(cacheKey, encoder)
+	}
 	return encoder
 }
 
@@ -103,7 +106,30 @@ func MarshalToString(obj interface{}) string {
 	return string(encoder.Encode(nil, nil, reflect2.PtrOf(obj)))
 }
 
-func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder {
+// building holds the types being built, to build the encoder of type referencing itself
+type building map[reflect2.Type]*recursiveEncoder
+
+// recursiveEncoder is the reference to the encoder being built
+type recursiveEncoder struct {
+	Encoder
+}
+
+func encoderOf(cfg *frozenConfig, building building, prefix string, valType reflect2.Type) Encoder {
+	if valType.Type1().Name() == "" {
+		// only named type can reference itself
+		return createEncoderOf(cfg, building, prefix, valType)
+	}
+	if outer := building[valType]; outer != nil {
+		return outer
+	}
+	self := &recursiveEncoder{}
+	building[valType] = self
+	self.Encoder = createEncoderOf(cfg, building, prefix, valType)
+	delete(building, valType)
+	return self.Encoder
+}
+
+func createEncoderOf(cfg *frozenConfig, building building, prefix string, valType reflect2.Type) Encoder {
 	for _, extension := range cfg.extensions {
 		encoder := extension.EncoderOf(prefix, valType.Type1())
 		if encoder != nil {
@@ -150,28 +176,28 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 		return &stringEncoder{}
 	case reflect.Ptr:
 		pointerType := valType.(reflect2.PtrType)
-		elemEncoder := encoderOf(cfg, prefix+" [ptrElem]", pointerType.Elem())
+		elemEncoder := encoderOf(cfg, building, prefix+" [ptrElem]", pointerType.Elem())
 		return &pointerEncoder{elemEncoder: elemEncoder}
 	case reflect.Slice:
 		sliceType := valType.(reflect2.SliceType)
-		elemEncoder := encoderOf(cfg, prefix+" [sliceElem]", sliceType.Elem())
+		elemEncoder := encoderOf(cfg, building, prefix+" [sliceElem]", sliceType.Elem())
 		return &sliceEncoder{
 			elemEncoder: elemEncoder,
 			sliceType:   sliceType.(*reflect2.UnsafeSliceType),
 		}
 	case reflect.Array:
 		arrayType := valType.(reflect2.ArrayType)
-		elemEncoder := encoderOf(cfg, prefix+" [sliceElem]", arrayType.Elem())
+		elemEncoder := encoderOf(cfg, building, prefix+" [sliceElem]", arrayType.Elem())
 		return &arrayEncoder{
 			elemEncoder: elemEncoder,
 			arrayType:   arrayType.(*reflect2.UnsafeArrayType),
 		}
 	case reflect.Struct:
 		structType := valType.(reflect2.StructType)
-		return encoderOfStruct(cfg, prefix, structType)
+		return encoderOfStruct(cfg, building, prefix, structType)
 	case reflect.Map:
 		mapType := valType.(reflect2.MapType)
-		return encoderOfMap(cfg, prefix, mapType)
+		return encoderOfMap(cfg, building, prefix, mapType)
 	case reflect.Interface:
 		return &dynamicEncoder{cfg: cfg, valType: valType}
 	}
@@ -202,10 +228,10 @@ func isNilPtrOrInterface(valType reflect2.Type, ptr unsafe.Pointer) bool {
 	return false
 }
 
-func encoderOfMap(cfg *frozenConfig, prefix string, valType reflect2.MapType) *mapEncoder {
-	keyEncoder := encoderOfMapKey(cfg, prefix, valType.Key())
+func encoderOfMap(cfg *frozenConfig, building building, prefix string, valType reflect2.MapType) *mapEncoder {
+	keyEncoder := encoderOfMapKey(cfg, building, prefix, valType.Key())
 	elemType := valType.Elem()
-	elemEncoder := encoderOf(cfg, prefix+" [mapElem]", elemType)
+	elemEncoder := encoderOf(cfg, building, prefix+" [mapElem]", elemType)
 	return &mapEncoder{
 		keyEncoder:  keyEncoder,
 		elemEncoder: elemEncoder,
@@ -213,8 +239,8 @@ func encoderOfMap(cfg *frozenConfig, prefix string, valType reflect2.MapType) *m
 	}
 }
 
-func _encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) Encoder {
-	keyEncoder := encoderOf(cfg, prefix+" [mapKey]", keyType)
+func _encoderOfMapKey(cfg *frozenConfig, building building, prefix string, keyType reflect2.Type) Encoder {
+	keyEncoder := encoderOf(cfg, building, prefix+" [mapKey]", keyType)
 	if keyType.Kind() == reflect.String || keyType == bytesType {
 		return &mapStringKeyEncoder{keyEncoder}
 	}
@@ -232,7 +258,7 @@ func (encoder *onePtrInterfaceEncoder) Encode(ctx context.Context, space []byte,
 	return encoder.valEncoder.Encode(ctx, space, unsafe.Pointer(&ptr))
 }
 
-func encoderOfStruct(cfg *frozenConfig, prefix string, valType reflect2.StructType) *structEncoder {
+func encoderOfStruct(cfg *frozenConfig, building building, prefix string, valType reflect2.StructType) *structEncoder {
 	var fields []structEncoderField
 	for i := 0; i < valType.NumField(); i++ {
 		field := valType.Field(i)
@@ -249,7 +275,7 @@ func encoderOfStruct(cfg *frozenConfig, prefix string, valType reflect2.StructTy
 		fields = append(fields, structEncoderField{
 			structField: field.(*reflect2.UnsafeStructField),
 			prefix:      prefix,
-			encoder:     encoderOf(cfg, prefix+" ."+name, field.Type()),
+			encoder:     encoderOf(cfg, building, prefix+" ."+name, field.Type()),
 		})
 	}
 	return &structEncoder{
diff --git a/msgfmt/jsonfmt/encoder_map.go b/msgfmt/jsonfmt/encoder_map.go
index 5f96479..d79d5f2 100644
--- a/msgfmt/jsonfmt/encoder_map.go
+++ b/msgfmt/jsonfmt/encoder_map.go
@@ -75,7 +75,7 @@ func (encoder *mapInterfaceKeyEncoder) Encode(ctx context.Context, space []byte,
 		return append(space, `"null":`...)
 	}
 	keyType := reflect2.TypeOf(keyObj)
-	keyEncoder := encoderOfMapKey(encoder.cfg, encoder.prefix, keyType)
+	keyEncoder := encoderOfMapKey(encoder.cfg, building{}, encoder.prefix, keyType)
 	keyPtr := reflect2.PtrOf(keyObj)
 	if keyType.LikePtr() {
 		return keyEncoder.Encode(ctx, space, unsafe.Pointer(&keyPtr))
-- 
2.43.0


From cfb089766cf8cccd48589c4a0af2b016a7125900 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 17/89] fix: consuming more than what is left in the source
 stops at the end

---
 parse/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/parse.go b/parse/parse.go
index fc60f5d..b5ed5cd 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -120,6 +120,9 @@ func (src *Source) ConsumeN(n int) {
 	for n != 0 && n >= len(src.current) {
 		n -= len(src.current)
 		src.Consume()
+		if src.Error() != nil && len(src.current) == 0 {
+			return
+		}
 	}
 	src.current = src.current[n:]
 }
-- 
2.43.0


From bc1b8cd82caffe09e541cbfe5d88f9878fb64bb3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 18/89] fix: do not lose the data returned by reader together
 with error, and skip empty reads

---
 parse/parse.go | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index b5ed5cd..b2cf481 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -54,6 +54,7 @@ type Source struct {
 	current    []byte
 	nextList   [][]byte
 	buf        []byte
+	readErr    error // returned by reader together with data not consumed yet
 	Attachment interface{}
 }
 
@@ -66,6 +67,7 @@ func NewSource(reader io.Reader, buf []byte) (*Source, error) {
 		reader:  reader,
 		current: buf[:n],
 		buf:     buf,
+		readErr: err,
 	}, nil
 }
 
@@ -101,19 +103,19 @@ func (src *Source) PeekN(n int) ([]byte, error) {
 			return peeked[:n], nil
 		}
 	}
-	for {
+	for src.readErr == nil {
 		buf := make([]byte, len(src.buf))
-		read, err := src.reader.Read(buf)
-		next := buf[:read]
+		next := buf[:src.read(buf)]
+		if len(next) == 0 {
+			break
+		}
 		peeked = append(peeked, next...)
 		src.nextList = append(src.nextList, next)
 		if len(peeked) >= n {
 			return peeked[:n], nil
 		}
-		if err != nil {
-			return peeked, err
-		}
 	}
+	return peeked, src.readErr
 }
 
 func (src *Source) ConsumeN(n int) {
@@ -147,11 +149,26 @@ func (src *Source) Consume() {
 		src.nextList = src.nextList[1:]
 		return
 	}
-	n, err := src.reader.Read(src.buf)
-	if err != nil {
-		src.ReportError(err)
+	src.current = nil
+	if src.readErr == nil {
+		src.current = src.buf[:src.read(src.buf)]
+	}
+	if len(src.current) == 0 {
+		src.ReportError(src.readErr)
 	}
-	src.current = src.buf[:n]
+}
+
+// read returns 0 only if there is no more data because of src.readErr
+func (src *Source) read(buf []byte) int {
+	for i := 0; i < maxConsecutiveEmptyReads; i++ {
+		n, err := src.reader.Read(buf)
+		src.readErr = err
+		if n > 0 || err != nil {
+			return n
+		}
+	}
+	src.readErr = io.ErrNoProgress
+	return 0
 }
 
 func (src *Source) PeekRune() (rune, int) {
@@ -181,6 +198,8 @@ func (src *Source) Error() error {
 
 const DefaultPrecedence = 1
 
+const maxConsecutiveEmptyReads = 100
+
 type PrefixToken interface {
 	PrefixParse(src *Source) interface{}
 }
-- 
2.43.0


From a0838b8252d242b98176beff8ba59e4ffdaf0496 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 19/89] fix: report every uint64 overflow

---
 parse/read/int.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/parse/read/int.go b/parse/read/int.go
index 2d88c84..1724306 100644
--- a/parse/read/int.go
+++ b/parse/read/int.go
@@ -10,7 +10,7 @@ import (
 var intDigits []int8
 
 const invalidCharForNumber = int8(-1)
-const uint64SafeToMultiple10 = uint64(0xffffffffffffffff)/10 - 1
+const maxUint64 = uint64(0xffffffffffffffff)
 
 func init() {
 	intDigits = make([]int8, 256)
@@ -77,14 +77,9 @@ func Uint64(src *parse.Source) uint64 {
 				src.ConsumeN(i)
 				return value
 			}
-			if value > uint64SafeToMultiple10 {
-				value2 := (value << 3) + (value << 1) + uint64(ind)
-				if value2 < value {
-					src.ReportError(errors.New("uint64: overflow"))
-					return 0
-				}
-				value = value2
-				continue
+			if value > maxUint64/10 || (value == maxUint64/10 && uint64(ind) > maxUint64%10) {
+				src.ReportError(errors.New("uint64: overflow"))
+				return 0
 			}
 			value = (value << 3) + (value << 1) + uint64(ind)
 		}
-- 
2.43.0


From f5333c3716aa03bc055c0c4dfef90d0387fa7099 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 20/89] fix: reading integer from empty source does not panic

---
 parse/read/int.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parse/read/int.go b/parse/read/int.go
index 1724306..53d6b97 100644
--- a/parse/read/int.go
+++ b/parse/read/int.go
@@ -30,8 +30,7 @@ func Int(src *parse.Source) int {
 }
 
 func Int32(src *parse.Source) int32 {
-	c := src.Peek()[0]
-	if c == '-' {
+	if isNegative(src) {
 		src.ConsumeN(1)
 		val := Uint64(src)
 		if val > math.MaxInt32+1 {
@@ -49,8 +48,7 @@ func Int32(src *parse.Source) int32 {
 }
 
 func Int64(src *parse.Source) int64 {
-	c := src.Peek()[0]
-	if c == '-' {
+	if isNegative(src) {
 		src.ConsumeN(1)
 		val := Uint64(src)
 		if val > math.MaxInt64+1 {
@@ -67,6 +65,11 @@ func Int64(src *parse.Source) int64 {
 	return int64(val)
 }
 
+func isNegative(src *parse.Source) bool {
+	b, _ := src.PeekN(1)
+	return len(b) > 0 && b[0] == '-'
+}
+
 func Uint64(src *parse.Source) uint64 {
 	value := uint64(0)
 	for src.Error() == nil {
-- 
2.43.0


From df1295dc20512f4d2d68624632b3c9f03f0b0f98 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:07 +0000
Subject: [PATCH 21/89] fix: reading and skipping unicode range stops at the
 end of source

---
 parse/read/range.go | 14 ++++++++++++--
 parse/skip/range.go | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/parse/read/range.go b/parse/read/range.go
index be83a0e..b8a5794 100644
--- a/parse/read/range.go
+++ b/parse/read/range.go
@@ -6,7 +6,11 @@ import (
 )
 
 func UnicodeRange(src *parse.Source, space []rune, table *unicode.RangeTable) []rune {
-	for {
+	for src.Error() == nil {
+		if len(src.Peek()) == 0 {
+			src.Consume()
+			continue
+		}
 		r, n := src.PeekRune()
 		if unicode.Is(table, r) {
 			src.ConsumeN(n)
@@ -15,10 +19,15 @@ func UnicodeRange(src *parse.Source, space []rune, table *unicode.RangeTable) []
 		}
 		return space
 	}
+	return space
 }
 
 func UnicodeRanges(src *parse.Source, space []rune, includes []*unicode.RangeTable, excludes []*unicode.RangeTable) []rune {
-	for {
+	for src.Error() == nil {
+		if len(src.Peek()) == 0 {
+			src.Consume()
+			continue
+		}
 		r, n := src.PeekRune()
 		for _, exclude := range excludes {
 			if unicode.Is(exclude, r) {
@@ -39,4 +48,5 @@ func UnicodeRanges(src *parse.Source, space []rune, includes []*unicode.RangeTab
 		}
 		return space
 	}
+	return space
 }
diff --git a/parse/skip/range.go b/parse/skip/range.go
index d2286c5..7eff4bd 100644
--- a/parse/skip/range.go
+++ b/parse/skip/range.go
@@ -7,7 +7,11 @@ import (
 
 func UnicodeRange(src *parse.Source, table *unicode.RangeTable) int {
 	count := 0
-	for {
+	for src.Error() == nil {
+		if len(src.Peek()) == 0 {
+			src.Consume()
+			continue
+		}
 		r, n := src.PeekRune()
 		if unicode.Is(table, r) {
 			src.ConsumeN(n)
@@ -16,11 +20,16 @@ func UnicodeRange(src *parse.Source, table *unicode.RangeTable) int {
 		}
 		return count
 	}
+	return count
 }
 
 func UnicodeRanges(src *parse.Source, includes []*unicode.RangeTable, excludes []*unicode.RangeTable) int {
 	count := 0
-	for {
+	for src.Error() == nil {
+		if len(src.Peek()) == 0 {
+			src.Consume()
+			continue
+		}
 		r, n := src.PeekRune()
 		for _, exclude := range excludes {
 			if unicode.Is(exclude, r) {
@@ -36,4 +45,5 @@ func UnicodeRanges(src *parse.Source, includes []*unicode.RangeTable, excludes [
 		}
 		return count
 	}
+	return count
 }
-- 
2.43.0


From 1d6cc22f85eb895b0afbab82e6a0ff879cc9ba3e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:07 +0000
Subject: [PATCH 22/89] fix: reading and skipping unicode ranges continues
 after the first included rune

---
 parse/read/range.go | 16 ++++------------
 parse/skip/range.go | 11 ++++-------
 2 files changed, 8 insertions(+), 19 deletions(-)

diff --git a/parse/read/range.go b/parse/read/range.go
index b8a5794..06358bd 100644
--- a/parse/read/range.go
+++ b/parse/read/range.go
@@ -34,19 +34,11 @@ func UnicodeRanges(src *parse.Source, space []rune, includes []*unicode.RangeTab
 				return space
 			}
 		}
-		if len(includes) == 0 {
-			src.ConsumeN(n)
-			space = append(space, r)
-			continue
+		if len(includes) != 0 && !unicode.IsOneOf(includes, r) {
+			return space
 		}
-		for _, include := range includes {
-			if unicode.Is(include, r) {
-				src.ConsumeN(n)
-				space = append(space, r)
-				continue
-			}
-		}
-		return space
+		src.ConsumeN(n)
+		space = append(space, r)
 	}
 	return space
 }
diff --git a/parse/skip/range.go b/parse/skip/range.go
index 7eff4bd..a5492ec 100644
--- a/parse/skip/range.go
+++ b/parse/skip/range.go
@@ -36,14 +36,11 @@ func UnicodeRanges(src *parse.Source, includes []*unicode.RangeTable, excludes [
 				return count
 			}
 		}
-		for _, include := range includes {
-			if unicode.Is(include, r) {
-				src.ConsumeN(n)
-				count += n
-				continue
-			}
+		if len(includes) != 0 && !unicode.IsOneOf(includes, r) {
+			return count
 		}
-		return count
+		src.ConsumeN(n)
+		count += n
 	}
 	return count
 }
-- 
2.43.0


From 1bd18a8d00c154169a5be876cb4675da3c9c4a36 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:35 +0000
Subject: [PATCH 23/89] fix: report malformed message format instead of panic

---
 msgfmt/formatter.go | 10 ++++++++--
 msgfmt/parse.go     | 31 +++++++++++++++++++++++--------
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index 6819826..ea4e293 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -86,12 +86,18 @@ func findValueIndex(sample []interface{}, target string) int {
 }
 
 func compile(format string, sample []interface{}) Formatter {
+	if format == "" {
+		return fixedFormatter(format)
+	}
 	src := parse.NewSourceString(format)
 	src.Attachment = sample
-	formatter := toFormatter.Parse(src, 0)
+	formatter, isFormatter := toFormatter.Parse(src, 0).(Formatter)
 	if src.Error() != nil {
 		if src.Error() == io.EOF {
-			return formatter.(Formatter)
+			if !isFormatter {
+				return invalidFormatter("unexpected end of format")
+			}
+			return formatter
 		}
 		return invalidFormatter(src.Error().Error())
 	}
diff --git a/msgfmt/parse.go b/msgfmt/parse.go
index 4099f66..e8b3023 100644
--- a/msgfmt/parse.go
+++ b/msgfmt/parse.go
@@ -36,10 +36,14 @@ func newLexer(initLexer func(l *lexer)) *lexer {
 func (lexer *lexer) Parse(src *parse.Source, precedence int) interface{} {
 	var left interface{}
 	for src.Error() == nil {
+		right := parse.Parse(src, lexer, precedence)
+		if right == nil {
+			return nil
+		}
 		if left == nil {
-			left = parse.Parse(src, lexer, precedence)
+			left = right
 		} else {
-			left = lexer.merge(left, parse.Parse(src, lexer, precedence))
+			left = lexer.merge(left, right)
 		}
 	}
 	return left
@@ -72,7 +76,10 @@ func (token *leftCurlyToken) PrefixParse(src *parse.Source) interface{} {
 	if isId {
 		obj = token.lexer.parseVariable(src, id)
 	}
-	rightFormatter := obj.(Formatter)
+	rightFormatter, isFormatter := obj.(Formatter)
+	if !isFormatter {
+		return nil
+	}
 	src.Consume1('}')
 	return rightFormatter
 }
@@ -106,6 +113,9 @@ func (lexer *variableLexer) PrefixToken(src *parse.Source) parse.PrefixToken {
 
 func (lexer *variableLexer) InfixToken(src *parse.Source) (parse.InfixToken, int) {
 	skip.UnicodeSpace(src)
+	if src.Error() != nil {
+		return nil, 0
+	}
 	switch src.Peek()[0] {
 	case ',':
 		return lexer.comma, parse.DefaultPrecedence
@@ -136,7 +146,10 @@ type commaToken struct {
 
 func (token *commaToken) InfixParse(src *parse.Source, left interface{}) interface{} {
 	src.Consume1(',')
-	funcInvocation := parse.Parse(src, token.lexer.formatter, 0).(funcInvocation)
+	funcInvocation, isFuncInvocation := parse.Parse(src, token.lexer.formatter, 0).(funcInvocation)
+	if !isFuncInvocation || src.Error() != nil {
+		return nil
+	}
 	return token.lexer.parseFunc(src, left.(string), funcInvocation.name, funcInvocation.args)
 }
 
@@ -156,10 +169,9 @@ func (lexer *formatterLexer) PrefixToken(src *parse.Source) parse.PrefixToken {
 	buf, _ := src.PeekN(6)
 	str := string(buf)
 	switch str {
-	case "select":
-		panic("not implemented")
-	case "plural":
-		panic("not implemented")
+	case "select", "plural":
+		src.ReportError(errors.New(str + " is not implemented"))
+		return nil
 	default:
 		return lexer.funcName
 	}
@@ -183,6 +195,9 @@ func (token *funcNameToken) PrefixParse(src *parse.Source) interface{} {
 	var args []string
 	for {
 		skip.UnicodeSpace(src)
+		if src.Error() != nil {
+			return funcInvocation{name, args}
+		}
 		switch src.Peek1() {
 		case ',':
 			src.Consume1(',')
-- 
2.43.0


From 94c0f9e8d55d08c494519d9d1c8a5112118fa5dd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:36 +0000
Subject: [PATCH 24/89] fix: format message with malformed key value pairs
 without panic

---
 msgfmt/formatter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index ea4e293..74b0eb4 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -76,9 +76,9 @@ var toFormatter = newLexer(func(l *lexer) {
 })
 
 func findValueIndex(sample []interface{}, target string) int {
-	for i := 0; i < len(sample); i += 2 {
-		key := sample[i].(string)
-		if key == target {
+	for i := 0; i+1 < len(sample); i += 2 {
+		key, isString := sample[i].(string)
+		if isString && key == target {
 			return i + 1
 		}
 	}
-- 
2.43.0


From 1fb03b1094584f4b14259268451e4fd8e2e3e6d0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:36 +0000
Subject: [PATCH 25/89] fix: format nil pointer implementing fmt.Stringer
 without panic

---
 msgfmt/formatter_stringer.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/msgfmt/formatter_stringer.go b/msgfmt/formatter_stringer.go
index a6e51aa..35d842b 100644
--- a/msgfmt/formatter_stringer.go
+++ b/msgfmt/formatter_stringer.go
@@ -1,9 +1,25 @@
 package msgfmt
 
-import "fmt"
+import (
+	"fmt"
+	"github.com/v2pro/plz/reflect2"
+)
 
 type stringerFormatter int
 
 func (formatter stringerFormatter) Format(space []byte, kv []interface{}) []byte {
-	return append(space, kv[formatter].(fmt.Stringer).String()...)
+	return append(space, stringOf(kv[formatter].(fmt.Stringer))...)
+}
+
+// stringOf handles nil pointer of type not expecting nil the same way as fmt
+func stringOf(stringer fmt.Stringer) (str string) {
+	defer func() {
+		if recovered := recover(); recovered != nil {
+			if !reflect2.IsNil(stringer) {
+				panic(recovered)
+			}
+			str = "<nil>"
+		}
+	}()
+	return stringer.String()
 }
-- 
2.43.0


From 3a2db687befd1a2d200c2544847690a21d277cf7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:36 +0000
Subject: [PATCH 26/89] fix: Fprintln without values writes to the given writer

---
 msgfmt/msgfmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index e08557b..7b8485a 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -38,7 +38,7 @@ func Fprintln(writer io.Writer, valuesObj ...interface{}) (int, error) {
 func fprintln(writer io.Writer, values []interface{}) (int, error) {
 	switch len(values) {
 	case 0:
-		return fmt.Println()
+		return fmt.Fprintln(writer)
 	case 1:
 		return Fprintf(writer,"{single_value}\n", "single_value", values[0])
 	default:
-- 
2.43.0


From 615e9e83a85256f0507c8a1f4c3d771036271511 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:52 +0000
Subject: [PATCH 27/89] fix: format message with the formatter compiled for the
 same keys and types

---
 internal/kv/shape.go | 63 ++++++++++++++++++++++++++++++++++++++++++++
 msgfmt/msgfmt.go     | 32 +++++++++++++++++++---
 2 files changed, 91 insertions(+), 4 deletions(-)
 create mode 100644 internal/kv/shape.go

diff --git a/internal/kv/shape.go b/internal/kv/shape.go
new file mode 100644
index 0000000..576ac88
--- /dev/null
+++ b/internal/kv/shape.go
@@ -0,0 +1,63 @@
+package kv
+
+import (
+	"strconv"
+	"strings"
+
+	"github.com/v2pro/plz/reflect2"
+)
+
+// Shape is the keys and the types of values of key value pairs.
+// What is compiled from one sample can only be reused for key value pairs of the same shape.
+type Shape []elem
+
+type elem struct {
+	rtype uintptr
+	key   string
+}
+
+// ShapeOf does not reference the memory of kvs
+func ShapeOf(kvs []interface{}) Shape {
+	shape := make(Shape, len(kvs))
+	for i, obj := range kvs {
+		shape[i].rtype = reflect2.RTypeOf(obj)
+		if key, isKey := keyOf(i, obj); isKey {
+			shape[i].key = string(append([]byte(nil), key...))
+		}
+	}
+	return shape
+}
+
+func keyOf(i int, obj interface{}) (string, bool) {
+	if i%2 != 0 {
+		return "", false
+	}
+	key, isString := obj.(string)
+	return key, isString
+}
+
+// Match tells if ShapeOf(kvs) is same as this shape
+func (shape Shape) Match(kvs []interface{}) bool {
+	if len(shape) != len(kvs) {
+		return false
+	}
+	for i, obj := range kvs {
+		if shape[i].rtype != reflect2.RTypeOf(obj) {
+			return false
+		}
+		if key, isKey := keyOf(i, obj); isKey && key != shape[i].key {
+			return false
+		}
+	}
+	return true
+}
+
+// String is unique for every shape
+func (shape Shape) String() string {
+	var builder strings.Builder
+	for _, elem := range shape {
+		builder.WriteString(strconv.FormatUint(uint64(elem.rtype), 16))
+		builder.WriteString(strconv.Quote(elem.key))
+	}
+	return builder.String()
+}
diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index 7b8485a..f3eb738 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -7,6 +7,7 @@ import (
 	"unsafe"
 	"fmt"
 	"github.com/v2pro/plz/concurrent"
+	"github.com/v2pro/plz/internal/kv"
 	"github.com/v2pro/plz/reflect2"
 )
 
@@ -69,12 +70,35 @@ func fprintf(writer io.Writer, format string, kv []interface{}) (int, error) {
 
 var formatterCache = concurrent.NewMap()
 
+// shapedFormatter can only format key value pairs of the shape it is compiled for
+type shapedFormatter struct {
+	shape     kv.Shape
+	formatter Formatter
+}
+
+type shapedFormat struct {
+	format string
+	shape  string
+}
+
 func FormatterOf(format string, sample []interface{}) Formatter {
-	formatterObj, found := formatterCache.Load(format)
+	obj, found := formatterCache.Load(format)
+	if !found {
+		shaped := &shapedFormatter{kv.ShapeOf(sample), compile(format, sample)}
+		formatterCache.Store(format, shaped)
+		return shaped.formatter
+	}
+	shaped := obj.(*shapedFormatter)
+	if shaped.shape.Match(sample) {
+		return shaped.formatter
+	}
+	// same format is used with different keys or types
+	cacheKey := shapedFormat{format, kv.ShapeOf(sample).String()}
+	obj, found = formatterCache.Load(cacheKey)
 	if found {
-		return formatterObj.(Formatter)
+		return obj.(Formatter)
 	}
 	formatter := compile(format, sample)
-	formatterCache.Store(format, formatter)
+	formatterCache.Store(cacheKey, formatter)
 	return formatter
-}
\ No newline at end of file
+}
-- 
2.43.0


From bc4d5e1993ed9e0a073b199c210073d7f99a939b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:38 +0000
Subject: [PATCH 28/89] fix: log event with the handler created for the same
 keys and types

---
 countlog/countlog.go | 57 ++++++++++++++++++++++++++++++++++++++++----
 countlog/root.go     | 18 +++++++++++---
 2 files changed, 67 insertions(+), 8 deletions(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index 05abc1f..fe65532 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -1,6 +1,7 @@
 package countlog
 
 import (
+	"context"
 	"unsafe"
 	"runtime"
 	"time"
@@ -8,6 +9,7 @@ import (
 	"github.com/v2pro/plz/msgfmt"
 	"errors"
 	"github.com/v2pro/plz/concurrent"
+	"github.com/v2pro/plz/internal/kv"
 )
 
 const LevelTraceCall = spi.LevelTraceCall
@@ -196,14 +198,27 @@ func castString(ptr uintptr) string {
 }
 
 func getHandler(event string, agg string, ctx *Context, properties []interface{}) spi.EventHandler {
-	handler, found := handlerCache.Load(event)
+	obj, found := handlerCache.Load(event)
+	if !found {
+		return newHandler(event, event, agg, ctx, properties)
+	}
+	shaped, isShaped := obj.(*shapedHandler)
+	if !isShaped {
+		return obj.(spi.EventHandler)
+	}
+	if shaped.match(agg, ctx, properties) {
+		return shaped.handler
+	}
+	// same event is logged with different keys or types
+	key := shapedEvent{event, agg, kv.ShapeOf(properties).String(), kv.ShapeOf(logContextOf(ctx)).String()}
+	obj, found = handlerCache.Load(key)
 	if found {
-		return handler.(spi.EventHandler)
+		return obj.(*shapedHandler).handler
 	}
-	return newHandler(event, agg, ctx, properties)
+	return newHandler(key, event, agg, ctx, properties)
 }
 
-func newHandler(eventName string, agg string, ctx *Context, properties []interface{}) spi.EventHandler {
+func newHandler(key interface{}, eventName string, agg string, ctx *Context, properties []interface{}) spi.EventHandler {
 	pc, callerFile, callerLine, _ := runtime.Caller(4)
 	site := &spi.LogSite{
 		Context: ctx,
@@ -215,6 +230,38 @@ func newHandler(eventName string, agg string, ctx *Context, properties []interfa
 		Sample: properties,
 	}
 	handler := newRootHandler(site, nomalModeOnPanic)
-	handlerCache.Store(eventName, handler)
+	handlerCache.Store(key, &shapedHandler{
+		handler:    handler,
+		agg:        agg,
+		properties: kv.ShapeOf(properties),
+		logContext: kv.ShapeOf(logContextOf(ctx)),
+	})
 	return handler
 }
+
+// shapedHandler can only handle the events with the keys and types it is created for
+type shapedHandler struct {
+	handler    spi.EventHandler
+	agg        string
+	properties kv.Shape
+	logContext kv.Shape
+}
+
+func (shaped *shapedHandler) match(agg string, ctx *Context, properties []interface{}) bool {
+	return shaped.agg == agg && shaped.properties.Match(properties) && shaped.logContext.Match(logContextOf(ctx))
+}
+
+type shapedEvent struct {
+	event      string
+	agg        string
+	properties string
+	logContext string
+}
+
+func logContextOf(ctx context.Context) []interface{} {
+	logContext := spi.GetLogContext(ctx)
+	if logContext == nil {
+		return nil
+	}
+	return logContext.Properties
+}
diff --git a/countlog/root.go b/countlog/root.go
index 1f46859..f011e4c 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"runtime/debug"
 	"github.com/v2pro/plz/countlog/loglog"
+	"github.com/v2pro/plz/internal/kv"
 )
 
 type panicHandler func(recovered interface{}, event *spi.Event, site *spi.LogSite)
@@ -77,6 +78,7 @@ func nomalModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite
 	}
 	handlerCache.Store(site.Event, redirector)
 	newSite := *site
+	newSite.Context = event.Context
 	newSite.File = "unknown"
 	newSite.Line = 0
 	newSite.Sample = event.Properties
@@ -96,13 +98,20 @@ type redirector struct {
 
 func (redirector *redirector) Handle(event *spi.Event) {
 	_, callerFile, callerLine, _ := runtime.Caller(3)
-	key := accurateHandlerKey{callerFile, callerLine}
+	key := accurateHandlerKey{
+		File:       callerFile,
+		Line:       callerLine,
+		Event:      redirector.site.Event,
+		Properties: kv.ShapeOf(event.Properties).String(),
+		LogContext: kv.ShapeOf(logContextOf(event.Context)).String(),
+	}
 	handlerObj, found := handlerCache.Load(key)
 	if found {
 		handlerObj.(spi.EventHandler).Handle(event)
 		return
 	}
 	site := redirector.site
+	site.Context = event.Context
 	site.File = callerFile
 	site.Line = callerLine
 	site.Sample = event.Properties
@@ -113,6 +122,9 @@ func (redirector *redirector) Handle(event *spi.Event) {
 }
 
 type accurateHandlerKey struct {
-	File string
-	Line int
+	File       string
+	Line       int
+	Event      string
+	Properties string
+	LogContext string
 }
-- 
2.43.0


From b163fae8d2bf200fdf3e8fb8d15f1bb30acafd15 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:47 +0000
Subject: [PATCH 29/89] fix: do not reference the properties on the stack of
 caller from heap

---
 countlog/countlog.go | 17 ++++++++++++++++-
 countlog/root.go     |  4 ++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index fe65532..9dd34e9 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -3,6 +3,7 @@ package countlog
 import (
 	"context"
 	"unsafe"
+	"reflect"
 	"runtime"
 	"time"
 	"github.com/v2pro/plz/countlog/spi"
@@ -227,7 +228,7 @@ func newHandler(key interface{}, eventName string, agg string, ctx *Context, pro
 		Agg:    agg,
 		File:   callerFile,
 		Line:   callerLine,
-		Sample: properties,
+		Sample: copySample(properties),
 	}
 	handler := newRootHandler(site, nomalModeOnPanic)
 	handlerCache.Store(key, &shapedHandler{
@@ -239,6 +240,20 @@ func newHandler(key interface{}, eventName string, agg string, ctx *Context, pro
 	return handler
 }
 
+// copySample keeps the keys and types. The properties might be allocated on the stack of caller,
+// referencing them from the heap corrupts memory when the stack is moved or freed.
+func copySample(properties []interface{}) []interface{} {
+	sample := make([]interface{}, len(properties))
+	for i, prop := range properties {
+		if str, isString := prop.(string); isString {
+			sample[i] = string(append([]byte(nil), str...))
+		} else if prop != nil {
+			sample[i] = reflect.Zero(reflect.TypeOf(prop)).Interface()
+		}
+	}
+	return sample
+}
+
 // shapedHandler can only handle the events with the keys and types it is created for
 type shapedHandler struct {
 	handler    spi.EventHandler
diff --git a/countlog/root.go b/countlog/root.go
index f011e4c..b143a1f 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -81,7 +81,7 @@ func nomalModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite
 	newSite.Context = event.Context
 	newSite.File = "unknown"
 	newSite.Line = 0
-	newSite.Sample = event.Properties
+	newSite.Sample = copySample(event.Properties)
 	newRootHandler(&newSite, fallbackModeOnPanic).Handle(event)
 }
 
@@ -114,7 +114,7 @@ func (redirector *redirector) Handle(event *spi.Event) {
 	site.Context = event.Context
 	site.File = callerFile
 	site.Line = callerLine
-	site.Sample = event.Properties
+	site.Sample = copySample(event.Properties)
 	handler := newRootHandler(&site, fallbackModeOnPanic)
 	handlerCache.Store(key, handler)
 	handler.Handle(event)
-- 
2.43.0


From ae35fd6a25e4b96216cc566a6e6e491bd329fb93 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 30/89] fix: logging does not panic when the properties are
 malformed or can not be formatted

---
 countlog/countlog.go | 29 +++++++++++++++++++----------
 countlog/root.go     |  9 ++++++++-
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index 9dd34e9..e8b30ce 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -9,6 +9,8 @@ import (
 	"github.com/v2pro/plz/countlog/spi"
 	"github.com/v2pro/plz/msgfmt"
 	"errors"
+	"fmt"
+	"github.com/v2pro/plz/countlog/loglog"
 	"github.com/v2pro/plz/concurrent"
 	"github.com/v2pro/plz/internal/kv"
 )
@@ -159,11 +161,7 @@ func log(level int, eventName string, agg string, ctx *Context, err error, prope
 	castedEvent := castEvent(uintptr(ptr))
 	handler.Handle(castedEvent)
 	if castedEvent.Error != nil {
-		formatter := msgfmt.FormatterOf(eventName, properties)
-		errMsg := formatter.Format(nil, properties)
-		errMsg = append(errMsg, ": "...)
-		errMsg = append(errMsg, castedEvent.Error.Error()...)
-		castedEvent.Error = errors.New(string(errMsg))
+		castedEvent.Error = describeError(eventName, castedEvent.Error, properties)
 	}
 	return castedEvent.Error
 }
@@ -179,14 +177,25 @@ func addMemo(level int, eventName string, agg string, ctx *Context, err error, p
 	ptr := unsafe.Pointer(event)
 	castedEvent := castEvent(uintptr(ptr))
 	if castedEvent.Error != nil {
-		formatter := msgfmt.FormatterOf(eventName, properties)
-		errMsg := formatter.Format(nil, properties)
-		errMsg = append(errMsg, ": "...)
-		errMsg = append(errMsg, castedEvent.Error.Error()...)
-		castedEvent.Error = errors.New(string(errMsg))
+		castedEvent.Error = describeError(eventName, castedEvent.Error, properties)
 	}
 }
 
+// describeError returns the original error if formatting panics
+func describeError(eventName string, err error, properties []interface{}) (described error) {
+	defer func() {
+		if recovered := recover(); recovered != nil {
+			loglog.Error(fmt.Errorf("%v", recovered))
+			described = err
+		}
+	}()
+	formatter := msgfmt.FormatterOf(eventName, properties)
+	errMsg := formatter.Format(nil, properties)
+	errMsg = append(errMsg, ": "...)
+	errMsg = append(errMsg, err.Error()...)
+	return errors.New(string(errMsg))
+}
+
 func castEmptyInterfaces(ptr uintptr) []interface{} {
 	return *(*[]interface{})(unsafe.Pointer(ptr))
 }
diff --git a/countlog/root.go b/countlog/root.go
index b143a1f..f8efaec 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -11,7 +11,14 @@ import (
 
 type panicHandler func(recovered interface{}, event *spi.Event, site *spi.LogSite)
 
-func newRootHandler(site *spi.LogSite, onPanic panicHandler) spi.EventHandler {
+func newRootHandler(site *spi.LogSite, onPanic panicHandler) (handler spi.EventHandler) {
+	defer func() {
+		if recovered := recover(); recovered != nil {
+			// the properties are malformed, or the sink is broken
+			loglog.Error(fmt.Errorf("%v", recovered))
+			handler = &spi.DummyEventHandler{Site: site}
+		}
+	}()
 	statsHandler := EventAggregator.HandlerOf(site)
 	if statsHandler == nil {
 		return &oneHandler{
-- 
2.43.0


From 9c5a099cada9573ccd491025adca36c6e800f666 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:21 +0000
Subject: [PATCH 31/89] fix: do not crash when the program is built with race
 detector

---
 countlog/countlog.go     | 6 ++++++
 countlog/stats/window.go | 2 ++
 reflect2/reflect2.go     | 1 +
 3 files changed, 9 insertions(+)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index e8b30ce..e189a17 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -196,13 +196,19 @@ func describeError(eventName string, err error, properties []interface{}) (descr
 	return errors.New(string(errMsg))
 }
 
+//go:nosplit
+//go:nocheckptr
 func castEmptyInterfaces(ptr uintptr) []interface{} {
 	return *(*[]interface{})(unsafe.Pointer(ptr))
 }
 
+//go:nosplit
+//go:nocheckptr
 func castEvent(ptr uintptr) *spi.Event {
 	return (*spi.Event)(unsafe.Pointer(ptr))
 }
+//go:nosplit
+//go:nocheckptr
 func castString(ptr uintptr) string {
 	return *(*string)(unsafe.Pointer(ptr))
 }
diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index e1b43b9..341cc7e 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -225,6 +225,8 @@ func copyDimension(dimensionInterface emptyInterface, dimension []string) interf
 	return *(*interface{})(unsafe.Pointer(&dimensionInterface))
 }
 
+//go:nosplit
+//go:nocheckptr
 func castEmptyInterface(ptr uintptr) interface{} {
 	return *(*interface{})(unsafe.Pointer(ptr))
 }
diff --git a/reflect2/reflect2.go b/reflect2/reflect2.go
index a84a109..52f178d 100644
--- a/reflect2/reflect2.go
+++ b/reflect2/reflect2.go
@@ -279,6 +279,7 @@ func likePtrType(typ reflect.Type) bool {
 // compiles down to zero instructions.
 // USE CAREFULLY!
 //go:nosplit
+//go:nocheckptr
 func NoEscape(p unsafe.Pointer) unsafe.Pointer {
 	x := uintptr(p)
 	return unsafe.Pointer(x ^ 0)
-- 
2.43.0


From aa7d58a65e2e2f1b2713148af3d0e182137ab04e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:05 +0000
Subject: [PATCH 32/89] fix: export stats every second instead of only once

---
 countlog/stats/window.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index 341cc7e..e712650 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -39,10 +39,11 @@ func newWindow(executor Executor, collector Collector, dimensionElemCount int) *
 }
 
 func (window *Window) exportEverySecond(ctx context.Context) {
-	timer := time.NewTimer(time.Second)
+	ticker := time.NewTicker(time.Second)
+	defer ticker.Stop()
 	for {
 		select {
-		case <-timer.C:
+		case <-ticker.C:
 			window.Export(time.Now())
 		case <-ctx.Done():
 			return
-- 
2.43.0


From 4c3107d845fded28c2ccdfc6766fbef45cc11448 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:05 +0000
Subject: [PATCH 33/89] fix: export stats with the name of event

---
 countlog/stats/stats.go  | 2 +-
 countlog/stats/window.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index f357b30..5d5917f 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -44,7 +44,7 @@ func (aggregator *EventAggregator) createHandler(agg string, site *spi.LogSite)
 		return &spi.DummyEventHandler{Site: site}
 	}
 	extractor, dimensionElemCount := newDimensionExtractor(site)
-	window := newWindow(aggregator.executor, aggregator.collector, dimensionElemCount)
+	window := newWindow(site.Event, aggregator.executor, aggregator.collector, dimensionElemCount)
 	switch agg {
 	case "counter":
 		return &countEvent{
diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index e712650..83db9e4 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -23,8 +23,9 @@ type windowShard struct {
 	lock *sync.Mutex
 }
 
-func newWindow(executor Executor, collector Collector, dimensionElemCount int) *Window {
+func newWindow(event string, executor Executor, collector Collector, dimensionElemCount int) *Window {
 	window := &Window{
+		event:              event,
 		collector:          collector,
 		dimensionElemCount: dimensionElemCount,
 	}
-- 
2.43.0


From 72b372007d63f93279f140451a89acdb9b65d22d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:06 +0000
Subject: [PATCH 34/89] fix: count event with dimension which is not string

---
 countlog/stats/window.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index 83db9e4..29c50f4 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -9,6 +9,7 @@ import (
 	"github.com/v2pro/plz/gls"
 	"time"
 	"context"
+	"fmt"
 )
 
 type Window struct {
@@ -204,7 +205,11 @@ func extractDimension(
 	sampleInterface emptyInterface, dimension []string, indices []propIdx,
 	event *spi.Event, monoid MapMonoid, createElem func() Monoid) Monoid {
 	for i, idx := range indices {
-		dimension[i] = event.Properties[idx].(string)
+		elem, isString := event.Properties[idx].(string)
+		if !isString {
+			elem = fmt.Sprint(event.Properties[idx])
+		}
+		dimension[i] = elem
 	}
 	dimensionInterface := sampleInterface
 	dimensionInterface.word = unsafe.Pointer(&dimension[0])
-- 
2.43.0


From f899d9f515d60cf7998ea2316e7376974013ccba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:06 +0000
Subject: [PATCH 35/89] fix: count dropped messages without data race

---
 countlog/output/async/async.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index 7a30e2a..3d76361 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"sync/atomic"
 	"time"
 
 	"github.com/v2pro/plz/concurrent"
@@ -40,9 +41,9 @@ func NewAsyncWriter(cfg AsyncWriterConfig) ClosableWriter {
 	}
 	onMessageDropped := cfg.OnMessageDropped
 	if onMessageDropped == nil {
-		droppedCount := 0
+		totalDropped := int64(0)
 		onMessageDropped = func(msg []byte) {
-			droppedCount++
+			droppedCount := atomic.AddInt64(&totalDropped, 1)
 			if droppedCount%1000 == 1 {
 				loglog.Error(fmt.Errorf("countlog async writer congestion, dropped %v messages so far", droppedCount))
 			}
-- 
2.43.0


From 4a4b2a95e0b4273a2a23eaa5c4762c1f1c105158 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:06 +0000
Subject: [PATCH 36/89] fix: escape event, keys and location to output valid
 json

---
 countlog/output/json/json.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/countlog/output/json/json.go b/countlog/output/json/json.go
index 413a0df..0267b57 100644
--- a/countlog/output/json/json.go
+++ b/countlog/output/json/json.go
@@ -12,12 +12,12 @@ type JsonFormat struct {
 
 func (format *JsonFormat) FormatterOf(site *spi.LogSite) output.Formatter {
 	formatter := &jsonFormatter{
-		prefix:           `{"event":"` + site.Event + `"`,
-		suffix:           `,location:"` + site.Location() + `"}` + "\n",
+		prefix:           `{"event":` + quote(site.Event),
+		suffix:           `,"location":` + quote(site.Location()) + "}\n",
 		timestampEncoder: jsonfmt.EncoderOf(reflect2.TypeOf(int64(0))),
 	}
 	for i := 0; i < len(site.Sample); i += 2 {
-		prefix := `"` + site.Sample[i].(string) + `":`
+		prefix := quote(site.Sample[i].(string)) + ":"
 		formatter.props = append(formatter.props, jsonFormatterProp{
 			prefix:  prefix,
 			idx:     i + 1,
@@ -27,6 +27,10 @@ func (format *JsonFormat) FormatterOf(site *spi.LogSite) output.Formatter {
 	return formatter
 }
 
+func quote(str string) string {
+	return string(jsonfmt.WriteString(nil, str))
+}
+
 type jsonFormatter struct {
 	prefix           string
 	suffix           string
@@ -47,7 +51,7 @@ func (formatter *jsonFormatter) Format(space []byte, event *spi.Event) []byte {
 		space = append(space, prop.prefix...)
 		space = prop.encoder.Encode(nil, space, reflect2.PtrOf(event.Properties[prop.idx]))
 	}
-	space = append(space, ",timestamp:"...)
+	space = append(space, `,"timestamp":`...)
 	space = formatter.timestampEncoder.Encode(nil, space, reflect2.PtrOf(event.Timestamp.UnixNano()))
 	space = append(space, formatter.suffix...)
 	return space
-- 
2.43.0


From d8bc672a0061e4e4ab8191d5621629bf8a63e0a9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:41 +0000
Subject: [PATCH 37/89] fix: log property under its key even if the key is not
 valid in message format or duplicated

---
 countlog/output/compact/compact.go |  5 ++--
 countlog/output/hrf/hrf.go         |  8 +++---
 msgfmt/formatter.go                | 40 ++++++++++++++++++------------
 3 files changed, 30 insertions(+), 23 deletions(-)

diff --git a/countlog/output/compact/compact.go b/countlog/output/compact/compact.go
index 4532bb4..cdc6117 100644
--- a/countlog/output/compact/compact.go
+++ b/countlog/output/compact/compact.go
@@ -32,9 +32,8 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 	formatters = append(formatters, &errorFormatter{})
 	for i := 0; i < len(sample); i += 2 {
 		key := sample[i].(string)
-		pattern := "||" + key + "={" + key + "}"
-		formatters = append(formatters, &defaultFormatter{
-			msgfmt.FormatterOf(pattern, sample),
+		formatters = append(formatters, fixedFormatter("||"+key+"="), &defaultFormatter{
+			msgfmt.ValueFormatterOf(sample, i+1),
 		})
 	}
 
diff --git a/countlog/output/hrf/hrf.go b/countlog/output/hrf/hrf.go
index a617dd7..9750c28 100644
--- a/countlog/output/hrf/hrf.go
+++ b/countlog/output/hrf/hrf.go
@@ -34,8 +34,8 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 		for i := 0; i < len(ctx.Properties); i += 2 {
 			key := ctx.Properties[i].(string)
 			formatters = append(formatters, fixedFormatter("\x1b[90;1m"))
-			formatters = append(formatters, &ctxFormatter{
-				msgfmt.FormatterOf("\n"+key+": {"+key+"}", ctx.Properties),
+			formatters = append(formatters, fixedFormatter("\n"+key+": "), &ctxFormatter{
+				msgfmt.ValueFormatterOf(ctx.Properties, i+1),
 			})
 			formatters = append(formatters, fixedFormatter("\x1b[0m"))
 		}
@@ -46,8 +46,8 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 		if key == "timer" {
 			formatters = append(formatters, &timerFormatter{idx: i+1})
 		} else {
-			formatters = append(formatters, &propFormatter{
-				msgfmt.FormatterOf("\n"+key+": {"+key+"}", site.Sample),
+			formatters = append(formatters, fixedFormatter("\n"+key+": "), &propFormatter{
+				msgfmt.ValueFormatterOf(site.Sample, i+1),
 			})
 		}
 		formatters = append(formatters, fixedFormatter("\x1b[0m"))
diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index 74b0eb4..1581fee 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -37,22 +37,7 @@ var toFormatter = newLexer(func(l *lexer) {
 			src.ReportError(fmt.Errorf("%s not found in args", id))
 			return nil
 		}
-		sampleValue := sample[idx]
-		stringer, _ := sampleValue.(fmt.Stringer)
-		if stringer != nil {
-			return stringerFormatter(idx)
-		}
-		switch sampleValue.(type) {
-		case string:
-			return strFormatter(idx)
-		case []byte:
-			return bytesFormatter(idx)
-		default:
-			return &jsonFormatter{
-				idx:     idx,
-				encoder: jsonfmt.EncoderOf(reflect2.TypeOf(sampleValue)),
-			}
-		}
+		return ValueFormatterOf(sample, idx)
 	}
 	l.parseFunc = func(src *parse.Source, id string, funcName string, funcArgs []string) interface{} {
 		sample := src.Attachment.([]interface{})
@@ -75,6 +60,29 @@ var toFormatter = newLexer(func(l *lexer) {
 	}
 })
 
+// ValueFormatterOf formats the value at the index, without looking it up by key
+func ValueFormatterOf(sample []interface{}, idx int) Formatter {
+	if idx >= len(sample) {
+		return invalidFormatter("value is missing")
+	}
+	sampleValue := sample[idx]
+	stringer, _ := sampleValue.(fmt.Stringer)
+	if stringer != nil {
+		return stringerFormatter(idx)
+	}
+	switch sampleValue.(type) {
+	case string:
+		return strFormatter(idx)
+	case []byte:
+		return bytesFormatter(idx)
+	default:
+		return &jsonFormatter{
+			idx:     idx,
+			encoder: jsonfmt.EncoderOf(reflect2.TypeOf(sampleValue)),
+		}
+	}
+}
+
 func findValueIndex(sample []interface{}, target string) int {
 	for i := 0; i+1 < len(sample); i += 2 {
 		key, isString := sample[i].(string)
-- 
2.43.0


From 15c76d5ad4d3dd7dfd25947fbfbc85c549029a72 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 38/89] fix: log timer property which is not int64 as regular
 property

---
 countlog/output/hrf/hrf.go   | 2 +-
 countlog/output/hrf/timer.go | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/countlog/output/hrf/hrf.go b/countlog/output/hrf/hrf.go
index 9750c28..c7eeb62 100644
--- a/countlog/output/hrf/hrf.go
+++ b/countlog/output/hrf/hrf.go
@@ -43,7 +43,7 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 	for i := 0; i < len(site.Sample); i += 2 {
 		key := site.Sample[i].(string)
 		formatters = append(formatters, fixedFormatter("\x1b[90;1m"))
-		if key == "timer" {
+		if key == "timer" && isTimer(site.Sample, i+1) {
 			formatters = append(formatters, &timerFormatter{idx: i+1})
 		} else {
 			formatters = append(formatters, fixedFormatter("\n"+key+": "), &propFormatter{
diff --git a/countlog/output/hrf/timer.go b/countlog/output/hrf/timer.go
index 2f012ee..1f1c821 100644
--- a/countlog/output/hrf/timer.go
+++ b/countlog/output/hrf/timer.go
@@ -5,6 +5,14 @@ import (
 	"time"
 )
 
+func isTimer(sample []interface{}, idx int) bool {
+	if idx >= len(sample) {
+		return false
+	}
+	_, isInt64 := sample[idx].(int64)
+	return isInt64
+}
+
 type timerFormatter struct {
 	idx int
 }
-- 
2.43.0


From 8fe60752c44b44a571021fe5251a752b016e3783 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:23 +0000
Subject: [PATCH 39/89] fix: default backup time format without data race

---
 countlog/output/lumberjack/lumberjack.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 3a8623e..a913862 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -220,10 +220,7 @@ func (l *Logger) openNew() error {
 		// Copy the mode off the old logfile.
 		mode = info.Mode()
 		// move the existing file
-		if l.BackupTimeFormat == "" {
-			l.BackupTimeFormat = defaultBackupTimeFormat
-		}
-		newname := backupName(name, l.LocalTime, l.BackupTimeFormat)
+		newname := backupName(name, l.LocalTime, l.backupTimeFormat())
 		if err := os.Rename(name, newname); err != nil {
 			return fmt.Errorf("can't rename log file: %s", err)
 		}
@@ -443,10 +440,16 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
+	return time.Parse(l.backupTimeFormat(), ts)
+}
+
+// backupTimeFormat does not write back the default value, because it is called
+// from both the writing goroutine and the mill goroutine.
+func (l *Logger) backupTimeFormat() string {
 	if l.BackupTimeFormat == "" {
-		l.BackupTimeFormat = defaultBackupTimeFormat
+		return defaultBackupTimeFormat
 	}
-	return time.Parse(l.BackupTimeFormat, ts)
+	return l.BackupTimeFormat
 }
 
 // max returns the maximum size in bytes of log files before rolling.
-- 
2.43.0


From a9be048fb6edaca03f9627d9eada5801819a2c15 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:44 +0800
Subject: [PATCH 40/89] fix: rotating log file does not overwrite the backup
 rotated at the same time

---
 countlog/output/lumberjack/lumberjack.go | 40 ++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index a913862..3efe1dc 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -39,6 +39,8 @@ const (
 	defaultBackupTimeFormat = "2006-01-02T15-04-05.000"
 	compressSuffix   = ".gz"
 	defaultMaxSize   = 100
+	// maxBackupTimeStep is when the backup time format is considered as constant
+	maxBackupTimeStep = 24 * 365 * time.Hour
 )
 
 // ensure we always implement io.WriteCloser
@@ -113,6 +115,9 @@ type Logger struct {
 	file *os.File
 	mu   sync.Mutex
 
+	// lastBackup is the timestamp of the most recent backup
+	lastBackup time.Time
+
 	millCh    chan bool
 	startMill sync.Once
 }
@@ -220,7 +225,7 @@ func (l *Logger) openNew() error {
 		// Copy the mode off the old logfile.
 		mode = info.Mode()
 		// move the existing file
-		newname := backupName(name, l.LocalTime, l.backupTimeFormat())
+		newname := l.nextBackupName(name)
 		if err := os.Rename(name, newname); err != nil {
 			return fmt.Errorf("can't rename log file: %s", err)
 		}
@@ -243,15 +248,44 @@ func (l *Logger) openNew() error {
 	return nil
 }
 
+// nextBackupName is the name for the file to be rotated now. If it has been taken by
+// another backup, moves the timestamp forward to not overwrite that backup.
+func (l *Logger) nextBackupName(name string) string {
+	t := currentTime()
+	if !t.After(l.lastBackup) {
+		t = l.lastBackup.Add(time.Millisecond)
+	}
+	newname := backupName(name, l.LocalTime, l.backupTimeFormat(), t)
+	step := time.Millisecond
+	for fileExists(newname) || (l.Compress && fileExists(newname+compressSuffix)) {
+		t = t.Add(step)
+		candidate := backupName(name, l.LocalTime, l.backupTimeFormat(), t)
+		if candidate == newname {
+			// the resolution of the timestamp is lower than the step
+			step *= 2
+			if step > maxBackupTimeStep {
+				break
+			}
+		}
+		newname = candidate
+	}
+	l.lastBackup = t
+	return newname
+}
+
+func fileExists(name string) bool {
+	_, err := os_Stat(name)
+	return err == nil
+}
+
 // backupName creates a new filename from the given name, inserting a timestamp
 // between the filename and the extension, using the local time if requested
 // (otherwise UTC).
-func backupName(name string, local bool, backupTimeFormat string) string {
+func backupName(name string, local bool, backupTimeFormat string, t time.Time) string {
 	dir := filepath.Dir(name)
 	filename := filepath.Base(name)
 	ext := filepath.Ext(filename)
 	prefix := filename[:len(filename)-len(ext)]
-	t := currentTime()
 	if !local {
 		t = t.UTC()
 	}
-- 
2.43.0


From 441f126ab846a046ff04e65b48fa7d324f84b907 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:16 +0800
Subject: [PATCH 41/89] fix: goroutines started from the same function returned
 by WithGls do not share storage

---
 gls/gls.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/gls/gls.go b/gls/gls.go
index a8613ec..bf6e1d8 100644
--- a/gls/gls.go
+++ b/gls/gls.go
@@ -55,23 +55,29 @@ func WithGls(f func()) func() {
 	parentGls := GetGls(GoID())
 	// parentGls can not be used in other goroutine, otherwise not thread safe
 	// make a deep for child goroutine
-	childGls := map[interface{}]interface{}{}
-	for k, v := range parentGls {
-		asCopiable, ok := v.(copiable)
-		if ok {
-			childGls[k] = asCopiable.Copy()
-		} else {
-			childGls[k] = v
-		}
-	}
+	childGls := copyGls(parentGls)
 	return func() {
 		goid := GoID()
-		ResetGls(goid, childGls)
+		// the returned function might be called by many goroutines, every one of them has its own copy
+		ResetGls(goid, copyGls(childGls))
 		defer DeleteGls(goid)
 		f()
 	}
 }
 
+func copyGls(gls map[interface{}]interface{}) map[interface{}]interface{} {
+	copied := map[interface{}]interface{}{}
+	for k, v := range gls {
+		asCopiable, ok := v.(copiable)
+		if ok {
+			copied[k] = asCopiable.Copy()
+		} else {
+			copied[k] = v
+		}
+	}
+	return copied
+}
+
 func WithEmptyGls(f func()) func() {
 	// do not inherit from parent gls
 	return func() {
-- 
2.43.0


From 4533101a4015235bfbbd3a94d868189a516bf05c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:16 +0800
Subject: [PATCH 42/89] fix: do not lose the storage of goroutine after calling
 nested WithGls in it

---
 gls/gls.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gls/gls.go b/gls/gls.go
index bf6e1d8..cbb36e0 100644
--- a/gls/gls.go
+++ b/gls/gls.go
@@ -59,12 +59,21 @@ func WithGls(f func()) func() {
 	return func() {
 		goid := GoID()
 		// the returned function might be called by many goroutines, every one of them has its own copy
+		defer restoreGls(goid, GetGls(goid))
 		ResetGls(goid, copyGls(childGls))
-		defer DeleteGls(goid)
 		f()
 	}
 }
 
+// restoreGls gives back what the goroutine had before
+func restoreGls(goid int64, previousGls map[interface{}]interface{}) {
+	if previousGls == nil {
+		DeleteGls(goid)
+	} else {
+		ResetGls(goid, previousGls)
+	}
+}
+
 func copyGls(gls map[interface{}]interface{}) map[interface{}]interface{} {
 	copied := map[interface{}]interface{}{}
 	for k, v := range gls {
@@ -82,8 +91,8 @@ func WithEmptyGls(f func()) func() {
 	// do not inherit from parent gls
 	return func() {
 		goid := GoID()
+		defer restoreGls(goid, GetGls(goid))
 		ResetGls(goid, make(map[interface{}]interface{}))
-		defer DeleteGls(goid)
 		f()
 	}
 }
-- 
2.43.0


From 22ef82b68ebdd933c1486850c732ab1457b66bcb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:18 +0800
Subject: [PATCH 43/89] fix: show the level of event in human readable format

---
 countlog/spi/color.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/countlog/spi/color.go b/countlog/spi/color.go
index 9fed7f8..a655051 100644
--- a/countlog/spi/color.go
+++ b/countlog/spi/color.go
@@ -1,5 +1,7 @@
 package spi
 
+import "fmt"
+
 var coloredNames = map[int]string{}
 
 func init() {
@@ -15,9 +17,7 @@ func init() {
 		LevelFatal,
 	}
 	for _, level := range levels {
-		coloredNames[level] = ColoredLevelName(level)
-		//coloredNames[level] = msgfmt.Sprintf("\x1b[{color};1m[{level}]\x1b[0m ",
-		//	"color", getColor(level), "level", LevelName(level))
+		coloredNames[level] = fmt.Sprintf("\x1b[%d;1m[%s]\x1b[0m ", getColor(level), LevelName(level))
 	}
 }
 
-- 
2.43.0


From 95b69e09d782ac8fc7d31900ed5dca7712ac3cc8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:02 +0000
Subject: [PATCH 44/89] fix: encoding value containing itself terminates

---
 msgfmt/jsonfmt/encoder.go         | 36 ++++++++++++++++++++++++++++++-
 msgfmt/jsonfmt/encoder_dynamic.go | 10 +++++++--
 2 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index f426d31..1fdd892 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -112,6 +112,40 @@ type building map[reflect2.Type]*recursiveEncoder
 // recursiveEncoder is the reference to the encoder being built
 type recursiveEncoder struct {
 	Encoder
+	rtype uintptr
+}
+
+func (encoder *recursiveEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	return encodeOnce(ctx, space, encoder.Encoder, encoder.rtype, ptr)
+}
+
+// enclosing holds the values being encoded
+type enclosing struct {
+	context.Context
+	values map[enclosedValue]bool
+}
+
+type enclosedValue struct {
+	rtype uintptr
+	ptr   unsafe.Pointer
+}
+
+// encodeOnce does not encode the value containing itself without end
+func encodeOnce(ctx context.Context, space []byte, encoder Encoder, rtype uintptr, ptr unsafe.Pointer) []byte {
+	outer, isEnclosing := ctx.(*enclosing)
+	if !isEnclosing {
+		if ctx == nil {
+			ctx = context.Background()
+		}
+		outer = &enclosing{Context: ctx, values: map[enclosedValue]bool{}}
+	}
+	value := enclosedValue{rtype, ptr}
+	if outer.values[value] {
+		return append(space, `"can not encode cyclic value to json"`...)
+	}
+	outer.values[value] = true
+	defer delete(outer.values, value)
+	return encoder.Encode(outer, space, ptr)
 }
 
 func encoderOf(cfg *frozenConfig, building building, prefix string, valType reflect2.Type) Encoder {
@@ -122,7 +156,7 @@ func encoderOf(cfg *frozenConfig, building building, prefix string, valType refl
 	if outer := building[valType]; outer != nil {
 		return outer
 	}
-	self := &recursiveEncoder{}
+	self := &recursiveEncoder{rtype: valType.RType()}
 	building[valType] = self
 	self.Encoder = createEncoderOf(cfg, building, prefix, valType)
 	delete(building, valType)
diff --git a/msgfmt/jsonfmt/encoder_dynamic.go b/msgfmt/jsonfmt/encoder_dynamic.go
index 19177e8..f40e861 100644
--- a/msgfmt/jsonfmt/encoder_dynamic.go
+++ b/msgfmt/jsonfmt/encoder_dynamic.go
@@ -3,6 +3,7 @@ package jsonfmt
 import (
 	"unsafe"
 	"context"
+	"reflect"
 	"github.com/v2pro/plz/reflect2"
 )
 
@@ -16,5 +17,10 @@ func (encoder *dynamicEncoder) Encode(ctx context.Context, space []byte, ptr uns
 	if obj == nil {
 		return append(space, 'n', 'u', 'l', 'l')
 	}
-	return encoder.cfg.EncoderOf(reflect2.TypeOf(obj)).Encode(ctx, space, reflect2.PtrOf(obj))
-}
\ No newline at end of file
+	objEncoder := encoder.cfg.EncoderOf(reflect2.TypeOf(obj))
+	switch reflect2.TypeOf(obj).Kind() {
+	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Array, reflect.Struct:
+		return encodeOnce(ctx, space, objEncoder, reflect2.RTypeOf(obj), reflect2.PtrOf(obj))
+	}
+	return objEncoder.Encode(ctx, space, reflect2.PtrOf(obj))
+}
-- 
2.43.0


From 8ef0db5d71e0164aad14b2c1b797a228557b2844 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:02 +0000
Subject: [PATCH 45/89] fix: call events are output at the same level no matter
 stats are collected or not

---
 countlog/stats/stats.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index 5d5917f..afbe574 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -55,5 +55,6 @@ func (aggregator *EventAggregator) createHandler(agg string, site *spi.LogSite)
 	default:
 		// TODO: log unknown agg
 	}
-	return nil
+	// without the aggregation, the level of output is still same as when it is disabled
+	return &spi.DummyEventHandler{Site: site}
 }
-- 
2.43.0


From 356c3e9a2a1e3624c53eadf8286cb21fa94b3beb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:02 +0000
Subject: [PATCH 46/89] fix: age of backup named with local time

---
 countlog/output/lumberjack/lumberjack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 3efe1dc..8b69352 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -474,6 +474,9 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
+	if l.LocalTime {
+		return time.ParseInLocation(l.backupTimeFormat(), ts, time.Local)
+	}
 	return time.Parse(l.backupTimeFormat(), ts)
 }
 
-- 
2.43.0


From 5da5968e00e66b0d4020c3dd640bfe472bf90a63 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:54 +0000
Subject: [PATCH 47/89] fix: encode unsigned 64 bit integers with twenty digits

---
 msgfmt/jsonfmt/encoder_int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder_int.go b/msgfmt/jsonfmt/encoder_int.go
index 22ff9a8..816400f 100644
--- a/msgfmt/jsonfmt/encoder_int.go
+++ b/msgfmt/jsonfmt/encoder_int.go
@@ -201,7 +201,7 @@ func WriteUint64(space []byte, val uint64) []byte {
 	if q6 == 0 {
 		space = writeFirstBuf(space, digits[q5])
 	} else {
-		space = append(space, byte(q6 + '0'))
+		space = writeFirstBuf(space, digits[q6])
 		r6 := q5 - q6*1000
 		space = writeBuf(space, digits[r6])
 	}
-- 
2.43.0


From 4d849397f667da5a088fba14a8a85078737f3d1e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:06 +0000
Subject: [PATCH 48/89] fix: logging does not panic after the handler of event
 panicked

---
 countlog/root.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/countlog/root.go b/countlog/root.go
index f8efaec..2b7aa72 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -128,6 +128,10 @@ func (redirector *redirector) Handle(event *spi.Event) {
 	return
 }
 
+func (redirector *redirector) LogSite() *spi.LogSite {
+	return &redirector.site
+}
+
 type accurateHandlerKey struct {
 	File       string
 	Line       int
-- 
2.43.0


From 8cfe3d35efe515be0a307405761c5c0086d4865f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:54 +0000
Subject: [PATCH 49/89] fix: counting event with dimension containing itself or
 panicking does not crash or dead lock

---
 countlog/stats/counter.go |  3 ++-
 countlog/stats/window.go  | 16 +++++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/countlog/stats/counter.go b/countlog/stats/counter.go
index 9da8dc3..f5d1fcd 100644
--- a/countlog/stats/counter.go
+++ b/countlog/stats/counter.go
@@ -11,9 +11,10 @@ type countEvent struct {
 func (state *countEvent) Handle(event *spi.Event) {
 	lock, dimensions := state.Window.Mutate()
 	lock.Lock()
+	// extracting dimension might panic
+	defer lock.Unlock()
 	counter := state.extractor.Extract(event, dimensions, NewCounterMonoid)
 	*(counter.(*CounterMonoid)) += CounterMonoid(1)
-	lock.Unlock()
 }
 
 func (state *countEvent) GetWindow() *Window {
diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index 29c50f4..08e0e7c 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -7,6 +7,7 @@ import (
 	"reflect"
 	"sync"
 	"github.com/v2pro/plz/gls"
+	"github.com/v2pro/plz/msgfmt/jsonfmt"
 	"time"
 	"context"
 	"fmt"
@@ -207,7 +208,7 @@ func extractDimension(
 	for i, idx := range indices {
 		elem, isString := event.Properties[idx].(string)
 		if !isString {
-			elem = fmt.Sprint(event.Properties[idx])
+			elem = dimensionElem(event.Properties[idx])
 		}
 		dimension[i] = elem
 	}
@@ -222,6 +223,19 @@ func extractDimension(
 	return elem
 }
 
+// dimensionElem also terminates for the value containing itself
+func dimensionElem(obj interface{}) string {
+	switch obj.(type) {
+	case fmt.Stringer, error:
+		return fmt.Sprint(obj)
+	}
+	switch reflect.ValueOf(obj).Kind() {
+	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Array, reflect.Struct:
+		return jsonfmt.MarshalToString(obj)
+	}
+	return fmt.Sprint(obj)
+}
+
 func copyDimension(dimensionInterface emptyInterface, dimension []string) interface{} {
 	copied := make([]string, len(dimension))
 	for i, elem := range dimension {
-- 
2.43.0


From ed0dc3d3ad93248efb5d42735632caf10b828988 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:46 +0000
Subject: [PATCH 50/89] fix: event logged after the handler of call with same
 name panicked is still output

---
 countlog/countlog.go | 3 +++
 countlog/root.go     | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index e189a17..409b21c 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -218,6 +218,9 @@ func getHandler(event string, agg string, ctx *Context, properties []interface{}
 	if !found {
 		return newHandler(event, event, agg, ctx, properties)
 	}
+	if redirector, isRedirector := obj.(*redirector); isRedirector {
+		return redirector.withAgg(agg)
+	}
 	shaped, isShaped := obj.(*shapedHandler)
 	if !isShaped {
 		return obj.(spi.EventHandler)
diff --git a/countlog/root.go b/countlog/root.go
index 2b7aa72..eba2ba7 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -109,6 +109,7 @@ func (redirector *redirector) Handle(event *spi.Event) {
 		File:       callerFile,
 		Line:       callerLine,
 		Event:      redirector.site.Event,
+		Agg:        redirector.site.Agg,
 		Properties: kv.ShapeOf(event.Properties).String(),
 		LogContext: kv.ShapeOf(logContextOf(event.Context)).String(),
 	}
@@ -128,6 +129,13 @@ func (redirector *redirector) Handle(event *spi.Event) {
 	return
 }
 
+// withAgg is needed because the event might be both logged and logged as call
+func (original *redirector) withAgg(agg string) *redirector {
+	site := original.site
+	site.Agg = agg
+	return &redirector{site: site}
+}
+
 func (redirector *redirector) LogSite() *spi.LogSite {
 	return &redirector.site
 }
@@ -136,6 +144,7 @@ type accurateHandlerKey struct {
 	File       string
 	Line       int
 	Event      string
+	Agg        string
 	Properties string
 	LogContext string
 }
-- 
2.43.0


From 73b071bb164ce7d8c48a83ffdf3a93c76fdf9e87 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:44 +0800
Subject: [PATCH 51/89] fix: new logger does not name backup before the ones of
 earlier runs

---
 countlog/output/lumberjack/lumberjack.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 8b69352..15c28f8 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -252,6 +252,12 @@ func (l *Logger) openNew() error {
 // another backup, moves the timestamp forward to not overwrite that backup.
 func (l *Logger) nextBackupName(name string) string {
 	t := currentTime()
+	if l.lastBackup.IsZero() {
+		// the backups of earlier runs might be named ahead of time
+		if files, err := l.oldLogFiles(); err == nil && len(files) > 0 {
+			l.lastBackup = files[0].timestamp
+		}
+	}
 	if !t.After(l.lastBackup) {
 		t = l.lastBackup.Add(time.Millisecond)
 	}
@@ -266,6 +272,8 @@ func (l *Logger) nextBackupName(name string) string {
 			if step > maxBackupTimeStep {
 				break
 			}
+		} else {
+			step = time.Millisecond
 		}
 		newname = candidate
 	}
-- 
2.43.0


From ec81b2717dfb8bd5f6c4d1d34606702dddc1fd8e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:20 +0000
Subject: [PATCH 52/89] fix: report malformed message format when the arguments
 contain themselves

---
 msgfmt/formatter_invalid.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/msgfmt/formatter_invalid.go b/msgfmt/formatter_invalid.go
index 813c846..9a87659 100644
--- a/msgfmt/formatter_invalid.go
+++ b/msgfmt/formatter_invalid.go
@@ -1,24 +1,25 @@
 package msgfmt
 
 import (
-	"encoding/json"
-	"fmt"
+	"github.com/v2pro/plz/msgfmt/jsonfmt"
+	"github.com/v2pro/plz/reflect2"
 )
 
 type invalidFormatter string
 
 func (formatter invalidFormatter) Format(space []byte, kv []interface{}) []byte {
-	output, err := json.Marshal(kv)
-	if err != nil {
-		space = append(space, "%! (INVALID FORMAT) "...)
-		space = append(space, formatter...)
-		space = append(space, "%! (FORMAT ARGS) "...)
-		space = append(space, output...)
-	} else {
-		space = append(space, "%! (INVALID FORMAT) "...)
-		space = append(space, formatter...)
-		space = append(space, "%! (FORMAT ARGS) "...)
-		space = append(space, fmt.Sprintf("%v", kv)...)
-	}
-	return space
-}
\ No newline at end of file
+	space = append(space, "%! (INVALID FORMAT) "...)
+	space = append(space, formatter...)
+	space = append(space, "%! (FORMAT ARGS) "...)
+	return appendArgs(space, kv)
+}
+
+// appendArgs handles arguments containing themselves, which fmt does not
+func appendArgs(space []byte, kv []interface{}) (output []byte) {
+	defer func() {
+		if recovered := recover(); recovered != nil {
+			output = append(space, "can not be encoded"...)
+		}
+	}()
+	return jsonfmt.EncoderOf(reflect2.TypeOf(kv)).Encode(nil, space, reflect2.PtrOf(kv))
+}
-- 
2.43.0


From c10029eca0aca10728bee0a78e1c21bd96676d1c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:02 +0000
Subject: [PATCH 53/89] fix: encode exactly the exported fields when their
 names are not ASCII

---
 msgfmt/jsonfmt/encoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 1fdd892..9555a0c 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -5,6 +5,7 @@ import (
 	"reflect"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 	"fmt"
 	"encoding/json"
 	"context"
@@ -318,7 +319,7 @@ func encoderOfStruct(cfg *frozenConfig, building building, prefix string, valTyp
 }
 
 func getFieldName(cfg *frozenConfig, field reflect2.StructField) string {
-	if !cfg.includesUnexported && !unicode.IsUpper(rune(field.Name()[0])) {
+	if firstRune, _ := utf8.DecodeRuneInString(field.Name()); !cfg.includesUnexported && !unicode.IsUpper(firstRune) {
 		return ""
 	}
 	if field.Type().Kind() == reflect.Func {
-- 
2.43.0


From 4244735b3a57eca24d36d2ace1271d2fb3e89387 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:25 +0000
Subject: [PATCH 54/89] fix: pointers stored by growing a slice or setting a
 map entry escape

---
 reflect2/unsafe_link.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/reflect2/unsafe_link.go b/reflect2/unsafe_link.go
index f6de0d2..4f1edaa 100644
--- a/reflect2/unsafe_link.go
+++ b/reflect2/unsafe_link.go
@@ -14,11 +14,9 @@ func unsafe_NewArray(rtype unsafe.Pointer, length int) unsafe.Pointer
 // typedslicecopy copies a slice of elemType values from src to dst,
 // returning the number of elements copied.
 //go:linkname typedslicecopy reflect.typedslicecopy
-//go:noescape
 func typedslicecopy(elemType unsafe.Pointer, dst, src sliceHeader) int
 
 //go:linkname mapassign reflect.mapassign
-//go:noescape
 func mapassign(rtype unsafe.Pointer, m unsafe.Pointer, key, val unsafe.Pointer)
 
 //go:linkname mapaccess reflect.mapaccess
-- 
2.43.0


From 3b8dca396062b8b8fada5aba49191822f6f4e95c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:48 +0000
Subject: [PATCH 55/89] fix: number out of range and missing token are reported
 at the end of input

---
 parse/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/parse.go b/parse/parse.go
index b2cf481..4888509 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -186,8 +186,9 @@ func (src *Source) PeekRune() (rune, int) {
 	return utf8.DecodeRune(fullBuf)
 }
 
+// ReportError keeps the first error, reaching the end of input does not hide the errors found later
 func (src *Source) ReportError(err error) {
-	if src.err == nil {
+	if src.err == nil || (src.err == io.EOF && err != nil) {
 		src.err = err
 	}
 }
-- 
2.43.0


From bfdc74fe249ac5926e25d7f6143b2b20cf7ea231 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:00 +0000
Subject: [PATCH 56/89] fix: source is created although the first read is empty

---
 parse/parse.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 4888509..6f84c74 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -59,16 +59,16 @@ type Source struct {
 }
 
 func NewSource(reader io.Reader, buf []byte) (*Source, error) {
-	n, err := reader.Read(buf)
+	src := &Source{
+		reader: reader,
+		buf:    buf,
+	}
+	n := src.read(buf)
 	if n == 0 {
-		return nil, err
+		return nil, src.readErr
 	}
-	return &Source{
-		reader:  reader,
-		current: buf[:n],
-		buf:     buf,
-		readErr: err,
-	}, nil
+	src.current = buf[:n]
+	return src, nil
 }
 
 func NewSourceString(src string) *Source {
-- 
2.43.0


From ab1fdd104630ffbce91bec370671bca704d6bd68 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:12 +0000
Subject: [PATCH 57/89] fix: peeking does not write behind the buffer given to
 the source

---
 parse/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/parse.go b/parse/parse.go
index 6f84c74..f0dbbdd 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -96,7 +96,8 @@ func (src *Source) PeekN(n int) ([]byte, error) {
 	if src.reader == nil {
 		return src.current, io.EOF
 	}
-	peeked := src.current
+	// do not append in place, the memory behind is not ours
+	peeked := src.current[:len(src.current):len(src.current)]
 	for _, next := range src.nextList {
 		peeked = append(peeked, next...)
 		if len(peeked) >= n {
-- 
2.43.0


From 3005591c92d97e01f5eaa3ad513abb019a40da58 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:36 +0000
Subject: [PATCH 58/89] fix: a map being iterated escapes to the iterator that
 refers to it

---
 reflect2/go_above_118.go | 1 -
 reflect2/go_below_118.go | 4 +---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/reflect2/go_above_118.go b/reflect2/go_above_118.go
index 6a30d77..4276f29 100644
--- a/reflect2/go_above_118.go
+++ b/reflect2/go_above_118.go
@@ -6,7 +6,6 @@ package reflect2
 import "unsafe"
 
 // since go 1.18 the caller provides the memory of the iterator
-//go:noescape
 //go:linkname mapiterinit reflect.mapiterinit
 func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer, it *hiter)
 
diff --git a/reflect2/go_below_118.go b/reflect2/go_below_118.go
index 2bc993e..b8a4ddb 100644
--- a/reflect2/go_below_118.go
+++ b/reflect2/go_below_118.go
@@ -5,9 +5,7 @@ package reflect2
 
 import "unsafe"
 
-// m escapes into the return value, but the caller of mapiterinit
-// doesn't let the return value escape.
-//go:noescape
+// m escapes into the return value, which is kept by the iterator.
 //go:linkname mapiterinit reflect.mapiterinit
 func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter
 
-- 
2.43.0


From 704dee5fc71af99e3d83d34921bf594915711d37 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:36 +0000
Subject: [PATCH 59/89] fix: field promoted through a nil embedded pointer
 panics instead of giving an invalid pointer

---
 reflect2/unsafe_field.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reflect2/unsafe_field.go b/reflect2/unsafe_field.go
index a45ef53..8461b42 100644
--- a/reflect2/unsafe_field.go
+++ b/reflect2/unsafe_field.go
@@ -97,6 +97,9 @@ func (field *UnsafeStructField) UnsafeGet(obj unsafe.Pointer) unsafe.Pointer {
 		obj = add(obj, step.offset, "same as non-reflect &v.field")
 		if step.isPtr {
 			obj = *(*unsafe.Pointer)(obj)
+			if obj == nil {
+				panic("reflect2: indirection through nil pointer to embedded struct")
+			}
 		}
 	}
 	return add(obj, field.StructField.Offset, "same as non-reflect &v.field")
-- 
2.43.0


From 6a596a4923f4d3d064da4f8c3bfe5df2bfa42a0d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:36 +0000
Subject: [PATCH 60/89] fix: safe map iterator visits entries with NaN keys

---
 reflect2/safe_map.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/reflect2/safe_map.go b/reflect2/safe_map.go
index 88ab415..403906e 100644
--- a/reflect2/safe_map.go
+++ b/reflect2/safe_map.go
@@ -62,10 +62,10 @@ func (type2 *safeMapType) UnsafeGetIndex(obj unsafe.Pointer, key unsafe.Pointer)
 }
 
 func (type2 *safeMapType) Iterate(obj interface{}) MapIterator {
-	m := reflect.ValueOf(obj).Elem()
+	iter := reflect.ValueOf(obj).Elem().MapRange()
 	return &safeMapIterator{
-		m:    m,
-		keys: m.MapKeys(),
+		iter:    iter,
+		hasNext: iter.Next(),
 	}
 }
 
@@ -74,23 +74,22 @@ func (type2 *safeMapType) UnsafeIterate(obj unsafe.Pointer) MapIterator {
 }
 
 type safeMapIterator struct {
-	i int
-	m reflect.Value
-	keys []reflect.Value
+	iter    *reflect.MapIter
+	hasNext bool
 }
 
 func (iter *safeMapIterator) HasNext() bool {
-	return iter.i != len(iter.keys)
+	return iter.hasNext
 }
 
 func (iter *safeMapIterator) Next() (interface{}, interface{}) {
-	key := iter.keys[iter.i]
-	elem := iter.m.MapIndex(key)
-	iter.i += 1
+	key := iter.iter.Key()
+	elem := iter.iter.Value()
 	keyPtr := reflect.New(key.Type())
 	keyPtr.Elem().Set(key)
 	elemPtr := reflect.New(elem.Type())
 	elemPtr.Elem().Set(elem)
+	iter.hasNext = iter.iter.Next()
 	return keyPtr.Interface(), elemPtr.Interface()
 }
 
-- 
2.43.0


From 1cf641d431d3fa4cc28d017764d7d15dca35d040 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:29 +0000
Subject: [PATCH 61/89] fix: a map escapes with the pointer to its element

---
 reflect2/unsafe_link.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reflect2/unsafe_link.go b/reflect2/unsafe_link.go
index 4f1edaa..b984f86 100644
--- a/reflect2/unsafe_link.go
+++ b/reflect2/unsafe_link.go
@@ -19,8 +19,8 @@ func typedslicecopy(elemType unsafe.Pointer, dst, src sliceHeader) int
 //go:linkname mapassign reflect.mapassign
 func mapassign(rtype unsafe.Pointer, m unsafe.Pointer, key, val unsafe.Pointer)
 
+// the returned pointer refers to the memory of m
 //go:linkname mapaccess reflect.mapaccess
-//go:noescape
 func mapaccess(rtype unsafe.Pointer, m unsafe.Pointer, key unsafe.Pointer) (val unsafe.Pointer)
 
 //go:noescape
-- 
2.43.0


From 7821b660f9e4d57e1d8cdcd4f9312ad407cb77d1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:01 +0000
Subject: [PATCH 62/89] fix: closing logs every error alone and leaves the
 properties of the caller alone

---
 closer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/closer.go b/closer.go
index 3ab67c9..484e255 100644
--- a/closer.go
+++ b/closer.go
@@ -31,8 +31,9 @@ func Close(resource io.Closer, properties ...interface{}) error {
 	if err != nil {
 		_, file, line, _ := runtime.Caller(1)
 		closedAt := fmt.Sprintf("%s:%d", file, line)
-		properties = append(properties, "err", err)
-		countlog.Error("event!close "+closedAt, properties...)
+		// the properties belong to the caller
+		errProperties := append(properties[:len(properties):len(properties)], "err", err)
+		countlog.Error("event!close "+closedAt, errProperties...)
 		return err
 	}
 	return nil
@@ -45,8 +46,9 @@ func CloseAll(resources []io.Closer, properties ...interface{}) error {
 		if err != nil {
 			_, file, line, _ := runtime.Caller(1)
 			closedAt := fmt.Sprintf("%s:%d", file, line)
-			properties = append(properties, "err", err)
-			countlog.Error("event!CloseAll called from "+closedAt, properties...)
+			// the properties belong to the caller
+			errProperties := append(properties[:len(properties):len(properties)], "err", err)
+			countlog.Error("event!CloseAll called from "+closedAt, errProperties...)
 			errs = append(errs, err)
 		}
 	}
-- 
2.43.0


From 2f2b107b43fd7dd960e917b4cb2d7f5406248539 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:01 +0000
Subject: [PATCH 63/89] fix: logging a panic leaves the properties of the
 caller alone

---
 countlog/countlog.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index 409b21c..9da98a4 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -138,7 +138,8 @@ func LogPanic(recovered interface{}, properties ...interface{}) interface{} {
 	buf := make([]byte, 1<<16)
 	runtime.Stack(buf, false)
 	if len(properties) > 0 {
-		properties = append(properties, "err", recovered, "stacktrace", string(buf))
+		// the properties belong to the caller
+		properties = append(properties[:len(properties):len(properties)], "err", recovered, "stacktrace", string(buf))
 		Fatal("event!panic", properties...)
 	} else {
 		Fatal("event!panic", "err", recovered, "stacktrace", string(buf))
-- 
2.43.0


From 29aa35cfde007125ba77826dd32882c957fe1cbf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 64/89] fix: events with a property agg that is not text are
 logged

---
 countlog/stats/stats.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index afbe574..f3186be 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -30,9 +30,14 @@ func (aggregator *EventAggregator) HandlerOf(site *spi.LogSite) spi.EventHandler
 		return aggregator.createHandler(site.Agg, site)
 	}
 	sample := site.Sample
-	for i := 0; i < len(sample); i += 2 {
+	for i := 0; i+1 < len(sample); i += 2 {
 		if sample[i].(string) == "agg" {
-			return aggregator.createHandler(sample[i+1].(string), site)
+			agg, isString := sample[i+1].(string)
+			if !isString {
+				// not the name of aggregation
+				return nil
+			}
+			return aggregator.createHandler(agg, site)
 		}
 	}
 	return nil
-- 
2.43.0


From 31dc9cc18461ac194f397429b10e3dbdcaec25c5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:11 +0000
Subject: [PATCH 65/89] fix: the rotating writer compiles, rotates when its
 trigger says so and goes on in a new file

---
 countlog/output/rotation/rotation.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/countlog/output/rotation/rotation.go b/countlog/output/rotation/rotation.go
index 9bfdc7a..2dc86e7 100644
--- a/countlog/output/rotation/rotation.go
+++ b/countlog/output/rotation/rotation.go
@@ -8,7 +8,6 @@ import (
 	"context"
 	"unsafe"
 	"sync/atomic"
-	"github.com/v2pro/plz/countlog/spi"
 	"math/rand"
 	"github.com/v2pro/plz/countlog/loglog"
 )
@@ -86,7 +85,7 @@ func NewWriter(cfg Config) (*Writer, error) {
 		cfg.DirectoryMode = 0755
 	}
 	executor := concurrent.NewUnboundedExecutor()
-	writer := &Writer{executor: executor, cfg: &cfg}
+	writer := &Writer{executor: executor, cfg: &cfg, archiveChan: make(chan struct{}, 1)}
 	err := writer.reopen()
 	if err != nil {
 		return nil, err
@@ -119,7 +118,14 @@ func (writer *Writer) Write(buf []byte) (int, error) {
 		if err != nil {
 			loglog.Error(err)
 		}
-		writer.reopen()
+		// normal before opening, the new file might be archived as soon as it is opened
+		atomic.StoreInt32(&writer.status, statusNormal)
+		writer.stat = nil
+		err = writer.reopen()
+		if err != nil {
+			atomic.StoreInt32(&writer.status, statusArchived)
+			return 0, err
+		}
 	}
 	file := writer.file
 	triggerStrategy := writer.cfg.TriggerStrategy
@@ -133,7 +139,13 @@ func (writer *Writer) Write(buf []byte) (int, error) {
 			return n, err
 		}
 		if triggered {
-			atomic.StoreInt32(&writer.status, statusTriggered)
+			if atomic.CompareAndSwapInt32(&writer.status, statusNormal, statusTriggered) {
+				select {
+				case writer.archiveChan <- struct{}{}:
+				default:
+					// already going to be archived
+				}
+			}
 		}
 	}
 	return n, err
-- 
2.43.0


From 770bb3193a89ab956515fcd04418756fa10389df Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:11 +0000
Subject: [PATCH 66/89] fix: the trigger by size is a trigger strategy

---
 countlog/output/rotation/trigger_by_size.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/countlog/output/rotation/trigger_by_size.go b/countlog/output/rotation/trigger_by_size.go
index 87ec9de..6a47481 100644
--- a/countlog/output/rotation/trigger_by_size.go
+++ b/countlog/output/rotation/trigger_by_size.go
@@ -1,6 +1,9 @@
 package rotation
 
-import "os"
+import (
+	"os"
+	"time"
+)
 
 type TriggerBySize struct {
 	SizeInKB int64
@@ -24,3 +27,8 @@ func (trigger *TriggerBySize) UpdateStat(stat interface{}, file *os.File, buf []
 	}
 	return size, triggered, nil
 }
+
+// TimeToTrigger is 0, the size triggers whenever it is reached
+func (trigger *TriggerBySize) TimeToTrigger() time.Duration {
+	return 0
+}
-- 
2.43.0


From a12e34f61684f94f6bfe6d7583f154cf5eef55b9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:11 +0000
Subject: [PATCH 67/89] fix: the event viewer compiles

---
 witch/witch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/witch/witch.go b/witch/witch.go
index a1013ac..4e540b1 100644
--- a/witch/witch.go
+++ b/witch/witch.go
@@ -112,7 +112,7 @@ func Start(addr string) {
 	}
 	countlog.Info("event!witch.viewer started", "addr", addr)
 	countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{
-		Format: &json.Format{},
+		Format: &json.JsonFormat{},
 		Writer: theEventQueue,
 	})
 	if addr != "" {
-- 
2.43.0


From b1a729f8beaf9c267c45c3cd16c29407a2fde14e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:11 +0000
Subject: [PATCH 68/89] fix: the events waiting for the viewer are not
 overwritten by later ones

---
 witch/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/witch/logger.go b/witch/logger.go
index ed098cd..f54d519 100644
--- a/witch/logger.go
+++ b/witch/logger.go
@@ -25,7 +25,7 @@ func newEventQueue() *eventQueue {
 
 func (q *eventQueue) Write(buf []byte) (int, error) {
 	select {
-	case q.msgChan <- buf:
+	case q.msgChan <- append([]byte(nil), buf...):
 	default:
 		dropped := atomic.AddUint64(&q.droppedEventsCount, 1)
 		if dropped%10000 == 1 {
-- 
2.43.0


From 8a1d9f1c6f6457e4390e77a6cca15555899f7917 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:11 +0000
Subject: [PATCH 69/89] fix: the answer to the viewer is one JSON array

---
 witch/logger.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/witch/logger.go b/witch/logger.go
index f54d519..faf1789 100644
--- a/witch/logger.go
+++ b/witch/logger.go
@@ -67,7 +67,6 @@ func moreEvents(respWriter http.ResponseWriter, req *http.Request) {
 		countlog.LogPanic(recovered)
 	}()
 	respWriter.Header().Add("Access-Control-Allow-Origin", "*")
-	respWriter.Write([]byte("["))
 	stream := jsoniter.ConfigDefault.BorrowStream(respWriter)
 	defer jsoniter.ConfigDefault.ReturnStream(stream)
 	events := theEventQueue.consume()
-- 
2.43.0


From e0ce8b2963f6d232b3154e7ab3635e6f3ef42488 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 70/89] fix: agg and dim of the call decide how its event is
 counted

---
 countlog/countlog.go | 63 ++++++++++++++++++++++++++++++++++----------
 countlog/root.go     | 26 +++++++++---------
 2 files changed, 63 insertions(+), 26 deletions(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index 9da98a4..d176c87 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -230,7 +230,8 @@ func getHandler(event string, agg string, ctx *Context, properties []interface{}
 		return shaped.handler
 	}
 	// same event is logged with different keys or types
-	key := shapedEvent{event, agg, kv.ShapeOf(properties).String(), kv.ShapeOf(logContextOf(ctx)).String()}
+	key := shapedEvent{event, agg, aggregationOf(properties).copied(),
+		kv.ShapeOf(properties).String(), kv.ShapeOf(logContextOf(ctx)).String()}
 	obj, found = handlerCache.Load(key)
 	if found {
 		return obj.(*shapedHandler).handler
@@ -251,10 +252,11 @@ func newHandler(key interface{}, eventName string, agg string, ctx *Context, pro
 	}
 	handler := newRootHandler(site, nomalModeOnPanic)
 	handlerCache.Store(key, &shapedHandler{
-		handler:    handler,
-		agg:        agg,
-		properties: kv.ShapeOf(properties),
-		logContext: kv.ShapeOf(logContextOf(ctx)),
+		handler:     handler,
+		agg:         agg,
+		aggregation: aggregationOf(properties).copied(),
+		properties:  kv.ShapeOf(properties),
+		logContext:  kv.ShapeOf(logContextOf(ctx)),
 	})
 	return handler
 }
@@ -275,21 +277,54 @@ func copySample(properties []interface{}) []interface{} {
 
 // shapedHandler can only handle the events with the keys and types it is created for
 type shapedHandler struct {
-	handler    spi.EventHandler
-	agg        string
-	properties kv.Shape
-	logContext kv.Shape
+	handler     spi.EventHandler
+	agg         string
+	aggregation aggregation
+	properties  kv.Shape
+	logContext  kv.Shape
 }
 
 func (shaped *shapedHandler) match(agg string, ctx *Context, properties []interface{}) bool {
-	return shaped.agg == agg && shaped.properties.Match(properties) && shaped.logContext.Match(logContextOf(ctx))
+	return shaped.agg == agg && shaped.aggregation == aggregationOf(properties) &&
+		shaped.properties.Match(properties) && shaped.logContext.Match(logContextOf(ctx))
 }
 
 type shapedEvent struct {
-	event      string
-	agg        string
-	properties string
-	logContext string
+	event       string
+	agg         string
+	aggregation aggregation
+	properties  string
+	logContext  string
+}
+
+// aggregation is chosen by the values of properties, instead of their keys and types
+type aggregation struct {
+	agg string
+	dim string
+}
+
+func aggregationOf(properties []interface{}) (found aggregation) {
+	for i := 0; i+1 < len(properties); i += 2 {
+		key, _ := properties[i].(string)
+		value, isString := properties[i+1].(string)
+		if isString && key == "agg" && found.agg == "" {
+			found.agg = value
+		} else if isString && key == "dim" {
+			found.dim = value
+		}
+	}
+	if found.agg == "" {
+		return aggregation{}
+	}
+	return found
+}
+
+// copied does not reference the memory of properties
+func (original aggregation) copied() aggregation {
+	return aggregation{
+		agg: string(append([]byte(nil), original.agg...)),
+		dim: string(append([]byte(nil), original.dim...)),
+	}
 }
 
 func logContextOf(ctx context.Context) []interface{} {
diff --git a/countlog/root.go b/countlog/root.go
index eba2ba7..39d2772 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -106,12 +106,13 @@ type redirector struct {
 func (redirector *redirector) Handle(event *spi.Event) {
 	_, callerFile, callerLine, _ := runtime.Caller(3)
 	key := accurateHandlerKey{
-		File:       callerFile,
-		Line:       callerLine,
-		Event:      redirector.site.Event,
-		Agg:        redirector.site.Agg,
-		Properties: kv.ShapeOf(event.Properties).String(),
-		LogContext: kv.ShapeOf(logContextOf(event.Context)).String(),
+		File:        callerFile,
+		Line:        callerLine,
+		Event:       redirector.site.Event,
+		Agg:         redirector.site.Agg,
+		Aggregation: aggregationOf(event.Properties).copied(),
+		Properties:  kv.ShapeOf(event.Properties).String(),
+		LogContext:  kv.ShapeOf(logContextOf(event.Context)).String(),
 	}
 	handlerObj, found := handlerCache.Load(key)
 	if found {
@@ -141,10 +142,11 @@ func (redirector *redirector) LogSite() *spi.LogSite {
 }
 
 type accurateHandlerKey struct {
-	File       string
-	Line       int
-	Event      string
-	Agg        string
-	Properties string
-	LogContext string
+	File        string
+	Line        int
+	Event       string
+	Agg         string
+	Aggregation aggregation
+	Properties  string
+	LogContext  string
 }
-- 
2.43.0


From d424494734fa6e6a97e4d8b501af96844dce9f84 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 71/89] fix: interface holding a typed nil is not nil

---
 reflect2/unsafe_eface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reflect2/unsafe_eface.go b/reflect2/unsafe_eface.go
index 446f420..be91023 100644
--- a/reflect2/unsafe_eface.go
+++ b/reflect2/unsafe_eface.go
@@ -45,7 +45,7 @@ func (type2 *UnsafeEFaceType) UnsafeIsNil(ptr unsafe.Pointer) bool {
 	if ptr == nil {
 		return true
 	}
-	return unpackEFace(*(*interface{})(ptr)).data == nil
+	return unpackEFace(*(*interface{})(ptr)).rtype == nil
 }
 
 func (type2 *UnsafeEFaceType) Indirect(obj interface{}) interface{} {
-- 
2.43.0


From f51e47d56527ee299c43bda782383874c4bfd5c9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:55 +0000
Subject: [PATCH 72/89] fix: trace through nil context does not panic

---
 countlog/context.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/countlog/context.go b/countlog/context.go
index 3a2e8b0..fee6fa7 100644
--- a/countlog/context.go
+++ b/countlog/context.go
@@ -24,6 +24,10 @@ func (ctx *Context) SuppressLevelsBelow(level int) {
 	ctx.suppressedMinLevel = level
 }
 
+func (ctx *Context) isSuppressed(level int) bool {
+	return ctx != nil && level < ctx.suppressedMinLevel
+}
+
 func (ctx *Context) Value(key interface{}) interface{} {
 	if ctx == nil {
 		return nil
@@ -39,7 +43,7 @@ func (ctx *Context) Trace(event string, properties ...interface{}) {
 		return
 	}
 	ptr := unsafe.Pointer(&properties)
-	if LevelTrace < ctx.suppressedMinLevel {
+	if ctx.isSuppressed(LevelTrace) {
 		addMemo(LevelTrace, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
 		return
 	}
-- 
2.43.0


From 8e21f01becb4a7062a38bcd362a2b27efc2d3e58 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:55 +0000
Subject: [PATCH 73/89] fix: suppressed levels include debug and info

---
 countlog/context.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/countlog/context.go b/countlog/context.go
index fee6fa7..f9e7e83 100644
--- a/countlog/context.go
+++ b/countlog/context.go
@@ -68,6 +68,10 @@ func (ctx *Context) Debug(event string, properties ...interface{}) {
 		return
 	}
 	ptr := unsafe.Pointer(&properties)
+	if ctx.isSuppressed(LevelDebug) {
+		addMemo(LevelDebug, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+		return
+	}
 	log(LevelDebug, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
 }
 
@@ -89,6 +93,10 @@ func (ctx *Context) Info(event string, properties ...interface{}) {
 		return
 	}
 	ptr := unsafe.Pointer(&properties)
+	if ctx.isSuppressed(LevelInfo) {
+		addMemo(LevelInfo, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
+		return
+	}
 	log(LevelInfo, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
 }
 
-- 
2.43.0


From 818e3e516ddf9f33abe776ce9088cc579ba0e716 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:32 +0000
Subject: [PATCH 74/89] fix: layout of time may contain comma

---
 msgfmt/custom.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msgfmt/custom.go b/msgfmt/custom.go
index 282eb66..130571f 100644
--- a/msgfmt/custom.go
+++ b/msgfmt/custom.go
@@ -42,7 +42,8 @@ func (format *GoTimeFormat) FormatterOf(targetKey string, formatArgs []string, s
 			if !isTime {
 				return nil, fmt.Errorf("%s is not time.Time", targetKey)
 			}
-			layout := strings.TrimSpace(formatArgs[0])
+			// the layout might contain comma
+			layout := strings.TrimSpace(strings.Join(formatArgs, ","))
 			return &goTimeFormatter{
 				idx: i+1,
 				layout: layout,
-- 
2.43.0


From 90034ddaf0a81027e5d60efa54c721a13e42b39e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:47 +0000
Subject: [PATCH 75/89] fix: location after panic names the function of the
 call

---
 countlog/root.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/countlog/root.go b/countlog/root.go
index 39d2772..3cc3423 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -104,7 +104,7 @@ type redirector struct {
 }
 
 func (redirector *redirector) Handle(event *spi.Event) {
-	_, callerFile, callerLine, _ := runtime.Caller(3)
+	pc, callerFile, callerLine, _ := runtime.Caller(3)
 	key := accurateHandlerKey{
 		File:        callerFile,
 		Line:        callerLine,
@@ -121,6 +121,7 @@ func (redirector *redirector) Handle(event *spi.Event) {
 	}
 	site := redirector.site
 	site.Context = event.Context
+	site.Func = runtime.FuncForPC(pc).Name()
 	site.File = callerFile
 	site.Line = callerLine
 	site.Sample = copySample(event.Properties)
-- 
2.43.0


From a134e441c23a8e1d2a673e5336920381ec55cac7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:02 +0800
Subject: [PATCH 76/89] fix: LogPanic reports the stack without trailing zero
 bytes

---
 countlog/countlog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index d176c87..d27a20d 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -136,7 +136,7 @@ func LogPanic(recovered interface{}, properties ...interface{}) interface{} {
 		return nil
 	}
 	buf := make([]byte, 1<<16)
-	runtime.Stack(buf, false)
+	buf = buf[:runtime.Stack(buf, false)]
 	if len(properties) > 0 {
 		// the properties belong to the caller
 		properties = append(properties[:len(properties):len(properties)], "err", recovered, "stacktrace", string(buf))
-- 
2.43.0


From 582e4b7ccb92e75bb8c16c74096444489664b00e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:02 +0800
Subject: [PATCH 77/89] fix: a panicking writer does not stop the async writer

---
 countlog/output/async/async.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index 3d76361..0fbab20 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -83,10 +83,7 @@ func (writer *blockingQueueWriter) asyncWrite(ctx context.Context) {
 					// time is up
 					return
 				case buf := <-writer.queue:
-					_, err := writer.writer.Write(buf)
-					if err != nil {
-						loglog.Error(err)
-					}
+					writer.writeOut(buf)
 				default:
 					// all written out
 					return
@@ -94,11 +91,21 @@ func (writer *blockingQueueWriter) asyncWrite(ctx context.Context) {
 			}
 			return
 		case buf := <-writer.queue:
-			_, err := writer.writer.Write(buf)
-			if err != nil {
-				loglog.Error(err)
-			}
+			writer.writeOut(buf)
+		}
+	}
+}
+
+func (writer *blockingQueueWriter) writeOut(buf []byte) {
+	defer func() {
+		// a panic of the writer loses this message, not the ones after it
+		if recovered := recover(); recovered != nil {
+			loglog.Error(fmt.Errorf("countlog async writer panicked: %v", recovered))
 		}
+	}()
+	_, err := writer.writer.Write(buf)
+	if err != nil {
+		loglog.Error(err)
 	}
 }
 
-- 
2.43.0


From edbc5d5afab145351314ec5b2c8401fa54e4ab33 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:02 +0800
Subject: [PATCH 78/89] fix: lumberjack skips files whose prefix and extension
 overlap

---
 countlog/output/lumberjack/lumberjack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 15c28f8..df0c5c6 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -481,6 +481,9 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 	if !strings.HasSuffix(filename, ext) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
+	if len(filename) < len(prefix)+len(ext) {
+		return time.Time{}, errors.New("prefix and extension overlap")
+	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
 	if l.LocalTime {
 		return time.ParseInLocation(l.backupTimeFormat(), ts, time.Local)
-- 
2.43.0


From fbc816de29c1e47ff11ff0a032aa43b83dc0fafd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 79/89] fix: the collector does not hold up log calls

---
 countlog/stats/window.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index 08e0e7c..d1c5878 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -67,10 +67,18 @@ func (window *Window) Export(now time.Time) {
 }
 
 func (window *Window) exportShard(now time.Time, shard windowShard) {
+	// the collector might be slow or log events itself, so it is not called with the lock held
+	for _, point := range window.takePoints(now, shard) {
+		window.collector.Collect(point)
+	}
+}
+
+func (window *Window) takePoints(now time.Time, shard windowShard) []*Point {
 	shard.lock.Lock()
 	defer shard.lock.Unlock()
 	// batch allocate memory to hold dimensions
 	space := make([]string, len(shard.MapMonoid)*window.dimensionElemCount)
+	points := make([]*Point, 0, len(shard.MapMonoid))
 	for dimensionObj, monoid := range shard.MapMonoid {
 		dimension := space[:window.dimensionElemCount]
 		space = space[window.dimensionElemCount:]
@@ -80,13 +88,14 @@ func (window *Window) exportShard(now time.Time, shard windowShard) {
 			Data: (*emptyInterface)(unsafe.Pointer(&dimensionObj)).word,
 		}
 		copy(dimension, *(*[]string)(unsafe.Pointer(slice)))
-		window.collector.Collect(&Point{
+		points = append(points, &Point{
 			Event:     window.event,
 			Timestamp: now,
 			Dimension: dimension,
 			Value:     monoid.Export(),
 		})
 	}
+	return points
 }
 
 type propIdx int
-- 
2.43.0


From 2819f703d357c3dfcad4f113b2f80c152d9011df Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:08 +0000
Subject: [PATCH 80/89] fix: executor does not hold its lock while logging what
 it waits for

---
 concurrent/unbounded_executor.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/concurrent/unbounded_executor.go b/concurrent/unbounded_executor.go
index 70a1cf0..8808eac 100644
--- a/concurrent/unbounded_executor.go
+++ b/concurrent/unbounded_executor.go
@@ -85,15 +85,24 @@ func (executor *UnboundedExecutor) StopAndWait(ctx context.Context) {
 }
 
 func (executor *UnboundedExecutor) checkGoroutines() bool {
+	startFrom, count := executor.findActive()
+	if count == 0 {
+		return true
+	}
+	// without the lock, because logging might use the executor
+	LogInfo("event!unbounded_executor.still waiting goroutines to quit",
+		"startFrom", startFrom,
+		"count", count)
+	return false
+}
+
+func (executor *UnboundedExecutor) findActive() (string, int) {
 	executor.activeGoroutinesMutex.Lock()
 	defer executor.activeGoroutinesMutex.Unlock()
 	for startFrom, count := range executor.activeGoroutines {
 		if count > 0 {
-			LogInfo("event!unbounded_executor.still waiting goroutines to quit",
-				"startFrom", startFrom,
-				"count", count)
-			return false
+			return startFrom, count
 		}
 	}
-	return true
+	return "", 0
 }
-- 
2.43.0


From 94de71ee6ad1318d329cbc19ac72198566801c93 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:08 +0000
Subject: [PATCH 81/89] fix: writing to a closed async writer does not block
 for ever

---
 countlog/output/async/async.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index 0fbab20..d72880b 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -15,6 +15,7 @@ type blockingQueueWriter struct {
 	queue    chan []byte
 	writer   io.Writer
 	executor *concurrent.UnboundedExecutor
+	stopped  chan struct{}
 }
 
 type nonBlockingQueueWriter struct {
@@ -55,6 +56,7 @@ func NewAsyncWriter(cfg AsyncWriterConfig) ClosableWriter {
 			queue:    make(chan []byte, queueLength),
 			writer:   cfg.Writer,
 			executor: executor,
+			stopped:  make(chan struct{}),
 		}
 		executor.Go(asyncWriter.asyncWrite)
 		return asyncWriter
@@ -64,6 +66,7 @@ func NewAsyncWriter(cfg AsyncWriterConfig) ClosableWriter {
 			queue:    make(chan []byte, queueLength),
 			writer:   cfg.Writer,
 			executor: executor,
+			stopped:  make(chan struct{}),
 		},
 		onMessageDropped: onMessageDropped,
 	}
@@ -72,6 +75,7 @@ func NewAsyncWriter(cfg AsyncWriterConfig) ClosableWriter {
 }
 
 func (writer *blockingQueueWriter) asyncWrite(ctx context.Context) {
+	defer close(writer.stopped)
 	for {
 		select {
 		case <-ctx.Done():
@@ -110,8 +114,13 @@ func (writer *blockingQueueWriter) writeOut(buf []byte) {
 }
 
 func (writer *blockingQueueWriter) Write(buf []byte) (int, error) {
-	writer.queue <- append([]byte(nil), buf...)
-	return len(buf), nil
+	select {
+	case writer.queue <- append([]byte(nil), buf...):
+		return len(buf), nil
+	case <-writer.stopped:
+		// nobody takes from the queue any more
+		return 0, io.ErrClosedPipe
+	}
 }
 
 func (writer *nonBlockingQueueWriter) Write(buf []byte) (int, error) {
-- 
2.43.0


From d524201fd35443de86031f848d5d81db9eee5bc0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:08 +0000
Subject: [PATCH 82/89] fix: messages not written out before closing are
 reported as dropped

---
 countlog/output/async/async.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index d72880b..95a5a56 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -124,6 +124,12 @@ func (writer *blockingQueueWriter) Write(buf []byte) (int, error) {
 }
 
 func (writer *nonBlockingQueueWriter) Write(buf []byte) (int, error) {
+	select {
+	case <-writer.stopped:
+		writer.onMessageDropped(buf)
+		return len(buf), nil
+	default:
+	}
 	select {
 	case writer.queue <- append([]byte(nil), buf...):
 	default:
@@ -140,3 +146,16 @@ func (writer *blockingQueueWriter) Close() error {
 	}
 	return closer.Close()
 }
+
+func (writer *nonBlockingQueueWriter) Close() error {
+	err := writer.blockingQueueWriter.Close()
+	for {
+		select {
+		case buf := <-writer.queue:
+			// not written out in time
+			writer.onMessageDropped(buf)
+		default:
+			return err
+		}
+	}
+}
-- 
2.43.0


From 74a58c638e2cf2c48aae1232daf93a9899e0800d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:06 +0000
Subject: [PATCH 83/89] fix: listing archives leaves no directory open

---
 countlog/output/rotation/name_by_index.go | 1 +
 countlog/output/rotation/name_by_time.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/countlog/output/rotation/name_by_index.go b/countlog/output/rotation/name_by_index.go
index e5f66ce..ff5566a 100644
--- a/countlog/output/rotation/name_by_index.go
+++ b/countlog/output/rotation/name_by_index.go
@@ -20,6 +20,7 @@ func (naming *NameByIndex) ListFiles() ([]string, error) {
 		}
 		return nil, err
 	}
+	defer dir.Close()
 	names, err := dir.Readdirnames(0)
 	if err != nil {
 		return nil, err
diff --git a/countlog/output/rotation/name_by_time.go b/countlog/output/rotation/name_by_time.go
index 9197683..b354578 100644
--- a/countlog/output/rotation/name_by_time.go
+++ b/countlog/output/rotation/name_by_time.go
@@ -23,6 +23,7 @@ func (namer *NameByTime) ListFiles() ([]Archive, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer dir.Close()
 	names, err := dir.Readdirnames(0)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 45fdf85b80e7c6222f8f6667e032ff9fc24bf95b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:06 +0000
Subject: [PATCH 84/89] fix: listing by index gives exactly the indexed files
 in order

---
 countlog/output/rotation/name_by_index.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/countlog/output/rotation/name_by_index.go b/countlog/output/rotation/name_by_index.go
index ff5566a..961b9aa 100644
--- a/countlog/output/rotation/name_by_index.go
+++ b/countlog/output/rotation/name_by_index.go
@@ -4,6 +4,7 @@ import (
 	"os"
 	"path"
 	"fmt"
+	"sort"
 )
 
 type NameByIndex struct {
@@ -26,6 +27,7 @@ func (naming *NameByIndex) ListFiles() ([]string, error) {
 		return nil, err
 	}
 	paths := make([]string, 0, len(names))
+	indices := map[string]int{}
 	for _, name := range names {
 		var idx int
 		n, err := fmt.Sscanf(name, naming.Pattern, &idx)
@@ -35,7 +37,16 @@ func (naming *NameByIndex) ListFiles() ([]string, error) {
 		if n != 1 {
 			continue
 		}
-		paths = append(paths, path.Join(naming.Directory, name))
+		if fmt.Sprintf(naming.Pattern, idx) != name {
+			// only the start of the name matches
+			continue
+		}
+		filePath := path.Join(naming.Directory, name)
+		indices[filePath] = idx
+		paths = append(paths, filePath)
 	}
+	sort.Slice(paths, func(i, j int) bool {
+		return indices[paths[i]] < indices[paths[j]]
+	})
 	return paths, nil
 }
-- 
2.43.0


From 3e0501a123eec08f75a8135bec2e7358567ea831 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:04 +0000
Subject: [PATCH 85/89] fix: a closed async writer refuses every message

---
 countlog/output/async/async.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index 95a5a56..76ef919 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -114,6 +114,12 @@ func (writer *blockingQueueWriter) writeOut(buf []byte) {
 }
 
 func (writer *blockingQueueWriter) Write(buf []byte) (int, error) {
+	select {
+	case <-writer.stopped:
+		// even if there is still space in the queue
+		return 0, io.ErrClosedPipe
+	default:
+	}
 	select {
 	case writer.queue <- append([]byte(nil), buf...):
 		return len(buf), nil
-- 
2.43.0


From f2275f1a26daafff67eec6a265669df7fc24ff86 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:04 +0000
Subject: [PATCH 86/89] fix: a message written while the async writer is closed
 is not lost silently

---
 countlog/output/async/async.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index 76ef919..d49c659 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -140,6 +140,13 @@ func (writer *nonBlockingQueueWriter) Write(buf []byte) (int, error) {
 	case writer.queue <- append([]byte(nil), buf...):
 	default:
 		writer.onMessageDropped(buf)
+		return len(buf), nil
+	}
+	select {
+	case <-writer.stopped:
+		// closed meanwhile, nobody takes from the queue any more
+		writer.dropQueued()
+	default:
 	}
 	return len(buf), nil
 }
@@ -155,13 +162,18 @@ func (writer *blockingQueueWriter) Close() error {
 
 func (writer *nonBlockingQueueWriter) Close() error {
 	err := writer.blockingQueueWriter.Close()
+	// not written out in time
+	writer.dropQueued()
+	return err
+}
+
+func (writer *nonBlockingQueueWriter) dropQueued() {
 	for {
 		select {
 		case buf := <-writer.queue:
-			// not written out in time
 			writer.onMessageDropped(buf)
 		default:
-			return err
+			return
 		}
 	}
 }
-- 
2.43.0


From 0d31a68e481d7b3b29dcdf2b80d2c6e0710ece3a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:37 +0000
Subject: [PATCH 87/89] fix: an event is counted even if it can not be written,
 and written once if it can not be counted

---
 countlog/root.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/countlog/root.go b/countlog/root.go
index 3cc3423..c252e9b 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -35,6 +35,21 @@ func newRootHandler(site *spi.LogSite, onPanic panicHandler) (handler spi.EventH
 	}
 }
 
+// newOutputHandler writes out the event which is counted already
+func newOutputHandler(site *spi.LogSite, onPanic panicHandler) (handler spi.EventHandler) {
+	defer func() {
+		if recovered := recover(); recovered != nil {
+			loglog.Error(fmt.Errorf("%v", recovered))
+			handler = &spi.DummyEventHandler{Site: site}
+		}
+	}()
+	return &oneHandler{
+		site:    site,
+		handler: EventWriter.HandlerOf(site),
+		onPanic: onPanic,
+	}
+}
+
 type oneHandler struct {
 	site    *spi.LogSite
 	handler spi.EventHandler
@@ -69,9 +84,21 @@ func (handler *statsAndOutput) Handle(event *spi.Event) {
 			handler.onPanic(recovered, event, handler.site)
 		}
 	}()
+	// the event is counted even if it can not be written out
+	handler.count(event)
 	if event.Level >= spi.MinCallLevel {
 		handler.outputHandler.Handle(event)
 	}
+}
+
+// count does not let the event be written out again if it can not be counted
+func (handler *statsAndOutput) count(event *spi.Event) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			fallbackModeOnPanic(recovered, event, handler.site)
+		}
+	}()
 	handler.statsHandler.Handle(event)
 }
 
@@ -89,7 +116,7 @@ func nomalModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite
 	newSite.File = "unknown"
 	newSite.Line = 0
 	newSite.Sample = copySample(event.Properties)
-	newRootHandler(&newSite, fallbackModeOnPanic).Handle(event)
+	newOutputHandler(&newSite, fallbackModeOnPanic).Handle(event)
 }
 
 func fallbackModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite) {
-- 
2.43.0


From 8e9eb68baf029a63c344b16b639334c15d0a0fcb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:15 +0000
Subject: [PATCH 88/89] fix: a field whose tag names it "-" is encoded

---
 msgfmt/jsonfmt/encoder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 9555a0c..ed22bb8 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -332,10 +332,11 @@ func getFieldName(cfg *frozenConfig, field reflect2.StructField) string {
 	if jsonTag == "" {
 		return field.Name()
 	}
-	parts := strings.Split(jsonTag, ",")
-	if parts[0] == "-" {
+	if jsonTag == "-" {
 		return ""
 	}
+	// "-," names the field -
+	parts := strings.Split(jsonTag, ",")
 	if parts[0] == "" {
 		return field.Name()
 	}
-- 
2.43.0


From 8c67917a2284144c82130776edded183a1147681 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:50 +0000
Subject: [PATCH 89/89] fix: a new log file takes over the mode regardless of
 umask

---
 countlog/output/lumberjack/chown_linux.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/countlog/output/lumberjack/chown_linux.go b/countlog/output/lumberjack/chown_linux.go
index 2758ec9..7e4d146 100644
--- a/countlog/output/lumberjack/chown_linux.go
+++ b/countlog/output/lumberjack/chown_linux.go
@@ -13,7 +13,12 @@ func chown(name string, info os.FileInfo) error {
 	if err != nil {
 		return err
 	}
+	// regardless of umask
+	err = f.Chmod(info.Mode())
 	f.Close()
+	if err != nil {
+		return err
+	}
 	stat := info.Sys().(*syscall.Stat_t)
 	return os_Chown(name, int(stat.Uid), int(stat.Gid))
 }
-- 
2.43.0

