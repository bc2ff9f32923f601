From bdd3c0a38455d170c6b0e6d97e2c20e285c13b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 01/20] fix: size map values with the value codec, not the key
 codec

The length prefix of a map entry was computed by reading the value through
the key's codec, so maps with different key and value types were encoded
with a wrong (memory dependent) entry length.
---
 proto/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/map.go b/proto/map.go
index 38e3b8b..6c6dd19 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -77,7 +77,7 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 			val := m.Value()
 
 			keySize := keyCodec.size(key, f.keyField)
-			valSize := keyCodec.size(val, f.valField)
+			valSize := valCodec.size(val, f.valField)
 			elemSize := keySize + valSize
 
 			b = append(b, mapTag...)
-- 
2.43.0


From 5371d423548a94deca13f3b857158a6362d4fa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 02/20] fix: do not emit an entry for an empty map

An empty or nil map was marshalled as one zero-length entry, which every
decoder (ours included) reads as an entry with default key and value.
---
 proto/map.go | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 6c6dd19..10ebb43 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -9,8 +9,6 @@ import (
 	. "github.com/RomiChan/protobuf/internal/runtime_reflect"
 )
 
-const zeroSize = 1 // sizeOfVarint(0)
-
 type mapField struct {
 	wiretag  uint64
 	keyField *structField
@@ -48,16 +46,12 @@ func mapSizeFuncOf(t reflect.Type, f *mapField) sizeFunc {
 			valSize := valCodec.size(m.Value(), f.valField)
 			n += mapTagSize + sizeOfVarint(uint64(keySize+valSize)) + keySize + valSize
 		}
-		if n == 0 {
-			n = mapTagSize + zeroSize
-		}
 		return n
 	}
 }
 
 func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 	mapTag := appendVarint(nil, f.wiretag)
-	zero := append(mapTag, 0)
 	keyCodec := f.keyField.codec
 	valCodec := f.valField.codec
 
@@ -67,8 +61,6 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 		}
 		p = *(*unsafe.Pointer)(p)
 
-		origLen := len(b)
-
 		m := MapIter{}
 		defer m.Done()
 
@@ -85,10 +77,6 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 			b = keyCodec.encode(b, key, f.keyField)
 			b = valCodec.encode(b, val, f.valField)
 		}
-
-		if len(b) == origLen {
-			b = append(b, zero...)
-		}
 		return b
 	}
 }
-- 
2.43.0


From f87a1ade9fd69fe13f94c2cd96f2f7f88d609d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 03/20] fix: decode zigzag map keys and values as zigzag

The entry struct synthesized for decoding lost the zigzag flag of the
protobuf_key and protobuf_val tags, so map<sint32, ...> was encoded as
zigzag but decoded as plain varint.
---
 proto/map.go    | 12 +++++++++---
 proto/walker.go |  2 ++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 10ebb43..57ff37a 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -13,6 +13,9 @@ type mapField struct {
 	wiretag  uint64
 	keyField *structField
 	valField *structField
+
+	keyZigzag bool
+	valZigzag bool
 }
 
 func (w *walker) mapCodec(t reflect.Type, f *mapField) *codec {
@@ -81,14 +84,17 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 	}
 }
 
-func formatWireTag(wire uint64) reflect.StructTag {
+func formatWireTag(wire uint64, zigzag bool) reflect.StructTag {
+	if zigzag {
+		return reflect.StructTag(fmt.Sprintf(`protobuf:"zigzag64,%d,opt"`, wire>>3))
+	}
 	return reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,opt"`, wireType(wire&7), wire>>3))
 }
 
 func mapDecodeFuncOf(t reflect.Type, m *mapField, w *walker) decodeFunc {
 	structType := reflect.StructOf([]reflect.StructField{
-		{Name: "Key", Type: t.Key(), Tag: formatWireTag(m.keyField.wiretag)},
-		{Name: "Elem", Type: t.Elem(), Tag: formatWireTag(m.valField.wiretag)},
+		{Name: "Key", Type: t.Key(), Tag: formatWireTag(m.keyField.wiretag, m.keyZigzag)},
+		{Name: "Elem", Type: t.Elem(), Tag: formatWireTag(m.valField.wiretag, m.valZigzag)},
 	})
 
 	info := w.structInfo(structType)
diff --git a/proto/walker.go b/proto/walker.go
index 32a4df9..12ad419 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -241,12 +241,14 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				keyField := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				keyField.tagsize = sizeOfVarint(keyField.wiretag)
 				conf.zigzag = t.zigzag
+				m.keyZigzag = t.zigzag
 				keyField.codec = w.codec(key, conf)
 
 				t, _ = parseStructTag(f.Tag.Get("protobuf_val"))
 				valFiled := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				valFiled.tagsize = sizeOfVarint(valFiled.wiretag)
 				conf.zigzag = t.zigzag
+				m.valZigzag = t.zigzag
 				valFiled.codec = w.codec(val, conf)
 
 				m.keyField = keyField
-- 
2.43.0


From a4e9516ed35272756999f83a85b287b0910039d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 04/20] fix: encode repeated and map fixed32/fixed64 values as
 fixed

Elements of []uint32/[]uint64 and map keys/values with a fixed32/fixed64
tag were written as varints behind a fixed wire type.
---
 proto/struct.go |  4 ++++
 proto/walker.go | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/proto/struct.go b/proto/struct.go
index 9b9ce5b..39d7a77 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -156,6 +156,10 @@ type structTag struct {
 	zigzag      bool
 }
 
+func (t *structTag) fixed() bool {
+	return t.wireType == fixed32 || t.wireType == fixed64
+}
+
 func parseStructTag(tag string) (structTag, error) {
 	t := structTag{
 		// version:    2,
diff --git a/proto/walker.go b/proto/walker.go
index 12ad419..d892db8 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -23,6 +23,7 @@ type walker struct {
 
 type walkerConfig struct {
 	zigzag   bool
+	fixed    bool
 	required bool
 }
 
@@ -216,6 +217,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 		if field.codec == nil {
 			conf := &walkerConfig{
 				zigzag: t.zigzag,
+				fixed:  t.fixed(),
 				// required: t.required,
 			}
 			switch baseKindOf(f.Type) {
@@ -241,6 +243,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				keyField := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				keyField.tagsize = sizeOfVarint(keyField.wiretag)
 				conf.zigzag = t.zigzag
+				conf.fixed = t.fixed()
 				m.keyZigzag = t.zigzag
 				keyField.codec = w.codec(key, conf)
 
@@ -248,6 +251,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				valFiled := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				valFiled.tagsize = sizeOfVarint(valFiled.wiretag)
 				conf.zigzag = t.zigzag
+				conf.fixed = t.fixed()
 				m.valZigzag = t.zigzag
 				valFiled.codec = w.codec(val, conf)
 
@@ -317,8 +321,14 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 		}
 		return &int64RequiredCodec
 	case reflect.Uint32:
+		if conf.fixed {
+			return &fixed32RequiredCodec
+		}
 		return &uint32RequiredCodec
 	case reflect.Uint64:
+		if conf.fixed {
+			return &fixed64RequiredCodec
+		}
 		return &uint64RequiredCodec
 	case reflect.Float32:
 		return &float32RequiredCodec
-- 
2.43.0


From 16242e3c2537789a1c5a09fd539700e944a61425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 05/20] fix: do not treat pointers to fixed values as the
 values themselves

A *uint32, *float32, *uint64 or *float64 field with a fixed tag got the
codec of the pointed-to type, so encoding wrote pointer bits and decoding
overwrote the pointer with payload bytes.
---
 proto/walker.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/proto/walker.go b/proto/walker.go
index d892db8..79628c4 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -48,8 +48,14 @@ func (w *walker) codec(t reflect.Type, conf *walkerConfig) *codec {
 		}
 		return &int64Codec
 	case reflect.Uint32:
+		if conf.fixed {
+			return &fixed32Codec
+		}
 		return &uint32Codec
 	case reflect.Uint64:
+		if conf.fixed {
+			return &fixed64Codec
+		}
 		return &uint64Codec
 	case reflect.Float32:
 		return &float32Codec
@@ -172,7 +178,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			case optionUInt32Type:
 				field.codec = &fixed32OptionCodec
 			}
-			switch baseKindOf(f.Type) {
+			switch f.Type.Kind() {
 			case reflect.Uint32:
 				field.codec = &fixed32Codec
 			case reflect.Float32:
@@ -185,7 +191,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			case optionFloat64Type:
 				field.codec = &float64OptionCodec
 			}
-			switch baseKindOf(f.Type) {
+			switch f.Type.Kind() {
 			case reflect.Uint64:
 				field.codec = &fixed64Codec
 			case reflect.Float64:
-- 
2.43.0


From 925daef5d27e74958e7d4bfd15ff1f2b85f60240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 06/20] fix: do not share repeated and pointer codecs between
 encodings

Within one walk the codec of []int32 or *int32 was cached by Go type alone,
so a zigzag (or fixed) field made later plain fields of the same Go type
use its encoding, depending on which codecs earlier types had cached.
---
 proto/slice.go  | 6 +-----
 proto/walker.go | 3 +--
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/proto/slice.go b/proto/slice.go
index a3bc710..745f0a2 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -10,15 +10,11 @@ import (
 
 var sliceMap sync.Map // map[*codec]*codec for slice
 
-func sliceCodecOf(t reflect.Type, c *codec, w *walker) *codec {
+func sliceCodecOf(t reflect.Type, c *codec) *codec {
 	if loaded, ok := sliceMap.Load(c); ok {
 		return loaded.(*codec)
 	}
-	if w.codecs[t] != nil {
-		return w.codecs[t]
-	}
 	s := new(codec)
-	w.codecs[t] = s
 
 	s.size = sliceSizeFuncOf(t, c)
 	s.encode = sliceEncodeFuncOf(t, c)
diff --git a/proto/walker.go b/proto/walker.go
index 79628c4..af25cc4 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -237,7 +237,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				} else {
 					conf.required = true
 					field.codec = w.codec(elem, conf)
-					field.codec = sliceCodecOf(f.Type, field.codec, w)
+					field.codec = sliceCodecOf(f.Type, field.codec)
 				}
 
 			case reflect.Map:
@@ -300,7 +300,6 @@ func (w *walker) pointer(t reflect.Type, conf *walkerConfig) *codec {
 	}
 	// common value
 	p := new(codec)
-	w.codecs[t] = p
 	c := w.codec(t.Elem(), conf)
 	p.size = pointerSizeFuncOf(t, c)
 	p.encode = pointerEncodeFuncOf(t, c)
-- 
2.43.0


From e96a0897c291003e6bdabcb2bd67eb0c6385cec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 07/20] fix: encode int32/int64 fields with a fixed tag
 (sfixed32/sfixed64) as fixed

The generator emits fixed32/fixed64 tags on int32/int64 fields for
sfixed32/sfixed64; the runtime wrote varints behind the fixed wire type.
---
 proto/walker.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/proto/walker.go b/proto/walker.go
index af25cc4..62a450a 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -41,11 +41,17 @@ func (w *walker) codec(t reflect.Type, conf *walkerConfig) *codec {
 		if conf.zigzag {
 			return &zigzag32Codec
 		}
+		if conf.fixed {
+			return &fixed32Codec
+		}
 		return &int32Codec
 	case reflect.Int64:
 		if conf.zigzag {
 			return &zigzag64Codec
 		}
+		if conf.fixed {
+			return &fixed64Codec
+		}
 		return &int64Codec
 	case reflect.Uint32:
 		if conf.fixed {
@@ -175,24 +181,24 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			switch f.Type {
 			case optionFloat32Type:
 				field.codec = &float32OptionCodec
-			case optionUInt32Type:
+			case optionUInt32Type, optionInt32Type: // Option[int32] has the same layout
 				field.codec = &fixed32OptionCodec
 			}
 			switch f.Type.Kind() {
-			case reflect.Uint32:
+			case reflect.Uint32, reflect.Int32:
 				field.codec = &fixed32Codec
 			case reflect.Float32:
 				field.codec = &float32Codec
 			}
 		case fixed64:
 			switch f.Type {
-			case optionUInt64Type:
+			case optionUInt64Type, optionInt64Type: // Option[int64] has the same layout
 				field.codec = &fixed64OptionCodec
 			case optionFloat64Type:
 				field.codec = &float64OptionCodec
 			}
 			switch f.Type.Kind() {
-			case reflect.Uint64:
+			case reflect.Uint64, reflect.Int64:
 				field.codec = &fixed64Codec
 			case reflect.Float64:
 				field.codec = &float64Codec
@@ -319,11 +325,17 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 		if conf.zigzag {
 			return &zigzag32RequiredCodec
 		}
+		if conf.fixed {
+			return &fixed32RequiredCodec
+		}
 		return &int32RequiredCodec
 	case reflect.Int64:
 		if conf.zigzag {
 			return &zigzag64RequiredCodec
 		}
+		if conf.fixed {
+			return &fixed64RequiredCodec
+		}
 		return &int64RequiredCodec
 	case reflect.Uint32:
 		if conf.fixed {
-- 
2.43.0


From 047496b45dc11e484bb068130341688ac6d051f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 08/20] fix: keep presence of pointer fields that point to a
 zero value

A non-nil *bool, *int32, *string... pointing to the zero value was not
written, so it came back nil.
---
 proto/walker.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proto/walker.go b/proto/walker.go
index 62a450a..cf9f6df 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -304,9 +304,11 @@ func (w *walker) pointer(t reflect.Type, conf *walkerConfig) *codec {
 	case reflect.Struct:
 		return w.structCodec(t)
 	}
-	// common value
+	// common value, encoded even if zero: presence is given by the pointer
 	p := new(codec)
-	c := w.codec(t.Elem(), conf)
+	elemConf := *conf
+	elemConf.required = true
+	c := w.codec(t.Elem(), &elemConf)
 	p.size = pointerSizeFuncOf(t, c)
 	p.encode = pointerEncodeFuncOf(t, c)
 	p.decode = pointerDecodeFuncOf(t, c)
-- 
2.43.0


From ad65c20f22c1fbff2a8a4377a0013c723ba40e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 09/20] fix: publish struct infos and codecs only when the walk
 is finished

For types that refer to each other, an inner info was stored in the global
caches while the outer one it points to was still empty. A concurrent first
use then silently encoded and decoded nothing for the outer type, and so did
any later use if the walk panicked on an unsupported field.
---
 proto/proto.go  |  1 +
 proto/walker.go | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index b687f50..3ff80c9 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -120,6 +120,7 @@ func cachedStructInfoOf(t reflect.Type) *structInfo {
 	}
 
 	info := w.structInfo(t)
+	w.publish()
 	actual, _ := structInfoCache.LoadOrStore(pointer(t), info)
 	return actual
 }
diff --git a/proto/walker.go b/proto/walker.go
index cf9f6df..3d938d2 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -129,8 +129,7 @@ func (w *walker) structCodec(t reflect.Type) *codec {
 		l, err := info.decode(b[n:], *v)
 		return n + l, err
 	}
-	actualCodec, _ := codecCache.LoadOrStore(pointer(t), c)
-	return actualCodec.(*codec)
+	return c
 }
 
 func baseKindOf(t reflect.Type) reflect.Kind {
@@ -289,10 +288,23 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 		info.fieldIndex[f.fieldNumber()] = f
 	}
 
-	structInfoCache.Store(pointer(t), info)
 	return info
 }
 
+// publish makes the result of a finished walk visible to other walks. It must
+// not be called earlier: until the walk is finished, types that refer to each
+// other refer to infos which are not filled in yet.
+func (w *walker) publish() {
+	for t, info := range w.infos {
+		structInfoCache.LoadOrStore(pointer(t), info)
+	}
+	for t, c := range w.codecs {
+		if t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Struct {
+			codecCache.LoadOrStore(pointer(t), c)
+		}
+	}
+}
+
 // @@@ Pointers @@@
 
 func deref(p unsafe.Pointer) unsafe.Pointer {
-- 
2.43.0


From 9c664b73b81b16bb661f3262bd974989365ea1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 10/20] fix: consume the whole varint when decoding a bool

Only the first byte of a bool varint was consumed and looked at, so an
over-long bool (80 01) desynchronized the rest of the message and 80 00
decoded as true.
---
 proto/normal_codec.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/proto/normal_codec.go b/proto/normal_codec.go
index 8fd393b..5033c68 100644
--- a/proto/normal_codec.go
+++ b/proto/normal_codec.go
@@ -1,7 +1,6 @@
 package proto
 
 import (
-	"io"
 	"math"
 	"unsafe"
 )
@@ -32,11 +31,9 @@ func encodeBool(b []byte, p unsafe.Pointer, f *structField) []byte {
 }
 
 func decodeBool(b []byte, p unsafe.Pointer) (int, error) {
-	if len(b) == 0 {
-		return 0, io.ErrUnexpectedEOF
-	}
-	*(*bool)(p) = b[0] != 0
-	return 1, nil
+	v, n, err := decodeVarint(b)
+	*(*bool)(p) = v != 0
+	return n, err
 }
 
 var bytesCodec = codec{
-- 
2.43.0


From dd3228a764e135aabad6bfff6b3199ab8eaa5f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 11/20] fix: do not merge repeated elements into leftovers in
 spare capacity

When a repeated field had spare capacity (re-sliced by the user, or left by
a failed decode) the new element was decoded on top of the old one.
---
 proto/slice.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proto/slice.go b/proto/slice.go
index 745f0a2..f2ffcb8 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -54,6 +54,7 @@ func sliceEncodeFuncOf(t reflect.Type, c *codec) encodeFunc {
 func sliceDecodeFuncOf(t reflect.Type, c *codec) decodeFunc {
 	elemType := t.Elem()
 	elemSize := alignedSize(elemType)
+	elemZero := unsafe.Pointer(reflect.New(elemType).Pointer())
 	return func(b []byte, p unsafe.Pointer) (int, error) {
 		s := (*Slice)(p)
 		i := s.Len()
@@ -62,6 +63,8 @@ func sliceDecodeFuncOf(t reflect.Type, c *codec) decodeFunc {
 			*s = growSlice(elemType, s)
 		}
 
+		// The spare capacity may hold old elements: do not merge into them.
+		Assign(pointer(elemType), s.Index(i, elemSize), elemZero)
 		n, err := c.decode(b, s.Index(i, elemSize))
 		if err == nil {
 			s.SetLen(i + 1)
-- 
2.43.0


From 64d30251e1f1d4f24e2fab44a90c7e5b63bb0b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 12/20] fix: keep nil elements of repeated bytes fields

A nil element of a [][]byte was not written, so the list came back shorter.
---
 proto/gen/required/main.go |  2 +-
 proto/required_codec.go    | 14 ++++++++++++++
 proto/walker.go            |  2 +-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/proto/gen/required/main.go b/proto/gen/required/main.go
index 802ccdb..48054a9 100644
--- a/proto/gen/required/main.go
+++ b/proto/gen/required/main.go
@@ -20,7 +20,7 @@ func setOf(ss ...string) map[string]bool {
 }
 
 var needTransform = setOf(
-	"bool", "string",
+	"bool", "string", "bytes",
 	"float32", "float64",
 	"int32", "int64", "uint32", "uint64",
 	"fixed32", "fixed64", "zigzag32", "zigzag64",
diff --git a/proto/required_codec.go b/proto/required_codec.go
index 3a6279d..d2fe03f 100644
--- a/proto/required_codec.go
+++ b/proto/required_codec.go
@@ -22,6 +22,20 @@ func encodeBoolRequired(b []byte, p unsafe.Pointer, f *structField) []byte {
 	return b
 }
 
+var bytesRequiredCodec = codec{size: sizeOfBytesRequired, encode: encodeBytesRequired, decode: decodeBytes}
+
+func sizeOfBytesRequired(p unsafe.Pointer, f *structField) int {
+	v := *(*[]byte)(p)
+	return sizeOfVarlen(len(v)) + f.tagsize
+}
+func encodeBytesRequired(b []byte, p unsafe.Pointer, f *structField) []byte {
+	v := *(*[]byte)(p)
+	b = appendVarint(b, f.wiretag)
+	b = appendVarint(b, uint64(len(v)))
+	b = append(b, v...)
+	return b
+}
+
 var stringRequiredCodec = codec{size: sizeOfStringRequired, encode: encodeStringRequired, decode: decodeString}
 
 func sizeOfStringRequired(p unsafe.Pointer, f *structField) int {
diff --git a/proto/walker.go b/proto/walker.go
index 3d938d2..fed5900 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -371,7 +371,7 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 		elem := t.Elem()
 		switch elem.Kind() {
 		case reflect.Uint8:
-			return &bytesCodec
+			return &bytesRequiredCodec
 		}
 	case reflect.Struct:
 		panic("nested message must be pointer:" + t.String())
-- 
2.43.0


From 76a0d207559355c0001c2914ad9fa5ecf14d2d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 13/20] fix: report nil and non-struct arguments instead of
 panicking

Unmarshal(b, nil), Marshal(nil) and Marshal of a pointer to a non-struct
panicked instead of returning the error meant for them.
---
 proto/proto.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 3ff80c9..0cd0fed 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -24,10 +24,13 @@ func Size(v interface{}) int {
 
 func Marshal(v interface{}) ([]byte, error) {
 	t, p := inspect(v)
-	if t.Kind() != reflect.Ptr {
+	if t == nil || t.Kind() != reflect.Ptr {
 		return nil, fmt.Errorf("proto.Marshal(%T): not a pointer", v)
 	}
 	t = t.Elem()
+	if t.Kind() != reflect.Struct {
+		return nil, fmt.Errorf("proto.Marshal(%T): not a pointer to a struct", v)
+	}
 	info := cachedStructInfoOf(t)
 	b := make([]byte, 0, info.size(p))
 	b = info.encode(b, p)
@@ -41,7 +44,7 @@ func Unmarshal(b []byte, v interface{}) error {
 	}
 
 	t, p := inspect(v)
-	if t.Kind() != reflect.Pointer || p == nil {
+	if t == nil || t.Kind() != reflect.Pointer || p == nil {
 		return &InvalidUnmarshalError{Type: t}
 	}
 	elem := t.Elem()
-- 
2.43.0


From 302dad4c4636aa8da6762028b29590690fad0912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 14/20] fix: accept the req label in struct tags

The generator emits it for proto2 required fields, on which the runtime
panicked.
---
 proto/struct.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proto/struct.go b/proto/struct.go
index 39d7a77..8f978e5 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -198,6 +198,8 @@ func parseStructTag(tag string) (structTag, error) {
 			switch f {
 			case "opt":
 				// not sure what this is for
+			case "req":
+				// emitted for proto2 required fields, presence is not checked
 			case "rep":
 				t.repeated = true
 			default:
-- 
2.43.0


From 1a23ebd35b929c294d3b79921f2ed7b17b22e98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 15/20] fix: do not let a map field legitimize unsupported
 types that contain it

The codec of a map field was cached by Go type during the walk, so a later
field like []map[K]V, which is rejected otherwise, was silently encoded.
---
 proto/map.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 57ff37a..b6c5eb4 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -20,8 +20,6 @@ type mapField struct {
 
 func (w *walker) mapCodec(t reflect.Type, f *mapField) *codec {
 	m := new(codec)
-	w.codecs[t] = m
-
 	m.size = mapSizeFuncOf(t, f)
 	m.encode = mapEncodeFuncOf(t, f)
 	m.decode = mapDecodeFuncOf(t, f, w)
-- 
2.43.0


From 9cf74d550f6ece7cf6b593b32bc9037709532567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 16/20] fix: do not treat a pointer to a slice as a slice

A *[]byte field was taken for a repeated field, so the pointer and the
fields after it were read and written as a slice header.
---
 proto/walker.go | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/proto/walker.go b/proto/walker.go
index fed5900..a41e085 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -132,17 +132,6 @@ func (w *walker) structCodec(t reflect.Type) *codec {
 	return c
 }
 
-func baseKindOf(t reflect.Type) reflect.Kind {
-	return baseTypeOf(t).Kind()
-}
-
-func baseTypeOf(t reflect.Type) reflect.Type {
-	for t.Kind() == reflect.Ptr {
-		t = t.Elem()
-	}
-	return t
-}
-
 func (w *walker) structInfo(t reflect.Type) *structInfo {
 	if info, ok := structInfoCache.Load(pointer(t)); ok {
 		return info
@@ -231,7 +220,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				fixed:  t.fixed(),
 				// required: t.required,
 			}
-			switch baseKindOf(f.Type) {
+			switch f.Type.Kind() {
 			case reflect.Struct:
 				field.codec = w.codec(f.Type, conf)
 
-- 
2.43.0


From 98bf6566638eda345938d4ecb9ee53329402bd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 17/20] fix: support optional enum fields

---
 proto/walker.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/proto/walker.go b/proto/walker.go
index a41e085..d637a88 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -2,6 +2,7 @@ package proto
 
 import (
 	"reflect"
+	"strings"
 	"unsafe"
 )
 
@@ -222,6 +223,10 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			}
 			switch f.Type.Kind() {
 			case reflect.Struct:
+				if t.wireType == varint && !t.zigzag && isOptionalEnum(f.Type) {
+					field.codec = &int32OptionCodec
+					break
+				}
 				field.codec = w.codec(f.Type, conf)
 
 			case reflect.Slice:
@@ -294,6 +299,13 @@ func (w *walker) publish() {
 	}
 }
 
+// isOptionalEnum reports whether t is Option[E] for an enum type E, which has
+// the same layout as Option[int32].
+func isOptionalEnum(t reflect.Type) bool {
+	return t.PkgPath() == optionInt32Type.PkgPath() && strings.HasPrefix(t.Name(), "Option[") &&
+		t.NumField() == 2 && t.Field(1).Type.Kind() == reflect.Int32
+}
+
 // @@@ Pointers @@@
 
 func deref(p unsafe.Pointer) unsafe.Pointer {
-- 
2.43.0


From 7abf7de80440c5193382361c8dca912df6d8b116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 18/20] fix: decode packed repeated scalars

---
 proto/struct.go | 27 +++++++++++++++++++++++++++
 proto/walker.go |  1 +
 2 files changed, 28 insertions(+)

diff --git a/proto/struct.go b/proto/struct.go
index 8f978e5..f2c2dba 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -18,6 +18,7 @@ type structField struct {
 	wiretag uint64
 	codec   *codec
 	tagsize int
+	packed  bool // may be packed: repeated scalar
 }
 
 func (f *structField) fieldNumber() fieldNumber {
@@ -32,6 +33,23 @@ func (f *structField) pointer(p unsafe.Pointer) unsafe.Pointer {
 	return unsafe.Pointer(uintptr(p) + f.offset)
 }
 
+// decodePacked decodes a record of packed elements. Packed fields are never
+// written, but decoders have to accept them.
+func (f *structField) decodePacked(b []byte, p unsafe.Pointer) (int, error) {
+	data, n, err := decodeVarlen(b)
+	if err != nil {
+		return n, err
+	}
+	for len(data) > 0 {
+		size, err := f.codec.decode(data, f.pointer(p))
+		if err != nil {
+			return n, err
+		}
+		data = data[size:]
+	}
+	return n, nil
+}
+
 func (info *structInfo) size(p unsafe.Pointer) int {
 	if p == nil {
 		return 0
@@ -96,6 +114,15 @@ func (info *structInfo) decode(b []byte, p unsafe.Pointer) (int, error) {
 			continue
 		}
 
+		if wireType == varlen && f.packed {
+			n, err := f.decodePacked(b[offset:], p)
+			offset += n
+			if err != nil {
+				return offset, fieldError(fieldNumber, wireType, err)
+			}
+			continue
+		}
+
 		if wireType != f.wireType() {
 			return offset, fieldError(fieldNumber, wireType, fmt.Errorf("expected wire type %d", f.wireType()))
 		}
diff --git a/proto/walker.go b/proto/walker.go
index d637a88..29caef5 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -237,6 +237,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 					conf.required = true
 					field.codec = w.codec(elem, conf)
 					field.codec = sliceCodecOf(f.Type, field.codec)
+					field.packed = t.wireType != varlen
 				}
 
 			case reflect.Map:
-- 
2.43.0


From 35830de42c6dcd26e848c265dcdfd9e8455645f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 19/20] fix: oneof getter of an enum from a Go package named x
 did not compile

---
 internal/generator/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/generator/main.go b/internal/generator/main.go
index 837f42b..babc1fc 100644
--- a/internal/generator/main.go
+++ b/internal/generator/main.go
@@ -449,7 +449,9 @@ func fieldDefaultValue(g *protogen.GeneratedFile, f *fileInfo, m *messageInfo, f
 			// If the enum value is declared in a different Go package,
 			// reference it by number since the name may not be correct.
 			// See https://github.com/golang/protobuf/issues/513.
-			return g.QualifiedGoIdent(field.Enum.GoIdent) + "(" + strconv.FormatInt(int64(val.Desc.Number()), 10) + ")"
+			// The number is not converted to the type of the enum, because
+			// the receiver x may hide a package of that name.
+			return strconv.FormatInt(int64(val.Desc.Number()), 10)
 		}
 	default:
 		return "0"
-- 
2.43.0


From f564af7a8ea30f2f8920bd7d6c3768514e6307d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 20/20] fix: map iterator was too small for Go 1.24 and 1.25
 with GOEXPERIMENT=noswissmap

---
 internal/runtime_reflect/map.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/runtime_reflect/map.go b/internal/runtime_reflect/map.go
index b682acc..136d9c3 100644
--- a/internal/runtime_reflect/map.go
+++ b/internal/runtime_reflect/map.go
@@ -71,6 +71,7 @@ type hiter struct {
 	i           uint8
 	bucket      uintptr
 	checkBucket uintptr
+	clearSeq    uint64 // since Go 1.24, with GOEXPERIMENT=noswissmap
 }
 
 //go:noescape
-- 
2.43.0

