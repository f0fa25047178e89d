From 861d4bb34ff292c1a3805d4a4a188b0173b27796 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 01/80] fix: report errors from writing array elements instead
 of ignoring them

---
 ztype/array_encode.go        | 12 +++++++++---
 ztype/object_array_encode.go | 12 +++++++++---
 ztype/object_array_traits.go |  6 +++---
 ztype/packed_array_traits.go |  6 +++---
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/ztype/array_encode.go b/ztype/array_encode.go
index c3c9fca..11ab38b 100644
--- a/ztype/array_encode.go
+++ b/ztype/array_encode.go
@@ -25,7 +25,9 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				return err
 			}
 			for _, element := range array.RawArray {
-				packedTraits.InitContext(array.PackedContext, element)
+				if err := packedTraits.InitContext(array.PackedContext, element); err != nil {
+					return err
+				}
 			}
 		}
 		for index, element := range array.RawArray {
@@ -36,10 +38,14 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				}
 				array.checkOffsetMethod(index, count)
 			}
+			var err error
 			if array.IsPacked {
-				packedTraits.Write(array.PackedContext, writer, element)
+				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
-				array.ArrayTraits.Write(writer, element)
+				err = array.ArrayTraits.Write(writer, element)
+			}
+			if err != nil {
+				return err
 			}
 		}
 	}
diff --git a/ztype/object_array_encode.go b/ztype/object_array_encode.go
index c14343b..b140487 100644
--- a/ztype/object_array_encode.go
+++ b/ztype/object_array_encode.go
@@ -27,7 +27,9 @@ func (array *ObjectArray[T, PT]) MarshalZserio(elements []T, writer zserio.Write
 			}
 
 			for index := 0; index < size; index++ {
-				packedTraits.InitContext(array.PackedContext, &elements[index])
+				if err := packedTraits.InitContext(array.PackedContext, &elements[index]); err != nil {
+					return err
+				}
 			}
 		}
 
@@ -41,10 +43,14 @@ func (array *ObjectArray[T, PT]) MarshalZserio(elements []T, writer zserio.Write
 				}
 				array.checkOffsetMethod(index, count)
 			}
+			var err error
 			if array.IsPacked {
-				packedTraits.Write(array.PackedContext, writer, element)
+				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
-				arrayTraits.Write(writer, element)
+				err = arrayTraits.Write(writer, element)
+			}
+			if err != nil {
+				return err
 			}
 		}
 	}
diff --git a/ztype/object_array_traits.go b/ztype/object_array_traits.go
index 7085125..09d5dd4 100644
--- a/ztype/object_array_traits.go
+++ b/ztype/object_array_traits.go
@@ -8,7 +8,7 @@ type IPackedObjectArrayTraits[T any, PT zserio.PackableZserioType[T]] interface
 	BitSizeOf(contextNode *zserio.PackingContextNode, bitPosition int, element PT) (int, error)
 	InitializeOffsets(contextNode *zserio.PackingContextNode, bitPosition int, element PT) int
 	Read(contextNode *zserio.PackingContextNode, reader zserio.Reader, element PT) error
-	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value PT)
+	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value PT) error
 }
 
 // ObjectArrayTraits is an array traits for zserio structs, choice, union or enum types
@@ -96,6 +96,6 @@ func (traits *ObjectArrayPackedTraits[T, PT]) Read(contextNode *zserio.PackingCo
 }
 
 // Write writes an array element of a packed array traits.
-func (traits *ObjectArrayPackedTraits[T, PT]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, element PT) {
-	element.MarshalZserioPacked(contextNode, writer)
+func (traits *ObjectArrayPackedTraits[T, PT]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, element PT) error {
+	return element.MarshalZserioPacked(contextNode, writer)
 }
diff --git a/ztype/packed_array_traits.go b/ztype/packed_array_traits.go
index 5adc9a7..777eec4 100644
--- a/ztype/packed_array_traits.go
+++ b/ztype/packed_array_traits.go
@@ -11,7 +11,7 @@ type IPackedArrayTraits[T any] interface {
 	BitSizeOf(contextNode *zserio.PackingContextNode, bitPosition int, element T) (int, error)
 	InitializeOffsets(contextNode *zserio.PackingContextNode, bitPosition int, element T) int
 	Read(contextNode *zserio.PackingContextNode, reader zserio.Reader, index int) (T, error)
-	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T)
+	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) error
 }
 
 // PackedArrayTraits is a wrapper around array traits used when the array is
@@ -51,6 +51,6 @@ func (traits *PackedArrayTraits[T, Y]) Read(contextNode *zserio.PackingContextNo
 }
 
 // Write writes an array element of a packed array traits.
-func (traits *PackedArrayTraits[T, Y]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) {
-	contextNode.Context.(*DeltaContext[T]).Write(traits.ArrayTraits, writer, value)
+func (traits *PackedArrayTraits[T, Y]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) error {
+	return contextNode.Context.(*DeltaContext[T]).Write(traits.ArrayTraits, writer, value)
 }
-- 
2.43.0


From e56abf0d442ad67fa05cbd8665397bb8f1593726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 02/80] fix: reject bit field array elements that do not fit
 the field width

---
 ztype/array_traits.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 5e5d196..2da6303 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -714,7 +714,7 @@ func (trait BitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, er
 }
 
 func (trait BitFieldArrayTraits[T]) Write(writer zserio.Writer, value T) error {
-	return writer.WriteBits(uint64(value), trait.NumBits)
+	return WriteUnsignedBits(writer, uint64(value), trait.NumBits)
 }
 
 func (trait BitFieldArrayTraits[T]) AsUint64(value T) uint64 {
@@ -775,7 +775,7 @@ func (trait SignedBitFieldArrayTraits[T]) Read(reader zserio.Reader, index int)
 }
 
 func (trait SignedBitFieldArrayTraits[T]) Write(writer zserio.Writer, value T) error {
-	return writer.WriteBits(uint64(value), trait.NumBits)
+	return WriteSignedBits(writer, int64(value), trait.NumBits)
 }
 
 func (trait SignedBitFieldArrayTraits[T]) AsUint64(value T) uint64 {
-- 
2.43.0


From 195552f5c588cf64a2bed676806f29868618c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 03/80] fix: report errors from reading the packed array
 descriptor

---
 ztype/delta_context.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index 69bcdba..de5b10c 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -87,7 +87,9 @@ func (context *DeltaContext[T]) BitSizeOf(arrayTraits IArrayTraits[T], bitPositi
 func (context *DeltaContext[T]) Read(arrayTraits IArrayTraits[T], reader zserio.Reader) (T, error) {
 	if !context.processingStarted {
 		context.processingStarted = true
-		context.ReadDescriptor(reader)
+		if err := context.ReadDescriptor(reader); err != nil {
+			return arrayTraits.FromUint64(0), err
+		}
 		return context.readUnpacked(arrayTraits, reader)
 	}
 	if !context.isPacked {
-- 
2.43.0


From 41c70e8bba8ceed6330a86bbc3e9ec6613445de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 04/80] fix: varint64 must reject the smallest int64 value

---
 ztype/varint_encode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ztype/varint_encode.go b/ztype/varint_encode.go
index e2dd79c..51bc573 100644
--- a/ztype/varint_encode.go
+++ b/ztype/varint_encode.go
@@ -80,6 +80,14 @@ func writeVarInt(w zserio.Writer, v int64, maxBytes int) error {
 func SignedBitSize(v int64, maxBytes int) (int, error) {
 	// Unlike the Python zserio version this version is generic and does
 	// not need a per-type table, but still gets identical performance.
+	if v == MinInt64 {
+		// The absolute value can not be represented, and only varint (which
+		// uses a special one byte encoding) supports this value.
+		if maxBytes < 9 {
+			return 0, ErrOutOfBounds
+		}
+		return 8, nil
+	}
 	if v < 0 {
 		v = -v
 	}
-- 
2.43.0


From c888167da686e7b1c599e7c1e68bbd51ca7307c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 05/80] fix: bit size of varint, varuint and varuint16 array
 elements

---
 ztype/array_traits.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 2da6303..b04ab2f 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -290,7 +290,7 @@ func (trait VarIntArrayTraits) NeedsReadIndex() bool {
 func (trait VarIntArrayTraits) BitSizeOf(element int64, endBitPosition int) int {
 	// the bit size of a VarInt only depends on the value, not on the position
 	// in the stream. endBitPosition is therefore ignored.
-	bitSize, _ := SignedBitSize(element, 8)
+	bitSize, _ := SignedBitSize(element, 9)
 	return bitSize
 }
 
@@ -474,7 +474,7 @@ func (trait VarUInt16ArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait VarUInt16ArrayTraits) BitSizeOf(element uint16, endBitPosition int) int {
-	bitSize, _ := UnsignedBitSize(uint64(element), 4)
+	bitSize, _ := UnsignedBitSize(uint64(element), 2)
 	return bitSize
 }
 
@@ -609,7 +609,7 @@ func (trait VarUIntArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait VarUIntArrayTraits) BitSizeOf(element uint64, endBitPosition int) int {
-	bitSize, _ := UnsignedBitSize(element, 8)
+	bitSize, _ := UnsignedBitSize(element, 9)
 	return bitSize
 }
 
-- 
2.43.0


From e4f892a7974add35826c547ea914e5e09bac4722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 06/80] fix: bit size of string array elements

---
 ztype/array_traits.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index b04ab2f..f3e3a57 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -857,15 +857,10 @@ func (trait StringArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait StringArrayTraits) BitSizeOf(element string, endBitPosition int) int {
-	byteLength := len(element)
-	bitSizeOfLength, err := SignedBitSize(int64(byteLength), 4)
-	if err != nil {
-		return 0
-	}
-
 	// the total size of a string is 8 bits for each (UTF-8) character, and a
 	// varsize type for the number of characters
-	return bitSizeOfLength + byteLength*8
+	bitSize, _ := BitSizeOfString(element)
+	return bitSize
 }
 
 func (trait StringArrayTraits) InitializeOffsets(bitPosition int, value string) int {
-- 
2.43.0


From a1e98e20059ce20332be60196a8f3da740b3c19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 07/80] fix: bit size of the length prefix of auto arrays

---
 ztype/array.go        | 4 ++--
 ztype/object_array.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ztype/array.go b/ztype/array.go
index e5ab568..90da332 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -42,7 +42,7 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -74,7 +74,7 @@ func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
diff --git a/ztype/object_array.go b/ztype/object_array.go
index 29012b6..54603de 100644
--- a/ztype/object_array.go
+++ b/ztype/object_array.go
@@ -29,7 +29,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (i
 	endBitPosition := bitPosition
 	size := len(elements)
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -64,7 +64,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSizePacked(elements []T, bitPosition i
 	endBitPosition := bitPosition
 	size := len(elements)
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 084c07f555f547f9b72e1a38e4e7a49fbb7640e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 08/80] fix: bit size of arrays of fixed size elements must not
 include alignment

---
 ztype/array.go        | 2 +-
 ztype/object_array.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ztype/array.go b/ztype/array.go
index 90da332..000da57 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -51,7 +51,7 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 	if array.ArrayTraits.BitSizeOfIsConstant() && size > 0 {
 		var dummy T
 		elementSize := array.ArrayTraits.BitSizeOf(dummy, 0)
-		if array.setOffsetMethod != nil {
+		if array.setOffsetMethod == nil {
 			endBitPosition += size * elementSize
 		} else {
 			// all elements are spaced in the same way
diff --git a/ztype/object_array.go b/ztype/object_array.go
index 54603de..ba29648 100644
--- a/ztype/object_array.go
+++ b/ztype/object_array.go
@@ -41,7 +41,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (i
 	if arrayTraits.BitSizeOfIsConstant() && size > 0 {
 		var dummy PT
 		elementSize := arrayTraits.BitSizeOf(dummy, 0)
-		if array.setOffsetMethod != nil {
+		if array.setOffsetMethod == nil {
 			endBitPosition += size * elementSize
 		} else {
 			// all elements are spaced in the same way
-- 
2.43.0


From cb9e66c1712a4840b40b6bc25e1e8ed36913d1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 09/80] fix: bit size of builtin type arrays ignored the array
 content

---
 internal/generator/templates/bitsizeof.go.tmpl               | 2 ++
 internal/generator/templates/packing_context_bitsize.go.tmpl | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/generator/templates/bitsizeof.go.tmpl b/internal/generator/templates/bitsizeof.go.tmpl
index e0c685c..3156b7a 100644
--- a/internal/generator/templates/bitsizeof.go.tmpl
+++ b/internal/generator/templates/bitsizeof.go.tmpl
@@ -41,6 +41,8 @@
         for _, element := range {{ $name }} {
             {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
         }
+        {{- else }}
+        {{ $field.Name }}ArrayProperties.RawArray = {{ $name }}
         {{- end }}
     {{- end }}
     {{- $name = $field.Name }}
diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index cf25cf7..68caa89 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -43,6 +43,8 @@
         for _, element := range {{ $field_name }} {
             {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
         }
+        {{- else }}
+        {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
         {{- end }}
 
         if delta, err := {{ $field.Name }}ArrayProperties.ZserioBitSizePacked(endBitPosition); err != nil {
-- 
2.43.0


From 1a9e2ac12ae4471fa0819f5fa6c0de0b83f7a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 10/80] fix: bit size of packed arrays

---
 internal/generator/templates/bitsizeof.go.tmpl      |  2 +-
 .../generator/templates/builtin_bitsizeof.go.tmpl   |  4 ++--
 ztype/array.go                                      | 13 ++++++++++++-
 ztype/object_array.go                               | 13 ++++++++++++-
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/internal/generator/templates/bitsizeof.go.tmpl b/internal/generator/templates/bitsizeof.go.tmpl
index 3156b7a..39bd997 100644
--- a/internal/generator/templates/bitsizeof.go.tmpl
+++ b/internal/generator/templates/bitsizeof.go.tmpl
@@ -47,7 +47,7 @@
     {{- end }}
     {{- $name = $field.Name }}
 {{- end }}
-{{ template "builtin_bitsizeof.go.tmpl" dict "pkg" $scope "name" $name "native" $native "isarray" $field.Array "isoptional" $field.IsOptional }}
+{{ template "builtin_bitsizeof.go.tmpl" dict "pkg" $scope "name" $name "native" $native "isarray" $field.Array "isoptional" $field.IsOptional "ispacked" (and $field.Array $field.Array.IsPacked) }}
 
 {{- if $field.IsOptional}}
     }
diff --git a/internal/generator/templates/builtin_bitsizeof.go.tmpl b/internal/generator/templates/builtin_bitsizeof.go.tmpl
index 4c6eeab..d2537a1 100644
--- a/internal/generator/templates/builtin_bitsizeof.go.tmpl
+++ b/internal/generator/templates/builtin_bitsizeof.go.tmpl
@@ -46,9 +46,9 @@
 {{- else }}
     {{- $traits := goArrayTraits $scope $native.Type }}
     {{- if and ( $isarray ) ( eq $traits "ztype.ObjectArrayTraits" )}}
-        if delta, err := {{ $name }}ArrayProperties.ZserioBitSize({{ if $isoptional }}*{{ end }}v.{{ $name }}, endBitPosition); err != nil {
+        if delta, err := {{ $name }}ArrayProperties.ZserioBitSize{{ if .ispacked }}Packed{{ end }}({{ if $isoptional }}*{{ end }}v.{{ $name }}, endBitPosition); err != nil {
     {{- else }}
-        if delta, err := {{ $name }}{{- if $isarray }}ArrayProperties{{- end }}.ZserioBitSize(endBitPosition); err != nil {
+        if delta, err := {{ $name }}{{- if $isarray }}ArrayProperties{{- end }}.ZserioBitSize{{ if .ispacked }}Packed{{ end }}(endBitPosition); err != nil {
     {{- end }}
             return 0, err
         } else {
diff --git a/ztype/array.go b/ztype/array.go
index 000da57..4ed6e9d 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -82,12 +82,23 @@ func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 	}
 	if size > 0 {
 		packedTraits := array.ArrayTraits.PackedTraits()
+		// The size depends on the delta contexts, which are prepared in the
+		// same way as when writing the array.
+		packedContext, err := packedTraits.CreateContext()
+		if err != nil {
+			return 0, err
+		}
+		for _, element := range array.RawArray {
+			if err := packedTraits.InitContext(packedContext, element); err != nil {
+				return 0, err
+			}
+		}
 
 		for _, element := range array.RawArray {
 			if array.setOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
 			}
-			delta, err := packedTraits.BitSizeOf(array.PackedContext, endBitPosition, element)
+			delta, err := packedTraits.BitSizeOf(packedContext, endBitPosition, element)
 			if err != nil {
 				return 0, err
 			}
diff --git a/ztype/object_array.go b/ztype/object_array.go
index ba29648..857e2ea 100644
--- a/ztype/object_array.go
+++ b/ztype/object_array.go
@@ -73,12 +73,23 @@ func (array *ObjectArray[T, PT]) ZserioBitSizePacked(elements []T, bitPosition i
 	if size > 0 {
 		arrayTraits := ObjectArrayTraits[T, PT]{}
 		packedTraits := arrayTraits.PackedTraits()
+		// The size depends on the delta contexts, which are prepared in the
+		// same way as when writing the array.
+		packedContext, err := packedTraits.CreateContext()
+		if err != nil {
+			return 0, err
+		}
+		for i := 0; i < size; i++ {
+			if err := packedTraits.InitContext(packedContext, &elements[i]); err != nil {
+				return 0, err
+			}
+		}
 
 		for i := 0; i < size; i++ {
 			if array.setOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
 			}
-			delta, err := packedTraits.BitSizeOf(array.PackedContext, endBitPosition, &elements[i])
+			delta, err := packedTraits.BitSizeOf(packedContext, endBitPosition, &elements[i])
 			if err != nil {
 				return 0, err
 			}
-- 
2.43.0


From 3bdb56b76cbe06965398e35d1d3bf5fd81ccdb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 11/80] fix: bit size of extern and bytes must include their
 length prefix

---
 internal/generator/templates/builtin_bitsizeof.go.tmpl |  4 ++--
 ztype/array_traits.go                                  |  6 ++++--
 ztype/bytes_encode.go                                  | 10 ++++++++++
 ztype/extern_encode.go                                 | 10 ++++++++++
 4 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/internal/generator/templates/builtin_bitsizeof.go.tmpl b/internal/generator/templates/builtin_bitsizeof.go.tmpl
index d2537a1..7fbdfd3 100644
--- a/internal/generator/templates/builtin_bitsizeof.go.tmpl
+++ b/internal/generator/templates/builtin_bitsizeof.go.tmpl
@@ -22,8 +22,6 @@
         {{- else if eq $native.Type.Name "float16" }} endBitPosition += 16
         {{- else if eq $native.Type.Name "float32" }} endBitPosition += 32
         {{- else if eq $native.Type.Name "float64" }} endBitPosition += 64
-        {{- else if eq $native.Type.Name "extern" }} endBitPosition += int({{ $name }}.BitSize)
-        {{- else if eq $native.Type.Name "bytes" }} endBitPosition += 8 * int({{ $name }}.ByteSize)
         {{- else }}
             if delta, err := 
             {{- if eq $native.Type.Name "varuint" }} ztype.UnsignedBitSize({{ $name }}, 9)
@@ -36,6 +34,8 @@
             {{- else if eq $native.Type.Name "varint32" }} ztype.SignedBitSize(int64({{ $name }}), 4)
             {{- else if eq $native.Type.Name "varint64" }} ztype.SignedBitSize({{ $name }}, 8)
             {{- else if eq $native.Type.Name "string" }} ztype.BitSizeOfString({{ $name }})
+            {{- else if eq $native.Type.Name "extern" }} ztype.BitSizeOfExtern({{ $name }})
+            {{- else if eq $native.Type.Name "bytes" }} ztype.BitSizeOfBytes({{ $name }})
             {{- end }}; err != nil {
                 return 0, err
             } else {
diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index f3e3a57..75fa6e8 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -904,7 +904,8 @@ func (trait BitBufferArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait BitBufferArrayTraits) BitSizeOf(element *ExternType, endBitPosition int) int {
-	return int(element.BitSize)
+	bitSize, _ := BitSizeOfExtern(element)
+	return bitSize
 }
 
 func (trait BitBufferArrayTraits) InitializeOffsets(bitPosition int, value *ExternType) int {
@@ -948,7 +949,8 @@ func (trait BytesArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait BytesArrayTraits) BitSizeOf(element *BytesType, endBitPosition int) int {
-	return int(element.ByteSize) * 8
+	bitSize, _ := BitSizeOfBytes(element)
+	return bitSize
 }
 
 func (trait BytesArrayTraits) InitializeOffsets(bitPosition int, value *BytesType) int {
diff --git a/ztype/bytes_encode.go b/ztype/bytes_encode.go
index 656128d..fed6584 100644
--- a/ztype/bytes_encode.go
+++ b/ztype/bytes_encode.go
@@ -13,3 +13,13 @@ func WriteBytes(w zserio.Writer, b *BytesType) error {
 	}
 	return nil
 }
+
+// BitSizeOfBytes returns the zserio bit size of a bytes value.
+func BitSizeOfBytes(b *BytesType) (int, error) {
+	// the size in bytes is encoded as a varsize (max 5 bytes)
+	headerSize, err := UnsignedBitSize(b.ByteSize, 5)
+	if err != nil {
+		return 0, err
+	}
+	return headerSize + 8*int(b.ByteSize), nil
+}
diff --git a/ztype/extern_encode.go b/ztype/extern_encode.go
index 52f77df..7e04c4a 100644
--- a/ztype/extern_encode.go
+++ b/ztype/extern_encode.go
@@ -26,3 +26,13 @@ func WriteExtern(w zserio.Writer, e *ExternType) error {
 	}
 	return nil
 }
+
+// BitSizeOfExtern returns the zserio bit size of an extern value.
+func BitSizeOfExtern(e *ExternType) (int, error) {
+	// the size in bits is encoded as a varsize (max 5 bytes)
+	headerSize, err := UnsignedBitSize(e.BitSize, 5)
+	if err != nil {
+		return 0, err
+	}
+	return headerSize + int(e.BitSize), nil
+}
-- 
2.43.0


From 083906d8df35eb646a2f52b9185639badd9b672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 12/80] fix: packed arrays of types that can not be delta
 packed lost their content

---
 ztype/array_traits.go        | 14 +++++++-------
 ztype/packed_array_traits.go | 37 ++++++++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 75fa6e8..de84eb3 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -131,7 +131,7 @@ func GetBitFieldArrayTraits[T constraints.Unsigned](numBits uint8) *BitFieldArra
 type Float16ArrayTraits struct{}
 
 func (trait Float16ArrayTraits) PackedTraits() IPackedArrayTraits[float32] {
-	return &PackedArrayTraits[float32, Float16ArrayTraits]{
+	return &PlainPackedArrayTraits[float32, Float16ArrayTraits]{
 		ArrayTraits: trait,
 	}
 }
@@ -178,7 +178,7 @@ func (trait Float16ArrayTraits) FromUint64(value uint64) float32 {
 type Float32ArrayTraits struct{}
 
 func (trait Float32ArrayTraits) PackedTraits() IPackedArrayTraits[float32] {
-	return &PackedArrayTraits[float32, Float32ArrayTraits]{
+	return &PlainPackedArrayTraits[float32, Float32ArrayTraits]{
 		ArrayTraits: trait,
 	}
 }
@@ -223,7 +223,7 @@ func (trait Float32ArrayTraits) FromUint64(value uint64) float32 {
 type Float64ArrayTraits struct{}
 
 func (trait Float64ArrayTraits) PackedTraits() IPackedArrayTraits[float64] {
-	return &PackedArrayTraits[float64, Float64ArrayTraits]{
+	return &PlainPackedArrayTraits[float64, Float64ArrayTraits]{
 		ArrayTraits: trait,
 	}
 }
@@ -789,7 +789,7 @@ func (trait SignedBitFieldArrayTraits[T]) FromUint64(value uint64) T {
 type BooleanArrayTraits struct{}
 
 func (trait BooleanArrayTraits) PackedTraits() IPackedArrayTraits[bool] {
-	return &PackedArrayTraits[bool, BooleanArrayTraits]{
+	return &PlainPackedArrayTraits[bool, BooleanArrayTraits]{
 		ArrayTraits: trait,
 	}
 }
@@ -839,7 +839,7 @@ func (trait BooleanArrayTraits) FromUint64(value uint64) bool {
 type StringArrayTraits struct{}
 
 func (trait StringArrayTraits) PackedTraits() IPackedArrayTraits[string] {
-	return &PackedArrayTraits[string, StringArrayTraits]{
+	return &PlainPackedArrayTraits[string, StringArrayTraits]{
 		ArrayTraits: trait,
 	}
 }
@@ -886,7 +886,7 @@ func (trait StringArrayTraits) FromUint64(value uint64) string {
 type BitBufferArrayTraits struct{}
 
 func (trait BitBufferArrayTraits) PackedTraits() IPackedArrayTraits[*ExternType] {
-	return &PackedArrayTraits[*ExternType, BitBufferArrayTraits]{
+	return &PlainPackedArrayTraits[*ExternType, BitBufferArrayTraits]{
 		ArrayTraits: trait,
 	}
 }
@@ -931,7 +931,7 @@ func (trait BitBufferArrayTraits) FromUint64(value uint64) *ExternType {
 type BytesArrayTraits struct{}
 
 func (trait BytesArrayTraits) PackedTraits() IPackedArrayTraits[*BytesType] {
-	return &PackedArrayTraits[*BytesType, BytesArrayTraits]{
+	return &PlainPackedArrayTraits[*BytesType, BytesArrayTraits]{
 		ArrayTraits: trait,
 	}
 }
diff --git a/ztype/packed_array_traits.go b/ztype/packed_array_traits.go
index 777eec4..8964e9e 100644
--- a/ztype/packed_array_traits.go
+++ b/ztype/packed_array_traits.go
@@ -54,3 +54,40 @@ func (traits *PackedArrayTraits[T, Y]) Read(contextNode *zserio.PackingContextNo
 func (traits *PackedArrayTraits[T, Y]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) error {
 	return contextNode.Context.(*DeltaContext[T]).Write(traits.ArrayTraits, writer, value)
 }
+
+// PlainPackedArrayTraits is a wrapper around array traits of types that can not
+// be delta packed. Elements of such arrays are written in the same way as in an
+// unpacked array.
+type PlainPackedArrayTraits[T any, Y IArrayTraits[T]] struct {
+	ArrayTraits Y
+}
+
+// CreateContext creates a packing context, which does not have a delta context.
+func (traits *PlainPackedArrayTraits[T, Y]) CreateContext() (*zserio.PackingContextNode, error) {
+	return &zserio.PackingContextNode{}, nil
+}
+
+// InitContext does nothing, since there is no delta context.
+func (traits *PlainPackedArrayTraits[T, Y]) InitContext(contextNode *zserio.PackingContextNode, element T) error {
+	return nil
+}
+
+// BitSizeOf returns the bit size of an array element.
+func (traits *PlainPackedArrayTraits[T, Y]) BitSizeOf(contextNode *zserio.PackingContextNode, bitPosition int, element T) (int, error) {
+	return traits.ArrayTraits.BitSizeOf(element, bitPosition), nil
+}
+
+// InitializeOffsets calculates the offsets of the array element.
+func (traits *PlainPackedArrayTraits[T, Y]) InitializeOffsets(contextNode *zserio.PackingContextNode, bitPosition int, element T) int {
+	return traits.ArrayTraits.InitializeOffsets(bitPosition, element)
+}
+
+// Read reads an array element.
+func (traits *PlainPackedArrayTraits[T, Y]) Read(contextNode *zserio.PackingContextNode, reader zserio.Reader, index int) (T, error) {
+	return traits.ArrayTraits.Read(reader, index)
+}
+
+// Write writes an array element.
+func (traits *PlainPackedArrayTraits[T, Y]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) error {
+	return traits.ArrayTraits.Write(writer, value)
+}
-- 
2.43.0


From 0f9aba5e4da173c97990c87c6156087e15d4c79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 13/80] fix: packed arrays with both negative and positive
 values were never delta packed

---
 ztype/delta_context.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index de5b10c..b4e3800 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -34,13 +34,27 @@ func arrayTraitsBitsizeOf[T any](arrayTraits IArrayTraits[T], bitPosition int, e
 	return arrayTraits.BitSizeOf(element, bitPosition)
 }
 
-func absDiff(lhs, rhs uint64) uint64 {
-	if lhs > rhs {
+func absDiff(lhs, rhs uint64, isSigned bool) uint64 {
+	isGreater := lhs > rhs
+	if isSigned {
+		isGreater = int64(lhs) > int64(rhs)
+	}
+	if isGreater {
 		return lhs - rhs
 	}
 	return rhs - lhs
 }
 
+// isSignedInteger returns true if the value is of a signed integer type.
+func isSignedInteger(value any) bool {
+	switch value.(type) {
+	case int8, int16, int32, int64, int:
+		return true
+	default:
+		return false
+	}
+}
+
 // Init initializes a delta context array, and calculates the needed space per element in the final array.
 func (context *DeltaContext[T]) Init(arrayTraits IArrayTraits[T], element T) {
 	context.numElements++
@@ -53,7 +67,7 @@ func (context *DeltaContext[T]) Init(arrayTraits IArrayTraits[T], element T) {
 		context.isPacked = true
 		// Calculate the delta to the previous value, and calculate how many
 		// bits are needed to store the delta.
-		delta := absDiff(arrayTraits.AsUint64(element), *context.previousElement)
+		delta := absDiff(arrayTraits.AsUint64(element), *context.previousElement, isSignedInteger(element))
 		maxBitNumber := bits.Len64(delta)
 		if maxBitNumber > context.maxBitNumber {
 			context.maxBitNumber = maxBitNumber
-- 
2.43.0


From 80868e924b52a334ffefdf9eee6b62d01202e936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 14/80] fix: union choice tag must be zero-based and unknown
 tags must be rejected

---
 internal/generator/templates/union.go.tmpl | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/generator/templates/union.go.tmpl b/internal/generator/templates/union.go.tmpl
index 6db8759..3c1dd74 100644
--- a/internal/generator/templates/union.go.tmpl
+++ b/internal/generator/templates/union.go.tmpl
@@ -33,7 +33,11 @@ func (v *{{ $union.Name}}) LoadDefaultValues() error {
 
 // MarshalZserio implements the zserio.Marshaler interface.
 func (v *{{ $union.Name}}) MarshalZserio(w zserio.Writer) error {
-  err := ztype.WriteVarsize(w, uint64(v.UnionChoice))
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return fmt.Errorf("{{ $union.Name }} has an invalid union choice %d", v.UnionChoice)
+  }
+  // the choice tag is zero-based
+  err := ztype.WriteVarsize(w, uint64(v.UnionChoice) - 1)
   if err != nil {
     return err
   }
@@ -51,7 +55,11 @@ func (v *{{ $union.Name}}) UnmarshalZserio(r zserio.Reader) error {
     if err != nil {
        return err
     }
-    v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice)
+    if unionChoice >= {{ len $union.Fields }} {
+       return fmt.Errorf("{{ $union.Name }} has an invalid choice tag %d", unionChoice)
+    }
+    // the choice tag is zero-based
+    v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice + 1)
 
 {{- range $field := $union.Fields }}
    if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
@@ -66,7 +74,11 @@ func (v *{{ $union.Name}}) UnmarshalZserio(r zserio.Reader) error {
 // ZserioBitSize implements the zserio.Marshaler interface.
 func (v *{{ $union.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
-  if delta, err := ztype.UnsignedBitSize(uint64(v.UnionChoice), 5); err != nil {
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return 0, fmt.Errorf("{{ $union.Name }} has an invalid union choice %d", v.UnionChoice)
+  }
+  // the choice tag is zero-based
+  if delta, err := ztype.UnsignedBitSize(uint64(v.UnionChoice) - 1, 5); err != nil {
     return 0, err
   } else {
     endBitPosition += delta
-- 
2.43.0


From 28328bd77517f194a86bd38a8dfdb31385fede01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 15/80] fix: packed arrays of unions lost their content

---
 internal/generator/templates/union.go.tmpl | 79 ++++++++++++++++++++--
 1 file changed, 73 insertions(+), 6 deletions(-)

diff --git a/internal/generator/templates/union.go.tmpl b/internal/generator/templates/union.go.tmpl
index 3c1dd74..b0cb4f7 100644
--- a/internal/generator/templates/union.go.tmpl
+++ b/internal/generator/templates/union.go.tmpl
@@ -93,6 +93,10 @@ func (v *{{ $union.Name}}) ZserioBitSize(bitPosition int) (int, error) {
 
 
 func (v *{{ $union.Name}}) ZserioCreatePackingContext(contextNode *zserio.PackingContextNode) error {
+  // the first child is used for the choice tag
+  contextNode.AddChild(&zserio.PackingContextNode{
+    Context: &ztype.DeltaContext[uint64]{},
+  })
 {{- range $field := $union.Fields }}
   {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $field }}
 {{- end}}
@@ -101,19 +105,62 @@ func (v *{{ $union.Name}}) ZserioCreatePackingContext(contextNode *zserio.Packin
 
 func (v *{{ $union.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) error {
     childrenNodes := contextNode.GetChildren()
-    _ = childrenNodes // to avoid "declared but not used" warning
+    choiceContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+    if !ok {
+      return errors.New("unsupported packing context type")
+    }
+    choiceContext.Init(ztype.ArrayTraits.VarSize, uint64(v.UnionChoice) - 1)
 {{- range $index, $field := $union.Fields }}
-  {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $field "index" $index }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+  {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
 {{- end}}
   return nil
 }
 
 func (v *{{ $union.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) error {
-  return nil
-}
+    childrenNodes := contextNode.GetChildren()
+    choiceContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+    if !ok {
+      return errors.New("unsupported packing context type")
+    }
+    unionChoice, err := choiceContext.Read(ztype.ArrayTraits.VarSize, r)
+    if err != nil {
+       return err
+    }
+    if unionChoice >= {{ len $union.Fields }} {
+       return fmt.Errorf("{{ $union.Name }} has an invalid choice tag %d", unionChoice)
+    }
+    // the choice tag is zero-based
+    v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice + 1)
 
+{{- range $index, $field := $union.Fields }}
+   if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+{{template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+   }
+{{- end}}
+    return nil
+}
 
-func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Writer) error {
+func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) error {
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return fmt.Errorf("{{ $union.Name }} has an invalid union choice %d", v.UnionChoice)
+  }
+  childrenNodes := contextNode.GetChildren()
+  choiceContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+  if !ok {
+    return errors.New("unsupported packing context type")
+  }
+  // the choice tag is zero-based
+  err := choiceContext.Write(ztype.ArrayTraits.VarSize, w, uint64(v.UnionChoice) - 1)
+  if err != nil {
+    return err
+  }
+{{- range $index, $field := $union.Fields }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+{{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
+{{- end}}
   return nil
 }
 
@@ -122,5 +169,25 @@ func (v *{{ $union.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.Pac
 }
 
 func (v *{{ $union.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (int, error) {
-  return 0, nil
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return 0, fmt.Errorf("{{ $union.Name }} has an invalid union choice %d", v.UnionChoice)
+  }
+  endBitPosition := bitPosition
+  childrenNodes := contextNode.GetChildren()
+  choiceContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+  if !ok {
+    return 0, errors.New("unsupported packing context type")
+  }
+  // the choice tag is zero-based
+  if delta, err := choiceContext.BitSizeOf(ztype.ArrayTraits.VarSize, endBitPosition, uint64(v.UnionChoice) - 1); err != nil {
+    return 0, err
+  } else {
+    endBitPosition += delta
+  }
+{{- range $index, $field := $union.Fields }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+    {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
+{{- end }}
+  return endBitPosition - bitPosition, nil
 }
-- 
2.43.0


From 84f8d6c2b38701627473f52ad435705fe5e5e252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 16/80] fix: choice cases with several conditions only matched
 the first one

---
 internal/generator/templates/choice.go.tmpl | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index 21873d1..b2c996e 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -1,3 +1,9 @@
+{{- define "choice_conditions" }}
+    {{- range $i, $condition := .conditions -}}
+        {{- if $i }}, {{ end -}}
+        {{- $condition.Condition.ResultIntValue -}}
+    {{- end -}}
+{{ end -}}
 {{ $scope := .pkg }} 
 {{ $choice := .choice }}
 {{- $expr := $choice.SelectorExpression }}
@@ -39,7 +45,7 @@ func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
 {{- range $case := $choice.Cases }}
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}:
+  case {{ template "choice_conditions" dict "conditions" .Conditions }}:
     {{- template "encode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
 {{- end }}
@@ -60,7 +66,7 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
 {{- range $case := $choice.Cases }}
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}: 
+  case {{ template "choice_conditions" dict "conditions" .Conditions }}: 
     {{- template "decode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
 {{- end }}
@@ -81,7 +87,7 @@ func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
 {{- range $case := $choice.Cases }}
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}:
+  case {{ template "choice_conditions" dict "conditions" .Conditions }}:
     {{- template "bitsizeof.go.tmpl" dict "pkg" $scope "field" .Field "isarray" false}}
   {{- end }}
 {{- end }}
@@ -113,7 +119,7 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
+      case {{ template "choice_conditions" dict "conditions" .Conditions }}:
       {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -136,7 +142,7 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
+      case {{ template "choice_conditions" dict "conditions" .Conditions }}:
       {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -160,7 +166,7 @@ func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingConte
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}: 
+      case {{ template "choice_conditions" dict "conditions" .Conditions }}: 
       {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -188,7 +194,7 @@ func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingConte
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
+      case {{ template "choice_conditions" dict "conditions" .Conditions }}:
       {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
-- 
2.43.0


From 1f4ebb6b4eb5dd3fa3e3cfbecd2c8dff461e839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 17/80] fix: choices must fail when no case matches and must
 not use the default for an empty case

---
 internal/generator/templates/choice.go.tmpl | 58 +++++++++++++++------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index b2c996e..6c015b9 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -44,16 +44,18 @@ func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
   var err error
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
 {{- range $case := $choice.Cases }}
-  {{- if .Field }}
   case {{ template "choice_conditions" dict "conditions" .Conditions }}:
+  {{- if .Field }}
     {{- template "encode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
 {{- end }}
+  default:
 {{- if $choice.DefaultCase }}
   {{- if $choice.DefaultCase.Field }}
-  default:
    {{- template "encode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
   {{- end }}
+{{- else }}
+    return fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", v.{{ $expr.ResultSymbol.Symbol.Name }})
 {{- end }}
   }
   _ = err // to avoid "declared but not used" warning
@@ -65,16 +67,18 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
     var err error
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
 {{- range $case := $choice.Cases }}
+  case {{ template "choice_conditions" dict "conditions" .Conditions }}:
   {{- if .Field }}
-  case {{ template "choice_conditions" dict "conditions" .Conditions }}: 
     {{- template "decode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
 {{- end }}
+  default:
 {{- if $choice.DefaultCase }}
   {{- if $choice.DefaultCase.Field }}
-  default:
    {{- template "decode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
   {{- end }}
+{{- else }}
+    return fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", v.{{ $expr.ResultSymbol.Symbol.Name }})
 {{- end }}
   }
   _ = err // to avoid "declared but not used" warning
@@ -86,14 +90,18 @@ func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
 {{- range $case := $choice.Cases }}
-  {{- if .Field }}
   case {{ template "choice_conditions" dict "conditions" .Conditions }}:
+  {{- if .Field }}
     {{- template "bitsizeof.go.tmpl" dict "pkg" $scope "field" .Field "isarray" false}}
   {{- end }}
 {{- end }}
-{{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
   default:
+{{- if $choice.DefaultCase }}
+  {{- if $choice.DefaultCase.Field }}
    {{- template "bitsizeof.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "isarray" false}}
+  {{- end }}
+{{- else }}
+    return 0, fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", v.{{ $expr.ResultSymbol.Symbol.Name }})
 {{- end }}
   }
   return endBitPosition - bitPosition, nil
@@ -118,15 +126,19 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
     switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
-    {{- if .Field }}
       case {{ template "choice_conditions" dict "conditions" .Conditions }}:
+    {{- if .Field }}
       {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
   {{- end }}
-  {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
     default:
+  {{- if $choice.DefaultCase }}
+    {{- if $choice.DefaultCase.Field }}
     {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
+    {{- end }}
+  {{- else }}
+      return fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", v.{{ $expr.ResultSymbol.Symbol.Name }})
   {{- end }}
   }
 {{- end }}
@@ -141,15 +153,19 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
     switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
-    {{- if .Field }}
       case {{ template "choice_conditions" dict "conditions" .Conditions }}:
+    {{- if .Field }}
       {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
-  {{- end}}
-  {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
+  {{- end }}
     default:
+  {{- if $choice.DefaultCase }}
+    {{- if $choice.DefaultCase.Field }}
     {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
+    {{- end }}
+  {{- else }}
+      return fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", v.{{ $expr.ResultSymbol.Symbol.Name }})
   {{- end }}
   }
     _ = err // to avoid "declared but not used" warning
@@ -165,15 +181,19 @@ func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingConte
     switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ template "choice_conditions" dict "conditions" .Conditions }}:
     {{- if .Field }}
-      case {{ template "choice_conditions" dict "conditions" .Conditions }}: 
       {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
-  {{- end}}
-  {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
+  {{- end }}
     default:
+  {{- if $choice.DefaultCase }}
+    {{- if $choice.DefaultCase.Field }}
     {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
+    {{- end }}
+  {{- else }}
+      return fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", v.{{ $expr.ResultSymbol.Symbol.Name }})
   {{- end }}
   }
     _ = err // to avoid "declared but not used" warning
@@ -193,15 +213,19 @@ func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingConte
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
-    {{- if .Field }}
       case {{ template "choice_conditions" dict "conditions" .Conditions }}:
+    {{- if .Field }}
       {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
-  {{- end}}
-  {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
+  {{- end }}
     default:
+  {{- if $choice.DefaultCase }}
+    {{- if $choice.DefaultCase.Field }}
     {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
+    {{- end }}
+  {{- else }}
+      return 0, fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", v.{{ $expr.ResultSymbol.Symbol.Name }})
   {{- end }}
   }
 {{- end }}
-- 
2.43.0


From f60ebc5dc873b31d522dd0d52fa75b5a42adae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 18/80] fix: packing context of the default case of a choice
 was not initialized

---
 internal/generator/templates/choice.go.tmpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index 6c015b9..de6b0a9 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -135,7 +135,7 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
     default:
   {{- if $choice.DefaultCase }}
     {{- if $choice.DefaultCase.Field }}
-    {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
+    {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
     {{- end }}
   {{- else }}
       return fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", v.{{ $expr.ResultSymbol.Symbol.Name }})
-- 
2.43.0


From b5949e7dfc2dc9dfba8c1d41c2a4cdcd322f3deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 19/80] fix: packed arrays of choices with only a default case
 lost their content

---
 internal/generator/templates/choice.go.tmpl | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index de6b0a9..390ce8f 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -120,7 +120,6 @@ func (v *{{ $choice.Name}}) ZserioCreatePackingContext(contextNode *zserio.Packi
 }
 
 func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) error {
-{{- if $choice.Cases }}
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
     switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
@@ -141,12 +140,10 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
       return fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", v.{{ $expr.ResultSymbol.Symbol.Name }})
   {{- end }}
   }
-{{- end }}
   return nil
 }
 
 func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) error {
-{{- if $choice.Cases }}
     var err error
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
@@ -169,12 +166,10 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
   {{- end }}
   }
     _ = err // to avoid "declared but not used" warning
-{{- end }}
     return nil
 }
 
 func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) error {
-{{- if $choice.Cases }}
     var err error
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
@@ -197,7 +192,6 @@ func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingConte
   {{- end }}
   }
     _ = err // to avoid "declared but not used" warning
-{{- end }}
     return nil
 }
 
@@ -207,7 +201,6 @@ func (v *{{ $choice.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.Pa
 
 func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (int, error) {
   endBitPosition := bitPosition
-{{- if $choice.Cases }}
   childrenNodes := contextNode.GetChildren()
   _ = childrenNodes // to avoid "declared but not used" warning
   switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
@@ -228,6 +221,5 @@ func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingConte
       return 0, fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", v.{{ $expr.ResultSymbol.Symbol.Name }})
   {{- end }}
   }
-{{- end }}
   return endBitPosition - bitPosition, nil
 }
-- 
2.43.0


From 695164d432d7126b5c3b8bc56585d661e3866321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 20/80] fix: functions of choices were not generated and
 functions of unions not resolved

---
 internal/ast/choice.go                      | 19 +++++++++--
 internal/ast/union.go                       |  5 +++
 internal/generator/templates/choice.go.tmpl |  2 ++
 internal/model/transform.go                 | 38 +++++++++++++++++++++
 4 files changed, 61 insertions(+), 3 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index fd9f1f3..d91832d 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -43,6 +43,12 @@ func (choice *Choice) BuildScope(p *Package) error {
 			compoundScope.Scope[choiceCase.Field.Name] = choiceCase.Field
 		}
 	}
+	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+		compoundScope.Scope[choice.DefaultCase.Field.Name] = choice.DefaultCase.Field
+	}
+	for _, function := range choice.Functions {
+		compoundScope.Scope[function.Name] = function
+	}
 	p.LocalSymbols.CompoundScopes[choice.Name] = compoundScope
 	return nil
 }
@@ -117,8 +123,15 @@ func (choice *Choice) Evaluate(p *Package) error {
 		}
 	}
 
-	if choice.DefaultCase == nil || choice.DefaultCase.Field == nil {
-		return nil
+	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+		if err := choice.DefaultCase.Field.Evaluate(p); err != nil {
+			return err
+		}
 	}
-	return choice.DefaultCase.Field.Evaluate(p)
+	for _, function := range choice.Functions {
+		if err := function.Result.Evaluate(p); err != nil {
+			return err
+		}
+	}
+	return nil
 }
diff --git a/internal/ast/union.go b/internal/ast/union.go
index 7e8dcd4..9ca57c4 100644
--- a/internal/ast/union.go
+++ b/internal/ast/union.go
@@ -21,6 +21,9 @@ func (u *Union) BuildScope(p *Package) error {
 	for _, field := range u.Fields {
 		compoundScope.Scope[field.Name] = field
 	}
+	for _, function := range u.Functions {
+		compoundScope.Scope[function.Name] = function
+	}
 	p.LocalSymbols.CompoundScopes[u.Name] = compoundScope
 	return nil
 }
@@ -30,6 +33,8 @@ func (u *Union) Evaluate(p *Package) error {
 	if len(u.TemplateParameters) > 0 {
 		return nil
 	}
+	p.LocalSymbols.CurrentCompoundScope = &u.Name
+
 	for _, param := range u.TypeParameters {
 		if err := param.Type.Evaluate(p); err != nil {
 			return err
diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index 390ce8f..f9fabbb 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -85,6 +85,8 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
   return nil
 }
 
+{{template "functions.go.tmpl" dict "name" $choice.Name "scope" $scope "functions" $choice.Functions }}
+
 // ZserioBitSize implements the zserio.Marshaler interface.
 func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 3c58d54..7f77239 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -725,6 +725,25 @@ func (m *Model) ResolveTypes() error {
 					}
 				}
 			}
+
+			for _, function := range choice.Functions {
+				if function.ReturnType.Package == "" && templateParams[function.ReturnType.Name] {
+					// Ignore template types
+					continue
+				}
+
+				if err := m.resolveTypeReference(pkg, function.ReturnType, templateParams); err != nil {
+					return TypeError{
+						TypeReference: ast.TypeReference{
+							IsBuiltin: false,
+							Package:   pkg.Name,
+							Name:      choice.Name,
+						},
+						Field: function.Name,
+						Err:   err,
+					}
+				}
+			}
 		}
 
 		for _, union := range pkg.Unions {
@@ -770,6 +789,25 @@ func (m *Model) ResolveTypes() error {
 					}
 				}
 			}
+
+			for _, function := range union.Functions {
+				if function.ReturnType.Package == "" && templateParams[function.ReturnType.Name] {
+					// Ignore template types
+					continue
+				}
+
+				if err := m.resolveTypeReference(pkg, function.ReturnType, templateParams); err != nil {
+					return TypeError{
+						TypeReference: ast.TypeReference{
+							IsBuiltin: false,
+							Package:   pkg.Name,
+							Name:      union.Name,
+						},
+						Field: function.Name,
+						Err:   err,
+					}
+				}
+			}
 		}
 
 		for _, subtype := range pkg.Subtypes {
-- 
2.43.0


From da3665ef778720f34eac9d0475c6769724d1a394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 21/80] fix: type of the default field of a choice was not
 resolved

---
 internal/model/transform.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index 7f77239..6f0ef58 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -726,6 +726,24 @@ func (m *Model) ResolveTypes() error {
 				}
 			}
 
+			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+				field := choice.DefaultCase.Field
+				// Ignore template types
+				if field.Type.Package != "" || !templateParams[field.Type.Name] {
+					if err := m.resolveTypeReference(pkg, field.Type, templateParams); err != nil {
+						return TypeError{
+							TypeReference: ast.TypeReference{
+								IsBuiltin: false,
+								Package:   pkg.Name,
+								Name:      choice.Name,
+							},
+							Field: field.Name,
+							Err:   err,
+						}
+					}
+				}
+			}
+
 			for _, function := range choice.Functions {
 				if function.ReturnType.Package == "" && templateParams[function.ReturnType.Name] {
 					// Ignore template types
-- 
2.43.0


From 3f03afc08d90041d37392e3b98371f36e043cf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 22/80] fix: JSON name of the default field of a choice was
 empty

---
 internal/model/transform.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index 6f0ef58..b892613 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -111,6 +111,7 @@ func (m *Model) CapitalizeNames() {
 				}
 			}
 			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+				choice.DefaultCase.Field.ZserioName = choice.DefaultCase.Field.Name
 				choice.DefaultCase.Field.Name = strings.Title(choice.DefaultCase.Field.Name)
 				if !choice.DefaultCase.Field.Type.IsBuiltin {
 					choice.DefaultCase.Field.Type.Name = strings.Title(choice.DefaultCase.Field.Type.Name)
-- 
2.43.0


From 44fa40a0d6d271cf964a674e116f8a8a7742992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 23/80] fix: alignment of optional fields must be applied after
 the presence bit

---
 internal/generator/templates/bitsizeof.go.tmpl         |  6 +++---
 internal/generator/templates/decode.go.tmpl            | 10 +++++-----
 internal/generator/templates/encode.go.tmpl            | 10 +++++-----
 .../templates/packing_context_bitsize.go.tmpl          |  6 +++---
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/internal/generator/templates/bitsizeof.go.tmpl b/internal/generator/templates/bitsizeof.go.tmpl
index 39bd997..52178c3 100644
--- a/internal/generator/templates/bitsizeof.go.tmpl
+++ b/internal/generator/templates/bitsizeof.go.tmpl
@@ -19,14 +19,14 @@
 {{- if $field.OptionalClause }}
     if {{ goExpression $scope $field.OptionalClause }} {
 {{- end }}
-{{- if not (eq $field.Alignment 0) }}
-    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
-{{- end }}
 
 {{- if $field.IsOptional}}
     endBitPosition += 1
     if v.{{ $field.Name }} != nil {
 {{- end }}
+{{- if not (eq $field.Alignment 0) }}
+    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
+{{- end }}
 
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $name }}
 {{- if $field.Array }}
diff --git a/internal/generator/templates/decode.go.tmpl b/internal/generator/templates/decode.go.tmpl
index 44e5170..0741f4d 100644
--- a/internal/generator/templates/decode.go.tmpl
+++ b/internal/generator/templates/decode.go.tmpl
@@ -24,11 +24,6 @@
 {{- if $field.OptionalClause }}
     if {{ goExpression $scope $field.OptionalClause }} {
 {{- end }}
-{{- if not (eq $field.Alignment 0) }}
-    if _, err = r.Align({{ $field.Alignment }}); err != nil {
-        return err
-    }
-{{- end }}
 
 {{- $assign_str_lvalue := printf "v.%s" $field.Name }}
 {{- $assign_str_rvalue := $field_name }}
@@ -45,6 +40,11 @@
     {{- $assign_str_lvalue = "value" }}
     {{- $assign_str_rvalue = "value" }}
 {{- end }}
+{{- if not (eq $field.Alignment 0) }}
+    if _, err = r.Align({{ $field.Alignment }}); err != nil {
+        return err
+    }
+{{- end }}
 
 {{- if and (not $native.IsMarshaler) (not $field.Array) }}
     {{- if or (gt $native.Type.Bits 0) $native.Type.LengthExpression }}
diff --git a/internal/generator/templates/encode.go.tmpl b/internal/generator/templates/encode.go.tmpl
index 686bf49..0d74323 100644
--- a/internal/generator/templates/encode.go.tmpl
+++ b/internal/generator/templates/encode.go.tmpl
@@ -24,17 +24,17 @@
 {{- if $field.OptionalClause }}
     if {{ goExpression $scope $field.OptionalClause }} {
 {{- end }}
-{{- if not (eq $field.Alignment 0) }}
-    if _, err := w.Align({{ $field.Alignment }}); err != nil {
-        return err
-    }
-{{- end }}
 {{- if $field.IsOptional}}
     if err = ztype.WriteBool(w, v.{{ $field.Name }} != nil); err != nil {
         return err
     }
     if v.{{ $field.Name }} != nil {
 {{- end }}
+{{- if not (eq $field.Alignment 0) }}
+    if _, err := w.Align({{ $field.Alignment }}); err != nil {
+        return err
+    }
+{{- end }}
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $field_name }}
 {{- if $field.Array }}
     {{- template "array_init.go.tmpl" dict "pkg" $scope "field_name" $field_name "field" $field "native" $native }}
diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index 68caa89..d42f0ad 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -18,14 +18,14 @@
     {{- end }}
 {{- end }}
 
-{{- if not (eq $field.Alignment 0) }}
-    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
-{{- end }}
 
 {{- if $field.IsOptional}}
     endBitPosition += 1
     if v.{{ $field.Name }} != nil {
 {{- end }}
+{{- if not (eq $field.Alignment 0) }}
+    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
+{{- end }}
 
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $field_name }}
 {{- if $field.Array }}
-- 
2.43.0


From afb0f83d9cdbc1dd7542818f6dde7ea9d9585d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 24/80] fix: packed bit size must not include absent
 conditional fields

---
 .../generator/templates/packing_context_bitsize.go.tmpl    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index d42f0ad..637487d 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -18,7 +18,9 @@
     {{- end }}
 {{- end }}
 
-
+{{- if $field.OptionalClause }}
+    if {{ goExpression $scope $field.OptionalClause }} {
+{{- end }}
 {{- if $field.IsOptional}}
     endBitPosition += 1
     if v.{{ $field.Name }} != nil {
@@ -81,3 +83,6 @@
 {{- if $field.IsOptional}}
     }
 {{- end }}
+{{- if $field.OptionalClause }}
+    }
+{{- end }}
-- 
2.43.0


From f151c7346bfe68643aabb5a2e8a2d9b7acee48e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 25/80] fix: isset must check all bits of its second operand

---
 internal/ast/expression.go       | 2 +-
 internal/generator/expression.go | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index cafac3b..5e4ddbd 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -422,7 +422,7 @@ func (expr *Expression) evaluateIsSetOperator() error {
 		return errors.New("the second operand of the isset() operator must be a bitmask")
 	}
 	expr.ResultType = ExpressionTypeBool
-	expr.ResultBoolValue = expr.Operand1.ResultIntValue&expr.Operand2.ResultIntValue != 0
+	expr.ResultBoolValue = expr.Operand1.ResultIntValue&expr.Operand2.ResultIntValue == expr.Operand2.ResultIntValue
 	return nil
 }
 
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 8f4da4f..8e1a98b 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -312,7 +312,9 @@ func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) st
 }
 
 func isSetOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	return fmt.Sprintf("%s & %s != 0", ExpressionToGoString(scope, expression.Operand1), ExpressionToGoString(scope, expression.Operand2))
+	// all bits of the second operand have to be set
+	operand2Str := ExpressionToGoString(scope, expression.Operand2)
+	return fmt.Sprintf("((%s) & (%s) == (%s))", ExpressionToGoString(scope, expression.Operand1), operand2Str, operand2Str)
 }
 
 func lenOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-- 
2.43.0


From c54e3e4f16e4966c7bf145d0bc4104ef898b4295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 26/80] fix: numbits of constants must agree with its
 evaluation at run time

---
 internal/ast/expression.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 5e4ddbd..83b80cf 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -224,7 +224,12 @@ func (expr *Expression) evaluateNumBitsOperator() error {
 		return errors.New("numbits operator needs an integer type")
 	}
 	expr.ResultType = ExpressionTypeInteger
-	expr.ResultIntValue = int64(bits.Len64(uint64(expr.Operand1.ResultIntValue)))
+	// The number of bits needed to store the given number of different values,
+	// see ztype.NumBits for the evaluation at run time.
+	expr.ResultIntValue = expr.Operand1.ResultIntValue
+	if value := uint64(expr.Operand1.ResultIntValue); value > 1 {
+		expr.ResultIntValue = int64(bits.Len64(value - 1))
+	}
 	return nil
 }
 
-- 
2.43.0


From 7f064d01888d7bc0e26a3a86a41760a990b254d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 27/80] fix: float constants must not lose precision

---
 internal/generator/expression.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 8e1a98b..8fcc434 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -3,6 +3,7 @@ package generator
 import (
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/iancoleman/strcase"
@@ -328,6 +329,15 @@ func valueOfOperatorToGoString(scope ast.Scope, expression *ast.Expression) stri
 	return ExpressionToGoString(scope, expression.Operand1)
 }
 
+// floatToGoString prints a float constant without losing precision.
+func floatToGoString(value float64) string {
+	text := strconv.FormatFloat(value, 'g', -1, 64)
+	if !strings.ContainsAny(text, ".e") {
+		text += ".0"
+	}
+	return text
+}
+
 func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	if expression.FullyResolved {
 		switch expression.ResultType {
@@ -338,7 +348,7 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 		case ast.ExpressionTypeString:
 			return fmt.Sprintf("%q", expression.ResultStringValue)
 		case ast.ExpressionTypeFloat:
-			return fmt.Sprintf("%f", expression.ResultFloatValue)
+			return floatToGoString(expression.ResultFloatValue)
 		default:
 			return "UNSUPPORTED_TYPE"
 		}
-- 
2.43.0


From d040c359ae98393b3c7ea6a763a1b09aedee4e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 28/80] fix: float values of parenthesized, unary and ternary
 constants and of literals with suffix

---
 internal/ast/expression.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 83b80cf..4816e3c 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -440,6 +440,7 @@ func (expr *Expression) evaluateParenthesizedExpression() error {
 	expr.ResultIntValue = expr.Operand1.ResultIntValue
 	expr.ResultStringValue = expr.Operand1.ResultStringValue
 	expr.ResultBoolValue = expr.Operand1.ResultBoolValue
+	expr.ResultFloatValue = expr.Operand1.ResultFloatValue
 	expr.NativeZserioType = expr.Operand1.NativeZserioType
 	return nil
 }
@@ -462,6 +463,11 @@ func (expr *Expression) evaluateUnaryArithmeticExpression() error {
 		if expr.Type == parser.ZserioParserMINUS {
 			expr.ResultIntValue = -expr.Operand1.ResultIntValue
 		}
+	} else {
+		expr.ResultFloatValue = expr.Operand1.ResultFloatValue
+		if expr.Type == parser.ZserioParserMINUS {
+			expr.ResultFloatValue = -expr.Operand1.ResultFloatValue
+		}
 	}
 	return nil
 }
@@ -665,12 +671,14 @@ func (expr *Expression) evaluateTernaryExpression() error {
 		expr.ResultIntValue = expr.Operand2.ResultIntValue
 		expr.ResultBoolValue = expr.Operand2.ResultBoolValue
 		expr.ResultStringValue = expr.Operand2.ResultStringValue
+		expr.ResultFloatValue = expr.Operand2.ResultFloatValue
 		expr.NativeZserioType = expr.Operand2.NativeZserioType
 	} else {
 		expr.ResultType = expr.Operand3.ResultType
 		expr.ResultIntValue = expr.Operand3.ResultIntValue
 		expr.ResultBoolValue = expr.Operand3.ResultBoolValue
 		expr.ResultStringValue = expr.Operand3.ResultStringValue
+		expr.ResultFloatValue = expr.Operand3.ResultFloatValue
 		expr.NativeZserioType = expr.Operand3.NativeZserioType
 	}
 	return nil
@@ -899,7 +907,7 @@ func (expr *Expression) Evaluate(scope *Package) error {
 	case parser.ZserioLexerFLOAT_LITERAL:
 		expr.ResultType = ExpressionTypeFloat
 		expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "float32"}
-		expr.ResultFloatValue, err = strconv.ParseFloat(expr.Text, 32)
+		expr.ResultFloatValue, err = strconv.ParseFloat(strings.TrimRight(expr.Text, "fF"), 32)
 	case parser.ZserioParserDOUBLE_LITERAL:
 		expr.ResultType = ExpressionTypeFloat
 		expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "float64"}
-- 
2.43.0


From 3cdd5d85198fc885aa12ff78632091484eee03a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 29/80] fix: keep the operator precedence of zserio in
 generated expressions

---
 internal/generator/expression.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 8fcc434..1f9d9d7 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -246,7 +246,7 @@ func twoOperatorEqualTypesToGoString(scope ast.Scope, expression *ast.Expression
 		}
 	}
 
-	return fmt.Sprintf("%s %s %s",
+	return fmt.Sprintf("(%s %s %s)",
 		operand1Str,
 		operator,
 		operand2Str)
@@ -286,7 +286,7 @@ func twoOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 		operand1Str = fmt.Sprintf("%s(%s)", expressionGoType, operand1Str)
 	}
 
-	return fmt.Sprintf("%s %s %s",
+	return fmt.Sprintf("(%s %s %s)",
 		operand1Str,
 		operator,
 		ExpressionToGoString(scope, expression.Operand2))
@@ -379,7 +379,7 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	case parser.ZserioParserDIVIDE:
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioParserBANG: // the ! (negation operator)
-		return fmt.Sprintf("!%s", ExpressionToGoString(scope, expression.Operand1))
+		return fmt.Sprintf("!(%s)", ExpressionToGoString(scope, expression.Operand1))
 	case parser.ZserioParserMODULO:
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioLexerLSHIFT:
-- 
2.43.0


From 5cec35a0855b5adae3c16af0cdee83baaa54b129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 30/80] fix: reject constant divisions by zero and negative
 shift counts instead of crashing

---
 internal/ast/expression.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 4816e3c..24bc506 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -515,6 +515,10 @@ func (expr *Expression) evaluateArithmeticExpression() error {
 			expr.FullyResolved = false
 		}
 
+		if op2 == 0 && (expr.Type == parser.ZserioParserDIVIDE || expr.Type == parser.ZserioParserMODULO) {
+			return errors.New("division by zero")
+		}
+
 		switch expr.Type {
 		case parser.ZserioParserPLUS:
 			expr.ResultIntValue = op1 + op2
@@ -712,12 +716,22 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 	expr.NativeZserioType = expr.Operand1.NativeZserioType
 	isShiftOperation := false
 
+	shiftCount := expr.Operand2.ResultIntValue
+	if !expr.Operand2.FullyResolved {
+		// the value is only known at run time
+		shiftCount = 0
+	}
+
 	switch expr.Type {
-	case parser.ZserioLexerLSHIFT:
-		expr.ResultIntValue = expr.Operand1.ResultIntValue << expr.Operand2.ResultIntValue
-		isShiftOperation = true
-	case parser.ZserioParserRSHIFT:
-		expr.ResultIntValue = expr.Operand1.ResultIntValue >> expr.Operand2.ResultIntValue
+	case parser.ZserioLexerLSHIFT, parser.ZserioParserRSHIFT:
+		if shiftCount < 0 {
+			return errors.New("negative shift count")
+		}
+		if expr.Type == parser.ZserioLexerLSHIFT {
+			expr.ResultIntValue = expr.Operand1.ResultIntValue << shiftCount
+		} else {
+			expr.ResultIntValue = expr.Operand1.ResultIntValue >> shiftCount
+		}
 		isShiftOperation = true
 	case parser.ZserioParserAND:
 		expr.ResultIntValue = expr.Operand1.ResultIntValue & expr.Operand2.ResultIntValue
-- 
2.43.0


From adc43c709ad5ddea44a6219b1788db527943bb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 31/80] fix: generate code for unary operators

---
 internal/generator/expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 1f9d9d7..2b55c2c 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -354,6 +354,14 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 		}
 	}
 	switch expression.Type {
+	case parser.ZserioParserPLUS, parser.ZserioParserMINUS:
+		if expression.Operand2 == nil {
+			return fmt.Sprintf("(%s(%s))", expression.Text, ExpressionToGoString(scope, expression.Operand1))
+		}
+	case parser.ZserioParserTILDE:
+		return fmt.Sprintf("(^(%s))", ExpressionToGoString(scope, expression.Operand1))
+	}
+	switch expression.Type {
 	case parser.ZserioParserLBRACKET:
 		return bracketedExpressionToGoString(scope, expression)
 	case parser.ZserioParserLPAREN:
-- 
2.43.0


From a8f94907cde7974f4595b5a2a91bda51a78417aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 32/80] fix: array elements in expressions: compound elements
 and elements of a subtype

---
 internal/ast/expression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 24bc506..e0a4752 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -113,6 +113,8 @@ func evaluateExpressionType(typeRef *TypeReference, scope *Package) (ExpressionT
 		return "", nil, errors.New("type is not fully resolved")
 	}
 	if originalType.Type.IsBuiltin {
+		// the type may have been given by a subtype
+		typeRef = originalType.Type
 		switch typeRef.Name {
 		case "bool":
 			return ExpressionTypeBool, typeRef, nil
@@ -356,6 +358,8 @@ func (expr *Expression) evaluateArrayElement(scope *Package) error {
 	if expr.ResultType, expr.NativeZserioType, err = evaluateExpressionType(field.Type, scope); err != nil {
 		return err
 	}
+	// the field holds the type of the element
+	expr.ResultSymbol = expr.Operand1.ResultSymbol
 	return nil
 }
 
-- 
2.43.0


From fec45317ff2b4db3a6777edb6c10b3993a068149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 33/80] fix: function calls have the return type of the
 function

---
 internal/ast/expression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index e0a4752..04c755e 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -325,6 +325,10 @@ func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
 		return err
 	}
 	copyExpressionResult(function.Result, expr)
+	// the value is converted to the return type of the function
+	if _, nativeType, err := evaluateExpressionType(function.ReturnType, functionEvaluationScope); err == nil {
+		expr.NativeZserioType = nativeType
+	}
 	// copy the result symbol, in case the type of the symbol needs to be
 	// evaluated.
 	expr.ResultSymbol = expr.Operand1.ResultSymbol
-- 
2.43.0


From 6b32a7aa402802f99c133542aae953f5823bd319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 34/80] fix: reject dots, calls and indices applied to plain
 values instead of crashing

---
 internal/ast/expression.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 04c755e..43d0d23 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -295,6 +295,9 @@ func (expr *Expression) evaluateCompoundDotExpression(scope *Package) error {
 }
 
 func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
+	if expr.Operand1.ResultSymbol == nil {
+		return errors.New("function expression expected")
+	}
 	function, ok := expr.Operand1.ResultSymbol.Symbol.(*Function)
 	if !ok {
 		return errors.New("function expression expected")
@@ -339,6 +342,9 @@ func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
 }
 
 func getArrayField(expr *Expression) (*Field, error) {
+	if expr.ResultSymbol == nil {
+		return nil, errors.New("unexpected array type (field expected)")
+	}
 	field, ok := expr.ResultSymbol.Symbol.(*Field)
 	if !ok {
 		return nil, errors.New("unexpected array type (field expected)")
@@ -386,6 +392,9 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 	// In case the expression does not directly reference to actual enum/bitmask type,
 	// but references it using subtypes, we first need to resolve the actual type.
 	op1Symbol := expr.Operand1.ResultSymbol
+	if op1Symbol == nil {
+		return errors.New("dot expression must use a valid symbol")
+	}
 	op1Symbol, err := scope.GetOriginalSymbol(op1Symbol)
 	if err != nil {
 		return err
-- 
2.43.0


From b9d922c15815361834ecbe11d8016eb1005faa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 35/80] fix: comparisons of integers of different types

---
 internal/generator/expression.go | 75 ++++++++++++++++++++++++++++++++
 1 file changed, 75 insertions(+)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 2b55c2c..6ddcee0 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -127,6 +127,71 @@ func getSymbolType(scope ast.Scope, symbol *ast.SymbolReference) (*ast.TypeRefer
 	}
 }
 
+// integerGoType returns the Go type of an integer expression, or an empty string
+// if it is not known.
+func integerGoType(scope ast.Scope, expression *ast.Expression) string {
+	typ := expression.NativeZserioType
+	if expression.ResultSymbol != nil {
+		symbolType, err := getSymbolType(scope, expression.ResultSymbol)
+		if err != nil {
+			return ""
+		}
+		originalType, err := scope.OriginalType(symbolType)
+		if err != nil {
+			return ""
+		}
+		typ = originalType.Type
+	}
+	if typ == nil {
+		return ""
+	}
+	goType, err := GoType(scope, typ)
+	if err != nil {
+		return ""
+	}
+	return goType
+}
+
+// comparisonCastType returns the Go type both operands of an integer comparison
+// have to be cast to, or an empty string if no cast is needed.
+func comparisonCastType(scope ast.Scope, operand1, operand2 *ast.Expression) string {
+	// constants are not typed in Go, unless they do not fit the other operand
+	if operand1.FullyResolved {
+		operand1, operand2 = operand2, operand1
+	}
+	operand1GoType := integerGoType(scope, operand1)
+	if operand2.FullyResolved {
+		value := operand2.ResultIntValue
+		fits := true
+		switch operand1GoType {
+		case "int8":
+			fits = value == int64(int8(value))
+		case "int16":
+			fits = value == int64(int16(value))
+		case "int32":
+			fits = value == int64(int32(value))
+		case "uint8":
+			fits = value == int64(uint8(value))
+		case "uint16":
+			fits = value == int64(uint16(value))
+		case "uint32":
+			fits = value == int64(uint32(value))
+		}
+		if fits {
+			return ""
+		}
+		return "int64"
+	}
+	operand2GoType := integerGoType(scope, operand2)
+	if operand1GoType != "" && operand1GoType == operand2GoType {
+		return ""
+	}
+	if strings.HasPrefix(operand1GoType, "uint") && strings.HasPrefix(operand2GoType, "uint") {
+		return "uint64"
+	}
+	return "int64"
+}
+
 // twoOperatorEqualTypesToGoString prints out an expression that uses two
 // operands, where the operator expects to be both sides of the same type.
 // since there are many different integer and type to integer types, casting
@@ -246,6 +311,16 @@ func twoOperatorEqualTypesToGoString(scope ast.Scope, expression *ast.Expression
 		}
 	}
 
+	if expression.ResultType == ast.ExpressionTypeBool &&
+		expression.Operand1.ResultType == ast.ExpressionTypeInteger &&
+		expression.Operand2.ResultType == ast.ExpressionTypeInteger {
+		castType := comparisonCastType(scope, expression.Operand1, expression.Operand2)
+		if castType != "" {
+			operand1Str = fmt.Sprintf("%s(%s)", castType, operand1Str)
+			operand2Str = fmt.Sprintf("%s(%s)", castType, operand2Str)
+		}
+	}
+
 	return fmt.Sprintf("(%s %s %s)",
 		operand1Str,
 		operator,
-- 
2.43.0


From 9e79dbcf3b51743f5a6d2019cb8443b58b8120ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 36/80] fix: bitwise operators on integers of different types

---
 internal/ast/expression.go       | 10 ++++++++++
 internal/generator/expression.go | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 43d0d23..ebe2c29 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -767,6 +767,16 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 		expr.NativeZserioType = expr.Operand2.NativeZserioType
 	}
 
+	// Different integer types are mixed like in an arithmetic expression.
+	if !isShiftOperation &&
+		expr.Operand1.ResultType == ExpressionTypeInteger && expr.Operand2.ResultType == ExpressionTypeInteger {
+		var err error
+		expr.ResultType, expr.NativeZserioType, err = DetermineArithmeticOperationResultType(expr.Operand1, expr.Operand2)
+		if err != nil {
+			return err
+		}
+	}
+
 	// If this is a shift operation, and there is no clear type defined,
 	// assume an uint32. This is the case if numerals are used, e.g.
 	// "17 < numShift". In this case, the result type is not determined.
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 6ddcee0..91e6699 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -221,6 +221,12 @@ func twoOperatorEqualTypesToGoString(scope ast.Scope, expression *ast.Expression
 		operator = "=="
 	case parser.ZserioParserNE:
 		operator = "!="
+	case parser.ZserioParserAND:
+		operator = "&"
+	case parser.ZserioParserOR:
+		operator = "|"
+	case parser.ZserioParserXOR:
+		operator = "^"
 	}
 
 	operand1Str := ExpressionToGoString(scope, expression.Operand1)
@@ -469,11 +475,10 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 		return twoOperatorToGoString(scope, expression)
 	case parser.ZserioParserRSHIFT:
 		return twoOperatorToGoString(scope, expression)
-	case parser.ZserioParserAND:
-		return twoOperatorToGoString(scope, expression)
-	case parser.ZserioParserOR:
-		return twoOperatorToGoString(scope, expression)
-	case parser.ZserioParserXOR:
+	case parser.ZserioParserAND, parser.ZserioParserOR, parser.ZserioParserXOR:
+		if expression.ResultType == ast.ExpressionTypeInteger {
+			return twoOperatorEqualTypesToGoString(scope, expression)
+		}
 		return twoOperatorToGoString(scope, expression)
 	case parser.ZserioParserLOGICAL_AND:
 		return twoOperatorToGoString(scope, expression)
-- 
2.43.0


From a64433de23d033db02a4eedb0a166dad0b7751bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 37/80] fix: ternary expressions must only evaluate the
 selected operand

---
 internal/ast/expression.go       | 13 ++++++++++++
 internal/generator/expression.go | 35 ++++++++++++++++++++++++++------
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index ebe2c29..6d58115 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -702,6 +702,19 @@ func (expr *Expression) evaluateTernaryExpression() error {
 		expr.ResultFloatValue = expr.Operand3.ResultFloatValue
 		expr.NativeZserioType = expr.Operand3.NativeZserioType
 	}
+	if !expr.FullyResolved {
+		if expr.Operand2.ResultType == ExpressionTypeInteger && expr.Operand3.ResultType == ExpressionTypeInteger {
+			// both values have to fit the result
+			if expr.NativeZserioType == nil || !compareNativeTypeReferences(expr.Operand2.NativeZserioType, expr.Operand3.NativeZserioType) {
+				expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "int64"}
+			}
+		} else if expr.Operand2.ResultType == ExpressionTypeFloat && expr.Operand3.ResultType == ExpressionTypeFloat {
+			var err error
+			if expr.NativeZserioType, err = evaluateMixingFloatTypes(expr.Operand2.NativeZserioType, expr.Operand3.NativeZserioType); err != nil {
+				return err
+			}
+		}
+	}
 	return nil
 }
 
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 91e6699..815342a 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -377,12 +377,35 @@ func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) st
 	op1 := ExpressionToGoString(scope, expression.Operand1)
 	op2 := ExpressionToGoString(scope, expression.Operand2)
 	op3 := ExpressionToGoString(scope, expression.Operand3)
-	if expression.ResultType == ast.ExpressionTypeInteger {
-		// in case the expression is a subtype of int (such as uint16), cast to
-		// integer to avoid type cast errors
-		typeCast := "int"
-		op3 = fmt.Sprintf("%s(%s)", typeCast, op3)
-		op2 = fmt.Sprintf("%s(%s)", typeCast, op2)
+	typeName := ""
+	switch expression.ResultType {
+	case ast.ExpressionTypeInteger:
+		typeName = "int"
+		if expression.NativeZserioType != nil {
+			if goType, err := GoType(scope, expression.NativeZserioType); err == nil {
+				typeName = goType
+			}
+		}
+	case ast.ExpressionTypeFloat:
+		typeName = "float64"
+		if expression.NativeZserioType != nil {
+			if goType, err := GoType(scope, expression.NativeZserioType); err == nil {
+				typeName = goType
+			}
+		}
+	case ast.ExpressionTypeBool:
+		typeName = "bool"
+	case ast.ExpressionTypeString:
+		typeName = "string"
+	}
+	if typeName != "" {
+		// only the selected operand may be evaluated
+		return fmt.Sprintf("func() %s { if %s { return %s(%s) }; return %s(%s) }()",
+			typeName,
+			op1,
+			typeName, ExpressionToGoString(scope, expression.Operand2),
+			typeName, ExpressionToGoString(scope, expression.Operand3),
+		)
 	}
 	// Ternary expressions are not supported by Go. As a workaround,
 	// generate the ternary expression as an if/else
-- 
2.43.0


From 0e22ed053eba80014aef50c81d951a007b7a4f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 38/80] fix: comparisons of floats of different types

---
 internal/generator/expression.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 815342a..b8f0039 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -327,6 +327,13 @@ func twoOperatorEqualTypesToGoString(scope ast.Scope, expression *ast.Expression
 		}
 	}
 
+	if expression.ResultType == ast.ExpressionTypeBool &&
+		expression.Operand1.ResultType == ast.ExpressionTypeFloat && !expression.Operand1.FullyResolved &&
+		expression.Operand2.ResultType == ast.ExpressionTypeFloat && !expression.Operand2.FullyResolved {
+		operand1Str = fmt.Sprintf("float64(%s)", operand1Str)
+		operand2Str = fmt.Sprintf("float64(%s)", operand2Str)
+	}
+
 	return fmt.Sprintf("(%s %s %s)",
 		operand1Str,
 		operator,
-- 
2.43.0


From 3be22b048feb0d27f2fdc60048fe9b4489894749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 39/80] fix: bit fields with more than 64 bits must fail with
 an error instead of a panic

---
 ztype/bits_decode.go | 5 ++++-
 ztype/bits_encode.go | 9 ++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ztype/bits_decode.go b/ztype/bits_decode.go
index c81eae2..1bf1f7d 100644
--- a/ztype/bits_decode.go
+++ b/ztype/bits_decode.go
@@ -4,13 +4,16 @@ import zserio "github.com/woven-planet/go-zserio"
 
 // ReadUnsignedBits reads an unsigned number with a given number of bits
 func ReadUnsignedBits(r zserio.Reader, bits uint8) (uint64, error) {
+	if bits > 64 {
+		return 0, ErrInvalidBitLength
+	}
 	return r.ReadBits(bits)
 }
 
 // ReadSignedBits reads an signed number with a given number of bits
 func ReadSignedBits(r zserio.Reader, bits uint8) (int64, error) {
 	if bits > 64 {
-		panic("can not read more than 64 bits")
+		return 0, ErrInvalidBitLength
 	}
 
 	u, err := r.ReadBits(bits)
diff --git a/ztype/bits_encode.go b/ztype/bits_encode.go
index ad616a9..f00e06e 100644
--- a/ztype/bits_encode.go
+++ b/ztype/bits_encode.go
@@ -10,8 +10,15 @@ import (
 // with a value that is larger than the number of bits allows for.
 var ErrValueOutOfBitRange = errors.New("value is out of range for the given number of bits")
 
+// ErrInvalidBitLength is returned when you try to read or write a bit field type
+// with an unsupported number of bits.
+var ErrInvalidBitLength = errors.New("bit fields can not have more than 64 bits")
+
 // WriteUnsignedBits writes an unsigned number with a given number of bits
 func WriteUnsignedBits(w zserio.Writer, value uint64, bits uint8) error {
+	if bits > 64 {
+		return ErrInvalidBitLength
+	}
 	if value > ((1 << bits) - 1) {
 		return ErrValueOutOfBitRange
 	}
@@ -21,7 +28,7 @@ func WriteUnsignedBits(w zserio.Writer, value uint64, bits uint8) error {
 // WriteSignedBits writes an signed number with a given number of bits
 func WriteSignedBits(w zserio.Writer, value int64, bits uint8) error {
 	if bits > 64 {
-		panic("can not read more than 64 bits")
+		return ErrInvalidBitLength
 	}
 
 	var min int64 = -(1 << (bits - 1))
-- 
2.43.0


From 77353d8853277666adba1fdafecdc7b2e3e80a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 40/80] fix: align to boundaries of more than 64 bits

---
 zstream/reader.go | 18 ++++++++++++++----
 zstream/writer.go | 13 ++++++++++---
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/zstream/reader.go b/zstream/reader.go
index 72748f7..044bdde 100644
--- a/zstream/reader.go
+++ b/zstream/reader.go
@@ -54,15 +54,25 @@ func (r *BitReader) Align(boundary uint8) (int64, error) {
 		return r.reader.BitsCount, nil
 	}
 
-	_, err := r.ReadBits(d)
-	if err != nil {
-		return 0, fmt.Errorf("discard: %w", err)
+	for d > 0 {
+		// at most 64 bits can be read at once
+		n := d
+		if n > 64 {
+			n = 64
+		}
+		if _, err := r.ReadBits(n); err != nil {
+			return 0, fmt.Errorf("discard: %w", err)
+		}
+		d -= n
 	}
 
-	return r.reader.BitsCount, err
+	return r.reader.BitsCount, nil
 }
 
 func discard(count int64, boundary uint8) uint8 {
+	if boundary == 0 {
+		return 0
+	}
 	if misaligned := uint8(count % int64(boundary)); misaligned != 0 {
 		return boundary - misaligned
 	}
diff --git a/zstream/writer.go b/zstream/writer.go
index 5fb006b..accd97f 100644
--- a/zstream/writer.go
+++ b/zstream/writer.go
@@ -73,9 +73,16 @@ func (w *BitWriter) Align(boundary uint8) (int64, error) {
 		return w.writer.BitsCount, nil
 	}
 
-	err := w.WriteBits(0, d)
-	if err != nil {
-		return 0, fmt.Errorf("discard: %w", err)
+	for d > 0 {
+		// at most 64 bits can be written at once
+		n := d
+		if n > 64 {
+			n = 64
+		}
+		if err := w.WriteBits(0, n); err != nil {
+			return 0, fmt.Errorf("discard: %w", err)
+		}
+		d -= n
 	}
 
 	return w.writer.BitsCount, nil
-- 
2.43.0


From fc614de4b167aa976d05a8b5c3dabf13e5df3e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 41/80] fix: extern and bytes values must match their size

---
 ztype/bytes_encode.go  |  6 ++++++
 ztype/extern_encode.go | 18 ++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/ztype/bytes_encode.go b/ztype/bytes_encode.go
index fed6584..8dfb14e 100644
--- a/ztype/bytes_encode.go
+++ b/ztype/bytes_encode.go
@@ -4,6 +4,9 @@ import zserio "github.com/woven-planet/go-zserio"
 
 // WriteBytes writes an zserio bytes type (variable size byte buffer) from a reader.
 func WriteBytes(w zserio.Writer, b *BytesType) error {
+	if b == nil || uint64(len(b.Buffer)) != b.ByteSize {
+		return ErrInvalidBuffer
+	}
 	if err := WriteVarsize(w, b.ByteSize); err != nil {
 		return err
 	}
@@ -16,6 +19,9 @@ func WriteBytes(w zserio.Writer, b *BytesType) error {
 
 // BitSizeOfBytes returns the zserio bit size of a bytes value.
 func BitSizeOfBytes(b *BytesType) (int, error) {
+	if b == nil {
+		return 0, ErrInvalidBuffer
+	}
 	// the size in bytes is encoded as a varsize (max 5 bytes)
 	headerSize, err := UnsignedBitSize(b.ByteSize, 5)
 	if err != nil {
diff --git a/ztype/extern_encode.go b/ztype/extern_encode.go
index 7e04c4a..d46b692 100644
--- a/ztype/extern_encode.go
+++ b/ztype/extern_encode.go
@@ -1,9 +1,20 @@
 package ztype
 
-import zserio "github.com/woven-planet/go-zserio"
+import (
+	"errors"
+
+	zserio "github.com/woven-planet/go-zserio"
+)
+
+// ErrInvalidBuffer is returned when the buffer of an extern or bytes value does
+// not have the size given by the value.
+var ErrInvalidBuffer = errors.New("buffer does not match its size")
 
 // WriteExtern writes an zserio extern type (variable size bitbuffer) from a reader.
 func WriteExtern(w zserio.Writer, e *ExternType) error {
+	if e == nil || uint64(len(e.Buffer)) < e.BitSize/8+(e.BitSize%8+7)/8 {
+		return ErrInvalidBuffer
+	}
 	if err := WriteVarsize(w, e.BitSize); err != nil {
 		return err
 	}
@@ -17,7 +28,7 @@ func WriteExtern(w zserio.Writer, e *ExternType) error {
 
 	// and the remaining 1-7 bits
 	if remainingBits != 0 {
-		lastByte := uint64(e.Buffer[len(e.Buffer)-1])
+		lastByte := uint64(e.Buffer[numOfFullBytes])
 		numOfBitShift := 8 - remainingBits
 		lastByte = lastByte >> numOfBitShift
 		if err := w.WriteBits(lastByte, remainingBits); err != nil {
@@ -29,6 +40,9 @@ func WriteExtern(w zserio.Writer, e *ExternType) error {
 
 // BitSizeOfExtern returns the zserio bit size of an extern value.
 func BitSizeOfExtern(e *ExternType) (int, error) {
+	if e == nil {
+		return 0, ErrInvalidBuffer
+	}
 	// the size in bits is encoded as a varsize (max 5 bytes)
 	headerSize, err := UnsignedBitSize(e.BitSize, 5)
 	if err != nil {
-- 
2.43.0


From 3d273bf51b8e5db6ae550845741b4b9ba03c2a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 42/80] fix: do not allocate memory for array, string and
 buffer sizes that have not been validated

---
 ztype/array_decode.go        |  5 ++++-
 ztype/bytes_decode.go        | 27 ++++++++++++++++++++-------
 ztype/extern_decode.go       | 14 ++------------
 ztype/object_array_decode.go |  7 ++++++-
 ztype/string_decode.go       | 10 +++-------
 5 files changed, 35 insertions(+), 28 deletions(-)

diff --git a/ztype/array_decode.go b/ztype/array_decode.go
index 36f7c89..c037848 100644
--- a/ztype/array_decode.go
+++ b/ztype/array_decode.go
@@ -16,7 +16,10 @@ func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 		arraySize = int(u64ReadSize)
 	}
 
-	array.RawArray = make([]T, 0, arraySize)
+	if arraySize < 0 {
+		return ErrOutOfBounds
+	}
+	array.RawArray = make([]T, 0, min(arraySize, maxAllocationSize))
 
 	if arraySize > 0 {
 		var err error
diff --git a/ztype/bytes_decode.go b/ztype/bytes_decode.go
index af443d9..cb91a3b 100644
--- a/ztype/bytes_decode.go
+++ b/ztype/bytes_decode.go
@@ -1,7 +1,6 @@
 package ztype
 
 import (
-	"errors"
 	"io"
 
 	zserio "github.com/woven-planet/go-zserio"
@@ -16,13 +15,27 @@ func ReadBytes(r zserio.Reader) (*BytesType, error) {
 		return nil, err
 	}
 
-	b.Buffer = make([]byte, b.ByteSize)
-	n, err := io.ReadFull(r, b.Buffer)
-	if err != nil {
+	if b.Buffer, err = readBuffer(r, int(b.ByteSize)); err != nil {
 		return nil, err
 	}
-	if n != int(b.ByteSize) {
-		return nil, errors.New("read number of bytes didn't match")
-	}
 	return b, nil
 }
+
+// maxAllocationSize limits how many elements are allocated before any data has
+// been read.
+const maxAllocationSize = 4096
+
+// readBuffer reads a buffer with the given size. The size is not trusted, the
+// memory is allocated while the data is read.
+func readBuffer(r zserio.Reader, size int) ([]byte, error) {
+	buffer := make([]byte, 0, min(size, maxAllocationSize))
+	for len(buffer) < size {
+		start := len(buffer)
+		count := min(size-start, max(start, maxAllocationSize))
+		buffer = append(buffer, make([]byte, count)...)
+		if _, err := io.ReadFull(r, buffer[start:]); err != nil {
+			return nil, err
+		}
+	}
+	return buffer, nil
+}
diff --git a/ztype/extern_decode.go b/ztype/extern_decode.go
index f3aea2c..fd10e84 100644
--- a/ztype/extern_decode.go
+++ b/ztype/extern_decode.go
@@ -1,11 +1,6 @@
 package ztype
 
-import (
-	"errors"
-	"io"
-
-	zserio "github.com/woven-planet/go-zserio"
-)
+import zserio "github.com/woven-planet/go-zserio"
 
 // ReadExtern reads an zserio extern type (variable size bitbuffer) from a reader.
 func ReadExtern(r zserio.Reader) (*ExternType, error) {
@@ -18,14 +13,9 @@ func ReadExtern(r zserio.Reader) (*ExternType, error) {
 	numOfFullBytes := int(e.BitSize / 8)
 	remainingBits := uint8(e.BitSize % 8)
 
-	e.Buffer = make([]byte, numOfFullBytes, numOfFullBytes+1)
-	n, err := io.ReadFull(r, e.Buffer)
-	if err != nil {
+	if e.Buffer, err = readBuffer(r, numOfFullBytes); err != nil {
 		return nil, err
 	}
-	if n != numOfFullBytes {
-		return nil, errors.New("read number of bytes didn't match")
-	}
 	if remainingBits != 0 {
 		lastByte, err := r.ReadBits(remainingBits)
 		if err != nil {
diff --git a/ztype/object_array_decode.go b/ztype/object_array_decode.go
index 096a32e..b16e121 100644
--- a/ztype/object_array_decode.go
+++ b/ztype/object_array_decode.go
@@ -14,7 +14,10 @@ func (array *ObjectArray[T, PT]) UnmarshalZserio(reader zserio.Reader) ([]T, err
 		arraySize = int(u64ReadSize)
 	}
 
-	result := make([]T, arraySize)
+	if arraySize < 0 {
+		return nil, ErrOutOfBounds
+	}
+	result := make([]T, 0, min(arraySize, maxAllocationSize))
 	arrayTraits := ObjectArrayTraits[T, PT]{}
 
 	if arraySize > 0 {
@@ -32,6 +35,8 @@ func (array *ObjectArray[T, PT]) UnmarshalZserio(reader zserio.Reader) ([]T, err
 		}
 
 		for index := 0; index < arraySize; index++ {
+			var newElement T
+			result = append(result, newElement)
 			element = &result[index]
 			if array.SetCompoundParameterFn != nil {
 				array.SetCompoundParameterFn(index, element)
diff --git a/ztype/string_decode.go b/ztype/string_decode.go
index 8020e9f..f018b2b 100644
--- a/ztype/string_decode.go
+++ b/ztype/string_decode.go
@@ -1,10 +1,6 @@
 package ztype
 
-import (
-	"io"
-
-	zserio "github.com/woven-planet/go-zserio"
-)
+import zserio "github.com/woven-planet/go-zserio"
 
 // ReadString reads a string from the bitstream.
 func ReadString(r zserio.Reader) (string, error) {
@@ -12,8 +8,8 @@ func ReadString(r zserio.Reader) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	buf := make([]byte, size)
-	if _, err = io.ReadFull(r, buf); err != nil {
+	buf, err := readBuffer(r, int(size))
+	if err != nil {
 		return "", err
 	}
 	return string(buf), nil
-- 
2.43.0


From aefb23d41f68bcbc35aa11f173a13d4c85b31aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 43/80] fix: bit field array traits must not be cached in an
 unsynchronized global table

---
 ztype/array_traits.go | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index de84eb3..26cb3aa 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -102,29 +102,12 @@ type staticArrayTraits struct {
 	Int64     *SignedBitFieldArrayTraits[int64]
 }
 
-var (
-	mapSignedBitFieldArrayTraits []any = make([]any, 64)
-	mapBitFieldArrayTraits       []any = make([]any, 64)
-)
-
 func GetSignedBitFieldArrayTraits[T constraints.Signed](numBits uint8) *SignedBitFieldArrayTraits[T] {
-	traits := mapSignedBitFieldArrayTraits[numBits]
-	if traits == nil {
-		traits = &SignedBitFieldArrayTraits[T]{NumBits: uint8(numBits)}
-		mapSignedBitFieldArrayTraits[numBits] = traits
-	}
-
-	return traits.(*SignedBitFieldArrayTraits[T])
+	return &SignedBitFieldArrayTraits[T]{NumBits: numBits}
 }
 
 func GetBitFieldArrayTraits[T constraints.Unsigned](numBits uint8) *BitFieldArrayTraits[T] {
-	traits := mapBitFieldArrayTraits[numBits]
-	if traits == nil {
-		traits = &BitFieldArrayTraits[T]{NumBits: uint8(numBits)}
-		mapBitFieldArrayTraits[numBits] = traits
-	}
-
-	return traits.(*BitFieldArrayTraits[T])
+	return &BitFieldArrayTraits[T]{NumBits: numBits}
 }
 
 // Float16ArrayTraits is an array trait implementation for float16 arrays.
-- 
2.43.0


From 391c7bd8c67fbfe01e34ec44d2f97ca51b2a0f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 44/80] fix: report syntax errors and unsupported declarations
 instead of ignoring them or crashing

---
 internal/model/package.go   | 44 ++++++++++++++++++++++++++++++++-----
 internal/visitor/visitor.go |  7 ++++--
 2 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/internal/model/package.go b/internal/model/package.go
index 39b7b7a..925aab7 100644
--- a/internal/model/package.go
+++ b/internal/model/package.go
@@ -1,31 +1,65 @@
 package model
 
 import (
+	"errors"
+	"fmt"
+
 	"github.com/antlr/antlr4/runtime/Go/antlr/v4"
 	"github.com/woven-planet/go-zserio/internal/ast"
 	"github.com/woven-planet/go-zserio/internal/parser"
 	"github.com/woven-planet/go-zserio/internal/visitor"
 )
 
+// syntaxErrorListener collects all syntax errors of a file.
+type syntaxErrorListener struct {
+	*antlr.DefaultErrorListener
+	errs []error
+}
+
+func (l *syntaxErrorListener) SyntaxError(_ antlr.Recognizer, _ any, line, column int, msg string, _ antlr.RecognitionException) {
+	l.errs = append(l.errs, fmt.Errorf("line %d:%d: %s", line, column, msg))
+}
+
 func PackageFromFile(path string) (*ast.Package, error) {
 	input, err := antlr.NewFileStream(path)
 	if err != nil {
 		return nil, err
 	}
 
+	errorListener := &syntaxErrorListener{}
 	lexer := parser.NewZserioLexer(input)
+	lexer.AddErrorListener(errorListener)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := parser.NewZserioParser(stream)
-	p.AddErrorListener(antlr.NewDiagnosticErrorListener(true))
+	p.AddErrorListener(errorListener)
 	tree := p.PackageDeclaration()
-	visitor := &visitor.Visitor{}
+	if len(errorListener.errs) > 0 {
+		return nil, fmt.Errorf("%s: %w", path, errors.Join(errorListener.errs...))
+	}
 
+	pkg, err := visitPackage(tree)
+	if err != nil {
+		return nil, fmt.Errorf("%s: %w", path, err)
+	}
+	return pkg, nil
+}
+
+// visitPackage creates a package from the parsed tree of a file.
+func visitPackage(tree antlr.ParseTree) (pkg *ast.Package, err error) {
+	// The visitor aborts when it encounters a declaration that it does not
+	// support.
+	defer func() {
+		if r := recover(); r != nil {
+			pkg, err = nil, fmt.Errorf("unsupported declaration: %v", r)
+		}
+	}()
+
+	visitor := &visitor.Visitor{}
 	switch v := visitor.Visit(tree).(type) {
 	case error:
-		return nil, err
+		return nil, v
 	case *ast.Package:
 		return v, nil
 	}
-
-	panic("unexpected result from visitor")
+	return nil, errors.New("unexpected result from visitor")
 }
diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index 1a9138e..715d216 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -45,6 +45,9 @@ func (v *Visitor) VisitChildren(node antlr.RuleNode) any {
 }
 
 func (v *Visitor) VisitPackageDeclaration(ctx *parser.PackageDeclarationContext) any {
+	if ctx.PackageNameDefinition() == nil {
+		return errors.New("package name is missing")
+	}
 	pkg := ast.NewPackage(v.Visit(ctx.PackageNameDefinition().(antlr.ParseTree)).(string))
 	pkg.Comment = getComment(ctx.GetParser(), ctx.GetStart())
 
@@ -188,7 +191,7 @@ func (v *Visitor) VisitStructureFieldDefinition(ctx *parser.StructureFieldDefini
 	if a := ctx.FieldAlignment(); a != nil {
 		a, ok := v.Visit(a.(antlr.ParseTree)).(uint8)
 		if !ok {
-			return ErrAlignmentMustBeInteger
+			panic(ErrAlignmentMustBeInteger)
 		}
 		field.Alignment = a
 	}
@@ -629,7 +632,7 @@ func (v *Visitor) VisitFieldTypeId(ctx *parser.FieldTypeIdContext) any {
 		}
 		if ctx.IMPLICIT() != nil {
 			// http://zserio.org/doc/ZserioLanguageOverview.html#implicit-length-arrays
-			return ErrImplicitLengthArraysNotSupported
+			panic(ErrImplicitLengthArraysNotSupported)
 		}
 		if ctx.PACKED() != nil {
 			field.Array.IsPacked = true
-- 
2.43.0


From 45fe058cd747d5da4abe3b56def28937c3dc288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 45/80] fix: reject duplicate declarations instead of silently
 dropping one

---
 internal/model/model.go     |  3 +++
 internal/visitor/visitor.go | 30 ++++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/internal/model/model.go b/internal/model/model.go
index 5255496..eaf068e 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -95,6 +95,9 @@ func (m *Model) parseFile(path string) error {
 		return err
 	}
 
+	if _, exists := m.Packages[pkg.Name]; exists {
+		return fmt.Errorf("%s: package %q is already defined by another file", path, pkg.Name)
+	}
 	m.Packages[pkg.Name] = pkg
 	return nil
 }
diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index 715d216..22dccbe 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -58,8 +58,15 @@ func (v *Visitor) VisitPackageDeclaration(ctx *parser.PackageDeclarationContext)
 		}
 	}
 
+	declared := map[string]bool{}
 	for _, dir := range ctx.AllLanguageDirective() {
 		dirNode := v.Visit(dir.(antlr.ParseTree))
+		if name := declaredName(dirNode); name != "" {
+			if declared[name] {
+				return fmt.Errorf("%q is declared more than once", name)
+			}
+			declared[name] = true
+		}
 		switch n := dirNode.(type) {
 		case *ast.Const:
 			pkg.Consts[n.Name] = n
@@ -82,6 +89,29 @@ func (v *Visitor) VisitPackageDeclaration(ctx *parser.PackageDeclarationContext)
 	return pkg
 }
 
+// declaredName returns the name of a declaration.
+func declaredName(node any) string {
+	switch n := node.(type) {
+	case *ast.Const:
+		return n.Name
+	case *ast.Subtype:
+		return n.Name
+	case *ast.InstantiateType:
+		return n.Name
+	case *ast.Struct:
+		return n.Name
+	case *ast.Enum:
+		return n.Name
+	case *ast.Union:
+		return n.Name
+	case *ast.BitmaskType:
+		return n.Name
+	case *ast.Choice:
+		return n.Name
+	}
+	return ""
+}
+
 func (v *Visitor) VisitPackageNameDefinition(ctx *parser.PackageNameDefinitionContext) any {
 	// It would be nice of the grammar just reused qualifiedName here, but for some
 	// reason they opted for "id (DOT id)*" again.
-- 
2.43.0


From 36abd0eec3ca8c8ae9205995ae5615d51074b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 46/80] fix: read all schema files of every directory argument

---
 internal/model/model.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/internal/model/model.go b/internal/model/model.go
index eaf068e..8d88ef4 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io/fs"
 	"log"
+	"os"
 	"path/filepath"
 	"strings"
 
@@ -42,16 +43,24 @@ func FromFilesystem(paths ...string) (*Model, error) {
 		return nil, errors.New("at least a single path must be given")
 	}
 
-	if len(paths) != 1 {
-		return FromFiles(paths...)
-	}
-
-	paths, err := walkDir(paths[0])
-	if err != nil {
-		return nil, err
+	var files []string
+	for _, path := range paths {
+		info, err := os.Stat(path)
+		if err != nil {
+			return nil, err
+		}
+		if !info.IsDir() {
+			files = append(files, path)
+			continue
+		}
+		dirFiles, err := walkDir(path)
+		if err != nil {
+			return nil, err
+		}
+		files = append(files, dirFiles...)
 	}
 
-	return FromFiles(paths...)
+	return FromFiles(files...)
 }
 
 func walkDir(root string) ([]string, error) {
@@ -61,7 +70,7 @@ func walkDir(root string) ([]string, error) {
 			return err
 		}
 		if d.IsDir() {
-			if strings.HasPrefix(d.Name(), ".") {
+			if path != root && strings.HasPrefix(d.Name(), ".") {
 				return filepath.SkipDir
 			}
 			return nil
-- 
2.43.0


From cfb6a58100d8fbde58e90eb62875fb16f442f8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 47/80] fix: only generate the requested package when writing
 to a directory

---
 internal/generator/gen.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 35d6d7a..30f21f0 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -88,6 +88,15 @@ func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags
 		return generatePackage(rootPath, pkg, opts)
 	}
 
+	if outputPackage != "" {
+		pkg, ok := m.Packages[outputPackage]
+		if !ok {
+			return fmt.Errorf("package %q not found", outputPackage)
+		}
+
+		return generatePackage(rootPath, pkg, opts)
+	}
+
 	for _, pkg := range m.Packages {
 		if err := generatePackage(rootPath, pkg, opts); err != nil {
 			return err
-- 
2.43.0


From cb0a89b9d38a68a455721c96e5cc9dc971da4723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 48/80] fix: a maximum path length of 0 means no limit

---
 internal/generator/gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 30f21f0..d184a30 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -148,7 +148,7 @@ func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (str
 		uniquePaths = make(map[string]int)
 	}
 
-	if minLength := len(outputDir) + FileSuffixLength + MinFileNameLength; maxPathLength < minLength {
+	if minLength := len(outputDir) + FileSuffixLength + MinFileNameLength; maxPathLength > 0 && maxPathLength < minLength {
 		return "", fmt.Errorf("maximum path length %d is too short, at least %d required to fit output directory", maxPathLength, minLength)
 	}
 
-- 
2.43.0


From d2c4e965f9516f830fa4c6b9f7e9bb751cb5938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 49/80] fix: parse files that are found by several arguments
 only once

---
 internal/model/model.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/model/model.go b/internal/model/model.go
index 8d88ef4..fc0220f 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -60,7 +60,17 @@ func FromFilesystem(paths ...string) (*Model, error) {
 		files = append(files, dirFiles...)
 	}
 
-	return FromFiles(files...)
+	// a file may be found by several arguments
+	var uniqueFiles []string
+	known := map[string]bool{}
+	for _, file := range files {
+		if file = filepath.Clean(file); !known[file] {
+			known[file] = true
+			uniqueFiles = append(uniqueFiles, file)
+		}
+	}
+
+	return FromFiles(uniqueFiles...)
 }
 
 func walkDir(root string) ([]string, error) {
-- 
2.43.0


From 55fdc718cab7e5f7f7c6ab054da97484337d52b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 50/80] fix: generated file names must be distinct, fit the
 maximum path length and not be excluded from Go builds

---
 internal/generator/gen.go | 62 ++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index d184a30..2435402 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -152,25 +152,59 @@ func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (str
 		return "", fmt.Errorf("maximum path length %d is too short, at least %d required to fit output directory", maxPathLength, minLength)
 	}
 
-	outputFile := path.Join(outputDir, fn)
-
-	if maxPathLength > 0 {
-		maxLength := maxPathLength - FileSuffixLength
-		if len(outputFile) > maxLength {
-			outputFile = outputFile[:maxLength]
-			if strings.Contains(outputFile, "_") && strings.LastIndex(outputFile, "_") > strings.LastIndex(outputFile, "/") {
-				outputFile = outputFile[:strings.LastIndex(outputFile, "_")]
+	for count := 0; ; count++ {
+		index := ""
+		if count > 0 {
+			index = fmt.Sprintf("_%d", count)
+		}
+
+		outputFile := path.Join(outputDir, fn)
+		if maxPathLength > 0 {
+			maxLength := maxPathLength - max(FileSuffixLength, len(index)+len(FileSuffix))
+			if maxLength < len(outputDir)+MinFileNameLength {
+				return "", fmt.Errorf("maximum path length %d is too short for the number of generated files", maxPathLength)
+			}
+			if len(outputFile) > maxLength {
+				outputFile = outputFile[:maxLength]
+				if lastIndex := strings.LastIndex(outputFile, "_"); lastIndex > strings.LastIndex(outputFile, "/")+1 {
+					outputFile = outputFile[:lastIndex]
+				}
 			}
 		}
+
+		outputFile += index
+		if hasBuildConstraint(path.Base(outputFile)) {
+			outputFile += "_"
+		}
+		outputFile += FileSuffix
+		if maxPathLength > 0 && len(outputFile) > maxPathLength {
+			continue
+		}
+		if _, exists := uniquePaths[outputFile]; !exists {
+			uniquePaths[outputFile] = count
+			return outputFile, nil
+		}
 	}
+}
 
-	if count, ok := uniquePaths[outputFile]; ok {
-		uniquePaths[outputFile]++
-		return fmt.Sprintf("%s_%d%s", outputFile, count, FileSuffix), nil
-	} else {
-		uniquePaths[outputFile] = 1
-		return fmt.Sprintf("%s%s", outputFile, FileSuffix), nil
+// hasBuildConstraint checks if the Go tools would only build a file with the
+// given name (without suffix) for tests, or for some operating systems or
+// architectures.
+func hasBuildConstraint(name string) bool {
+	parts := strings.Split(name, "_")
+	if len(parts) < 2 {
+		return false
+	}
+	switch parts[len(parts)-1] {
+	case "test",
+		"aix", "android", "darwin", "dragonfly", "freebsd", "hurd", "illumos", "ios", "js", "linux", "nacl",
+		"netbsd", "openbsd", "plan9", "solaris", "wasip1", "windows", "zos",
+		"386", "amd64", "amd64p32", "arm", "armbe", "arm64", "arm64be", "loong64", "mips", "mipsle", "mips64",
+		"mips64le", "mips64p32", "mips64p32le", "ppc", "ppc64", "ppc64le", "riscv", "riscv64", "s390", "s390x",
+		"sparc", "sparc64", "wasm":
+		return true
 	}
+	return false
 }
 
 func writeGoSource(w io.Writer, code []byte, doNotFormatCode bool) error {
-- 
2.43.0


From d51248db8e3e68d8c2cbc3d1d022f8e4d375d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 51/80] fix: types with similar names must always be written to
 the same files

---
 internal/generator/gen.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 2435402..9bf46a8 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -235,6 +235,7 @@ func writeGoSource(w io.Writer, code []byte, doNotFormatCode bool) error {
 // output allows us easier passing of arguments to write packages.
 type output struct {
 	name         string // the name of the data structure that is output
+	typeName     string // the name of the type, which is unique in a package
 	template     string // template file name
 	data         data
 	withPreamble bool
@@ -282,7 +283,9 @@ func newTypeOutput(astType any, d data, withPreamble bool, opts *options) output
 		templateData[k] = v
 	}
 	templateData[typeName] = astType
-	return newOutput(strcase.ToSnake(name), typeName+".go.tmpl", templateData, withPreamble, opts)
+	out := newOutput(strcase.ToSnake(name), typeName+".go.tmpl", templateData, withPreamble, opts)
+	out.typeName = name
+	return out
 }
 
 func (o *output) executeTemplate(w io.Writer) error {
@@ -337,6 +340,9 @@ func newOutputs(pkg *ast.Package, rootPackage string, opts *options) []output {
 
 	sort.Slice(outs, func(i, j int) bool {
 		if outs[i].template == outs[j].template {
+			if outs[i].name == outs[j].name {
+				return outs[i].typeName > outs[j].typeName
+			}
 			return outs[i].name > outs[j].name
 		}
 
-- 
2.43.0


From 8b7a1c37a4429ec34b3fd90916cdc5d3602f68a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:40 +0000
Subject: [PATCH 52/80] fix: support imports of single symbols

---
 internal/ast/package.go     | 49 +++++++++++++++++++++++++++++--------
 internal/generator/funcs.go |  2 +-
 internal/model/transform.go |  8 ++++++
 internal/visitor/visitor.go | 12 ++++-----
 4 files changed, 53 insertions(+), 18 deletions(-)

diff --git a/internal/ast/package.go b/internal/ast/package.go
index 7675ade..f07f338 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -22,10 +22,28 @@ type Package struct {
 	Structs           map[string]*Struct
 	Choices           map[string]*Choice
 
+	// ImportedPackages are the packages of which all symbols are imported.
 	ImportedPackages []*Package
+	// ImportedSymbols are the symbols that are imported one by one.
+	ImportedSymbols []*ImportedSymbol
 	LocalSymbols     *SymbolScope
 }
 
+// ImportedSymbol is a single symbol that is imported from another package.
+type ImportedSymbol struct {
+	Name    string
+	Package *Package
+}
+
+// ImportedScopes returns all packages from which anything is imported.
+func (p *Package) ImportedScopes() []*Package {
+	scopes := append([]*Package{}, p.ImportedPackages...)
+	for _, importedSymbol := range p.ImportedSymbols {
+		scopes = append(scopes, importedSymbol.Package)
+	}
+	return scopes
+}
+
 // OriginalTypeReference is a reference to the original zserio type, for example
 // fundamental types, but also enums/structs, that were aliased by a subtype.
 type OriginalTypeReference struct {
@@ -234,7 +252,17 @@ func (p *Package) GetType(name string) (*SymbolReference, error) {
 		return typeSymbol, nil
 	}
 
-	// If the symbol was not found in the local scope, check all imported scopes
+	// If the symbol was not found in the local scope, check all imported symbols,
+	// and all imported scopes
+	for _, importedSymbol := range p.ImportedSymbols {
+		if importedSymbol.Name != name {
+			continue
+		}
+		if typeSymbol, err := importedSymbol.Package.LocalSymbols.GetType(name); err == nil {
+			typeSymbol.Package = importedSymbol.Package.Name
+			return typeSymbol, nil
+		}
+	}
 	for _, importedPackage := range p.ImportedPackages {
 		if typeSymbol, err := importedPackage.LocalSymbols.GetType(name); err == nil {
 			typeSymbol.Package = importedPackage.Name
@@ -273,7 +301,7 @@ func (p *Package) GetCompoundType(compoundSymbolName, name string) (*SymbolRefer
 	}
 
 	// check all imported scopes
-	for _, importedPackage := range p.ImportedPackages {
+	for _, importedPackage := range p.ImportedScopes() {
 		if typeSymbol, err := importedPackage.LocalSymbols.GetCompoundType(compoundSymbolName, name); err == nil {
 			typeSymbol.Package = importedPackage.Name
 			return typeSymbol, nil
@@ -463,17 +491,18 @@ func (p *Package) GetImportedScope(name string) (*Package, error) {
 	if name == p.Name {
 		return p, nil
 	}
-	for _, pkg := range p.ImportedPackages {
+	// check the imports, the imports of all imports, and so on
+	visited := map[*Package]bool{p: true}
+	for scopes := p.ImportedScopes(); len(scopes) > 0; scopes = scopes[1:] {
+		pkg := scopes[0]
+		if visited[pkg] {
+			continue
+		}
+		visited[pkg] = true
 		if pkg.Name == name {
 			return pkg, nil
 		}
-	}
-	// still not found? try the imports of all imports
-	for _, pkg := range p.ImportedPackages {
-		obj, err := pkg.GetImportedScope(name)
-		if err == nil {
-			return obj, nil
-		}
+		scopes = append(scopes, pkg.ImportedScopes()...)
 	}
 	return nil, errors.New("scope does not exist, or has not been imported")
 }
diff --git a/internal/generator/funcs.go b/internal/generator/funcs.go
index e33110e..5834b21 100644
--- a/internal/generator/funcs.go
+++ b/internal/generator/funcs.go
@@ -35,7 +35,7 @@ func GoGetAllImports(pkg *ast.Package) []string {
 	alreadyProcessed := map[string]bool{}
 
 	for {
-		for _, importPkg := range pkg.ImportedPackages {
+		for _, importPkg := range pkg.ImportedScopes() {
 			// check if this package is already processed
 			if _, exists := alreadyProcessed[importPkg.Name]; exists {
 				continue
diff --git a/internal/model/transform.go b/internal/model/transform.go
index b892613..af03c08 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -592,7 +592,15 @@ func (m *Model) ResolveImports() error {
 			}
 			if imp.Type == "*" {
 				pkg.ImportedPackages = append(pkg.ImportedPackages, iPkg)
+				continue
+			}
+			if !iPkg.HasType(imp.Type) {
+				return UnknownType{ast.TypeReference{Package: imp.Package, Name: imp.Type}}
 			}
+			pkg.ImportedSymbols = append(pkg.ImportedSymbols, &ast.ImportedSymbol{
+				Name:    imp.Type,
+				Package: iPkg,
+			})
 		}
 	}
 	return nil
diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index 22dccbe..bbd7e9b 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -141,19 +141,17 @@ out:
 }
 
 func (v *Visitor) VisitImportDeclaration(ctx *parser.ImportDeclarationContext) any {
+	// the children are: "import" name ("." name)* "." (name | "*") ";"
 	children := ctx.GetChildren()
 	parts := []string{}
-	for i := 1; i < len(children)-2; i++ {
+	for i := 1; i < len(children)-1; i++ {
 		parts = append(parts, children[i].(antlr.ParseTree).GetText())
 	}
 
-	symbolName := parts[len(parts)-1]
-	if ctx.MULTIPLY() != nil {
-		symbolName = "*"
-	}
+	// leave out the dot in front of the symbol
 	return &ast.Import{
-		Package: strings.Join(parts[:len(parts)-1], ""),
-		Type:    symbolName,
+		Package: strings.Join(parts[:len(parts)-2], ""),
+		Type:    parts[len(parts)-1],
 	}
 }
 
-- 
2.43.0


From 63d9cd6f2bc3c65b870f6988124d3501dc4b5308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 53/80] fix: evaluate symbols in the package that declares them

---
 internal/ast/bitmask.go    |  8 ++++
 internal/ast/enum.go       |  8 ++++
 internal/ast/expression.go | 86 ++++++++++++++++++--------------------
 internal/ast/package.go    | 10 -----
 4 files changed, 57 insertions(+), 55 deletions(-)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index 1f5c9d2..bf4fd38 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -21,6 +21,11 @@ func findNextFreeBit(lastValue int64) int64 {
 }
 
 func (bitmask *BitmaskType) Evaluate(p *Package) error {
+	return bitmask.evaluateUpTo(p, nil)
+}
+
+// evaluateUpTo evaluates the values up to the given one (all if nil).
+func (bitmask *BitmaskType) evaluateUpTo(p *Package, last *BitmaskValue) error {
 	for ix, value := range bitmask.Values {
 		if value.Expression == nil {
 			if ix == 0 {
@@ -44,6 +49,9 @@ func (bitmask *BitmaskType) Evaluate(p *Package) error {
 				return err
 			}
 		}
+		if value == last {
+			break
+		}
 	}
 	return nil
 }
diff --git a/internal/ast/enum.go b/internal/ast/enum.go
index edd44cc..68dc843 100644
--- a/internal/ast/enum.go
+++ b/internal/ast/enum.go
@@ -29,6 +29,11 @@ func (e *Enum) AddItem(i *EnumItem) *EnumItem {
 }
 
 func (e *Enum) Evaluate(scope *Package) error {
+	return e.evaluateUpTo(scope, nil)
+}
+
+// evaluateUpTo evaluates the items up to the given one (all if nil).
+func (e *Enum) evaluateUpTo(scope *Package, last *EnumItem) error {
 	for ix, item := range e.Items {
 		if item.Expression == nil {
 			if ix == 0 {
@@ -52,6 +57,9 @@ func (e *Enum) Evaluate(scope *Package) error {
 				return err
 			}
 		}
+		if item == last {
+			break
+		}
 	}
 	return nil
 }
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 6d58115..b40c670 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -185,13 +185,25 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 
 	// Some symbols, such as consts, can be directly resolved.
 	if constSymbol, ok := symbol.Symbol.(*Const); ok {
-		constSymbol.ValueExpression.Evaluate(scope)
+		constScope, err := scope.GetImportedScope(symbol.Package)
+		if err != nil {
+			return err
+		}
+		if err := constSymbol.Evaluate(constScope); err != nil {
+			return err
+		}
 		copyExpressionResult(constSymbol.ValueExpression, expr)
 		return nil
 	}
 
 	if enumItem, ok := symbol.Symbol.(*EnumItem); ok {
-		enumItem.Evaluate(scope)
+		enumScope, err := scope.GetImportedScope(symbol.Package)
+		if err != nil {
+			return err
+		}
+		if err := enumItem.enum.evaluateUpTo(enumScope, enumItem); err != nil {
+			return err
+		}
 		copyExpressionResult(enumItem.Expression, expr)
 		return nil
 	}
@@ -248,50 +260,25 @@ func (expr *Expression) evaluateCompoundDotExpression(scope *Package) error {
 	}
 
 	// look up through all levels of indirections (subtypes)
-	var compoundSymbol *SymbolReference
-	newScope := scope
-	var err error
-	for {
-		compoundSymbol, err = scope.GetSymbol(typeReference.Name)
-		if err != nil {
-			return err
-		}
-		newScope, err = newScope.GetImportedScope(compoundSymbol.Package)
-		if err != nil {
-			return err
-		}
-		if subtype, ok := compoundSymbol.Symbol.(*Subtype); ok {
-			typeReference = subtype.Type
-			// TODO comment
-			newScope, err = newScope.GetImportedScope(typeReference.Package)
-			if err != nil {
-				return err
-			}
-			continue
-		}
-		break
+	originalType, err := scope.GetOriginalType(typeReference)
+	if err != nil {
+		return err
 	}
-
-	if _, ok := compoundSymbol.Symbol.(*Struct); ok {
-		symbol, err := scope.GetCompoundType(compoundSymbol.Name, expr.Operand2.Text)
-		if err != nil {
-			return err
-		}
-		expr.ResultSymbol = symbol
-		expr.ResultType, expr.NativeZserioType, err = evaluateSymbolType(symbol, newScope)
+	if originalType.Type.IsBuiltin {
+		return errors.New("compound type is not supported")
+	}
+	compoundScope, err := scope.GetImportedScope(originalType.Type.Package)
+	if err != nil {
 		return err
 	}
-
-	if _, ok := compoundSymbol.Symbol.(*Choice); ok {
-		symbol, err := scope.GetCompoundType(compoundSymbol.Name, expr.Operand2.Text)
-		if err != nil {
-			return err
-		}
-		expr.ResultSymbol = symbol
-		expr.ResultType, expr.NativeZserioType, err = evaluateSymbolType(symbol, newScope)
+	symbol, err := compoundScope.LocalSymbols.GetCompoundType(originalType.Type.Name, expr.Operand2.Text)
+	if err != nil {
 		return err
 	}
-	return errors.New("compound type is not supported")
+	symbol.Package = compoundScope.Name
+	expr.ResultSymbol = symbol
+	expr.ResultType, expr.NativeZserioType, err = evaluateSymbolType(symbol, compoundScope)
+	return err
 }
 
 func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
@@ -404,10 +391,12 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 		if enum, ok := op1Symbol.Symbol.(*Enum); ok {
 			for _, enumItem := range enum.Items {
 				if enumItem.Name == expr.Operand2.Text {
-					if enumItem.EvaluationState != EvaluationStateComplete {
-						if err := enum.Evaluate(scope); err != nil {
-							return fmt.Errorf("recursive evaluation of %q: %w", enum.Name, err)
-						}
+					enumScope, err := scope.GetImportedScope(op1Symbol.Package)
+					if err != nil {
+						return err
+					}
+					if err := enum.evaluateUpTo(enumScope, enumItem); err != nil {
+						return fmt.Errorf("recursive evaluation of %q: %w", enum.Name, err)
 					}
 					copyExpressionResult(enumItem.Expression, expr)
 					return nil
@@ -418,6 +407,13 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 		if bitmask, ok := op1Symbol.Symbol.(*BitmaskType); ok {
 			for _, bitmaskValue := range bitmask.Values {
 				if bitmaskValue.Name == expr.Operand2.Text {
+					bitmaskScope, err := scope.GetImportedScope(op1Symbol.Package)
+					if err != nil {
+						return err
+					}
+					if err := bitmask.evaluateUpTo(bitmaskScope, bitmaskValue); err != nil {
+						return fmt.Errorf("recursive evaluation of %q: %w", bitmask.Name, err)
+					}
 					expr.ResultIntValue = bitmaskValue.Expression.ResultIntValue
 					expr.ResultType = ExpressionTypeBitmask
 					return nil
diff --git a/internal/ast/package.go b/internal/ast/package.go
index f07f338..433dc61 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -281,16 +281,6 @@ func (p *Package) GetCurrentCompoundType(name string) (*SymbolReference, error)
 			return typeSymbol, nil
 		}
 	}
-
-	// check all imported scopes
-	for _, importedPackage := range p.ImportedPackages {
-		if importedPackage.LocalSymbols.CurrentCompoundScope != nil {
-			if typeSymbol, err := importedPackage.LocalSymbols.GetCompoundType(*importedPackage.LocalSymbols.CurrentCompoundScope, name); err == nil {
-				typeSymbol.Package = importedPackage.Name
-				return typeSymbol, nil
-			}
-		}
-	}
 	return nil, errors.New("compound symbol not found")
 }
 
-- 
2.43.0


From aa9b18eb151f296d29ed595d677cfb7b255cc302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 54/80] fix: values of enum items and bitmasks in expressions

---
 internal/ast/expression.go       | 40 +++++++++++++++++++++++++++-----
 internal/generator/expression.go |  6 ++++-
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index b40c670..cc31314 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -216,17 +216,45 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 }
 
 // evaluateValueOfOperator evaluates a value of operator.
-func (expr *Expression) evaluateValueOfOperator() error {
+func (expr *Expression) evaluateValueOfOperator(scope *Package) error {
 	if expr.Operand1 == nil {
 		return errors.New("valueof operator needs one operand")
 	}
-	if expr.Operand1.ResultType != ExpressionTypeEnum &&
-		expr.Operand1.ResultType != ExpressionTypeBitmask {
+	operand := expr.Operand1
+	for operand.Type == parser.ZserioParserLPAREN {
+		operand = operand.Operand1
+	}
+	typeSymbol := operand.ResultSymbol
+	if operand.Type == parser.ZserioParserDOT &&
+		(operand.Operand1.ResultType == ExpressionTypeEnum || operand.Operand1.ResultType == ExpressionTypeBitmask) {
+		// the value of an item is known already
+		typeSymbol = operand.Operand1.ResultSymbol
+		expr.FullyResolved = true
+	} else if operand.ResultType != ExpressionTypeEnum && operand.ResultType != ExpressionTypeBitmask {
 		return errors.New("valueof operator needs an expression or bitmask type")
 	}
 	expr.ResultType = ExpressionTypeInteger
-	expr.ResultIntValue = expr.Operand1.ResultIntValue
-	return nil
+	expr.ResultIntValue = operand.ResultIntValue
+
+	// the value has the underlying type of the enum or bitmask
+	if typeSymbol == nil {
+		return nil
+	}
+	typeSymbol, err := scope.GetOriginalSymbol(typeSymbol)
+	if err != nil {
+		return err
+	}
+	var typeRef *TypeReference
+	switch n := typeSymbol.Symbol.(type) {
+	case *Enum:
+		typeRef = n.Type
+	case *BitmaskType:
+		typeRef = n.Type
+	default:
+		return nil
+	}
+	_, expr.NativeZserioType, err = evaluateExpressionType(typeRef, scope)
+	return err
 }
 
 // evaluateNumBitsOperator evaluates a bit counter operator.
@@ -888,7 +916,7 @@ func (expr *Expression) Evaluate(scope *Package) error {
 	case parser.ZserioParserLENGTHOF:
 		err = expr.evaluateLengthOfOperator(scope)
 	case parser.ZserioParserVALUEOF:
-		err = expr.evaluateValueOfOperator()
+		err = expr.evaluateValueOfOperator(scope)
 	case parser.ZserioParserNUMBITS:
 		err = expr.evaluateNumBitsOperator()
 	case parser.ZserioParserPLUS:
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index b8f0039..83828ee 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -437,7 +437,11 @@ func lenOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 }
 
 func valueOfOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	return ExpressionToGoString(scope, expression.Operand1)
+	value := ExpressionToGoString(scope, expression.Operand1)
+	if goType := integerGoType(scope, expression); goType != "" {
+		return fmt.Sprintf("%s(%s)", goType, value)
+	}
+	return value
 }
 
 // floatToGoString prints a float constant without losing precision.
-- 
2.43.0


From 44c9505de6e31ca8c3d9693beed14c8af3f7a4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:27 +0000
Subject: [PATCH 55/80] fix: bitmask values given by a subtype

---
 internal/generator/expression.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 83828ee..7b7ebaf 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -94,7 +94,20 @@ func dotOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 		}
 		return enumValue
 	} else if expression.Operand1.ResultType == ast.ExpressionTypeBitmask {
-		return leftText + rightText
+		// the constants are only defined for the original type
+		originalType, err := scope.OriginalType(
+			&ast.TypeReference{
+				Name:    expression.Operand1.ResultSymbol.Name,
+				Package: expression.Operand1.ResultSymbol.Package,
+			})
+		if err != nil {
+			return "BITMASK_TYPE_LOOKUP_FAILED"
+		}
+		originalBitmaskType, err := GoType(scope, originalType.Type)
+		if err != nil {
+			return "BITMASK_GO_TYPE_DEDUCTION_FAILED"
+		}
+		return originalBitmaskType + rightText
 	}
 	return fmt.Sprintf("%s.%s", leftText, rightText)
 }
-- 
2.43.0


From f6c22620f1e8f8b8aaca966041d286d4f640a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:27 +0000
Subject: [PATCH 56/80] fix: choice selectors and conditions that are
 expressions

---
 internal/ast/choice.go                      | 51 ++++++++++++++-------
 internal/generator/templates/choice.go.tmpl | 34 ++++++++------
 2 files changed, 54 insertions(+), 31 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index d91832d..77933ce 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -1,8 +1,6 @@
 package ast
 
 import (
-	"errors"
-
 	"github.com/woven-planet/go-zserio/internal/parser"
 )
 
@@ -55,7 +53,28 @@ func (choice *Choice) BuildScope(p *Package) error {
 
 // fullySpecifyChoiceConditions fully specifies a choice condition in case the
 // choice case is given as a text, but not a fully determined symbol.
-func (choice *Choice) fullySpecifyChoiceConditions() error {
+func (choice *Choice) fullySpecifyChoiceConditions(p *Package) error {
+	selector := choice.SelectorExpression
+	if selector.ResultSymbol == nil ||
+		(selector.ResultType != ExpressionTypeEnum && selector.ResultType != ExpressionTypeBitmask) {
+		return nil
+	}
+	typeSymbol, err := p.GetOriginalSymbol(selector.ResultSymbol)
+	if err != nil {
+		return err
+	}
+	items := map[string]bool{}
+	switch n := typeSymbol.Symbol.(type) {
+	case *Enum:
+		for _, item := range n.Items {
+			items[item.Name] = true
+		}
+	case *BitmaskType:
+		for _, value := range n.Values {
+			items[value.Name] = true
+		}
+	}
+
 	for _, choiceCase := range choice.Cases {
 		for _, condition := range choiceCase.Conditions {
 			// in case the choice case is just a text string, replace that
@@ -63,27 +82,27 @@ func (choice *Choice) fullySpecifyChoiceConditions() error {
 			// symbol is unique. If this is not done, the text value might be
 			// ambiguous, for example if the value  is defined in more than one enum.
 			// e.g. VALUE -> EnumType.VALUE
-			if condition.Condition.Type == parser.ZserioParserID {
-				// convert the selector from the parameter type to the underlying
-				// actual type (e.g. enum, bitfield)
-				parameterType, ok := choice.SelectorExpression.ResultSymbol.Symbol.(*Parameter)
-				if !ok {
-					return errors.New("choice selector type is not a parameter")
-				}
-				dotExpression := &Expression{
+			if condition.Condition.Type == parser.ZserioParserID && items[condition.Condition.Text] {
+				condition.Condition = &Expression{
 					Type: parser.ZserioParserDOT,
 					Operand1: &Expression{
-						Type: parser.ZserioParserID,
-						Text: parameterType.Type.Name,
+						Type:            parser.ZserioParserID,
+						Text:            typeSymbol.Name,
+						EvaluationState: EvaluationStateComplete,
+						ResultType:      selector.ResultType,
+						ResultSymbol:    typeSymbol,
+					},
+					Operand2: &Expression{
+						Type: parser.UnevaluatableExpressionType,
+						Text: condition.Condition.Text,
 					},
-					Operand2: condition.Condition,
 				}
-				condition.Condition = dotExpression
 			}
 		}
 	}
 	return nil
 }
+
 func (choice *Choice) Evaluate(p *Package) error {
 	// Ignore templates
 	if len(choice.TemplateParameters) > 0 {
@@ -98,7 +117,7 @@ func (choice *Choice) Evaluate(p *Package) error {
 	}
 
 	// Fully specify the choice condition symbols
-	if err := choice.fullySpecifyChoiceConditions(); err != nil {
+	if err := choice.fullySpecifyChoiceConditions(p); err != nil {
 		return err
 	}
 
diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index f9fabbb..5f1c275 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -1,7 +1,11 @@
 {{- define "choice_conditions" }}
     {{- range $i, $condition := .conditions -}}
         {{- if $i }}, {{ end -}}
-        {{- $condition.Condition.ResultIntValue -}}
+        {{- if eq $condition.Condition.ResultType "bool" -}}
+            {{- $condition.Condition.ResultBoolValue -}}
+        {{- else -}}
+            {{- $condition.Condition.ResultIntValue -}}
+        {{- end -}}
     {{- end -}}
 {{ end -}}
 {{ $scope := .pkg }} 
@@ -42,7 +46,7 @@ func (v *{{ $choice.Name}}) LoadDefaultValues() error {
 // MarshalZserio implements the zserio.Marshaler interface.
 func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
   var err error
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch ({{ goExpression $scope $expr }}) {
 {{- range $case := $choice.Cases }}
   case {{ template "choice_conditions" dict "conditions" .Conditions }}:
   {{- if .Field }}
@@ -55,7 +59,7 @@ func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
    {{- template "encode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
   {{- end }}
 {{- else }}
-    return fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", v.{{ $expr.ResultSymbol.Symbol.Name }})
+    return fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", {{ goExpression $scope $expr }})
 {{- end }}
   }
   _ = err // to avoid "declared but not used" warning
@@ -65,7 +69,7 @@ func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
 // UnmarshalZserio implements the zserio.Unmarshaler interface.
 func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
     var err error
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch ({{ goExpression $scope $expr }}) {
 {{- range $case := $choice.Cases }}
   case {{ template "choice_conditions" dict "conditions" .Conditions }}:
   {{- if .Field }}
@@ -78,7 +82,7 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
    {{- template "decode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
   {{- end }}
 {{- else }}
-    return fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", v.{{ $expr.ResultSymbol.Symbol.Name }})
+    return fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", {{ goExpression $scope $expr }})
 {{- end }}
   }
   _ = err // to avoid "declared but not used" warning
@@ -90,7 +94,7 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
 // ZserioBitSize implements the zserio.Marshaler interface.
 func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch ({{ goExpression $scope $expr }}) {
 {{- range $case := $choice.Cases }}
   case {{ template "choice_conditions" dict "conditions" .Conditions }}:
   {{- if .Field }}
@@ -103,7 +107,7 @@ func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
    {{- template "bitsizeof.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "isarray" false}}
   {{- end }}
 {{- else }}
-    return 0, fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", v.{{ $expr.ResultSymbol.Symbol.Name }})
+    return 0, fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", {{ goExpression $scope $expr }})
 {{- end }}
   }
   return endBitPosition - bitPosition, nil
@@ -124,7 +128,7 @@ func (v *{{ $choice.Name}}) ZserioCreatePackingContext(contextNode *zserio.Packi
 func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) error {
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
-    switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+    switch ({{ goExpression $scope $expr }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
       case {{ template "choice_conditions" dict "conditions" .Conditions }}:
@@ -139,7 +143,7 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
     {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
     {{- end }}
   {{- else }}
-      return fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", v.{{ $expr.ResultSymbol.Symbol.Name }})
+      return fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", {{ goExpression $scope $expr }})
   {{- end }}
   }
   return nil
@@ -149,7 +153,7 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
     var err error
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
-    switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+    switch ({{ goExpression $scope $expr }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
       case {{ template "choice_conditions" dict "conditions" .Conditions }}:
@@ -164,7 +168,7 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
     {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
     {{- end }}
   {{- else }}
-      return fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", v.{{ $expr.ResultSymbol.Symbol.Name }})
+      return fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", {{ goExpression $scope $expr }})
   {{- end }}
   }
     _ = err // to avoid "declared but not used" warning
@@ -175,7 +179,7 @@ func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingConte
     var err error
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
-    switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+    switch ({{ goExpression $scope $expr }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
       case {{ template "choice_conditions" dict "conditions" .Conditions }}:
@@ -190,7 +194,7 @@ func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingConte
     {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
     {{- end }}
   {{- else }}
-      return fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", v.{{ $expr.ResultSymbol.Symbol.Name }})
+      return fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", {{ goExpression $scope $expr }})
   {{- end }}
   }
     _ = err // to avoid "declared but not used" warning
@@ -205,7 +209,7 @@ func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingConte
   endBitPosition := bitPosition
   childrenNodes := contextNode.GetChildren()
   _ = childrenNodes // to avoid "declared but not used" warning
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch ({{ goExpression $scope $expr }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
       case {{ template "choice_conditions" dict "conditions" .Conditions }}:
@@ -220,7 +224,7 @@ func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingConte
     {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
     {{- end }}
   {{- else }}
-      return 0, fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", v.{{ $expr.ResultSymbol.Symbol.Name }})
+      return 0, fmt.Errorf("{{ $choice.Name }}: no case matches selector %v", {{ goExpression $scope $expr }})
   {{- end }}
   }
   return endBitPosition - bitPosition, nil
-- 
2.43.0


From 3b386b68d4ed2adfcd529de664be515c85c558e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 57/80] fix: keep only the imports that are used

---
 internal/generator/strip_imports.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/internal/generator/strip_imports.go b/internal/generator/strip_imports.go
index 0d0d31f..0636c02 100644
--- a/internal/generator/strip_imports.go
+++ b/internal/generator/strip_imports.go
@@ -1,12 +1,32 @@
 package generator
 
 import (
+	"go/parser"
+	"go/token"
 	"strings"
 )
 
+// usedNames collects all names that are used, but not declared in the code,
+// such as the names of the imported packages.
+func usedNames(code []byte) (map[string]bool, error) {
+	file, err := parser.ParseFile(token.NewFileSet(), "", code, 0)
+	if err != nil {
+		return nil, err
+	}
+	used := map[string]bool{}
+	for _, identifier := range file.Unresolved {
+		used[identifier.Name] = true
+	}
+	return used, nil
+}
+
 // StripImports searches a *.go file for the import section, and checks if the
 // imports are used.
 func StripImports(code []byte) ([]byte, error) {
+	used, err := usedNames(code)
+	if err != nil {
+		return nil, err
+	}
 	content := string(code)
 
 	// sarch the import section
@@ -48,7 +68,7 @@ func StripImports(code []byte) ([]byte, error) {
 				importName = line[lastSeparator+1 : len(line)-1]
 			}
 		}
-		if strings.Contains(content, importName+".") {
+		if used[importName] {
 			usedImports = append(usedImports, currentImport)
 		}
 	}
-- 
2.43.0


From c238d2584320b8cabebca1b4bed00c841c179d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 58/80] fix: package names that mean something else in the
 generated code

---
 internal/ast/package.go     | 23 +++++++++++++++++++++--
 internal/generator/funcs.go |  8 +++++++-
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/internal/ast/package.go b/internal/ast/package.go
index 433dc61..3dae576 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -3,6 +3,8 @@ package ast
 import (
 	"errors"
 	"fmt"
+	"go/token"
+	"go/types"
 	"strings"
 )
 
@@ -26,7 +28,7 @@ type Package struct {
 	ImportedPackages []*Package
 	// ImportedSymbols are the symbols that are imported one by one.
 	ImportedSymbols []*ImportedSymbol
-	LocalSymbols     *SymbolScope
+	LocalSymbols    *SymbolScope
 }
 
 // ImportedSymbol is a single symbol that is imported from another package.
@@ -436,8 +438,25 @@ func (p *Package) GetOriginalType(typeRef *TypeReference) (*OriginalTypeReferenc
 	}
 }
 
+// generatedNames are the names of the packages that the generated code always
+// imports, and of its local variables.
+var generatedNames = map[string]bool{
+	"bitio": true, "driver": true, "errors": true, "fmt": true, "zserio": true, "ztype": true,
+	"bitPosition": true, "childrenNodes": true, "context": true, "contextNode": true, "delta": true,
+	"elem": true, "endBitPosition": true, "err": true, "found": true, "index": true, "name": true,
+	"ok": true, "r": true, "retVal": true, "s": true, "strs": true, "tempValue": true, "traits": true,
+	"v": true, "value": true, "w": true, "zero": true,
+}
+
+// GoPackageAlias returns the name under which a package is imported by the
+// generated code.
 func GoPackageAlias(packageName string) string {
-	return strings.Replace(packageName, ".", "_", -1)
+	alias := strings.Replace(packageName, ".", "_", -1)
+	if generatedNames[alias] || token.IsKeyword(alias) || types.Universe.Lookup(alias) != nil {
+		// the name already has a meaning in the generated code
+		alias += "_"
+	}
+	return alias
 }
 
 // GetTypeParameter returns the parameters of a referenced type
diff --git a/internal/generator/funcs.go b/internal/generator/funcs.go
index 5834b21..752c8cf 100644
--- a/internal/generator/funcs.go
+++ b/internal/generator/funcs.go
@@ -3,6 +3,7 @@ package generator
 // This file contains helper functions that can be called from templates.
 
 import (
+	"go/token"
 	"strings"
 
 	"github.com/woven-planet/go-zserio/internal/ast"
@@ -23,7 +24,12 @@ func GoArrayTraits(scope ast.Scope, typ *ast.TypeReference) (string, error) {
 
 func GoPackageName(pkg string) string {
 	p := strings.Split(pkg, ".")
-	return strings.ToLower(p[len(p)-1])
+	name := strings.ToLower(p[len(p)-1])
+	if token.IsKeyword(name) || name == "main" {
+		// Go does not allow to import a package of that name
+		name += "_"
+	}
+	return name
 }
 
 // GoGetAllImports collects a list of all imports (direct and indirect) of a
-- 
2.43.0


From 376fb5f0476eee00d316cd69dc92bfd86fcc3c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:31 +0000
Subject: [PATCH 59/80] fix: packed arrays of types that contain themselves

---
 .../templates/packing_context_create.go.tmpl      |  6 +++++-
 packing_context_node.go                           | 15 +++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/generator/templates/packing_context_create.go.tmpl b/internal/generator/templates/packing_context_create.go.tmpl
index fb774bd..7a63b5f 100644
--- a/internal/generator/templates/packing_context_create.go.tmpl
+++ b/internal/generator/templates/packing_context_create.go.tmpl
@@ -13,10 +13,14 @@ contextNode.AddChild(field{{ $field.Name }}Node)
         // the field is a marshalable type, let the type itself decide if a delta
         // context is needed
         var field{{ $field.Name }}Ptr *{{ goType $scope $native.Type }}
+        {{- if isDeltaPackable $scope $native.Type }}
         if err := field{{ $field.Name }}Ptr.ZserioCreatePackingContext(field{{ $field.Name }}Node); err != nil {
             return err
         }
-       
+        {{- else }}
+        // the type can contain itself, therefore create its contexts on use
+        field{{ $field.Name }}Node.CreateOnUse(field{{ $field.Name }}Ptr.ZserioCreatePackingContext)
+        {{- end }}
     {{- else if isDeltaPackable $scope $native.Type }}
         // The field can be directly delta packed, therefore create a delta context
         field{{ $field.Name }}Node.Context = &ztype.DeltaContext[{{ goType $scope $native.Type }}]{}
diff --git a/packing_context_node.go b/packing_context_node.go
index 65aad75..c043713 100644
--- a/packing_context_node.go
+++ b/packing_context_node.go
@@ -10,6 +10,9 @@ type IDeltaContext interface {
 type PackingContextNode struct {
 	children []*PackingContextNode
 
+	// create adds the children, the first time that they are needed.
+	create func(*PackingContextNode) error
+
 	// the delta context used in a packed context.
 	Context IDeltaContext
 }
@@ -19,8 +22,20 @@ func (context *PackingContextNode) AddChild(child *PackingContextNode) {
 	context.children = append(context.children, child)
 }
 
+// CreateOnUse sets the function that adds the children of a PackingContextNode.
+// It is called when the children are used, as types can contain themselves.
+func (context *PackingContextNode) CreateOnUse(create func(*PackingContextNode) error) {
+	context.create = create
+}
+
 // GetChildren returns the child PackingContextNodes of a PackingContextNode.
 func (context *PackingContextNode) GetChildren() []*PackingContextNode {
+	if create := context.create; create != nil {
+		context.create = nil
+		if err := create(context); err != nil {
+			return nil
+		}
+	}
 	return context.children
 }
 
-- 
2.43.0


From 131f57dadfa6b814bcc0979012b4d1b0ef1ac6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:40 +0000
Subject: [PATCH 60/80] fix: check the range of packed array elements

---
 ztype/delta_context.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index b4e3800..d03a90c 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -11,6 +11,16 @@ const (
 	maxBitNumberLimit = 62
 )
 
+// discardWriter is a writer that only checks if values can be written.
+type discardWriter struct{}
+
+func (discardWriter) Write(p []byte) (int, error)             { return len(p), nil }
+func (discardWriter) WriteByte(byte) error                    { return nil }
+func (discardWriter) Align(uint8) (int64, error)              { return 0, nil }
+func (discardWriter) WriteBits(r uint64, n uint8) error       { return nil }
+func (discardWriter) WriteBitsUnsafe(r uint64, n uint8) error { return nil }
+func (discardWriter) WriteBool(bool) error                    { return nil }
+
 // DeltaContext is a packing context used when writing data using delta
 // packing, i.e. instead of storing all values, only stores the deltas.
 type DeltaContext[T any] struct {
@@ -134,6 +144,10 @@ func (context *DeltaContext[T]) Write(arrayTraits IArrayTraits[T], writer zserio
 		return context.writeUnpacked(arrayTraits, writer, element)
 	}
 	if context.maxBitNumber > 0 {
+		// the delta can be written even if the element itself is invalid
+		if err := arrayTraits.Write(discardWriter{}, element); err != nil {
+			return err
+		}
 		delta := arrayTraits.AsUint64(element) - *context.previousElement
 		err := writer.WriteBits(delta, uint8(context.maxBitNumber+1))
 		if err != nil {
-- 
2.43.0


From 512bf273d8364fef1e6410d531951f997b91c0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 61/80] fix: template instances (copies, nested arguments,
 unions, other packages, names)

---
 internal/model/model.go     |   4 +
 internal/model/transform.go | 711 +++++++++++++++++++++---------------
 2 files changed, 424 insertions(+), 291 deletions(-)

diff --git a/internal/model/model.go b/internal/model/model.go
index fc0220f..ffbce8d 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -14,6 +14,10 @@ import (
 
 type Model struct {
 	Packages map[string]*ast.Package
+
+	// instantiatedNames are the names of the types that were created from templates.
+	instantiatedNames  map[string]string
+	instantiationDepth int
 }
 
 func NewModel() *Model {
diff --git a/internal/model/transform.go b/internal/model/transform.go
index af03c08..a7971e6 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -3,9 +3,12 @@ package model
 import (
 	"errors"
 	"fmt"
+	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/woven-planet/go-zserio/internal/ast"
+	"github.com/woven-planet/go-zserio/internal/parser"
 )
 
 type TypeError struct {
@@ -36,6 +39,11 @@ func (e UnknownType) Error() string {
 
 var ErrIncorrectNumberOfTemplateParameters = errors.New("incorrect number of template parameters")
 
+// ErrTemplateRecursion is returned if a template has infinitely many instances.
+var ErrTemplateRecursion = errors.New("template instantiates itself recursively")
+
+const maxInstantiationDepth = 100
+
 func (m *Model) CapitalizeNames() {
 	for _, pkg := range m.Packages {
 		for _, c := range pkg.Consts {
@@ -192,395 +200,516 @@ func (m *Model) EvaluateChoices() error {
 }
 
 func (m *Model) InstantiateTemplates() error {
+	// The order decides about the names of the instantiated types.
+	for _, pkgName := range sortedKeys(m.Packages) {
+		if err := m.instantiatePackage(m.Packages[pkgName]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+func (m *Model) instantiatePackage(pkg *ast.Package) error {
 	var err error
-	for _, pkg := range m.Packages {
-		// Instantiate all template instantiation created with "instantiate" keyword
-		for _, instantiatedType := range pkg.InstantiatedTypes {
-			if instantiatedType.Type, err = m.instantiateType(
-				pkg,
-				instantiatedType.Type,
-				instantiatedType.Type.TemplateArguments,
-				instantiatedType.Name); err != nil {
-				return TypeError{
-					TypeReference: ast.TypeReference{
-						IsBuiltin: false,
-						Package:   pkg.Name,
-						Name:      instantiatedType.Name,
-					},
-					Err: err,
-				}
-			}
+	typeError := func(name, field string) error {
+		return TypeError{
+			TypeReference: ast.TypeReference{
+				IsBuiltin: false,
+				Package:   pkg.Name,
+				Name:      name,
+			},
+			Field: field,
+			Err:   err,
+		}
+	}
+	in := &instantiation{model: m, pkg: pkg}
+
+	// The types of this package, before any template is instantiated.
+	structs, choices, unions := sortedKeys(pkg.Structs), sortedKeys(pkg.Choices), sortedKeys(pkg.Unions)
+
+	// Instantiate all template instantiation created with "instantiate" keyword
+	for _, name := range sortedKeys(pkg.InstantiatedTypes) {
+		instantiatedType := pkg.InstantiatedTypes[name]
+		if instantiatedType.Type, err = m.instantiateType(
+			pkg,
+			instantiatedType.Type,
+			instantiatedType.Type.TemplateArguments,
+			instantiatedType.Name); err != nil {
+			return typeError(instantiatedType.Name, "")
 		}
+	}
 
-		// instantiate all templates that were created by using the "subtype", e.g.
-		// subtype TemplateType<int> InstantiatedSubtype;
-		for _, subtype := range pkg.Subtypes {
-			if subtype.Type, err = m.instantiateType(
-				pkg,
-				subtype.Type,
-				subtype.Type.TemplateArguments,
-				""); // auto-generate a new name
-			err != nil {
-				return TypeError{
-					TypeReference: ast.TypeReference{
-						IsBuiltin: false,
-						Package:   pkg.Name,
-						Name:      subtype.Name,
-					},
-					Field: subtype.Name,
-					Err:   err,
-				}
-			}
+	// instantiate all templates that were created by using the "subtype", e.g.
+	// subtype TemplateType<int> InstantiatedSubtype;
+	for _, name := range sortedKeys(pkg.Subtypes) {
+		subtype := pkg.Subtypes[name]
+		if subtype.Type, err = in.instantiateReference(subtype.Type); err != nil {
+			return typeError(subtype.Name, subtype.Name)
 		}
+	}
 
-		// Instantiate all structs that have template fields
-		for _, structure := range pkg.Structs {
-			// don't instantiate template structs
-			if len(structure.TemplateParameters) > 0 {
-				continue
+	// Instantiate all structs that have template fields
+	for _, name := range structs {
+		structure := pkg.Structs[name]
+		// don't instantiate template structs
+		if len(structure.TemplateParameters) > 0 {
+			continue
+		}
+		for _, field := range structure.Fields {
+			if field.Type, err = in.instantiateReference(field.Type); err != nil {
+				return typeError(structure.Name, field.Name)
 			}
-			for _, field := range structure.Fields {
-				if field.Type, err = m.instantiateType(
-					pkg,
-					field.Type,
-					field.Type.TemplateArguments,
-					""); // auto-generate a new name
-				err != nil {
-					return TypeError{
-						TypeReference: ast.TypeReference{
-							IsBuiltin: false,
-							Package:   pkg.Name,
-							Name:      structure.Name,
-						},
-						Field: field.Name,
-						Err:   err,
-					}
-				}
+		}
+		for _, param := range structure.TypeParameters {
+			if param.Type, err = in.instantiateReference(param.Type); err != nil {
+				return typeError(structure.Name, param.Name)
 			}
 		}
+	}
 
-		// instantiate all choices that have template fields
-		for _, choice := range pkg.Choices {
-			// don't instantiate template choices
-			if len(choice.TemplateParameters) > 0 {
+	// instantiate all choices that have template fields
+	for _, name := range choices {
+		choice := pkg.Choices[name]
+		// don't instantiate template choices
+		if len(choice.TemplateParameters) > 0 {
+			continue
+		}
+		for _, choiceCase := range choice.Cases {
+			if choiceCase.Field == nil {
 				continue
 			}
-			for _, choiceCase := range choice.Cases {
-				if choiceCase.Field == nil {
-					continue
-				}
-				if choiceCase.Field.Type, err = m.instantiateType(
-					pkg,
-					choiceCase.Field.Type,
-					choiceCase.Field.Type.TemplateArguments,
-					""); // auto-generate a new name
-				err != nil {
-					return TypeError{
-						TypeReference: ast.TypeReference{
-							IsBuiltin: false,
-							Package:   pkg.Name,
-							Name:      choice.Name,
-						},
-						Field: choiceCase.Field.Name,
-						Err:   err,
-					}
-				}
+			if choiceCase.Field.Type, err = in.instantiateReference(choiceCase.Field.Type); err != nil {
+				return typeError(choice.Name, choiceCase.Field.Name)
 			}
-			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
-				if choice.DefaultCase.Field.Type, err = m.instantiateType(
-					pkg,
-					choice.DefaultCase.Field.Type,
-					choice.DefaultCase.Field.Type.TemplateArguments,
-					""); // auto-generate a new name
-				err != nil {
-					return TypeError{
-						TypeReference: ast.TypeReference{
-							IsBuiltin: false,
-							Package:   pkg.Name,
-							Name:      choice.Name,
-						},
-						Field: choice.DefaultCase.Field.Name,
-						Err:   err,
-					}
-				}
+		}
+		if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+			field := choice.DefaultCase.Field
+			if field.Type, err = in.instantiateReference(field.Type); err != nil {
+				return typeError(choice.Name, field.Name)
+			}
+		}
+		for _, param := range choice.TypeParameters {
+			if param.Type, err = in.instantiateReference(param.Type); err != nil {
+				return typeError(choice.Name, param.Name)
+			}
+		}
+	}
+
+	// instantiate all unions that have template fields
+	for _, name := range unions {
+		union := pkg.Unions[name]
+		// don't instantiate template unions
+		if len(union.TemplateParameters) > 0 {
+			continue
+		}
+		for _, field := range union.Fields {
+			if field.Type, err = in.instantiateReference(field.Type); err != nil {
+				return typeError(union.Name, field.Name)
+			}
+		}
+		for _, param := range union.TypeParameters {
+			if param.Type, err = in.instantiateReference(param.Type); err != nil {
+				return typeError(union.Name, param.Name)
 			}
 		}
 	}
 	return nil
 }
 
-func (m *Model) instantiateField(pkgScope *ast.Package, field *ast.Field, templateTypes map[string]*ast.TypeReference) (*ast.Field, error) {
-	fieldCopy := *field
-	if len(field.Type.TemplateArguments) > 0 {
-		// the field itself is a templated compound type, and needs to
-		// be instantiated first.
+// instantiation copies the parts of a template. Nothing is shared between the
+// copies, as they have different types.
+type instantiation struct {
+	model *Model
+	pkg   *ast.Package
 
-		// the template argument parameter must be recreated, as the
-		// field template arguments might differ from the struct template
-		// arguments. Example:
-		// struct<A, B, C> {
-		//    foo<int, C> field1;
-		//    bar<B, A> field2;
-		// }
-		newTemplateParameters := append([]*ast.TypeReference{}, field.Type.TemplateArguments...)
-		for ix, templateParameter := range newTemplateParameters {
-			if passedTemplateArgument, found := templateTypes[templateParameter.Name]; found {
-				newTemplateParameters[ix] = passedTemplateArgument
-			}
+	// types is a map from the template parameter name to the instantiated type.
+	types map[string]*ast.TypeReference
+}
+
+// instantiateReference replaces template parameters in a type, and instantiates
+// the type if it is a template itself.
+func (in *instantiation) instantiateReference(tr *ast.TypeReference) (*ast.TypeReference, error) {
+	if tr == nil {
+		return nil, nil
+	}
+	typeArguments := in.instantiateExpressions(tr.TypeArguments)
+	if !tr.IsBuiltin && tr.Package == "" {
+		if tt, found := in.types[tr.Name]; found {
+			// If the template has type arguments, these arguments need to
+			// be applied also to the instantiated type.
+			typeCopy := *tt
+			typeCopy.TypeArguments = typeArguments
+			return &typeCopy, nil
 		}
+	}
+
+	typeCopy := *tr
+	typeCopy.TypeArguments = typeArguments
+	typeCopy.LengthExpression = in.instantiateExpression(tr.LengthExpression)
 
-		tt, err := m.instantiateType(pkgScope, field.Type, newTemplateParameters, "")
+	// the template arguments can use the template parameters too. Example:
+	// struct<A, B, C> {
+	//    foo<int, C> field1;
+	//    bar<foo<B>, A> field2;
+	// }
+	var templateArguments []*ast.TypeReference
+	for _, ta := range tr.TemplateArguments {
+		templateArgument, err := in.instantiateReference(ta)
 		if err != nil {
 			return nil, err
 		}
-		fieldCopy.Type = tt
-		return &fieldCopy, nil
+		templateArguments = append(templateArguments, templateArgument)
+	}
+	return in.model.instantiateType(in.pkg, &typeCopy, templateArguments, "")
+}
+
+// instantiateExpression copies an expression, and replaces template parameters
+// in it (for example of an enum type).
+func (in *instantiation) instantiateExpression(expression *ast.Expression) *ast.Expression {
+	if expression == nil {
+		return nil
+	}
+	expressionCopy := *expression
+	expressionCopy.Operand1 = in.instantiateExpression(expression.Operand1)
+	expressionCopy.Operand3 = in.instantiateExpression(expression.Operand3)
+	if expression.Type == parser.ZserioParserDOT && expression.Operand2 != nil {
+		// the name of a member
+		memberCopy := *expression.Operand2
+		expressionCopy.Operand2 = &memberCopy
+	} else {
+		expressionCopy.Operand2 = in.instantiateExpression(expression.Operand2)
 	}
-	if tt, ok := templateTypes[field.Type.Name]; ok && field.Type.Package == "" {
-		// the field a template itself
-		fieldCopy.Type = tt
-		//  If the template has type arguments, these arguments need to
-		// be applied also to the instantiated type.
-		fieldCopy.Type.TypeArguments = field.Type.TypeArguments
-		return &fieldCopy, nil
+	if expression.Type == parser.ZserioParserID {
+		if tt, found := in.types[expression.Text]; found && !tt.IsBuiltin {
+			expressionCopy.Text = tt.Name
+		}
 	}
-	// not templated
-	return field, nil
+	return &expressionCopy
 }
 
-func (m *Model) instantiateStruct(
-	pkgScope *ast.Package,
-	templStruct *ast.Struct,
-	templateArguments []*ast.TypeReference,
-	instantiatedName string) (*ast.TypeReference, error) {
-	if len(templateArguments) == 0 {
-		return nil, errors.New("struct instantiation called without parameters")
+func (in *instantiation) instantiateExpressions(expressions []*ast.Expression) []*ast.Expression {
+	var expressionCopies []*ast.Expression
+	for _, expression := range expressions {
+		expressionCopies = append(expressionCopies, in.instantiateExpression(expression))
 	}
-	if len(templStruct.TemplateParameters) != len(templateArguments) {
-		return nil, ErrIncorrectNumberOfTemplateParameters
+	return expressionCopies
+}
+
+func (in *instantiation) instantiateField(field *ast.Field) (*ast.Field, error) {
+	if field == nil {
+		return nil, nil
 	}
-	// templateTypes is a map from the template parameter name to the instantiated
-	// type.
-	templateTypes := map[string]*ast.TypeReference{}
-	for ix, ta := range templateArguments {
-		// Instantiate the subtype
-		ta, err := m.instantiateType(pkgScope, ta, ta.TemplateArguments, "")
-		if err != nil {
-			return nil, err
+	var err error
+	fieldCopy := *field
+	if fieldCopy.Type, err = in.instantiateReference(field.Type); err != nil {
+		return nil, err
+	}
+	fieldCopy.Initializer = in.instantiateExpression(field.Initializer)
+	fieldCopy.Constraint = in.instantiateExpression(field.Constraint)
+	fieldCopy.OptionalClause = in.instantiateExpression(field.OptionalClause)
+	if field.Array != nil {
+		fieldCopy.Array = &ast.Array{
+			IsPacked: field.Array.IsPacked,
+			Length:   in.instantiateExpression(field.Array.Length),
 		}
-		templateTypes[templStruct.TemplateParameters[ix]] = ta
 	}
+	return &fieldCopy, nil
+}
 
-	newType := &ast.TypeReference{
-		IsBuiltin: false,
-		Package:   pkgScope.Name,
-		Name:      instantiatedName,
+func (in *instantiation) instantiateCase(choiceCase *ast.ChoiceCase) (*ast.ChoiceCase, error) {
+	if choiceCase == nil {
+		return nil, nil
 	}
-	// check if the struct was already instantiated
-	if _, exists := pkgScope.Structs[newType.Name]; exists {
-		return newType, nil
+	field, err := in.instantiateField(choiceCase.Field)
+	if err != nil {
+		return nil, err
 	}
-	structure := &ast.Struct{
-		Name:    newType.Name,
-		Comment: templStruct.Comment,
+	caseCopy := &ast.ChoiceCase{
+		Comment: choiceCase.Comment,
+		Field:   field,
 	}
+	for _, condition := range choiceCase.Conditions {
+		caseCopy.Conditions = append(caseCopy.Conditions, &ast.ChoiceCaseExpression{
+			Condition: in.instantiateExpression(condition.Condition),
+			Comment:   condition.Comment,
+		})
+	}
+	return caseCopy, nil
+}
 
-	// resolve the templates for the fields
-	for _, field := range templStruct.Fields {
-		newField, err := m.instantiateField(pkgScope, field, templateTypes)
+func (in *instantiation) instantiateParameters(params []*ast.Parameter) ([]*ast.Parameter, error) {
+	var paramCopies []*ast.Parameter
+	for _, param := range params {
+		paramType, err := in.instantiateReference(param.Type)
 		if err != nil {
 			return nil, err
 		}
-		structure.Fields = append(structure.Fields, newField)
+		paramCopies = append(paramCopies, &ast.Parameter{
+			Name: param.Name,
+			Type: paramType,
+		})
 	}
+	return paramCopies, nil
+}
 
-	// resolve the templates for the types
-	for _, typeParam := range templStruct.TypeParameters {
-		if tt := templateTypes[typeParam.Type.Name]; tt != nil && typeParam.Type.Package == "" {
-			// the parameter is a template
-			structure.TypeParameters = append(structure.TypeParameters, &ast.Parameter{
-				Name: typeParam.Name,
-				Type: tt,
-			})
-		} else {
-			// not templated
-			structure.TypeParameters = append(structure.TypeParameters, typeParam)
+func (in *instantiation) instantiateFunctions(functions []*ast.Function) ([]*ast.Function, error) {
+	var functionCopies []*ast.Function
+	for _, function := range functions {
+		returnType, err := in.instantiateReference(function.ReturnType)
+		if err != nil {
+			return nil, err
 		}
+		functionCopies = append(functionCopies, &ast.Function{
+			Name:       function.Name,
+			Comment:    function.Comment,
+			Result:     in.instantiateExpression(function.Result),
+			ReturnType: returnType,
+		})
 	}
+	return functionCopies, nil
+}
 
-	// resolve the template for the functions
-	for _, function := range templStruct.Functions {
-		if tt := templateTypes[function.ReturnType.Name]; tt != nil && function.ReturnType.Package == "" {
-			// the function return type is a template
-			structure.Functions = append(structure.Functions, &ast.Function{
-				Name:       function.Name,
-				Comment:    function.Comment,
-				Result:     function.Result,
-				ReturnType: tt,
-			})
-		} else {
-			// not templated
-			structure.Functions = append(structure.Functions, function)
-		}
+func (in *instantiation) instantiateStruct(templStruct *ast.Struct, name string) error {
+	var err error
+	structure := &ast.Struct{
+		Name:    name,
+		Comment: templStruct.Comment,
 	}
+	in.pkg.Structs[name] = structure
+	in.pkg.LocalSymbols.TypeScope[name] = structure
 
-	// update the scope with the newly created scope
-	pkgScope.Structs[newType.Name] = structure
-	pkgScope.LocalSymbols.TypeScope[newType.Name] = structure
-	structure.BuildScope(pkgScope)
-	return newType, nil
+	for _, field := range templStruct.Fields {
+		newField, err := in.instantiateField(field)
+		if err != nil {
+			return err
+		}
+		structure.Fields = append(structure.Fields, newField)
+	}
+	if structure.TypeParameters, err = in.instantiateParameters(templStruct.TypeParameters); err != nil {
+		return err
+	}
+	if structure.Functions, err = in.instantiateFunctions(templStruct.Functions); err != nil {
+		return err
+	}
+	return structure.BuildScope(in.pkg)
 }
 
-func (m *Model) instantiateChoice(
-	pkgScope *ast.Package,
-	templChoice *ast.Choice,
-	templateArguments []*ast.TypeReference,
-	instantiatedName string) (*ast.TypeReference, error) {
-	if len(templateArguments) == 0 {
-		return nil, errors.New("choice instantiation called without parameters")
-	}
-	if len(templChoice.TemplateParameters) != len(templateArguments) {
-		return nil, ErrIncorrectNumberOfTemplateParameters
+func (in *instantiation) instantiateUnion(templUnion *ast.Union, name string) error {
+	var err error
+	union := &ast.Union{
+		Name:    name,
+		Comment: templUnion.Comment,
 	}
-	// templateTypes is a map from the template parameter name to the instantiated
-	// type.
-	templateTypes := map[string]*ast.TypeReference{}
-	for ix, ta := range templateArguments {
-		// Instantiate the subtype
-		ta, err := m.instantiateType(pkgScope, ta, ta.TemplateArguments, "")
+	in.pkg.Unions[name] = union
+	in.pkg.LocalSymbols.TypeScope[name] = union
+
+	for _, field := range templUnion.Fields {
+		newField, err := in.instantiateField(field)
 		if err != nil {
-			return nil, err
+			return err
 		}
-		templateTypes[templChoice.TemplateParameters[ix]] = ta
+		union.Fields = append(union.Fields, newField)
 	}
-
-	newType := &ast.TypeReference{
-		IsBuiltin: false,
-		Package:   pkgScope.Name,
-		Name:      instantiatedName,
+	if union.TypeParameters, err = in.instantiateParameters(templUnion.TypeParameters); err != nil {
+		return err
 	}
-
-	// check if the type was already instantiated
-	if _, exists := pkgScope.Choices[newType.Name]; exists {
-		return newType, nil
+	if union.Functions, err = in.instantiateFunctions(templUnion.Functions); err != nil {
+		return err
 	}
+	return union.BuildScope(in.pkg)
+}
+
+func (in *instantiation) instantiateChoice(templChoice *ast.Choice, name string) error {
+	var err error
 	choice := &ast.Choice{
-		Name:               newType.Name,
+		Name:               name,
 		Comment:            templChoice.Comment,
-		SelectorExpression: templChoice.SelectorExpression,
+		SelectorExpression: in.instantiateExpression(templChoice.SelectorExpression),
 	}
+	in.pkg.Choices[name] = choice
+	in.pkg.LocalSymbols.TypeScope[name] = choice
 
-	// resolve the templates for the choices
 	for _, choiceCase := range templChoice.Cases {
-		newChoiceCase := &ast.ChoiceCase{
-			Conditions: choiceCase.Conditions,
-			Comment:    choiceCase.Comment,
-		}
-		if choiceCase.Field != nil {
-			newField, err := m.instantiateField(pkgScope, choiceCase.Field, templateTypes)
-			if err != nil {
-				return nil, err
-			}
-			newChoiceCase.Field = newField
+		newCase, err := in.instantiateCase(choiceCase)
+		if err != nil {
+			return err
 		}
-		choice.Cases = append(choice.Cases, newChoiceCase)
+		choice.Cases = append(choice.Cases, newCase)
 	}
-
-	// also resolve the default case
-	if templChoice.DefaultCase != nil {
-		choice.DefaultCase = &ast.ChoiceCase{
-			Conditions: templChoice.DefaultCase.Conditions,
-			Comment:    templChoice.DefaultCase.Comment,
-		}
-		if templChoice.DefaultCase.Field != nil {
-			newField, err := m.instantiateField(pkgScope, templChoice.DefaultCase.Field, templateTypes)
-			if err != nil {
-				return nil, err
-			}
-			choice.DefaultCase.Field = newField
-		}
-
+	if choice.DefaultCase, err = in.instantiateCase(templChoice.DefaultCase); err != nil {
+		return err
 	}
-	// resolve the templates for the types
-	for _, typeParam := range templChoice.TypeParameters {
-		if tt, ok := templateTypes[typeParam.Type.Name]; ok && typeParam.Type.Package == "" {
-			// the parameter is a template
-			choice.TypeParameters = append(choice.TypeParameters, &ast.Parameter{
-				Name: typeParam.Name,
-				Type: tt,
-			})
-		} else {
-			// not templated
-			choice.TypeParameters = append(choice.TypeParameters, typeParam)
-		}
+	if choice.TypeParameters, err = in.instantiateParameters(templChoice.TypeParameters); err != nil {
+		return err
 	}
-
-	// resolve the template for the functions
-	for _, function := range templChoice.Functions {
-		if tt := templateTypes[function.ReturnType.Name]; tt != nil && function.ReturnType.Package == "" {
-			// the function return type is a template
-			choice.Functions = append(choice.Functions, &ast.Function{
-				Name:       function.Name,
-				Comment:    function.Comment,
-				Result:     function.Result,
-				ReturnType: tt,
-			})
-		} else {
-			// not templated
-			choice.Functions = append(choice.Functions, function)
-		}
+	if choice.Functions, err = in.instantiateFunctions(templChoice.Functions); err != nil {
+		return err
 	}
-
-	// update the scope with the newly created scope
-	pkgScope.Choices[newType.Name] = choice
-	pkgScope.LocalSymbols.TypeScope[newType.Name] = choice
-	choice.BuildScope(pkgScope)
-	return newType, nil
+	return choice.BuildScope(in.pkg)
 }
 
 func generateInstantiatedName(tr *ast.TypeReference, templateArguments []*ast.TypeReference) string {
 	name := []string{strings.Title(tr.Name)}
 	for _, ta := range templateArguments {
 		name = append(name, strings.Title(ta.Name))
+		if ta.IsBuiltin && ta.Bits > 0 && !strings.HasSuffix(ta.Name, strconv.Itoa(ta.Bits)) {
+			name = append(name, strconv.Itoa(ta.Bits))
+		}
 	}
 	return strings.Join(name, "")
 }
 
+// generateTemplateKey identifies an instantiation of a template.
+func generateTemplateKey(tr *ast.TypeReference, templateArguments []*ast.TypeReference) string {
+	key := tr.Package + "." + tr.Name
+	for _, ta := range templateArguments {
+		key += fmt.Sprintf("<%s.%s:%d:%s>", ta.Package, ta.Name, ta.Bits, expressionKey(ta.LengthExpression))
+	}
+	return key
+}
+
+func expressionKey(expression *ast.Expression) string {
+	if expression == nil {
+		return ""
+	}
+	return fmt.Sprintf("(%d %q %s %s %s)", expression.Type, expression.Text,
+		expressionKey(expression.Operand1), expressionKey(expression.Operand2), expressionKey(expression.Operand3))
+}
+
+func sortedKeys[T any](items map[string]T) []string {
+	keys := make([]string, 0, len(items))
+	for key := range items {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
+// hasGoName checks if a type of the package has this name in the generated code.
+func hasGoName(pkg *ast.Package, name string) bool {
+	for symbol := range pkg.LocalSymbols.TypeScope {
+		if strings.EqualFold(symbol, name) {
+			return true
+		}
+	}
+	return false
+}
+
 func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, templateArguments []*ast.TypeReference, instantiatedName string) (*ast.TypeReference, error) {
+	if tr.IsBuiltin {
+		return tr, nil
+	}
+
+	// The symbols that are used by the template are those of the package that
+	// declares it.
+	templateScope := pkgScope
+	if templatePkg, found := m.Packages[tr.Package]; found {
+		templateScope = templatePkg
+	}
+	templateSymbol, err := templateScope.GetSymbol(tr.Name)
+	if err != nil {
+		return nil, err
+	}
+	var templateParameters []string
+	switch n := templateSymbol.Symbol.(type) {
+	case *ast.Struct:
+		templateParameters = n.TemplateParameters
+	case *ast.Choice:
+		templateParameters = n.TemplateParameters
+	case *ast.Union:
+		templateParameters = n.TemplateParameters
+	default:
+		if len(templateArguments) > 0 {
+			return nil, errors.New("template instantiation not supported for this type")
+		}
+	}
+	if len(templateParameters) != len(templateArguments) {
+		return nil, ErrIncorrectNumberOfTemplateParameters
+	}
 	if len(templateArguments) == 0 {
 		return tr, nil
 	}
 
+	// Templates that instantiate themselves with ever larger arguments have no
+	// end.
+	m.instantiationDepth++
+	defer func() { m.instantiationDepth-- }()
+	if m.instantiationDepth > maxInstantiationDepth {
+		return nil, ErrTemplateRecursion
+	}
+
+	in := &instantiation{
+		model: m,
+		pkg:   pkgScope,
+		types: map[string]*ast.TypeReference{},
+	}
+	instantiatedArguments := make([]*ast.TypeReference, len(templateArguments))
+	for ix, ta := range templateArguments {
+		// Instantiate the template arguments, which can be templates too
+		ta, err := (&instantiation{model: m, pkg: pkgScope}).instantiateReference(ta)
+		if err != nil {
+			return nil, err
+		}
+		instantiatedArguments[ix] = ta
+		in.types[templateParameters[ix]] = ta
+	}
+
+	key := generateTemplateKey(tr, instantiatedArguments)
+	generatedName := generateInstantiatedName(tr, instantiatedArguments)
+	if m.instantiatedNames == nil {
+		m.instantiatedNames = map[string]string{}
+	}
+	if instantiatedName == generatedName {
+		m.instantiatedNames[pkgScope.Name+":"+key] = instantiatedName
+	}
 	if instantiatedName == "" {
+		// check if the type was already instantiated
+		if name, found := m.instantiatedNames[pkgScope.Name+":"+key]; found {
+			return &ast.TypeReference{
+				Package:       pkgScope.Name,
+				Name:          name,
+				TypeArguments: tr.TypeArguments,
+			}, nil
+		}
 		// No explicit name  for the new instantiated object was given.
 		// We need to create an instance of tr, using the arguments from
 		// templateArguments. First we build up the name of the instantiated template
 		// by appending all the argument type names.
-		instantiatedName = generateInstantiatedName(tr, templateArguments)
+		instantiatedName = generatedName
+		// The name can already be used, as it does not include the packages
+		// of the types.
+		for ix := 2; hasGoName(pkgScope, instantiatedName); ix++ {
+			instantiatedName = fmt.Sprintf("%s_%d", generatedName, ix)
+		}
+		m.instantiatedNames[pkgScope.Name+":"+key] = instantiatedName
 	}
 
-	templateSymbol, err := pkgScope.GetSymbol(tr.Name)
-	if err != nil {
-		return nil, err
+	if templateScope != pkgScope {
+		// The instantiated type uses what is visible in the package of the
+		// template.
+		pkgScope.ImportedPackages = append(pkgScope.ImportedPackages, templateScope)
+		pkgScope.ImportedPackages = append(pkgScope.ImportedPackages, templateScope.ImportedScopes()...)
 	}
-	var instantiatedType *ast.TypeReference
 
 	switch n := templateSymbol.Symbol.(type) {
 	case *ast.Struct:
-		instantiatedType, err = m.instantiateStruct(pkgScope, n, templateArguments, instantiatedName)
+		err = in.instantiateStruct(n, instantiatedName)
 	case *ast.Choice:
-		instantiatedType, err = m.instantiateChoice(pkgScope, n, templateArguments, instantiatedName)
-	default:
-		return nil, errors.New("template instantiation not supported for this type")
+		err = in.instantiateChoice(n, instantiatedName)
+	case *ast.Union:
+		err = in.instantiateUnion(n, instantiatedName)
 	}
-
 	if err != nil {
 		return nil, err
 	}
 
 	// Link the argument expressions from the template type to the instantiation
-	instantiatedType.TypeArguments = tr.TypeArguments
-	return instantiatedType, nil
+	return &ast.TypeReference{
+		IsBuiltin:     false,
+		Package:       pkgScope.Name,
+		Name:          instantiatedName,
+		TypeArguments: tr.TypeArguments,
+	}, nil
 }
 
 func (m *Model) ResolveImports() error {
-- 
2.43.0


From 664d2d936521b8daab42a22fb08ea202c5caef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 62/80] fix: types with lower-case names

---
 internal/generator/templates/package.go.tmpl |  2 +-
 internal/model/transform.go                  | 20 ++------------------
 2 files changed, 3 insertions(+), 19 deletions(-)

diff --git a/internal/generator/templates/package.go.tmpl b/internal/generator/templates/package.go.tmpl
index 286c275..eb86cbb 100644
--- a/internal/generator/templates/package.go.tmpl
+++ b/internal/generator/templates/package.go.tmpl
@@ -8,5 +8,5 @@ const (
 )
 
 {{- range $subtype := .pkg.Subtypes }}
-type {{ $subtype.Name }} = {{ goType $scope .Type }}
+type {{ title $subtype.Name }} = {{ goType $scope .Type }}
 {{- end }}
diff --git a/internal/model/transform.go b/internal/model/transform.go
index a7971e6..b993b59 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -48,16 +48,10 @@ func (m *Model) CapitalizeNames() {
 	for _, pkg := range m.Packages {
 		for _, c := range pkg.Consts {
 			c.Name = strings.Title(c.Name)
-			if !c.Type.IsBuiltin {
-				c.Type.Name = strings.Title(c.Type.Name)
-			}
 		}
 
 		for _, e := range pkg.Enums {
 			e.Name = strings.Title(e.Name)
-			if !e.Type.IsBuiltin {
-				e.Type.Name = strings.Title(e.Type.Name)
-			}
 
 			for _, item := range e.Items {
 				item.Name = strings.Title(item.Name)
@@ -72,9 +66,6 @@ func (m *Model) CapitalizeNames() {
 			for _, field := range u.Fields {
 				field.ZserioName = field.Name
 				field.Name = strings.Title(field.Name)
-				if !field.Type.IsBuiltin {
-					field.Type.Name = strings.Title(field.Type.Name)
-				}
 			}
 			for _, function := range u.Functions {
 				function.Name = strings.Title(function.Name)
@@ -89,15 +80,13 @@ func (m *Model) CapitalizeNames() {
 		}
 
 		for _, structure := range pkg.Structs {
+			structure.Name = strings.Title(structure.Name)
 			for _, typeParameter := range structure.TypeParameters {
 				typeParameter.Name = strings.Title(typeParameter.Name)
 			}
 			for _, field := range structure.Fields {
 				field.ZserioName = field.Name
 				field.Name = strings.Title(field.Name)
-				if !field.Type.IsBuiltin {
-					field.Type.Name = strings.Title(field.Type.Name)
-				}
 			}
 			for _, function := range structure.Functions {
 				function.Name = strings.Title(function.Name)
@@ -106,6 +95,7 @@ func (m *Model) CapitalizeNames() {
 		}
 
 		for _, choice := range pkg.Choices {
+			choice.Name = strings.Title(choice.Name)
 			for _, typeParameter := range choice.TypeParameters {
 				typeParameter.Name = strings.Title(typeParameter.Name)
 			}
@@ -113,17 +103,11 @@ func (m *Model) CapitalizeNames() {
 				if choiceCase.Field != nil {
 					choiceCase.Field.ZserioName = choiceCase.Field.Name
 					choiceCase.Field.Name = strings.Title(choiceCase.Field.Name)
-					if !choiceCase.Field.Type.IsBuiltin {
-						choiceCase.Field.Type.Name = strings.Title(choiceCase.Field.Type.Name)
-					}
 				}
 			}
 			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
 				choice.DefaultCase.Field.ZserioName = choice.DefaultCase.Field.Name
 				choice.DefaultCase.Field.Name = strings.Title(choice.DefaultCase.Field.Name)
-				if !choice.DefaultCase.Field.Type.IsBuiltin {
-					choice.DefaultCase.Field.Type.Name = strings.Title(choice.DefaultCase.Field.Type.Name)
-				}
 			}
 			for _, function := range choice.Functions {
 				function.Name = strings.Title(function.Name)
-- 
2.43.0


From 7942b64dee809cffe22234bb1e3a06cb7538edf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 63/80] fix: default values of enum and bitmask fields

---
 internal/generator/templates/default_values.go.tmpl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/generator/templates/default_values.go.tmpl b/internal/generator/templates/default_values.go.tmpl
index 7a1cd67..33539ad 100644
--- a/internal/generator/templates/default_values.go.tmpl
+++ b/internal/generator/templates/default_values.go.tmpl
@@ -12,7 +12,9 @@
 {{- end }}
 
 {{- if and (not $field.IsOptional) (not $field.Array) }}
-    {{- if $native.IsMarshaler }}
+    {{- if and $native.IsMarshaler $field.Initializer }}
+        v.{{ $field.Name }} = {{ goExpression $scope $field.Initializer }}
+    {{- else if $native.IsMarshaler }}
         if err := {{- $field_name }}.LoadDefaultValues(); err != nil {
             return err
         }
-- 
2.43.0


From 3b172ece5cd9bae7dbd5aff10ee59f31d4d9ec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 64/80] fix: report bit fields with an invalid length

---
 internal/visitor/visitor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index bbd7e9b..4c6caf5 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -14,6 +14,7 @@ import (
 )
 
 var ErrImplicitLengthArraysNotSupported = errors.New("implicit length arrays are obsolete, and not supported")
+var ErrInvalidBitLength = errors.New("the length of a bit field must be 1 to 64 bits")
 var ErrAlignmentMustBeInteger = errors.New("alignment expression must be an integer")
 
 type Visitor struct {
@@ -676,7 +677,10 @@ func (v *Visitor) VisitTypeReference(ctx *parser.TypeReferenceContext) any {
 			Name:      t.GetText(),
 		}
 		if ix := strings.Index(typ.Name, ":"); ix != -1 {
-			bits, _ := strconv.ParseUint(typ.Name[ix+1:], 10, 8)
+			bits, err := strconv.ParseUint(typ.Name[ix+1:], 0, 8)
+			if err != nil || bits < 1 || bits > 64 {
+				panic(ErrInvalidBitLength)
+			}
 			typ.Name = typ.Name[:ix]
 			typ.Bits = int(bits)
 			if typ.Bits == 8 || typ.Bits == 16 || typ.Bits == 32 || typ.Bits == 64 {
-- 
2.43.0


From d8ca47a203496aa2cdb8d7f51acaa5d49d4996b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 65/80] fix: reject array elements of more than 64 bits when
 reading

---
 ztype/array_traits.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 26cb3aa..d895c7f 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -692,7 +692,7 @@ func (trait BitFieldArrayTraits[T]) InitializeOffsets(bitPosition int, value T)
 }
 
 func (trait BitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, error) {
-	value, err := reader.ReadBits(uint8(trait.NumBits))
+	value, err := ReadUnsignedBits(reader, trait.NumBits)
 	return T(value), err
 }
 
@@ -753,8 +753,8 @@ func (trait SignedBitFieldArrayTraits[T]) InitializeOffsets(bitPosition int, val
 }
 
 func (trait SignedBitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, error) {
-	value, err := reader.ReadBits(uint8(trait.NumBits))
-	return T(fillUpperBits(value, trait.NumBits)), err
+	value, err := ReadSignedBits(reader, trait.NumBits)
+	return T(value), err
 }
 
 func (trait SignedBitFieldArrayTraits[T]) Write(writer zserio.Writer, value T) error {
-- 
2.43.0


From 3593a63faa464b8340b6cb258d938f74bed2e649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 66/80] fix: reject duplicate fields, parameters, functions and
 items

---
 internal/ast/choice.go  | 19 +++++++++++++++----
 internal/ast/package.go | 13 +++++++++++++
 internal/ast/scope.go   | 24 ++++++++++++++++++++++++
 internal/ast/struct.go  | 15 ++++++++++++---
 internal/ast/union.go   | 15 ++++++++++++---
 5 files changed, 76 insertions(+), 10 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index 77933ce..6eac961 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -27,6 +27,9 @@ type Choice struct {
 }
 
 func (choice *Choice) BuildScope(p *Package) error {
+	if err := checkUnique(choice.TemplateParameters); err != nil {
+		return err
+	}
 	// create a compound scope
 	compoundScope := &CompoundScope{
 		Symbol: choice,
@@ -34,18 +37,26 @@ func (choice *Choice) BuildScope(p *Package) error {
 	}
 
 	for _, param := range choice.TypeParameters {
-		compoundScope.Scope[param.Name] = param
+		if err := compoundScope.add(param.Name, param); err != nil {
+			return err
+		}
 	}
 	for _, choiceCase := range choice.Cases {
 		if choiceCase.Field != nil {
-			compoundScope.Scope[choiceCase.Field.Name] = choiceCase.Field
+			if err := compoundScope.add(choiceCase.Field.Name, choiceCase.Field); err != nil {
+				return err
+			}
 		}
 	}
 	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
-		compoundScope.Scope[choice.DefaultCase.Field.Name] = choice.DefaultCase.Field
+		if err := compoundScope.add(choice.DefaultCase.Field.Name, choice.DefaultCase.Field); err != nil {
+			return err
+		}
 	}
 	for _, function := range choice.Functions {
-		compoundScope.Scope[function.Name] = function
+		if err := compoundScope.add(function.Name, function); err != nil {
+			return err
+		}
 	}
 	p.LocalSymbols.CompoundScopes[choice.Name] = compoundScope
 	return nil
diff --git a/internal/ast/package.go b/internal/ast/package.go
index 3dae576..81c039b 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -105,9 +105,14 @@ func (p *Package) CollectSymbols() error {
 		p.LocalSymbols.TypeScope[name] = value
 
 		// add all enum values as symbols
+		var itemNames []string
 		for _, enumItem := range value.Items {
+			itemNames = append(itemNames, enumItem.Name)
 			p.LocalSymbols.OtherScope[enumItem.Name] = enumItem
 		}
+		if err := checkUnique(itemNames); err != nil {
+			return err
+		}
 	}
 	for name, value := range p.Unions {
 		p.LocalSymbols.TypeScope[name] = value
@@ -117,6 +122,14 @@ func (p *Package) CollectSymbols() error {
 	}
 	for name, value := range p.Bitmasks {
 		p.LocalSymbols.TypeScope[name] = value
+
+		var valueNames []string
+		for _, bitmaskValue := range value.Values {
+			valueNames = append(valueNames, bitmaskValue.Name)
+		}
+		if err := checkUnique(valueNames); err != nil {
+			return err
+		}
 	}
 	for name, value := range p.Choices {
 		p.LocalSymbols.TypeScope[name] = value
diff --git a/internal/ast/scope.go b/internal/ast/scope.go
index 9e1c740..9f381c1 100644
--- a/internal/ast/scope.go
+++ b/internal/ast/scope.go
@@ -7,6 +7,9 @@ import (
 
 var ErrUnknownType = errors.New("unknown type")
 
+// ErrDuplicateSymbol is returned if a name is declared twice in the same scope.
+var ErrDuplicateSymbol = errors.New("symbol is declared more than once")
+
 var rootScope = &RootScope{}
 
 var zserioTypeToGoType = map[string]string{
@@ -254,6 +257,27 @@ type CompoundScope struct {
 	Scope  map[string]any
 }
 
+// add adds a symbol to the scope. All symbols of a scope need different names.
+func (s *CompoundScope) add(name string, symbol any) error {
+	if _, found := s.Scope[name]; found {
+		return fmt.Errorf("%w: %s", ErrDuplicateSymbol, name)
+	}
+	s.Scope[name] = symbol
+	return nil
+}
+
+// checkUnique returns an error if a name is used twice.
+func checkUnique(names []string) error {
+	used := make(map[string]bool)
+	for _, name := range names {
+		if used[name] {
+			return fmt.Errorf("%w: %s", ErrDuplicateSymbol, name)
+		}
+		used[name] = true
+	}
+	return nil
+}
+
 // SymbolScope keeps track of all symbols that are available in this scope
 type SymbolScope struct {
 	// TypeScope contains all types that are currently in the scope
diff --git a/internal/ast/struct.go b/internal/ast/struct.go
index 271e8e8..7a9a0f6 100644
--- a/internal/ast/struct.go
+++ b/internal/ast/struct.go
@@ -10,19 +10,28 @@ type Struct struct {
 }
 
 func (s *Struct) BuildScope(p *Package) error {
+	if err := checkUnique(s.TemplateParameters); err != nil {
+		return err
+	}
 	// create a compound scope
 	compoundScope := &CompoundScope{
 		Symbol: s,
 		Scope:  make(map[string]any),
 	}
 	for _, param := range s.TypeParameters {
-		compoundScope.Scope[param.Name] = param
+		if err := compoundScope.add(param.Name, param); err != nil {
+			return err
+		}
 	}
 	for _, field := range s.Fields {
-		compoundScope.Scope[field.Name] = field
+		if err := compoundScope.add(field.Name, field); err != nil {
+			return err
+		}
 	}
 	for _, function := range s.Functions {
-		compoundScope.Scope[function.Name] = function
+		if err := compoundScope.add(function.Name, function); err != nil {
+			return err
+		}
 	}
 	p.LocalSymbols.CompoundScopes[s.Name] = compoundScope
 	return nil
diff --git a/internal/ast/union.go b/internal/ast/union.go
index 9ca57c4..072119b 100644
--- a/internal/ast/union.go
+++ b/internal/ast/union.go
@@ -10,19 +10,28 @@ type Union struct {
 }
 
 func (u *Union) BuildScope(p *Package) error {
+	if err := checkUnique(u.TemplateParameters); err != nil {
+		return err
+	}
 	// create a compound scope
 	compoundScope := &CompoundScope{
 		Symbol: u,
 		Scope:  make(map[string]any),
 	}
 	for _, param := range u.TypeParameters {
-		compoundScope.Scope[param.Name] = param
+		if err := compoundScope.add(param.Name, param); err != nil {
+			return err
+		}
 	}
 	for _, field := range u.Fields {
-		compoundScope.Scope[field.Name] = field
+		if err := compoundScope.add(field.Name, field); err != nil {
+			return err
+		}
 	}
 	for _, function := range u.Functions {
-		compoundScope.Scope[function.Name] = function
+		if err := compoundScope.add(function.Name, function); err != nil {
+			return err
+		}
 	}
 	p.LocalSymbols.CompoundScopes[u.Name] = compoundScope
 	return nil
-- 
2.43.0


From ac525b437bf84ab8beb42cc28361fb6e7e4d9cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 67/80] fix: reject default values and case labels that are not
 constant

---
 internal/ast/choice.go     |  3 +++
 internal/ast/expression.go | 29 +++++++++++++++++++++++++++++
 internal/ast/field.go      |  5 +++++
 3 files changed, 37 insertions(+)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index 6eac961..bf1f8bc 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -150,6 +150,9 @@ func (choice *Choice) Evaluate(p *Package) error {
 			if err := condition.Condition.Evaluate(p); err != nil {
 				return err
 			}
+			if err := condition.Condition.checkConstant(); err != nil {
+				return err
+			}
 		}
 	}
 
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index cc31314..0a53ce1 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -85,6 +85,35 @@ type Expression struct {
 	FullyResolved bool
 }
 
+// ErrNotConstant is returned if a constant expression refers to a variable.
+var ErrNotConstant = errors.New("expression is not constant")
+
+// checkConstant returns an error if the (evaluated) expression depends on
+// anything that is only known at run time.
+func (expr *Expression) checkConstant() error {
+	if expr == nil {
+		return nil
+	}
+	switch expr.Type {
+	case parser.ZserioParserINDEX, parser.ZserioParserRPAREN:
+		return ErrNotConstant
+	case parser.ZserioParserID:
+		if expr.ResultSymbol == nil {
+			break
+		}
+		switch expr.ResultSymbol.Symbol.(type) {
+		case *Field, *Parameter, *Function:
+			return fmt.Errorf("%w: %s", ErrNotConstant, expr.Text)
+		}
+	}
+	for _, operand := range []*Expression{expr.Operand1, expr.Operand2, expr.Operand3} {
+		if err := operand.checkConstant(); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func copyExpressionResult(src, dst *Expression) {
 	dst.ResultBoolValue = src.ResultBoolValue
 	dst.ResultIntValue = src.ResultIntValue
diff --git a/internal/ast/field.go b/internal/ast/field.go
index 75239da..83ce807 100644
--- a/internal/ast/field.go
+++ b/internal/ast/field.go
@@ -1,5 +1,7 @@
 package ast
 
+import "fmt"
+
 type Array struct {
 	IsPacked bool
 	Length   *Expression
@@ -37,6 +39,9 @@ func (f *Field) Evaluate(p *Package) error {
 		if err := f.Initializer.Evaluate(p); err != nil {
 			return err
 		}
+		if err := f.Initializer.checkConstant(); err != nil {
+			return fmt.Errorf("default value of %s: %w", f.Name, err)
+		}
 	}
 	if f.OptionalClause != nil {
 		if err := f.OptionalClause.Evaluate(p); err != nil {
-- 
2.43.0


From cd88dc0739ccc186428b16cc9d4a8fa4ee96ca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 68/80] fix: exponential time to generate nested ternary
 expressions

---
 internal/generator/expression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 7b7ebaf..f096166 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -423,8 +423,8 @@ func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) st
 		return fmt.Sprintf("func() %s { if %s { return %s(%s) }; return %s(%s) }()",
 			typeName,
 			op1,
-			typeName, ExpressionToGoString(scope, expression.Operand2),
-			typeName, ExpressionToGoString(scope, expression.Operand3),
+			typeName, op2,
+			typeName, op3,
 		)
 	}
 	// Ternary expressions are not supported by Go. As a workaround,
-- 
2.43.0


From 1aaa471262c59bd3544408a463966d33ffdee4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 69/80] fix: report schemas that are nested too deeply instead
 of overflowing the stack

---
 internal/model/package.go | 40 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/internal/model/package.go b/internal/model/package.go
index 925aab7..27d2c5b 100644
--- a/internal/model/package.go
+++ b/internal/model/package.go
@@ -20,6 +20,41 @@ func (l *syntaxErrorListener) SyntaxError(_ antlr.Recognizer, _ any, line, colum
 	l.errs = append(l.errs, fmt.Errorf("line %d:%d: %s", line, column, msg))
 }
 
+// maxNestingDepth is the limit for the depth of the parsed tree, all of which is
+// processed recursively.
+const maxNestingDepth = 10000
+
+var errNestedTooDeeply = errors.New("schema is nested too deeply")
+
+// nestingLimiter aborts parsing (with a panic) if the input is nested too deeply.
+type nestingLimiter struct {
+	antlr.BaseParseTreeListener
+	depth int
+}
+
+func (l *nestingLimiter) EnterEveryRule(antlr.ParserRuleContext) {
+	if l.depth++; l.depth > maxNestingDepth {
+		panic(errNestedTooDeeply)
+	}
+}
+
+func (l *nestingLimiter) ExitEveryRule(antlr.ParserRuleContext) {
+	l.depth--
+}
+
+// parse parses the root rule of a file.
+func parse(p *parser.ZserioParser) (tree antlr.ParseTree, err error) {
+	p.AddParseListener(&nestingLimiter{})
+	defer func() {
+		if r := recover(); r == errNestedTooDeeply {
+			err = errNestedTooDeeply
+		} else if r != nil {
+			panic(r)
+		}
+	}()
+	return p.PackageDeclaration(), nil
+}
+
 func PackageFromFile(path string) (*ast.Package, error) {
 	input, err := antlr.NewFileStream(path)
 	if err != nil {
@@ -32,7 +67,10 @@ func PackageFromFile(path string) (*ast.Package, error) {
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := parser.NewZserioParser(stream)
 	p.AddErrorListener(errorListener)
-	tree := p.PackageDeclaration()
+	tree, err := parse(p)
+	if err != nil {
+		return nil, fmt.Errorf("%s: %w", path, err)
+	}
 	if len(errorListener.errs) > 0 {
 		return nil, fmt.Errorf("%s: %w", path, errors.Join(errorListener.errs...))
 	}
-- 
2.43.0


From ce9047d3a94ab10a198f1beed8e5d6557e7e5a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 70/80] fix: values of items and constants could refer to
 members of any compound

---
 internal/ast/bitmask.go |  3 +++
 internal/ast/const.go   |  3 +++
 internal/ast/enum.go    |  3 +++
 internal/ast/package.go | 10 ++++++++++
 4 files changed, 19 insertions(+)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index bf4fd38..40c75da 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -26,6 +26,9 @@ func (bitmask *BitmaskType) Evaluate(p *Package) error {
 
 // evaluateUpTo evaluates the values up to the given one (all if nil).
 func (bitmask *BitmaskType) evaluateUpTo(p *Package, last *BitmaskValue) error {
+	// the members of compounds are not visible here
+	defer p.leaveCompound()()
+
 	for ix, value := range bitmask.Values {
 		if value.Expression == nil {
 			if ix == 0 {
diff --git a/internal/ast/const.go b/internal/ast/const.go
index 8cd7e24..186d07f 100644
--- a/internal/ast/const.go
+++ b/internal/ast/const.go
@@ -10,5 +10,8 @@ type Const struct {
 
 // Evaluate evalutes the value expression of a const type
 func (c *Const) Evaluate(scope *Package) error {
+	// the members of compounds are not visible here
+	defer scope.leaveCompound()()
+
 	return c.ValueExpression.Evaluate(scope)
 }
diff --git a/internal/ast/enum.go b/internal/ast/enum.go
index 68dc843..57e93fa 100644
--- a/internal/ast/enum.go
+++ b/internal/ast/enum.go
@@ -34,6 +34,9 @@ func (e *Enum) Evaluate(scope *Package) error {
 
 // evaluateUpTo evaluates the items up to the given one (all if nil).
 func (e *Enum) evaluateUpTo(scope *Package, last *EnumItem) error {
+	// the members of compounds are not visible here
+	defer scope.leaveCompound()()
+
 	for ix, item := range e.Items {
 		if item.Expression == nil {
 			if ix == 0 {
diff --git a/internal/ast/package.go b/internal/ast/package.go
index 81c039b..f18a0ea 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -299,6 +299,16 @@ func (p *Package) GetCurrentCompoundType(name string) (*SymbolReference, error)
 	return nil, errors.New("compound symbol not found")
 }
 
+// leaveCompound hides the members of the current compound, until the returned
+// function is called.
+func (p *Package) leaveCompound() func() {
+	compoundScope := p.LocalSymbols.CurrentCompoundScope
+	p.LocalSymbols.CurrentCompoundScope = nil
+	return func() {
+		p.LocalSymbols.CurrentCompoundScope = compoundScope
+	}
+}
+
 func (p *Package) GetCompoundType(compoundSymbolName, name string) (*SymbolReference, error) {
 	if typeSymbol, err := p.LocalSymbols.GetCompoundType(compoundSymbolName, name); err == nil {
 		typeSymbol.Package = p.Name
-- 
2.43.0


From 3c288e5bc53874265a4ee2647ee3e5a1e759cda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 71/80] fix: fields and parameters must hide constants of the
 same name

---
 internal/ast/package.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ast/package.go b/internal/ast/package.go
index f18a0ea..8afbabc 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -244,6 +244,12 @@ func (p *Package) GetSymbol(name string) (*SymbolReference, error) {
 	// field and type have the same name.
 	// first search for types in local and all imported packages
 	if typeSymbol, err := p.GetType(name); err == nil {
+		// the members of the current compound hide constants
+		if _, isConst := typeSymbol.Symbol.(*Const); isConst {
+			if memberSymbol, err := p.GetCurrentCompoundType(name); err == nil {
+				return memberSymbol, nil
+			}
+		}
 		return typeSymbol, nil
 	}
 
-- 
2.43.0


From a3f6d2e14d4755483e89095db543ad733319e20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 72/80] fix: templates of other packages resolved names in the
 package that uses them

---
 internal/ast/expression.go  | 13 ++++++++++++-
 internal/ast/package.go     | 20 +++++++++++++++-----
 internal/model/transform.go | 20 ++++++++++++--------
 3 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 0a53ce1..860a9cd 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -40,6 +40,10 @@ type Expression struct {
 	// Text is the text of the expression.
 	Text string
 
+	// Package is the package in which an identifier is looked up, if that is not
+	// the package in which the expression is evaluated.
+	Package string
+
 	// Operand1 is the first operand of the expression (if used).
 	Operand1 *Expression
 
@@ -207,7 +211,14 @@ func (expr *Expression) evaluateIndexExpression() error {
 
 // evaluateIdentifier evaluates an identifier expression.
 func (expr *Expression) evaluateIdentifier(scope *Package) error {
-	symbol, err := scope.GetSymbol(expr.Text)
+	declaringPackage := scope
+	if expr.Package != "" {
+		var err error
+		if declaringPackage, err = scope.GetImportedScope(expr.Package); err != nil {
+			return err
+		}
+	}
+	symbol, err := scope.getSymbol(declaringPackage, expr.Text)
 	if err != nil {
 		return errors.New("symbol not found")
 	}
diff --git a/internal/ast/package.go b/internal/ast/package.go
index 8afbabc..4186dc1 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -28,7 +28,10 @@ type Package struct {
 	ImportedPackages []*Package
 	// ImportedSymbols are the symbols that are imported one by one.
 	ImportedSymbols []*ImportedSymbol
-	LocalSymbols    *SymbolScope
+	// TemplatePackages are the packages of the templates that this package
+	// instantiates. Their symbols are not visible, unless they are imported.
+	TemplatePackages []*Package
+	LocalSymbols     *SymbolScope
 }
 
 // ImportedSymbol is a single symbol that is imported from another package.
@@ -37,13 +40,13 @@ type ImportedSymbol struct {
 	Package *Package
 }
 
-// ImportedScopes returns all packages from which anything is imported.
+// ImportedScopes returns all packages from which anything is used.
 func (p *Package) ImportedScopes() []*Package {
 	scopes := append([]*Package{}, p.ImportedPackages...)
 	for _, importedSymbol := range p.ImportedSymbols {
 		scopes = append(scopes, importedSymbol.Package)
 	}
-	return scopes
+	return append(scopes, p.TemplatePackages...)
 }
 
 // OriginalTypeReference is a reference to the original zserio type, for example
@@ -240,10 +243,17 @@ type SymbolReference struct {
 // GetSymbol searches for a symbol not only in the current scope, but also in
 // all imported scopes.
 func (p *Package) GetSymbol(name string) (*SymbolReference, error) {
+	return p.getSymbol(p, name)
+}
+
+// getSymbol searches for a symbol in the current compound, and in the package
+// that declares the expression that uses the symbol. These are different for
+// the templates of another package.
+func (p *Package) getSymbol(declaringPackage *Package, name string) (*SymbolReference, error) {
 	// The search order is important to avoid any recursive lookup, in case
 	// field and type have the same name.
 	// first search for types in local and all imported packages
-	if typeSymbol, err := p.GetType(name); err == nil {
+	if typeSymbol, err := declaringPackage.GetType(name); err == nil {
 		// the members of the current compound hide constants
 		if _, isConst := typeSymbol.Symbol.(*Const); isConst {
 			if memberSymbol, err := p.GetCurrentCompoundType(name); err == nil {
@@ -260,7 +270,7 @@ func (p *Package) GetSymbol(name string) (*SymbolReference, error) {
 	}
 
 	// third, search all other types (enum fields)
-	if typeSymbol, err := p.GetOtherType(name); err == nil {
+	if typeSymbol, err := declaringPackage.GetOtherType(name); err == nil {
 		return typeSymbol, nil
 	}
 	return nil, errors.New("symbol not found")
diff --git a/internal/model/transform.go b/internal/model/transform.go
index b993b59..a9c4e33 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -306,6 +306,9 @@ type instantiation struct {
 	model *Model
 	pkg   *ast.Package
 
+	// templatePkg is the package that declares the template.
+	templatePkg *ast.Package
+
 	// types is a map from the template parameter name to the instantiated type.
 	types map[string]*ast.TypeReference
 }
@@ -366,6 +369,9 @@ func (in *instantiation) instantiateExpression(expression *ast.Expression) *ast.
 	if expression.Type == parser.ZserioParserID {
 		if tt, found := in.types[expression.Text]; found && !tt.IsBuiltin {
 			expressionCopy.Text = tt.Name
+			expressionCopy.Package = tt.Package
+		} else if expression.Package == "" && in.templatePkg != nil {
+			expressionCopy.Package = in.templatePkg.Name
 		}
 	}
 	return &expressionCopy
@@ -556,7 +562,7 @@ func expressionKey(expression *ast.Expression) string {
 	if expression == nil {
 		return ""
 	}
-	return fmt.Sprintf("(%d %q %s %s %s)", expression.Type, expression.Text,
+	return fmt.Sprintf("(%d %s.%q %s %s %s)", expression.Type, expression.Package, expression.Text,
 		expressionKey(expression.Operand1), expressionKey(expression.Operand2), expressionKey(expression.Operand3))
 }
 
@@ -623,9 +629,10 @@ func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, te
 	}
 
 	in := &instantiation{
-		model: m,
-		pkg:   pkgScope,
-		types: map[string]*ast.TypeReference{},
+		model:       m,
+		pkg:         pkgScope,
+		templatePkg: templateScope,
+		types:       map[string]*ast.TypeReference{},
 	}
 	instantiatedArguments := make([]*ast.TypeReference, len(templateArguments))
 	for ix, ta := range templateArguments {
@@ -669,10 +676,7 @@ func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, te
 	}
 
 	if templateScope != pkgScope {
-		// The instantiated type uses what is visible in the package of the
-		// template.
-		pkgScope.ImportedPackages = append(pkgScope.ImportedPackages, templateScope)
-		pkgScope.ImportedPackages = append(pkgScope.ImportedPackages, templateScope.ImportedScopes()...)
+		pkgScope.TemplatePackages = append(pkgScope.TemplatePackages, templateScope)
 	}
 
 	switch n := templateSymbol.Symbol.(type) {
-- 
2.43.0


From d4169f9811413e3028641ebc8a187fad279045df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 73/80] fix: a type with parameters could be used without
 arguments

---
 internal/ast/field.go   | 10 +++++++++-
 internal/ast/package.go |  6 +++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/ast/field.go b/internal/ast/field.go
index 83ce807..8a75017 100644
--- a/internal/ast/field.go
+++ b/internal/ast/field.go
@@ -1,6 +1,9 @@
 package ast
 
-import "fmt"
+import (
+	"errors"
+	"fmt"
+)
 
 type Array struct {
 	IsPacked bool
@@ -35,6 +38,11 @@ func (f *Field) Evaluate(p *Package) error {
 	if err := f.Type.Evaluate(p); err != nil {
 		return err
 	}
+	if !f.Type.IsBuiltin {
+		if _, err := p.GetTypeParameter(f.Type); errors.Is(err, errTypeArgumentCount) {
+			return fmt.Errorf("type of %s: %w", f.Name, err)
+		}
+	}
 	if f.Initializer != nil {
 		if err := f.Initializer.Evaluate(p); err != nil {
 			return err
diff --git a/internal/ast/package.go b/internal/ast/package.go
index 4186dc1..f1fca1c 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -498,6 +498,10 @@ func GoPackageAlias(packageName string) string {
 	return alias
 }
 
+// errTypeArgumentCount is returned if a type is used with more or fewer
+// arguments than it has parameters.
+var errTypeArgumentCount = errors.New("wrong number of type arguments")
+
 // GetTypeParameter returns the parameters of a referenced type
 func (p *Package) GetTypeParameter(typeRef *TypeReference) ([]*Parameter, error) {
 	nativeType, err := p.GetOriginalType(typeRef)
@@ -526,7 +530,7 @@ func (p *Package) GetTypeParameter(typeRef *TypeReference) ([]*Parameter, error)
 	}
 
 	if len(parameters) != len(typeRef.TypeArguments) {
-		return nil, fmt.Errorf("expected %d type parameters, got %d", len(typeRef.TypeArguments), len(parameters))
+		return nil, fmt.Errorf("%w: expected %d, got %d", errTypeArgumentCount, len(parameters), len(typeRef.TypeArguments))
 	}
 	return parameters, nil
 }
-- 
2.43.0


From cb42edda36677e8c6b643fbd9e50735e88dabf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 74/80] fix: expressions could not use the values of optional
 fields

---
 internal/generator/expression.go | 19 +++++++++++++++++--
 ztype/varuint_encode.go          |  8 ++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index f096166..9968e1b 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -12,6 +12,15 @@ import (
 	"github.com/woven-planet/go-zserio/internal/parser"
 )
 
+// fieldToGoString prints the value of a field. Optional fields are pointers, a
+// field that is not set has the zero value.
+func fieldToGoString(field *ast.Field, text string) string {
+	if field.IsOptional {
+		return fmt.Sprintf("(*ztype.OrZero(%s))", text)
+	}
+	return text
+}
+
 func IdentifierToGoString(scope ast.Scope, expression *ast.Expression) string {
 	dummyType := &ast.TypeReference{
 		Name:    expression.ResultSymbol.Name,
@@ -24,7 +33,7 @@ func IdentifierToGoString(scope ast.Scope, expression *ast.Expression) string {
 
 	switch n := expression.ResultSymbol.Symbol.(type) {
 	case *ast.Field:
-		return "v." + n.Name
+		return fieldToGoString(n, "v."+n.Name)
 	case *ast.Parameter:
 		return "v." + n.Name
 	case *ast.Enum:
@@ -109,7 +118,13 @@ func dotOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 		}
 		return originalBitmaskType + rightText
 	}
-	return fmt.Sprintf("%s.%s", leftText, rightText)
+	text := fmt.Sprintf("%s.%s", leftText, rightText)
+	if expression.ResultSymbol != nil {
+		if field, ok := expression.ResultSymbol.Symbol.(*ast.Field); ok {
+			return fieldToGoString(field, text)
+		}
+	}
+	return text
 }
 
 func numBitsOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
diff --git a/ztype/varuint_encode.go b/ztype/varuint_encode.go
index 771f430..d89ab11 100644
--- a/ztype/varuint_encode.go
+++ b/ztype/varuint_encode.go
@@ -110,6 +110,14 @@ func UnsignedBitSize(v uint64, maxBytes int) (int, error) {
 	}
 }
 
+// OrZero returns p, or a pointer to a zero value if p is nil.
+func OrZero[T any](p *T) *T {
+	if p == nil {
+		return new(T)
+	}
+	return p
+}
+
 // NumBits returns the exact number of bits needed to represent an unsigned
 // integer in zserio, considering the fact that 0 is not counted, due to the
 // zserio encoding.
-- 
2.43.0


From 3c9a8a57b116c0dfab8d4caa8a1eb2e14c93b417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 75/80] fix: numbits had no type, so that results did not fit
 other operands

---
 internal/ast/expression.go       | 3 +++
 internal/generator/expression.go | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 860a9cd..90b8ec4 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -312,6 +312,9 @@ func (expr *Expression) evaluateNumBitsOperator() error {
 	if value := uint64(expr.Operand1.ResultIntValue); value > 1 {
 		expr.ResultIntValue = int64(bits.Len64(value - 1))
 	}
+	if !expr.Operand1.FullyResolved {
+		expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "int64"}
+	}
 	return nil
 }
 
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 9968e1b..2d685c7 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -128,7 +128,8 @@ func dotOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 }
 
 func numBitsOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	return fmt.Sprintf("ztype.NumBits(uint64(%s))", ExpressionToGoString(scope, expression.Operand1))
+	// the type is the one that evaluateNumBitsOperator() sets
+	return fmt.Sprintf("int64(ztype.NumBits(uint64(%s)))", ExpressionToGoString(scope, expression.Operand1))
 }
 
 func getSymbolType(scope ast.Scope, symbol *ast.SymbolReference) (*ast.TypeReference, error) {
-- 
2.43.0


From 82de663f787bc82b82a87f92996bdd2f77c7b908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 76/80] fix: comparisons of signed integers with uint64 were
 wrong

---
 internal/generator/expression.go | 18 ++++++++++++++++++
 ztype/varuint_encode.go          | 17 +++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 2d685c7..6eb882a 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -221,6 +221,21 @@ func comparisonCastType(scope ast.Scope, operand1, operand2 *ast.Expression) str
 	return "int64"
 }
 
+// needsMixedComparison tells whether integers of different signedness are
+// compared, for which no type can represent all the values of both operands.
+func needsMixedComparison(scope ast.Scope, operand1, operand2 *ast.Expression) bool {
+	if operand1.FullyResolved {
+		operand1, operand2 = operand2, operand1
+	}
+	operand1GoType := integerGoType(scope, operand1)
+	if operand2.FullyResolved {
+		return operand1GoType == "uint64" && operand2.ResultIntValue < 0
+	}
+	operand2GoType := integerGoType(scope, operand2)
+	return (operand1GoType == "uint64") != (operand2GoType == "uint64") &&
+		!(strings.HasPrefix(operand1GoType, "uint") && strings.HasPrefix(operand2GoType, "uint"))
+}
+
 // twoOperatorEqualTypesToGoString prints out an expression that uses two
 // operands, where the operator expects to be both sides of the same type.
 // since there are many different integer and type to integer types, casting
@@ -349,6 +364,9 @@ func twoOperatorEqualTypesToGoString(scope ast.Scope, expression *ast.Expression
 	if expression.ResultType == ast.ExpressionTypeBool &&
 		expression.Operand1.ResultType == ast.ExpressionTypeInteger &&
 		expression.Operand2.ResultType == ast.ExpressionTypeInteger {
+		if needsMixedComparison(scope, expression.Operand1, expression.Operand2) {
+			return fmt.Sprintf("(ztype.CompareIntegers(%s, %s) %s 0)", operand1Str, operand2Str, operator)
+		}
 		castType := comparisonCastType(scope, expression.Operand1, expression.Operand2)
 		if castType != "" {
 			operand1Str = fmt.Sprintf("%s(%s)", castType, operand1Str)
diff --git a/ztype/varuint_encode.go b/ztype/varuint_encode.go
index d89ab11..a641322 100644
--- a/ztype/varuint_encode.go
+++ b/ztype/varuint_encode.go
@@ -1,10 +1,12 @@
 package ztype
 
 import (
+	"cmp"
 	"errors"
 	"math/bits"
 
 	zserio "github.com/woven-planet/go-zserio"
+	"golang.org/x/exp/constraints"
 )
 
 // ErrOutOfBounds is an error that is returned when you try to write a
@@ -110,6 +112,21 @@ func UnsignedBitSize(v uint64, maxBytes int) (int, error) {
 	}
 }
 
+// CompareIntegers returns a negative number if a is less than b, zero if they
+// are equal, and a positive number if a is greater than b, whatever their types
+// are.
+func CompareIntegers[A, B constraints.Integer](a A, b B) int {
+	switch {
+	case a < 0 && b >= 0:
+		return -1
+	case a >= 0 && b < 0:
+		return 1
+	case a < 0: // both are negative
+		return cmp.Compare(int64(a), int64(b))
+	}
+	return cmp.Compare(uint64(a), uint64(b))
+}
+
 // OrZero returns p, or a pointer to a zero value if p is nil.
 func OrZero[T any](p *T) *T {
 	if p == nil {
-- 
2.43.0


From 106644517d812934f44d00b6a667f564da965659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:30 +0000
Subject: [PATCH 77/80] fix: the result of shifting a numeral by a numeral was
 an uint32

---
 internal/ast/expression.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 90b8ec4..2fb1184 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -861,7 +861,9 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 	// assume an uint32. This is the case if numerals are used, e.g.
 	// "17 < numShift". In this case, the result type is not determined.
 	// To avoid https://stackoverflow.com/questions/24865339/invalid-operation-shift-of-type-float64
-	if isShiftOperation && expr.NativeZserioType == nil {
+	// The result of shifting a numeral by a numeral is a numeral.
+	if isShiftOperation && expr.NativeZserioType == nil &&
+		!(expr.Operand1.FullyResolved && expr.Operand2.FullyResolved) {
 		expr.NativeZserioType = &TypeReference{
 			IsBuiltin: true,
 			Name:      "uint32",
-- 
2.43.0


From 41bc00bddbb467dfec21cc48c7355b522ea40fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:21 +0000
Subject: [PATCH 78/80] fix: types of enum, bitmask and compound values in
 expressions

---
 internal/ast/expression.go       | 49 +++++++++++++++++++++++++++++++-
 internal/generator/expression.go | 24 ++++++++++++++++
 2 files changed, 72 insertions(+), 1 deletion(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 2fb1184..58dd9d2 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -280,6 +280,9 @@ func (expr *Expression) evaluateValueOfOperator(scope *Package) error {
 	if typeSymbol == nil {
 		return nil
 	}
+	if function, ok := typeSymbol.Symbol.(*Function); ok {
+		typeSymbol = &SymbolReference{Symbol: function.ReturnType}
+	}
 	typeSymbol, err := scope.GetOriginalSymbol(typeSymbol)
 	if err != nil {
 		return err
@@ -326,6 +329,8 @@ func (expr *Expression) evaluateCompoundDotExpression(scope *Package) error {
 		typeReference = f.Type
 	} else if p, ok := expr.Operand1.ResultSymbol.Symbol.(*Parameter); ok {
 		typeReference = p.Type
+	} else if f, ok := expr.Operand1.ResultSymbol.Symbol.(*Function); ok {
+		typeReference = f.ReturnType
 	} else {
 		return errors.New("unknown compound dot expression")
 	}
@@ -387,8 +392,12 @@ func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
 	}
 	copyExpressionResult(function.Result, expr)
 	// the value is converted to the return type of the function
-	if _, nativeType, err := evaluateExpressionType(function.ReturnType, functionEvaluationScope); err == nil {
+	if resultType, nativeType, err := evaluateExpressionType(function.ReturnType, functionEvaluationScope); err == nil {
 		expr.NativeZserioType = nativeType
+		if expr.ResultType != resultType {
+			expr.ResultType = resultType
+			expr.FullyResolved = false
+		}
 	}
 	// copy the result symbol, in case the type of the symbol needs to be
 	// evaluated.
@@ -487,6 +496,7 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 					}
 					expr.ResultIntValue = bitmaskValue.Expression.ResultIntValue
 					expr.ResultType = ExpressionTypeBitmask
+					expr.ResultSymbol = op1Symbol
 					return nil
 				}
 			}
@@ -526,9 +536,34 @@ func (expr *Expression) evaluateParenthesizedExpression() error {
 	expr.ResultBoolValue = expr.Operand1.ResultBoolValue
 	expr.ResultFloatValue = expr.Operand1.ResultFloatValue
 	expr.NativeZserioType = expr.Operand1.NativeZserioType
+	expr.ResultSymbol = namedTypeSymbol(expr.Operand1)
 	return nil
 }
 
+// namedTypeSymbol returns the symbol that has the type of an enum, bitmask or
+// compound expression, or nil for all other expressions.
+func namedTypeSymbol(expr *Expression) *SymbolReference {
+	switch expr.ResultType {
+	case ExpressionTypeEnum, ExpressionTypeBitmask, ExpressionTypeCompound:
+		return expr.ResultSymbol
+	}
+	if isEnumItem(expr) {
+		for expr.Type == parser.ZserioParserLPAREN {
+			expr = expr.Operand1
+		}
+		return expr.Operand1.ResultSymbol
+	}
+	return nil
+}
+
+// isEnumItem checks if an expression is an item of an enum, such as Color.RED.
+func isEnumItem(expr *Expression) bool {
+	for expr.Type == parser.ZserioParserLPAREN {
+		expr = expr.Operand1
+	}
+	return expr.Type == parser.ZserioParserDOT && expr.Operand1.ResultType == ExpressionTypeEnum
+}
+
 // evaluateUnaryArithmeticExpression calculates an unary arithmetic expression,
 // such as -5, or +6.35. Calling it with a different operand type than int
 // or float will trigger an error.
@@ -781,6 +816,17 @@ func (expr *Expression) evaluateTernaryExpression() error {
 				return err
 			}
 		}
+		for _, operand := range []*Expression{expr.Operand2, expr.Operand3} {
+			if symbol := namedTypeSymbol(operand); symbol != nil {
+				expr.ResultSymbol = symbol
+				expr.ResultType = operand.ResultType
+				expr.NativeZserioType = nil
+				if isEnumItem(operand) {
+					expr.ResultType = ExpressionTypeEnum
+				}
+				break
+			}
+		}
 	}
 	return nil
 }
@@ -810,6 +856,7 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 	}
 
 	expr.ResultType = expr.Operand1.ResultType
+	expr.ResultSymbol = namedTypeSymbol(expr.Operand1)
 	expr.NativeZserioType = expr.Operand1.NativeZserioType
 	isShiftOperation := false
 
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 6eb882a..0ba2751 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -156,6 +156,28 @@ func getSymbolType(scope ast.Scope, symbol *ast.SymbolReference) (*ast.TypeRefer
 	}
 }
 
+// namedGoType returns the Go type of a symbol that is an enum, a bitmask or a
+// compound (or that has such a type), or an empty string if it is not known.
+func namedGoType(scope ast.Scope, symbol *ast.SymbolReference) string {
+	if symbol == nil {
+		return ""
+	}
+	typ := &ast.TypeReference{Name: symbol.Name, Package: symbol.Package}
+	switch symbol.Symbol.(type) {
+	case *ast.Enum, *ast.BitmaskType:
+	default:
+		var err error
+		if typ, err = getSymbolType(scope, symbol); err != nil {
+			return ""
+		}
+	}
+	goType, err := GoType(scope, typ)
+	if err != nil {
+		return ""
+	}
+	return goType
+}
+
 // integerGoType returns the Go type of an integer expression, or an empty string
 // if it is not known.
 func integerGoType(scope ast.Scope, expression *ast.Expression) string {
@@ -451,6 +473,8 @@ func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) st
 		typeName = "bool"
 	case ast.ExpressionTypeString:
 		typeName = "string"
+	default:
+		typeName = namedGoType(scope, expression.ResultSymbol)
 	}
 	if typeName != "" {
 		// only the selected operand may be evaluated
-- 
2.43.0


From aa40c10e09c7767c7415b1608a9efae254ef7d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:15 +0000
Subject: [PATCH 79/80] fix: functions that return an instance of a template

---
 internal/model/transform.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index a9c4e33..b3a26f8 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -249,6 +249,11 @@ func (m *Model) instantiatePackage(pkg *ast.Package) error {
 				return typeError(structure.Name, param.Name)
 			}
 		}
+		for _, function := range structure.Functions {
+			if function.ReturnType, err = in.instantiateReference(function.ReturnType); err != nil {
+				return typeError(structure.Name, function.Name)
+			}
+		}
 	}
 
 	// instantiate all choices that have template fields
@@ -277,6 +282,11 @@ func (m *Model) instantiatePackage(pkg *ast.Package) error {
 				return typeError(choice.Name, param.Name)
 			}
 		}
+		for _, function := range choice.Functions {
+			if function.ReturnType, err = in.instantiateReference(function.ReturnType); err != nil {
+				return typeError(choice.Name, function.Name)
+			}
+		}
 	}
 
 	// instantiate all unions that have template fields
@@ -296,6 +306,11 @@ func (m *Model) instantiatePackage(pkg *ast.Package) error {
 				return typeError(union.Name, param.Name)
 			}
 		}
+		for _, function := range union.Functions {
+			if function.ReturnType, err = in.instantiateReference(function.ReturnType); err != nil {
+				return typeError(union.Name, function.Name)
+			}
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 4f143dfdb7b44bb979684d8ed565930cea6fd16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:21 +0000
Subject: [PATCH 80/80] fix: constants that do not fit the type of the other
 operand

---
 internal/ast/expression.go          |  3 +++
 internal/ast/mixing_native_types.go | 35 +++++++++++++++++++++++++++++
 internal/generator/expression.go    | 13 +++++++++--
 3 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 58dd9d2..a8f6b3a 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -915,6 +915,9 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 			IsBuiltin: true,
 			Name:      "uint32",
 		}
+		if expr.Operand1.FullyResolved {
+			expr.NativeZserioType = widenForConstant(expr.NativeZserioType, expr.Operand1.ResultIntValue)
+		}
 	}
 
 	return nil
diff --git a/internal/ast/mixing_native_types.go b/internal/ast/mixing_native_types.go
index f6aae16..5605f1d 100644
--- a/internal/ast/mixing_native_types.go
+++ b/internal/ast/mixing_native_types.go
@@ -60,9 +60,44 @@ func DetermineArithmeticOperationResultType(operand1 *Expression, operand2 *Expr
 	}
 
 	resultType, err := evaluateMixingIntegerTypes(operand1.NativeZserioType, operand2.NativeZserioType)
+	if err == nil && operand1.FullyResolved != operand2.FullyResolved {
+		constant := operand1
+		if operand2.FullyResolved {
+			constant = operand2
+		}
+		resultType = widenForConstant(resultType, constant.ResultIntValue)
+	}
 	return ExpressionTypeInteger, resultType, err
 }
 
+// widenForConstant returns the type in which a constant is combined with an
+// operand of the given type, which may be too narrow for the constant.
+func widenForConstant(integerType *TypeReference, value int64) *TypeReference {
+	if integerType == nil {
+		return nil
+	}
+	rank, err := getIntegerTypeRank(integerType)
+	if err != nil {
+		return integerType
+	}
+	bits := 8
+	for bits < rank {
+		bits *= 2
+	}
+	// all constants are signed 64 bit numbers
+	if bits >= 64 {
+		return integerType
+	}
+	min, max := int64(0), int64(1)<<bits-1
+	if _, isSigned := zserioSignedToUnsigned[integerType.Name]; isSigned {
+		min, max = -(int64(1) << (bits - 1)), int64(1)<<(bits-1)-1
+	}
+	if value < min || value > max {
+		return &TypeReference{IsBuiltin: true, Name: "int64"}
+	}
+	return integerType
+}
+
 // compareNativeTypeReferences compares two native type references.
 // The type references can be nil, in which case the evaluation returns true if
 // both type references are nil.
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 0ba2751..80f12ea 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -258,6 +258,15 @@ func needsMixedComparison(scope ast.Scope, operand1, operand2 *ast.Expression) b
 		!(strings.HasPrefix(operand1GoType, "uint") && strings.HasPrefix(operand2GoType, "uint"))
 }
 
+// castOperandToGoString casts an operand to a Go type. Go does not convert
+// negative constants to an unsigned type.
+func castOperandToGoString(goType string, operand *ast.Expression, operandStr string) string {
+	if goType == "uint64" && operand.FullyResolved && operand.ResultType == ast.ExpressionTypeInteger && operand.ResultIntValue < 0 {
+		return fmt.Sprintf("%s(%#x)", goType, uint64(operand.ResultIntValue))
+	}
+	return fmt.Sprintf("%s(%s)", goType, operandStr)
+}
+
 // twoOperatorEqualTypesToGoString prints out an expression that uses two
 // operands, where the operator expects to be both sides of the same type.
 // since there are many different integer and type to integer types, casting
@@ -376,10 +385,10 @@ func twoOperatorEqualTypesToGoString(scope ast.Scope, expression *ast.Expression
 		}
 
 		if operand1RequiresCast {
-			operand1Str = fmt.Sprintf("%s(%s)", expressionGoType, operand1Str)
+			operand1Str = castOperandToGoString(expressionGoType, expression.Operand1, operand1Str)
 		}
 		if operand2RequiresCast {
-			operand2Str = fmt.Sprintf("%s(%s)", expressionGoType, operand2Str)
+			operand2Str = castOperandToGoString(expressionGoType, expression.Operand2, operand2Str)
 		}
 	}
 
-- 
2.43.0

