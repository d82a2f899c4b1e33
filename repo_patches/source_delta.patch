From d1cd9933d6d5a38e94e6555a78f3803e0cbd377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 01/56] fix: decode floats whose bit pattern was encoded in
 fewer bytes

The encoder writes the bits of a float as a compacted unsigned integer, so
0.0 and denormal floats arrive as uint8/uint16/uint32 and the decoder
panicked on its type assertion.
---
 codec/decoder.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/codec/decoder.go b/codec/decoder.go
index 2549b35..e790e64 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -138,7 +138,12 @@ func decode(reader io.Reader) (v interface{}, err error) {
 				return nil, err
 			}
 
-			return math.Float32frombits(data.(uint32)), nil
+			bits, err := NewAny(data).Uint32()
+			if nil != err {
+				return nil, err
+			}
+
+			return math.Float32frombits(bits), nil
 		}
 	case cFloat64:
 		{
@@ -147,7 +152,12 @@ func decode(reader io.Reader) (v interface{}, err error) {
 				return nil, err
 			}
 
-			return math.Float64frombits(data.(uint64)), nil
+			bits, err := NewAny(data).Uint64()
+			if nil != err {
+				return nil, err
+			}
+
+			return math.Float64frombits(bits), nil
 		}
 	case cUint8:
 		{
-- 
2.43.0


From fa35d2a281bcc54d67d4a7daf13a4d79effeb836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 02/56] fix: decode reads whole fields or fails

A reader may return fewer bytes than asked for; a truncated or slowly
arriving value was decoded as if padded with zeros.
---
 codec/decoder.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/codec/decoder.go b/codec/decoder.go
index e790e64..e11849b 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -14,7 +14,7 @@ import (
 
 func readByte(reader io.Reader) (byte, error) {
 	var data bytes1
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -24,7 +24,7 @@ func readByte(reader io.Reader) (byte, error) {
 
 func readUint16(reader io.Reader) (uint16, error) {
 	var data bytes2
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -34,7 +34,7 @@ func readUint16(reader io.Reader) (uint16, error) {
 
 func readUint32(reader io.Reader) (uint32, error) {
 	var data bytes4
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -44,7 +44,7 @@ func readUint32(reader io.Reader) (uint32, error) {
 
 func readUint64(reader io.Reader) (uint64, error) {
 	var data bytes8
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if err != nil {
 		return 0, err
 	}
@@ -54,7 +54,7 @@ func readUint64(reader io.Reader) (uint64, error) {
 
 func readInt16(reader io.Reader) (int16, error) {
 	var data bytes2
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -64,7 +64,7 @@ func readInt16(reader io.Reader) (int16, error) {
 
 func readInt32(reader io.Reader) (int32, error) {
 	var data bytes4
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -74,7 +74,7 @@ func readInt32(reader io.Reader) (int32, error) {
 
 func readInt64(reader io.Reader) (int64, error) {
 	var data bytes8
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -82,6 +82,16 @@ func readInt64(reader io.Reader) (int64, error) {
 	return (int64(data[0]) << 56) | (int64(data[1]) << 48) | (int64(data[2]) << 40) | (int64(data[3]) << 32) | (int64(data[4]) << 24) | (int64(data[5]) << 16) | (int64(data[6]) << 8) | int64(data[7]), nil
 }
 
+func readBytes(reader io.Reader, n uint32) (bytes, error) {
+	data := make(bytes, n)
+	_, err := io.ReadFull(reader, data)
+	if nil != err {
+		return nil, err
+	}
+
+	return data, nil
+}
+
 func decodeArray(reader io.Reader, count uint) ([]interface{}, error) {
 	var i uint
 	arr := make([]interface{}, count)
@@ -242,8 +252,7 @@ func decode(reader io.Reader) (v interface{}, err error) {
 				return "", nil
 			}
 
-			data := make(bytes, n)
-			_, err = reader.Read(data)
+			data, err := readBytes(reader, n)
 			if nil != err {
 				return nil, err
 			}
-- 
2.43.0


From ece9679aeae8fc87c6f84f65db777897d788a06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 03/56] fix: decode does not allocate by a claimed length

A few bytes claiming a huge string or array made the decoder allocate up to
64 GB before reading any element.
---
 codec/decoder.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/codec/decoder.go b/codec/decoder.go
index e11849b..01356dd 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -5,6 +5,7 @@
 package codec
 
 import (
+	stdbytes "bytes"
 	"fmt"
 	"io"
 	"math"
@@ -83,25 +84,29 @@ func readInt64(reader io.Reader) (int64, error) {
 }
 
 func readBytes(reader io.Reader, n uint32) (bytes, error) {
-	data := make(bytes, n)
-	_, err := io.ReadFull(reader, data)
+	// The length is not trusted, so memory is taken as the bytes arrive.
+	var data stdbytes.Buffer
+	size, err := io.Copy(&data, io.LimitReader(reader, int64(n)))
 	if nil != err {
 		return nil, err
 	}
+	if size < int64(n) {
+		return nil, io.ErrUnexpectedEOF
+	}
 
-	return data, nil
+	return data.Bytes(), nil
 }
 
 func decodeArray(reader io.Reader, count uint) ([]interface{}, error) {
 	var i uint
-	arr := make([]interface{}, count)
+	arr := make([]interface{}, 0)
 	for i = 0; i < count; i++ {
 		v, err := decode(reader)
 		if nil != err {
 			return nil, err
 		}
 
-		arr[i] = v
+		arr = append(arr, v)
 	}
 
 	return arr, nil
-- 
2.43.0


From 4b50040ea8b03926fb8be3579c4d845552d7c3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:21 +0000
Subject: [PATCH 04/56] fix: decode reports unhashable map keys

An array or a map used as map key made the decoder panic.
---
 codec/decoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codec/decoder.go b/codec/decoder.go
index 01356dd..f7d2b2a 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -127,6 +127,11 @@ func decodeMap(reader io.Reader, count uint) (map[interface{}]interface{}, error
 			return nil, err
 		}
 
+		switch k.(type) {
+		case []interface{}, map[interface{}]interface{}:
+			return nil, fmt.Errorf("Unsupported map key: %T", k)
+		}
+
 		dict[k] = v
 	}
 
-- 
2.43.0


From dbc6ab307a0b66c4977622190f04f7452daca356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:21 +0000
Subject: [PATCH 05/56] fix: decode bounds the nesting depth

Some megabytes of nested array headers overflowed the stack, which ends the
process.
---
 codec/code.go    |  2 ++
 codec/decoder.go | 26 +++++++++++++++++---------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/codec/code.go b/codec/code.go
index e7320a6..0c92289 100644
--- a/codec/code.go
+++ b/codec/code.go
@@ -53,6 +53,8 @@ const (
 	cInt16Min = -cInt16Max
 	cInt32Max = 2 << (32 - 2)
 	cInt32Min = -cInt32Max
+
+	cMaxDepth = 10000
 )
 
 type bytes []byte
diff --git a/codec/decoder.go b/codec/decoder.go
index f7d2b2a..cf5925d 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -97,11 +97,11 @@ func readBytes(reader io.Reader, n uint32) (bytes, error) {
 	return data.Bytes(), nil
 }
 
-func decodeArray(reader io.Reader, count uint) ([]interface{}, error) {
+func decodeArray(reader io.Reader, count uint, depth int) ([]interface{}, error) {
 	var i uint
 	arr := make([]interface{}, 0)
 	for i = 0; i < count; i++ {
-		v, err := decode(reader)
+		v, err := decodeNested(reader, depth+1)
 		if nil != err {
 			return nil, err
 		}
@@ -112,17 +112,17 @@ func decodeArray(reader io.Reader, count uint) ([]interface{}, error) {
 	return arr, nil
 }
 
-func decodeMap(reader io.Reader, count uint) (map[interface{}]interface{}, error) {
+func decodeMap(reader io.Reader, count uint, depth int) (map[interface{}]interface{}, error) {
 	var i uint
 	dict := make(map[interface{}]interface{})
 
 	for i = 0; i < count; i++ {
-		k, err := decode(reader)
+		k, err := decodeNested(reader, depth+1)
 		if nil != err {
 			return nil, err
 		}
 
-		v, err := decode(reader)
+		v, err := decodeNested(reader, depth+1)
 		if nil != err {
 			return nil, err
 		}
@@ -139,6 +139,14 @@ func decodeMap(reader io.Reader, count uint) (map[interface{}]interface{}, error
 }
 
 func decode(reader io.Reader) (v interface{}, err error) {
+	return decodeNested(reader, 0)
+}
+
+func decodeNested(reader io.Reader, depth int) (v interface{}, err error) {
+	if depth > cMaxDepth {
+		return nil, fmt.Errorf("Nested too deep!")
+	}
+
 	c, err := readByte(reader)
 	if nil != err {
 		return nil, err
@@ -153,7 +161,7 @@ func decode(reader io.Reader) (v interface{}, err error) {
 		return true, nil
 	case cFloat32:
 		{
-			data, err := decode(reader)
+			data, err := decodeNested(reader, depth+1)
 			if nil != err {
 				return nil, err
 			}
@@ -167,7 +175,7 @@ func decode(reader io.Reader) (v interface{}, err error) {
 		}
 	case cFloat64:
 		{
-			data, err := decode(reader)
+			data, err := decodeNested(reader, depth+1)
 			if nil != err {
 				return nil, err
 			}
@@ -276,7 +284,7 @@ func decode(reader io.Reader) (v interface{}, err error) {
 				return nil, err
 			}
 
-			return decodeArray(reader, uint(n))
+			return decodeArray(reader, uint(n), depth)
 		}
 	case cMap32:
 		{
@@ -285,7 +293,7 @@ func decode(reader io.Reader) (v interface{}, err error) {
 				return nil, err
 			}
 
-			return decodeMap(reader, uint(n))
+			return decodeMap(reader, uint(n), depth)
 		}
 	}
 
-- 
2.43.0


From c3aa9b525736a33ec0722493e048162c5cbe00fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 06/56] fix: encode reports a failure to write a float's tag

---
 codec/encoder.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/codec/encoder.go b/codec/encoder.go
index cd3b3d5..5210706 100644
--- a/codec/encoder.go
+++ b/codec/encoder.go
@@ -26,12 +26,20 @@ func encodeBool(writer io.Writer, value bool) (n int, err error) {
 }
 
 func encodeFloat32(writer io.Writer, value float32) (n int, err error) {
-	writer.Write(bytes{cFloat32})
+	n, err = writer.Write(bytes{cFloat32})
+	if nil != err {
+		return n, err
+	}
+
 	return encodeUint32(writer, math.Float32bits(value))
 }
 
 func encodeFloat64(writer io.Writer, value float64) (n int, err error) {
-	writer.Write(bytes{cFloat64})
+	n, err = writer.Write(bytes{cFloat64})
+	if nil != err {
+		return n, err
+	}
+
 	return encodeUint64(writer, math.Float64bits(value))
 }
 
-- 
2.43.0


From 9f1e8b61665e44195551c9172850d83ff5439256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 07/56] fix: integer accessors refuse values that do not fit

Int8() of 300 returned 44 without an error, and values given to NewAny as
int or uint could not be read back at all.
---
 codec/any.go | 197 ++++++++++++++++++++-------------------------------
 1 file changed, 77 insertions(+), 120 deletions(-)

diff --git a/codec/any.go b/codec/any.go
index 6a93f5c..a579ed0 100644
--- a/codec/any.go
+++ b/codec/any.go
@@ -7,6 +7,7 @@ package codec
 import (
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 )
 
@@ -30,6 +31,12 @@ const (
 	aMap     aType = 0x0f
 )
 
+const (
+	cMaxUint = uint64(^uint(0))
+	cMaxInt  = int64(^uint(0) >> 1)
+	cMinInt  = -cMaxInt - 1
+)
+
 type any struct {
 	s  interface{}
 	tp aType
@@ -56,153 +63,53 @@ func (a *any) String() (string, error) {
 }
 
 func (a *any) Int() (int, error) {
-	switch a.tp {
-	case aInt8:
-		return int(a.s.(int8)), nil
-	case aInt16:
-		return int(a.s.(int16)), nil
-	case aInt32:
-		return int(a.s.(int32)), nil
-	case aInt64:
-		return int(a.s.(int64)), nil
-	}
-
-	return -1, fmt.Errorf("Can't convert %d to int!", a.tp)
+	v, err := a.signed("int", cMinInt, cMaxInt)
+	return int(v), err
 }
 
 func (a *any) Int8() (int8, error) {
-	switch a.tp {
-	case aInt8:
-		return int8(a.s.(int8)), nil
-	case aInt16:
-		return int8(a.s.(int16)), nil
-	case aInt32:
-		return int8(a.s.(int32)), nil
-	case aInt64:
-		return int8(a.s.(int64)), nil
-	}
-
-	return -1, fmt.Errorf("Can't convert %d to int8!", a.tp)
+	v, err := a.signed("int8", math.MinInt8, math.MaxInt8)
+	return int8(v), err
 }
 
 func (a *any) Int16() (int16, error) {
-	switch a.tp {
-	case aInt8:
-		return int16(a.s.(int8)), nil
-	case aInt16:
-		return int16(a.s.(int16)), nil
-	case aInt32:
-		return int16(a.s.(int32)), nil
-	case aInt64:
-		return int16(a.s.(int64)), nil
-	}
-
-	return -1, fmt.Errorf("Can't convert %d to int16!", a.tp)
+	v, err := a.signed("int16", math.MinInt16, math.MaxInt16)
+	return int16(v), err
 }
 
 func (a *any) Int32() (int32, error) {
-	switch a.tp {
-	case aInt8:
-		return int32(a.s.(int8)), nil
-	case aInt16:
-		return int32(a.s.(int16)), nil
-	case aInt32:
-		return int32(a.s.(int32)), nil
-	case aInt64:
-		return int32(a.s.(int64)), nil
-	}
-
-	return -1, fmt.Errorf("Can't convert %d to int32!", a.tp)
+	v, err := a.signed("int32", math.MinInt32, math.MaxInt32)
+	return int32(v), err
 }
 
 func (a *any) Int64() (int64, error) {
-	switch a.tp {
-	case aInt8:
-		return int64(a.s.(int8)), nil
-	case aInt16:
-		return int64(a.s.(int16)), nil
-	case aInt32:
-		return int64(a.s.(int32)), nil
-	case aInt64:
-		return int64(a.s.(int64)), nil
-	}
-
-	return -1, fmt.Errorf("Can't convert %d to int64!", a.tp)
+	v, err := a.signed("int64", math.MinInt64, math.MaxInt64)
+	return int64(v), err
 }
 
 func (a *any) Uint() (uint, error) {
-	switch a.tp {
-	case aUint8:
-		return uint(a.s.(uint8)), nil
-	case aUint16:
-		return uint(a.s.(uint16)), nil
-	case aUint32:
-		return uint(a.s.(uint32)), nil
-	case aUint64:
-		return uint(a.s.(uint64)), nil
-	}
-
-	return 0, fmt.Errorf("Can't convert %d to uint8!", a.tp)
+	v, err := a.unsigned("uint", cMaxUint)
+	return uint(v), err
 }
 
 func (a *any) Uint8() (uint8, error) {
-	switch a.tp {
-	case aUint8:
-		return uint8(a.s.(uint8)), nil
-	case aUint16:
-		return uint8(a.s.(uint16)), nil
-	case aUint32:
-		return uint8(a.s.(uint32)), nil
-	case aUint64:
-		return uint8(a.s.(uint64)), nil
-	}
-
-	return 0, fmt.Errorf("Can't convert %d to uint8!", a.tp)
+	v, err := a.unsigned("uint8", math.MaxUint8)
+	return uint8(v), err
 }
 
 func (a *any) Uint16() (uint16, error) {
-	switch a.tp {
-	case aUint8:
-		return uint16(a.s.(uint8)), nil
-	case aUint16:
-		return uint16(a.s.(uint16)), nil
-	case aUint32:
-		return uint16(a.s.(uint32)), nil
-	case aUint64:
-		return uint16(a.s.(uint64)), nil
-	}
-
-	return 0, fmt.Errorf("Can't convert %d to uint16!", a.tp)
+	v, err := a.unsigned("uint16", math.MaxUint16)
+	return uint16(v), err
 }
 
 func (a *any) Uint32() (uint32, error) {
-	switch a.tp {
-	case aUint8:
-		return uint32(a.s.(uint8)), nil
-	case aUint16:
-		return uint32(a.s.(uint16)), nil
-	case aUint32:
-		return uint32(a.s.(uint32)), nil
-	case aUint64:
-		return uint32(a.s.(uint64)), nil
-	}
-
-	return 0, fmt.Errorf("Can't convert %d to uint32!", a.tp)
+	v, err := a.unsigned("uint32", math.MaxUint32)
+	return uint32(v), err
 }
 
 func (a *any) Uint64() (uint64, error) {
-	switch a.tp {
-	case aUint8:
-		return uint64(a.s.(uint8)), nil
-	case aUint16:
-		return uint64(a.s.(uint16)), nil
-	case aUint32:
-		return uint64(a.s.(uint32)), nil
-	case aUint64:
-		return uint64(a.s.(uint64)), nil
-	}
-
-	return 0, fmt.Errorf("Can't convert %d to uint64!", a.tp)
+	v, err := a.unsigned("uint64", math.MaxUint64)
+	return uint64(v), err
 }
 
 func (a *any) Float32() (float32, error) {
@@ -243,6 +150,56 @@ func (a *any) Map() (map[interface{}]interface{}, error) {
 	return nil, fmt.Errorf("Can't convert %d to map!", a.tp)
 }
 
+// signed returns the source integer if it lies between min and max.
+func (a *any) signed(name string, min int64, max int64) (int64, error) {
+	var v int64
+	switch s := a.s.(type) {
+	case int:
+		v = int64(s)
+	case int8:
+		v = int64(s)
+	case int16:
+		v = int64(s)
+	case int32:
+		v = int64(s)
+	case int64:
+		v = s
+	default:
+		return -1, fmt.Errorf("Can't convert %d to %s!", a.tp, name)
+	}
+
+	if v < min || v > max {
+		return -1, fmt.Errorf("%d is out of range of %s!", v, name)
+	}
+
+	return v, nil
+}
+
+// unsigned returns the source integer if it is not greater than max.
+func (a *any) unsigned(name string, max uint64) (uint64, error) {
+	var v uint64
+	switch s := a.s.(type) {
+	case uint:
+		v = uint64(s)
+	case uint8:
+		v = uint64(s)
+	case uint16:
+		v = uint64(s)
+	case uint32:
+		v = uint64(s)
+	case uint64:
+		v = s
+	default:
+		return 0, fmt.Errorf("Can't convert %d to %s!", a.tp, name)
+	}
+
+	if v > max {
+		return 0, fmt.Errorf("%d is out of range of %s!", v, name)
+	}
+
+	return v, nil
+}
+
 func (a *any) Encode(writer io.Writer) error {
 	_, err := encode(writer, a.s)
 	return err
-- 
2.43.0


From 44d077857bcac4c935c634fdc4bfdaa6b068bfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 08/56] fix: Arr and Map accept typed slices, arrays and maps

They panicked on every value but []interface{} and
map[interface{}]interface{}.
---
 codec/any.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/codec/any.go b/codec/any.go
index a579ed0..1ad30ca 100644
--- a/codec/any.go
+++ b/codec/any.go
@@ -136,7 +136,17 @@ func (a *any) Float64() (float64, error) {
 
 func (a *any) Arr() ([]interface{}, error) {
 	if aArr == a.tp {
-		return a.s.([]interface{}), nil
+		if arr, ok := a.s.([]interface{}); ok {
+			return arr, nil
+		}
+
+		v := reflect.ValueOf(a.s)
+		arr := make([]interface{}, v.Len())
+		for i := range arr {
+			arr[i] = v.Index(i).Interface()
+		}
+
+		return arr, nil
 	}
 
 	return nil, fmt.Errorf("Can't convert %d to array!", a.tp)
@@ -144,7 +154,17 @@ func (a *any) Arr() ([]interface{}, error) {
 
 func (a *any) Map() (map[interface{}]interface{}, error) {
 	if aMap == a.tp {
-		return a.s.(map[interface{}]interface{}), nil
+		if dict, ok := a.s.(map[interface{}]interface{}); ok {
+			return dict, nil
+		}
+
+		v := reflect.ValueOf(a.s)
+		dict := make(map[interface{}]interface{})
+		for _, k := range v.MapKeys() {
+			dict[k.Interface()] = v.MapIndex(k).Interface()
+		}
+
+		return dict, nil
 	}
 
 	return nil, fmt.Errorf("Can't convert %d to map!", a.tp)
-- 
2.43.0


From 4b4df4f4390d4a8066394b7531e3721167cc6134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:23 +0000
Subject: [PATCH 09/56] fix: a failed Decode leaves the value it held

It cleared the value but not its type, and the next accessor panicked.
---
 codec/any.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/any.go b/codec/any.go
index 1ad30ca..452f68a 100644
--- a/codec/any.go
+++ b/codec/any.go
@@ -226,12 +226,12 @@ func (a *any) Encode(writer io.Writer) error {
 }
 
 func (a *any) Decode(reader io.Reader) error {
-	var err error
-	a.s, err = decode(reader)
+	v, err := decode(reader)
 	if err != nil {
 		return err
 	}
 
+	a.s = v
 	a.normalize()
 
 	return nil
-- 
2.43.0


From 28a91e7f2622a0b848bca6262b6ebad6f1393309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:24 +0000
Subject: [PATCH 10/56] fix: method timeouts keep their fraction of a second

0.1 was cut to 0, which timed out at once, and 1.5 to 1.
---
 chancall/callee.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chancall/callee.go b/chancall/callee.go
index f75d9e5..03d78c0 100644
--- a/chancall/callee.go
+++ b/chancall/callee.go
@@ -62,7 +62,7 @@ func (c *callee) result(request *callRequest, response *callResponse) (err error
 
 func track(request *callRequest, timeout float32) {
 	go func() {
-		time.Sleep(time.Duration(timeout) * time.Second)
+		time.Sleep(time.Duration(float64(timeout) * float64(time.Second)))
 		request.Lock()
 		{
 			if !request.done {
-- 
2.43.0


From 890fbf227eddb58b80b46271a1e786ac5850b89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 11/56] fix: a finished call gives up its timeout goroutine

Every call left a goroutine sleeping for the whole timeout of its method.
---
 chancall/callee.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/chancall/callee.go b/chancall/callee.go
index 03d78c0..66b42bf 100644
--- a/chancall/callee.go
+++ b/chancall/callee.go
@@ -33,7 +33,9 @@ func (c *callee) handling() {
 }
 
 func (c *callee) process(request *callRequest) (err error) {
-	track(request, c.meta.timeout(request.method))
+	timer := track(request, c.meta.timeout(request.method))
+	defer timer.Stop()
+
 	result := c.meta.call(request.method, request.args...)
 	return c.result(request, &callResponse{result: result})
 }
@@ -60,9 +62,8 @@ func (c *callee) result(request *callRequest, response *callResponse) (err error
 	return
 }
 
-func track(request *callRequest, timeout float32) {
-	go func() {
-		time.Sleep(time.Duration(float64(timeout) * float64(time.Second)))
+func track(request *callRequest, timeout float32) *time.Timer {
+	return time.AfterFunc(time.Duration(float64(timeout)*float64(time.Second)), func() {
 		request.Lock()
 		{
 			if !request.done {
@@ -74,5 +75,5 @@ func track(request *callRequest, timeout float32) {
 			}
 		}
 		request.Unlock()
-	}()
+	})
 }
-- 
2.43.0


From c58b03469db4d1d7eef2e6df8cd2537351a0a625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 12/56] fix: goroutines sharing a caller get their own results

All calls of a caller answered into one channel, so concurrent calls could
receive each other's results.
---
 chancall/API.go    |  1 -
 chancall/caller.go | 13 +++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/chancall/API.go b/chancall/API.go
index 98ee2df..fa81444 100644
--- a/chancall/API.go
+++ b/chancall/API.go
@@ -37,7 +37,6 @@ func NewCallee(name string, target interface{}) ICallee {
 func NewCaller(c ICallee) ICaller {
 	caller := new(caller)
 	caller.callee = c.(*callee)
-	caller.callResponse = make(chan *callResponse, 1)
 
 	return caller
 }
diff --git a/chancall/caller.go b/chancall/caller.go
index ade1f1e..a186535 100644
--- a/chancall/caller.go
+++ b/chancall/caller.go
@@ -9,37 +9,38 @@ import (
 )
 
 type caller struct {
-	callee       *callee
-	callResponse chan *callResponse
+	callee *callee
 }
 
 func (c *caller) Call(method string, args ...interface{}) error {
+	callResponse := make(chan *callResponse, 1)
 	err := c.call(&callRequest{
 		method:       method,
 		args:         args,
-		callResponse: c.callResponse,
+		callResponse: callResponse,
 		done:         false,
 	}, true)
 	if nil != err {
 		return err
 	}
 
-	response := <-c.callResponse
+	response := <-callResponse
 	return response.err
 }
 
 func (c *caller) CallWithResult(method string, args ...interface{}) ([]interface{}, error) {
+	callResponse := make(chan *callResponse, 1)
 	err := c.call(&callRequest{
 		method:       method,
 		args:         args,
-		callResponse: c.callResponse,
+		callResponse: callResponse,
 		done:         false,
 	}, true)
 	if nil != err {
 		return nil, err
 	}
 
-	response := <-c.callResponse
+	response := <-callResponse
 	return response.result, response.err
 }
 
-- 
2.43.0


From 153b48cbe48f068915789e6f92d50bb1d040e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:27 +0000
Subject: [PATCH 13/56] fix: a call that cannot be carried out returns an error

Wrong arguments and panics in a method ended the process, and calling an
unknown method succeeded without results.
---
 chancall/callee.go |  4 ++--
 chancall/meta.go   | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/chancall/callee.go b/chancall/callee.go
index 66b42bf..99d3820 100644
--- a/chancall/callee.go
+++ b/chancall/callee.go
@@ -36,8 +36,8 @@ func (c *callee) process(request *callRequest) (err error) {
 	timer := track(request, c.meta.timeout(request.method))
 	defer timer.Stop()
 
-	result := c.meta.call(request.method, request.args...)
-	return c.result(request, &callResponse{result: result})
+	result, callErr := c.meta.call(request.method, request.args...)
+	return c.result(request, &callResponse{result: result, err: callErr})
 }
 
 func (c *callee) result(request *callRequest, response *callResponse) (err error) {
diff --git a/chancall/meta.go b/chancall/meta.go
index 24ba9d8..9ce8b87 100644
--- a/chancall/meta.go
+++ b/chancall/meta.go
@@ -5,6 +5,7 @@
 package chancall
 
 import (
+	"fmt"
 	"reflect"
 )
 
@@ -41,7 +42,14 @@ func (m *meta) collect(target interface{}) {
 	}
 }
 
-func (m *meta) call(method string, args ...interface{}) []interface{} {
+func (m *meta) call(method string, args ...interface{}) (result []interface{}, err error) {
+	defer func() {
+		if r := recover(); nil != r {
+			result = nil
+			err = fmt.Errorf("[%s] function call failed: %v", method, r)
+		}
+	}()
+
 	f := m.funcs[method]
 	if nil != f && f.fn.IsValid() {
 		params := make([]reflect.Value, 0)
@@ -50,15 +58,15 @@ func (m *meta) call(method string, args ...interface{}) []interface{} {
 		}
 		ret := f.fn.Call(params)
 
-		result := make([]interface{}, len(ret))
+		result = make([]interface{}, len(ret))
 		for i, r := range ret {
 			result[i] = r.Interface()
 		}
 
-		return result
+		return result, nil
 	}
 
-	return nil
+	return nil, fmt.Errorf("[%s] function is not found!", method)
 }
 
 func (m *meta) timeout(method string) float32 {
-- 
2.43.0


From 3de8ec408b92bf986ea4d85c0fc70f7e4de8e3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:28 +0000
Subject: [PATCH 14/56] fix: SetTimeout may be called while the method is being
 called

---
 chancall/meta.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chancall/meta.go b/chancall/meta.go
index 9ce8b87..f7bc000 100644
--- a/chancall/meta.go
+++ b/chancall/meta.go
@@ -7,6 +7,7 @@ package chancall
 import (
 	"fmt"
 	"reflect"
+	"sync"
 )
 
 func newMeta(name string, target interface{}) *meta {
@@ -24,6 +25,7 @@ type meta struct {
 }
 
 type fcall struct {
+	sync.Mutex
 	ft      reflect.Type
 	fn      *reflect.Value
 	timeout float32
@@ -72,6 +74,8 @@ func (m *meta) call(method string, args ...interface{}) (result []interface{}, e
 func (m *meta) timeout(method string) float32 {
 	f := m.funcs[method]
 	if nil != f {
+		f.Lock()
+		defer f.Unlock()
 		return f.timeout
 	}
 
@@ -81,6 +85,8 @@ func (m *meta) timeout(method string) float32 {
 func (m *meta) setTimeout(method string, timeout float32) {
 	f := m.funcs[method]
 	if nil != f {
+		f.Lock()
+		defer f.Unlock()
 		f.timeout = timeout
 	}
 }
-- 
2.43.0


From f684f22fd21a7c0e0b545eb9370721cd99e26578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:53 +0000
Subject: [PATCH 15/56] fix: a very long method timeout does not become an
 instant one

More than 292 years, like math.MaxFloat32 for 'never', overflowed.
---
 chancall/callee.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/chancall/callee.go b/chancall/callee.go
index 99d3820..322f83f 100644
--- a/chancall/callee.go
+++ b/chancall/callee.go
@@ -6,6 +6,7 @@ package chancall
 
 import (
 	"fmt"
+	"math"
 	"time"
 )
 
@@ -63,7 +64,12 @@ func (c *callee) result(request *callRequest, response *callResponse) (err error
 }
 
 func track(request *callRequest, timeout float32) *time.Timer {
-	return time.AfterFunc(time.Duration(float64(timeout)*float64(time.Second)), func() {
+	duration := time.Duration(math.MaxInt64)
+	if d := float64(timeout) * float64(time.Second); d < math.MaxInt64 {
+		duration = time.Duration(d)
+	}
+
+	return time.AfterFunc(duration, func() {
 		request.Lock()
 		{
 			if !request.done {
-- 
2.43.0


From 6eca511b2e646f5a3ee0e1c18578f8cc061d87f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:23 +0000
Subject: [PATCH 16/56] fix: nil, slice, map and variadic arguments reach the
 method

They made the conversion of arguments panic, always for nil and variadic
arguments and, for typed slices and maps, when coming from another dock.
---
 chancall/convert.go | 80 +++++++++++++++++++++++++++++++++++++++++++++
 chancall/meta.go    | 16 ++++++++-
 2 files changed, 95 insertions(+), 1 deletion(-)
 create mode 100644 chancall/convert.go

diff --git a/chancall/convert.go b/chancall/convert.go
new file mode 100644
index 0000000..e514537
--- /dev/null
+++ b/chancall/convert.go
@@ -0,0 +1,80 @@
+// Copyright 2019 MuGuangyi. All rights reserved.
+// Use of this source code is governed by a MIT-style
+// license that can be found in the LICENSE file.
+
+package chancall
+
+import (
+	"fmt"
+	"reflect"
+)
+
+// Convert arg to a value of type t. Besides Go's own conversions, nil becomes
+// the zero value of a type that has nil, and slices, arrays and maps, which
+// lose their element types on the way between docks, are converted element by
+// element.
+func Convert(arg interface{}, t reflect.Type) (reflect.Value, error) {
+	if nil == arg {
+		switch t.Kind() {
+		case reflect.Interface, reflect.Slice, reflect.Map, reflect.Ptr, reflect.Func, reflect.Chan:
+			return reflect.Zero(t), nil
+		}
+
+		return reflect.Value{}, fmt.Errorf("Can't convert nil to %s!", t)
+	}
+
+	v := reflect.ValueOf(arg)
+	if v.Type().ConvertibleTo(t) && (reflect.Array != t.Kind() || reflect.Array == v.Kind()) {
+		return v.Convert(t), nil
+	}
+
+	switch v.Kind() {
+	case reflect.Slice, reflect.Array:
+		var target reflect.Value
+		switch t.Kind() {
+		case reflect.Slice:
+			target = reflect.MakeSlice(t, v.Len(), v.Len())
+		case reflect.Array:
+			target = reflect.New(t).Elem()
+			if v.Len() != target.Len() {
+				return reflect.Value{}, fmt.Errorf("Can't convert %d elements to %s!", v.Len(), t)
+			}
+		default:
+			return reflect.Value{}, fmt.Errorf("Can't convert %s to %s!", v.Type(), t)
+		}
+
+		for i := 0; i < v.Len(); i++ {
+			elem, err := Convert(v.Index(i).Interface(), t.Elem())
+			if nil != err {
+				return reflect.Value{}, err
+			}
+
+			target.Index(i).Set(elem)
+		}
+
+		return target, nil
+	case reflect.Map:
+		if reflect.Map != t.Kind() {
+			break
+		}
+
+		target := reflect.MakeMap(t)
+		for _, k := range v.MapKeys() {
+			key, err := Convert(k.Interface(), t.Key())
+			if nil != err {
+				return reflect.Value{}, err
+			}
+
+			elem, err := Convert(v.MapIndex(k).Interface(), t.Elem())
+			if nil != err {
+				return reflect.Value{}, err
+			}
+
+			target.SetMapIndex(key, elem)
+		}
+
+		return target, nil
+	}
+
+	return reflect.Value{}, fmt.Errorf("Can't convert %s to %s!", v.Type(), t)
+}
diff --git a/chancall/meta.go b/chancall/meta.go
index f7bc000..e3b9c90 100644
--- a/chancall/meta.go
+++ b/chancall/meta.go
@@ -31,6 +31,15 @@ type fcall struct {
 	timeout float32
 }
 
+// in returns the type of the i-th argument.
+func (f *fcall) in(i int) reflect.Type {
+	if last := f.ft.NumIn() - 1; f.ft.IsVariadic() && i >= last {
+		return f.ft.In(last).Elem()
+	}
+
+	return f.ft.In(i)
+}
+
 func (m *meta) collect(target interface{}) {
 	value := reflect.ValueOf(target)
 	t := value.Type()
@@ -56,7 +65,12 @@ func (m *meta) call(method string, args ...interface{}) (result []interface{}, e
 	if nil != f && f.fn.IsValid() {
 		params := make([]reflect.Value, 0)
 		for i, arg := range args {
-			params = append(params, reflect.ValueOf(arg).Convert(f.ft.In(i)))
+			param, err := Convert(arg, f.in(i))
+			if nil != err {
+				return nil, err
+			}
+
+			params = append(params, param)
 		}
 		ret := f.fn.Call(params)
 
-- 
2.43.0


From 7ef86ee3efd765911c26a355f52a8201ec96ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 17/56] fix: guard the serializer registry

Docks and hubs starting concurrently in a process wrote the map unlocked,
which kills the process ('concurrent map writes').
---
 network/API.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/network/API.go b/network/API.go
index c33d905..23c37f8 100644
--- a/network/API.go
+++ b/network/API.go
@@ -70,7 +70,9 @@ func NewSocket(addr string, serializer string, sink ISocketSink) ISocket {
 	})
 	s := new(socket)
 	s.addr = addr
+	serializersMutex.Lock()
 	s.serializer = serializers[serializer]
+	serializersMutex.Unlock()
 	s.sink = sink
 
 	return s
@@ -84,10 +86,14 @@ func Mock(network string) {
 
 // ExtendSerializer extend serializer type with name and handling object.
 func ExtendSerializer(name string, serializer ISerializer) {
+	serializersMutex.Lock()
+	defer serializersMutex.Unlock()
+
 	serializers[name] = serializer
 }
 
 var (
-	serializers map[string]ISerializer = make(map[string]ISerializer)
-	once        sync.Once
+	serializersMutex sync.Mutex
+	serializers      map[string]ISerializer = make(map[string]ISerializer)
+	once             sync.Once
 )
-- 
2.43.0


From 2ec7dc54a8e8594cbe568b58edb80f83fc8a1932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 18/56] fix: the first socket does not replace a serializer
 registered as txt

---
 network/API.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/network/API.go b/network/API.go
index 23c37f8..f04ee00 100644
--- a/network/API.go
+++ b/network/API.go
@@ -65,9 +65,6 @@ type ISocketSink interface {
 
 // NewSocket create a socket with addr, serializer type and callback sink object.
 func NewSocket(addr string, serializer string, sink ISocketSink) ISocket {
-	once.Do(func() {
-		ExtendSerializer("txt", new(txtSerializer))
-	})
 	s := new(socket)
 	s.addr = addr
 	serializersMutex.Lock()
@@ -94,6 +91,7 @@ func ExtendSerializer(name string, serializer ISerializer) {
 
 var (
 	serializersMutex sync.Mutex
-	serializers      map[string]ISerializer = make(map[string]ISerializer)
-	once             sync.Once
+	serializers      map[string]ISerializer = map[string]ISerializer{
+		"txt": new(txtSerializer),
+	}
 )
-- 
2.43.0


From 43140a5e223f324a4f5fe356000b15a4410ab42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 19/56] fix: Send does not drop packets

With 20 packets waiting the next ones were silently thrown away, so calls
lost their request or reply and waited forever. The stop marker of close
could be dropped in the same way.
---
 network/peer.go | 54 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/network/peer.go b/network/peer.go
index d7fae50..7cbc9e1 100644
--- a/network/peer.go
+++ b/network/peer.go
@@ -11,7 +11,6 @@ import (
 )
 
 const (
-	cSendChanSize  int = 20
 	cRecvBytesSize int = 1024 * 10
 )
 
@@ -21,7 +20,7 @@ func newPeer(conn net.Conn, serializer ISerializer, sink ISocketSink, self bool)
 	p.serializer = serializer
 	p.sink = sink
 	p.self = self
-	p.sendPackets = make(chan interface{}, cSendChanSize)
+	p.sendSignal = sync.NewCond(&p.sendMutex)
 	p.recvBytes = make([]byte, cRecvBytesSize)
 	p.recvBuffer = new(bytes.Buffer)
 
@@ -34,7 +33,10 @@ type peer struct {
 	serializer  ISerializer
 	sink        ISocketSink
 	self        bool
-	sendPackets chan interface{}
+	sendMutex   sync.Mutex
+	sendSignal  *sync.Cond
+	sendPackets []interface{} // waiting to be sent.
+	sendStopped bool
 	recvBytes   []byte
 	recvBuffer  *bytes.Buffer
 }
@@ -52,19 +54,55 @@ func (p *peer) RemoteAddr() net.Addr {
 }
 
 func (p *peer) Send(obj interface{}) {
-	if len(p.sendPackets) == cap(p.sendPackets) {
+	p.sendMutex.Lock()
+	defer p.sendMutex.Unlock()
+
+	if nil == obj || p.sendStopped {
 		return
 	}
 
-	p.sendPackets <- obj
+	p.sendPackets = append(p.sendPackets, obj)
+	p.sendSignal.Signal()
+}
+
+// next waits for the next packet to send, and returns nil after stop.
+func (p *peer) next() interface{} {
+	p.sendMutex.Lock()
+	defer p.sendMutex.Unlock()
+
+	for 0 == len(p.sendPackets) && !p.sendStopped {
+		p.sendSignal.Wait()
+	}
+
+	if p.sendStopped {
+		return nil
+	}
+
+	packet := p.sendPackets[0]
+	p.sendPackets[0] = nil
+	p.sendPackets = p.sendPackets[1:]
+
+	return packet
+}
+
+// stop sending and drop all waiting packets.
+func (p *peer) stop() {
+	p.sendMutex.Lock()
+	defer p.sendMutex.Unlock()
+
+	p.sendStopped = true
+	p.sendPackets = nil
+	p.sendSignal.Signal()
 }
 
 func (p *peer) run() {
 	// Send routine
 	go func() {
+		defer p.stop()
+
 		for {
-			packet := <-p.sendPackets
-			if nil == packet || nil == p.conn {
+			packet := p.next()
+			if nil == packet {
 				break
 			}
 
@@ -104,7 +142,7 @@ func (p *peer) close() {
 	p.Lock()
 	defer p.Unlock()
 
-	p.Send(nil)
+	p.stop()
 
 	if nil != p.sink {
 		p.sink.OnClosed(p)
-- 
2.43.0


From 47937e62508eb0bb58523599c02419da0895a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 20/56] fix: the mock network keeps what does not fit into one
 Read

The rest of every chunk larger than the reader's buffer (10 KB) was lost.
---
 network/mock.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/network/mock.go b/network/mock.go
index e00f205..ce8f215 100644
--- a/network/mock.go
+++ b/network/mock.go
@@ -146,15 +146,20 @@ type conn struct {
 	remoteAddr *addr
 	peer       *conn
 	chanbuf    chan []byte
+	unread     []byte // received, but not read yet.
 }
 
 func (c *conn) Read(b []byte) (n int, err error) {
-	bytes := <-c.chanbuf
-	if nil == bytes {
-		return 0, fmt.Errorf("Target peer is closed!")
-	} else {
-		return copy(b, bytes), nil
+	if 0 == len(c.unread) {
+		c.unread = <-c.chanbuf
+		if nil == c.unread {
+			return 0, fmt.Errorf("Target peer is closed!")
+		}
 	}
+
+	n = copy(b, c.unread)
+	c.unread = c.unread[n:]
+	return n, nil
 }
 
 func (c *conn) Write(b []byte) (n int, err error) {
-- 
2.43.0


From 1ca65bfa4ae034b0417bcc53b82aa2b40716902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 21/56] fix: the mock network is free of races and closes like
 a real one

Listener table, port counter and connection state were shared unlocked;
closing a connection did not end the closer's own Read nor a blocked Write of
the peer, and a closed listener stayed in the table and swallowed Dial.
---
 network/mock.go | 150 +++++++++++++++++++++++++++---------------------
 1 file changed, 86 insertions(+), 64 deletions(-)

diff --git a/network/mock.go b/network/mock.go
index ce8f215..e7c3283 100644
--- a/network/mock.go
+++ b/network/mock.go
@@ -33,8 +33,8 @@ func (n *netMockTcp) Listen(network string, address string) (net.Listener, error
 			network: network,
 			address: address,
 		},
-		chanconn: make(chan *conn, 1),
-		conns:    make(map[string]*conn),
+		chanconn: make(chan *conn),
+		closed:   make(chan struct{}),
 	}
 	listenersMutex.Lock()
 	listeners[address] = listener
@@ -45,48 +45,33 @@ func (n *netMockTcp) Listen(network string, address string) (net.Listener, error
 
 func (n *netMockTcp) Dial(network string, address string) (net.Conn, error) {
 	c := newConn()
-	connected := make(chan bool, 1)
-	go func() {
-		address = formatAddr(address)
-		timeout := 1 * time.Second
-		for {
-			if 0 == c.status {
-				listener := listeners[address]
-				if nil != listener {
-					vport += 1
-					c.status = 1
-					c.localAddr.network = network
-					c.localAddr.address = fmt.Sprintf("0.0.0.0:%d", vport)
-					c.remoteAddr = listener.address
-					listener.chanconn <- c
-				}
-			} else if 2 == c.status {
-				break
-			} else if timeout <= 0 {
-				c.status = -1
-				break
-			}
-
-			timeout -= time.Microsecond
-			time.Sleep(time.Microsecond)
+	address = formatAddr(address)
+	for timeout := 1 * time.Second; timeout > 0; timeout -= time.Microsecond {
+		listenersMutex.Lock()
+		listener := listeners[address]
+		if nil != listener {
+			vport += 1
+			c.localAddr.network = network
+			c.localAddr.address = fmt.Sprintf("0.0.0.0:%d", vport)
+			c.remoteAddr = listener.address
 		}
+		listenersMutex.Unlock()
 
-		connected <- (2 == c.status)
-	}()
+		if nil != listener && listener.connect(c) {
+			return c, nil
+		}
 
-	succ := <-connected
-	if succ {
-		return c, nil
-	} else {
-		return nil, errors.New("Can't connect server")
+		time.Sleep(time.Microsecond)
 	}
+
+	return nil, errors.New("Can't connect server")
 }
 
 func reset() {
 	listenersMutex.Lock()
 	listeners = make(map[string]*listener)
-	listenersMutex.Unlock()
 	vport = 65535
+	listenersMutex.Unlock()
 }
 
 func formatAddr(addr string) string {
@@ -95,33 +80,50 @@ func formatAddr(addr string) string {
 }
 
 type listener struct {
-	address  *addr
-	chanconn chan *conn
-	conns    map[string]*conn
+	address   *addr
+	chanconn  chan *conn
+	closed    chan struct{}
+	closeOnce sync.Once
+}
+
+// connect hands an outgoing connection to Accept and waits until it is taken.
+func (l *listener) connect(c *conn) bool {
+	select {
+	case l.chanconn <- c:
+		<-c.connected
+		return true
+	case <-l.closed:
+		return false
+	}
 }
 
 func (l *listener) Accept() (net.Conn, error) {
-	inconn := <-l.chanconn
-	if nil == inconn {
-		return nil, fmt.Errorf("Listener closed!")
-	}
+	select {
+	case inconn := <-l.chanconn:
+		c := newConn()
+		c.localAddr = l.address
+		c.remoteAddr = inconn.localAddr
+		c.peer = inconn
 
-	c := newConn()
-	c.localAddr = l.address
-	c.remoteAddr = inconn.localAddr
-	c.peer = inconn
+		inconn.peer = c
+		close(inconn.connected)
 
-	inconn.peer = c
-	inconn.status = 2
-
-	l.conns[inconn.localAddr.String()] = inconn
-
-	return c, nil
+		return c, nil
+	case <-l.closed:
+		return nil, fmt.Errorf("Listener closed!")
+	}
 }
 
 func (l *listener) Close() error {
-	l.chanconn <- nil
-	l.conns = nil
+	l.closeOnce.Do(func() {
+		listenersMutex.Lock()
+		if l == listeners[l.address.address] {
+			delete(listeners, l.address.address)
+		}
+		listenersMutex.Unlock()
+
+		close(l.closed)
+	})
 
 	return nil
 }
@@ -132,28 +134,38 @@ func (l *listener) Addr() net.Addr {
 
 func newConn() *conn {
 	c := new(conn)
-	c.status = 0
 	c.localAddr = new(addr)
 	c.remoteAddr = new(addr)
+	c.connected = make(chan struct{})
 	c.chanbuf = make(chan []byte, 1)
+	c.closed = make(chan struct{})
 
 	return c
 }
 
 type conn struct {
-	status     int
+	connected  chan struct{}
 	localAddr  *addr
 	remoteAddr *addr
 	peer       *conn
 	chanbuf    chan []byte
 	unread     []byte // received, but not read yet.
+	closed     chan struct{}
+	closeOnce  sync.Once
 }
 
 func (c *conn) Read(b []byte) (n int, err error) {
 	if 0 == len(c.unread) {
-		c.unread = <-c.chanbuf
-		if nil == c.unread {
-			return 0, fmt.Errorf("Target peer is closed!")
+		select {
+		case c.unread = <-c.chanbuf:
+		case <-c.closed:
+			return 0, fmt.Errorf("Conn is closed!")
+		case <-c.peer.closed:
+			select {
+			case c.unread = <-c.chanbuf:
+			default:
+				return 0, fmt.Errorf("Target peer is closed!")
+			}
 		}
 	}
 
@@ -163,17 +175,27 @@ func (c *conn) Read(b []byte) (n int, err error) {
 }
 
 func (c *conn) Write(b []byte) (n int, err error) {
-	if nil != c.peer {
-		c.peer.chanbuf <- b
+	select {
+	case <-c.closed:
+		return 0, fmt.Errorf("Conn is closed!")
+	default:
+	}
+
+	select {
+	case c.peer.chanbuf <- append([]byte(nil), b...):
 		return len(b), nil
-	} else {
-		return 0, fmt.Errorf("Conn is nil!")
+	case <-c.closed:
+		return 0, fmt.Errorf("Conn is closed!")
+	case <-c.peer.closed:
+		return 0, fmt.Errorf("Target peer is closed!")
 	}
 }
 
 func (c *conn) Close() error {
-	c.Write(nil)
-	c.peer = nil
+	c.closeOnce.Do(func() {
+		close(c.closed)
+	})
+
 	return nil
 }
 
-- 
2.43.0


From 4636c1ff133c0765820f5c8ce660ee1d69a1b0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 22/56] fix: a lost connection is closed, forgotten and
 reported

OnClosed was only called for connections closed by this side. A connection
closed by the peer kept its descriptor, its send goroutine and its entry in
the socket, whose peer list was shared unlocked by the accept goroutine,
Send and Close.
---
 network/peer.go   | 48 ++++++++++++++++++++++++----
 network/socket.go | 80 +++++++++++++++++++++++++++++++++++++----------
 2 files changed, 105 insertions(+), 23 deletions(-)

diff --git a/network/peer.go b/network/peer.go
index 7cbc9e1..11aa17c 100644
--- a/network/peer.go
+++ b/network/peer.go
@@ -14,12 +14,13 @@ const (
 	cRecvBytesSize int = 1024 * 10
 )
 
-func newPeer(conn net.Conn, serializer ISerializer, sink ISocketSink, self bool) *peer {
+func newPeer(conn net.Conn, serializer ISerializer, sink ISocketSink, self bool, closing func(p *peer)) *peer {
 	p := new(peer)
 	p.conn = conn
 	p.serializer = serializer
 	p.sink = sink
 	p.self = self
+	p.closing = closing
 	p.sendSignal = sync.NewCond(&p.sendMutex)
 	p.recvBytes = make([]byte, cRecvBytesSize)
 	p.recvBuffer = new(bytes.Buffer)
@@ -39,6 +40,9 @@ type peer struct {
 	sendStopped bool
 	recvBytes   []byte
 	recvBuffer  *bytes.Buffer
+	closing     func(p *peer)
+	connected   bool // OnConnected has returned.
+	closed      bool
 }
 
 func (p *peer) IsSelf() bool {
@@ -96,6 +100,23 @@ func (p *peer) stop() {
 }
 
 func (p *peer) run() {
+	if nil != p.sink {
+		p.sink.OnConnected(p)
+	}
+
+	p.Lock()
+	p.connected = true
+	closed := p.closed
+	p.Unlock()
+
+	if closed {
+		// Closed in the meantime, close left the notification to us.
+		if nil != p.sink {
+			p.sink.OnClosed(p)
+		}
+		return
+	}
+
 	// Send routine
 	go func() {
 		defer p.stop()
@@ -116,6 +137,8 @@ func (p *peer) run() {
 
 	// Recv routine
 	go func() {
+		defer p.close()
+
 		for {
 			size, err := p.conn.Read(p.recvBytes)
 			if nil != err {
@@ -129,6 +152,13 @@ func (p *peer) run() {
 				if nil != err || n != length {
 				}
 
+				p.Lock()
+				closed := p.closed
+				p.Unlock()
+				if closed {
+					return
+				}
+
 				obj := p.serializer.Unmarshal(slice)
 				if nil != p.sink {
 					p.sink.OnPacket(p, obj)
@@ -140,14 +170,20 @@ func (p *peer) run() {
 
 func (p *peer) close() {
 	p.Lock()
-	defer p.Unlock()
+	closed := p.closed
+	p.closed = true
+	connected := p.connected
+	p.Unlock()
+
+	if closed {
+		return
+	}
 
 	p.stop()
+	p.conn.Close()
+	p.closing(p)
 
-	if nil != p.sink {
+	if connected && nil != p.sink {
 		p.sink.OnClosed(p)
-		p.sink = nil
 	}
-
-	p.conn.Close()
 }
diff --git a/network/socket.go b/network/socket.go
index be2a02a..1e0ae6e 100644
--- a/network/socket.go
+++ b/network/socket.go
@@ -7,15 +7,18 @@ package network
 import (
 	"log"
 	"net"
+	"sync"
 )
 
 type socket struct {
+	sync.Mutex
 	net        inet
 	sink       ISocketSink
 	addr       string
 	listener   net.Listener
 	serializer ISerializer
 	peers      []*peer
+	closed     bool
 }
 
 func (s *socket) Listen() {
@@ -26,25 +29,29 @@ func (s *socket) Listen() {
 		return
 	}
 
-	s.listener, err = s.net.Listen("tcp", s.addr)
+	listener, err := s.net.Listen("tcp", s.addr)
 	if nil != err {
 		log.Fatal(err)
 		return
 	}
 
+	s.Lock()
+	s.listener = listener
+	s.closed = false
+	s.Unlock()
+
 	go func() {
 		for {
-			conn, err := s.listener.Accept()
+			conn, err := listener.Accept()
 			if nil != err {
 				log.Println(err)
 				return
 			}
 
-			peer := newPeer(conn, s.serializer, s.sink, false)
-			s.peers = append(s.peers, peer)
-
-			if nil != s.sink {
-				s.sink.OnConnected(peer)
+			peer := newPeer(conn, s.serializer, s.sink, false, s.remove)
+			if !s.add(peer) {
+				conn.Close()
+				return
 			}
 
 			peer.run()
@@ -65,36 +72,75 @@ func (s *socket) Dial() {
 		return
 	}
 
+	s.Lock()
+	s.closed = false
+	s.Unlock()
+
 	conn, err := s.net.Dial("tcp", s.addr)
 	if nil != err {
 		log.Fatal(err)
 		return
 	}
 
-	peer := newPeer(conn, s.serializer, s.sink, true)
-	s.peers = append(s.peers, peer)
-
-	if nil != s.sink {
-		s.sink.OnConnected(peer)
+	peer := newPeer(conn, s.serializer, s.sink, true, s.remove)
+	if !s.add(peer) {
+		conn.Close()
+		return
 	}
 
 	peer.run()
 }
 
 func (s *socket) Close() {
+	s.Lock()
+	s.closed = true
+	listener := s.listener
+	peers := s.peers
+	s.peers = nil
+	s.Unlock()
+
 	// NOTE: Only close listener, but not set to nil
-	if nil != s.listener {
-		s.listener.Close()
+	if nil != listener {
+		listener.Close()
 	}
 
-	for _, peer := range s.peers {
+	for _, peer := range peers {
 		peer.close()
 	}
-	s.peers = nil
 }
 
 func (s *socket) Send(obj interface{}) {
-	for _, peer := range s.peers {
+	s.Lock()
+	peers := append([]*peer(nil), s.peers...)
+	s.Unlock()
+
+	for _, peer := range peers {
 		peer.Send(obj)
 	}
 }
+
+// add a connected peer unless the socket is closed.
+func (s *socket) add(p *peer) bool {
+	s.Lock()
+	defer s.Unlock()
+
+	if s.closed {
+		return false
+	}
+
+	s.peers = append(s.peers, p)
+	return true
+}
+
+// remove a closed peer.
+func (s *socket) remove(p *peer) {
+	s.Lock()
+	defer s.Unlock()
+
+	for i, v := range s.peers {
+		if v == p {
+			s.peers = append(s.peers[:i:i], s.peers[i+1:]...)
+			return
+		}
+	}
+}
-- 
2.43.0


From 089d8de7934c3896adca28f556b2437339f4991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 23/56] fix: a listener survives temporary accept errors

Running out of descriptors once made a hub or dock unreachable for good.
---
 network/socket.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/network/socket.go b/network/socket.go
index 1e0ae6e..fb26387 100644
--- a/network/socket.go
+++ b/network/socket.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"net"
 	"sync"
+	"time"
 )
 
 type socket struct {
@@ -45,6 +46,11 @@ func (s *socket) Listen() {
 			conn, err := listener.Accept()
 			if nil != err {
 				log.Println(err)
+				if ne, ok := err.(net.Error); ok && ne.Temporary() {
+					// Like running out of descriptors.
+					time.Sleep(10 * time.Millisecond)
+					continue
+				}
 				return
 			}
 
-- 
2.43.0


From 8404938591c917a3b2e829ce8fffe2030de3c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 24/56] fix: a malformed packet is ignored

Any peer sending a frame that does not parse ended the hub or dock process,
by log.Fatal, a nil packet or a failing type assertion.
---
 dock.go       |  7 ++++++-
 hub.go        |  7 ++++++-
 protocol.go   | 15 +++++++++++++--
 serializer.go | 11 ++++++++---
 4 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/dock.go b/dock.go
index 7039e6e..d6b2d0d 100644
--- a/dock.go
+++ b/dock.go
@@ -73,7 +73,12 @@ func (d *dock) OnClosed(peer network.IPeer) {
 }
 
 func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
-	pack := obj.(*packer)
+	pack, ok := obj.(*packer)
+	if !ok {
+		// Malformed packet.
+		return
+	}
+
 	switch pack.Id {
 	case cError:
 		{
diff --git a/hub.go b/hub.go
index df51a2c..bf061c8 100644
--- a/hub.go
+++ b/hub.go
@@ -59,7 +59,12 @@ func (h *hub) OnClosed(peer network.IPeer) {
 }
 
 func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
-	pack := obj.(*packer)
+	pack, ok := obj.(*packer)
+	if !ok {
+		// Malformed packet.
+		return
+	}
+
 	switch pack.Id {
 	case cRegisterRequest:
 		{
diff --git a/protocol.go b/protocol.go
index 63d7b5e..a428faa 100644
--- a/protocol.go
+++ b/protocol.go
@@ -5,6 +5,7 @@
 package ferry
 
 import (
+	"fmt"
 	"io"
 
 	"github.com/muguangyi/ferry/codec"
@@ -104,7 +105,12 @@ func (p *protoReady) Unmarshal(reader io.Reader) error {
 
 	p.Slots = make([]string, len(arr))
 	for i, iv := range arr {
-		p.Slots[i] = iv.(string)
+		slot, ok := iv.(string)
+		if !ok {
+			return fmt.Errorf("Slot name is not a string: %v", iv)
+		}
+
+		p.Slots[i] = slot
 	}
 
 	return nil
@@ -133,7 +139,12 @@ func (p *protoRegisterRequest) Unmarshal(reader io.Reader) error {
 
 	p.Slots = make([]string, len(arr))
 	for i, iv := range arr {
-		p.Slots[i] = iv.(string)
+		slot, ok := iv.(string)
+		if !ok {
+			return fmt.Errorf("Slot name is not a string: %v", iv)
+		}
+
+		p.Slots[i] = slot
 	}
 
 	return nil
diff --git a/serializer.go b/serializer.go
index 76bafb7..34dc401 100644
--- a/serializer.go
+++ b/serializer.go
@@ -72,20 +72,25 @@ func (s *serializer) Unmarshal(data []byte) interface{} {
 	any := codec.NewAny(nil)
 	err := any.Decode(reader)
 	if nil != err {
-		log.Fatal(err)
+		log.Println(err)
 		return nil
 	}
 	value, err := any.Uint8()
 	if nil != err {
-		log.Fatal(err)
+		log.Println(err)
 		return nil
 	}
 
 	id := cProtoType(value)
 	p := s.maker(id)
+	if nil == p {
+		log.Printf("Unknown packet: %d", id)
+		return nil
+	}
+
 	err = p.Unmarshal(reader)
 	if nil != err {
-		log.Fatal(err)
+		log.Println(err)
 		return nil
 	}
 
-- 
2.43.0


From 3ead0522859923b333589501955f418192f09112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:07 +0000
Subject: [PATCH 25/56] fix: the hub keeps waiting queries in a list under its
 lock

A query for a slot that is not there yet kept a goroutine spinning at full
speed, forever if the slot never came, and walked the stub lists unlocked
while they were changed. A registration arriving during Close wrote a nil
map.
---
 hub.go | 60 +++++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/hub.go b/hub.go
index bf061c8..5c19922 100644
--- a/hub.go
+++ b/hub.go
@@ -22,6 +22,7 @@ const (
 func newHub() *hub {
 	return &hub{
 		docks:       make(map[string]*list.List),
+		queries:     make(map[string][]network.IPeer),
 		assignPorts: make(map[string]int),
 		blackPorts:  make(map[int]bool),
 	}
@@ -31,6 +32,7 @@ type hub struct {
 	socket           network.ISocket
 	docksMutex       sync.Mutex
 	docks            map[string]*list.List
+	queries          map[string][]network.IPeer // peers waiting for a slot to get ready.
 	assignPortsMutex sync.Mutex
 	assignPorts      map[string]int
 	blackPorts       map[int]bool
@@ -44,10 +46,6 @@ type stub struct {
 
 func (h *hub) Close() {
 	h.socket.Close()
-	h.socket = nil
-	h.docks = nil
-	h.assignPorts = nil
-	h.blackPorts = nil
 }
 
 func (h *hub) OnConnected(peer network.IPeer) {
@@ -99,7 +97,6 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 			for _, slot := range req.Slots {
 				h.docksMutex.Lock()
 				stubs, ok := h.docks[slot]
-				h.docksMutex.Unlock()
 				if ok {
 					for i := stubs.Front(); i != nil; i = i.Next() {
 						stub := i.Value.(*stub)
@@ -109,33 +106,48 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 						}
 					}
 				}
+
+				// Answer the queries that were waiting for this slot.
+				if addr, ok := h.pick(slot); ok {
+					for _, p := range h.queries[slot] {
+						h.respondQueryImme(p, addr)
+					}
+					delete(h.queries, slot)
+				}
+				h.docksMutex.Unlock()
 			}
 		}
 	case cQueryRequest:
 		{
-			go func() {
-				req := pack.P.(*protoQueryRequest)
-				for {
-					h.docksMutex.Lock()
-					docks, ok := h.docks[req.Slot]
-					h.docksMutex.Unlock()
-					if ok {
-						// Loop from back to front, means the 'new' one will
-						// be serve at first.
-						for i := docks.Back(); i != nil; i = i.Prev() {
-							stub := i.Value.(*stub)
-							if stub.ready {
-								h.respondQueryImme(peer, stub.addr)
-								return
-							}
-						}
-					}
-				}
-			}()
+			req := pack.P.(*protoQueryRequest)
+			h.docksMutex.Lock()
+			if addr, ok := h.pick(req.Slot); ok {
+				h.respondQueryImme(peer, addr)
+			} else {
+				h.queries[req.Slot] = append(h.queries[req.Slot], peer)
+			}
+			h.docksMutex.Unlock()
 		}
 	}
 }
 
+// pick the address of a ready dock for slot, docksMutex must be held.
+func (h *hub) pick(slot string) (string, bool) {
+	docks, ok := h.docks[slot]
+	if ok {
+		// Loop from back to front, means the 'new' one will
+		// be serve at first.
+		for i := docks.Back(); i != nil; i = i.Prev() {
+			stub := i.Value.(*stub)
+			if stub.ready {
+				return stub.addr, true
+			}
+		}
+	}
+
+	return "", false
+}
+
 func (h *hub) run(hubAddr string, blackPorts ...int) {
 	for _, p := range blackPorts {
 		h.blackPorts[p] = true
-- 
2.43.0


From 859bf733c5f0bc5fe647db9220540c508dbf5239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:08 +0000
Subject: [PATCH 26/56] fix: the hub forgets docks that have disconnected

Queries were answered with the address of a dead dock, and the asking dock
exits when it cannot connect.
---
 hub.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/hub.go b/hub.go
index 5c19922..64eb9e5 100644
--- a/hub.go
+++ b/hub.go
@@ -53,7 +53,35 @@ func (h *hub) OnConnected(peer network.IPeer) {
 }
 
 func (h *hub) OnClosed(peer network.IPeer) {
+	h.docksMutex.Lock()
+	defer h.docksMutex.Unlock()
+
+	for slot, stubs := range h.docks {
+		for i := stubs.Front(); i != nil; {
+			next := i.Next()
+			if i.Value.(*stub).peer == peer {
+				stubs.Remove(i)
+			}
+			i = next
+		}
+		if 0 == stubs.Len() {
+			delete(h.docks, slot)
+		}
+	}
 
+	for slot, peers := range h.queries {
+		waiting := make([]network.IPeer, 0)
+		for _, p := range peers {
+			if p != peer {
+				waiting = append(waiting, p)
+			}
+		}
+		if len(waiting) > 0 {
+			h.queries[slot] = waiting
+		} else {
+			delete(h.queries, slot)
+		}
+	}
 }
 
 func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
-- 
2.43.0


From 7e1c39973803f8dd89d3adb9af14f87934602a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:09 +0000
Subject: [PATCH 27/56] fix: the hub refuses a registration when it is out of
 ports

It exited, taking all docks with it; any peer could cause that by
registering often enough.
---
 hub.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hub.go b/hub.go
index 64eb9e5..31ce155 100644
--- a/hub.go
+++ b/hub.go
@@ -6,6 +6,7 @@ package ferry
 
 import (
 	"container/list"
+	"errors"
 	"fmt"
 	"log"
 	"strings"
@@ -97,7 +98,17 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 			req := pack.P.(*protoRegisterRequest)
 
 			addr := pickIP(peer.RemoteAddr().String())
-			port := h.allocate(addr)
+			port, err := h.allocate(addr)
+			if nil != err {
+				log.Println(err)
+				peer.Send(&packer{
+					Id: cError,
+					P: &protoError{
+						Error: err.Error(),
+					},
+				})
+				return
+			}
 
 			addr = fmt.Sprintf("%s:%d", addr, port)
 			for _, v := range req.Slots {
@@ -187,7 +198,7 @@ func (h *hub) run(hubAddr string, blackPorts ...int) {
 	h.socket.Listen()
 }
 
-func (h *hub) allocate(addr string) int {
+func (h *hub) allocate(addr string) (int, error) {
 	h.assignPortsMutex.Lock()
 	defer h.assignPortsMutex.Unlock()
 
@@ -205,12 +216,12 @@ func (h *hub) allocate(addr string) int {
 	}
 
 	if port > cMaxPortRange {
-		log.Fatal("Out of port max range!")
+		return 0, errors.New("Out of port max range!")
 	}
 
 	h.assignPorts[addr] = port
 
-	return port
+	return port, nil
 }
 
 func (h *hub) respondQueryImme(peer network.IPeer, dockAddr string) {
-- 
2.43.0


From 4a6376b1d0d135670b955278f5d2160d34a406ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:09 +0000
Subject: [PATCH 28/56] fix: docks can join and be found over IPv6

The host of an IPv6 address was cut at its first colon, and docks listened
on IPv4 only.
---
 dock.go |  2 +-
 hub.go  | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/dock.go b/dock.go
index d6b2d0d..8316c9b 100644
--- a/dock.go
+++ b/dock.go
@@ -121,7 +121,7 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 		{
 			// Get the port that Hub alloced and start to listen as a server.
 			resp := pack.P.(*protoRegisterResponse)
-			listenAddr := fmt.Sprintf("0.0.0.0:%d", resp.Port)
+			listenAddr := fmt.Sprintf(":%d", resp.Port)
 			socket := network.NewSocket(listenAddr, "ferry", d)
 			socket.Listen()
 			d.sockets = append(d.sockets, socket)
diff --git a/hub.go b/hub.go
index 31ce155..dd4cc1d 100644
--- a/hub.go
+++ b/hub.go
@@ -7,9 +7,9 @@ package ferry
 import (
 	"container/list"
 	"errors"
-	"fmt"
 	"log"
-	"strings"
+	"net"
+	"strconv"
 	"sync"
 
 	"github.com/muguangyi/ferry/network"
@@ -110,7 +110,7 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 				return
 			}
 
-			addr = fmt.Sprintf("%s:%d", addr, port)
+			addr = net.JoinHostPort(addr, strconv.Itoa(port))
 			for _, v := range req.Slots {
 				h.docksMutex.Lock()
 				stubs, ok := h.docks[v]
@@ -235,6 +235,10 @@ func (h *hub) respondQueryImme(peer network.IPeer, dockAddr string) {
 }
 
 func pickIP(addr string) string {
-	info := strings.Split(addr, ":")
-	return info[0]
+	host, _, err := net.SplitHostPort(addr)
+	if nil != err {
+		return addr
+	}
+
+	return host
 }
-- 
2.43.0


From 2400c66610b7e9df89417fa23aed8d9149fe836f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 29/56] fix: calls in flight have distinct indexes

Two calls started in the same nanosecond shared their index, so one waited
forever and the other could get its reply.
---
 rpc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpc.go b/rpc.go
index 7c172c9..6dc85d8 100644
--- a/rpc.go
+++ b/rpc.go
@@ -5,11 +5,15 @@
 package ferry
 
 import (
+	"sync/atomic"
 	"time"
 )
 
+// rpcIndex is the index of the latest rpc.
+var rpcIndex int64 = time.Now().UnixNano()
+
 func newRpc() *rpc {
-	return &rpc{index: time.Now().UnixNano(), req: nil, ret: make(chan *ret, 1)}
+	return &rpc{index: atomic.AddInt64(&rpcIndex, 1), req: nil, ret: make(chan *ret, 1)}
 }
 
 type rpc struct {
-- 
2.43.0


From 70c2cb06ac1e212dc9b8ec97939c5ae80ad3fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 30/56] fix: guard the state of a dock shared by calls and
 connections

Pending calls, sockets and slots were accessed unlocked from the callers'
and every connection's goroutines: concurrent map failures, a call sent
twice or its request read after it was cleared, the hub not being the first
socket when its answer came quickly, and index panics for calls after Close.
---
 dock.go | 165 ++++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 130 insertions(+), 35 deletions(-)

diff --git a/dock.go b/dock.go
index 8316c9b..6c4e1f9 100644
--- a/dock.go
+++ b/dock.go
@@ -33,23 +33,39 @@ func newDock(name string, slots ...ISlot) *dock {
 
 type dock struct {
 	name             string
+	socketsMutex     sync.Mutex
 	sockets          []network.ISocket // socket at index 0 is hub.
+	closing          bool
+	closed           bool // features are destroyed.
 	slots            map[string]*slot
-	remoteSlotsMutex sync.Mutex
+	remoteSlotsMutex sync.Mutex // guards remoteSlots, rpcs and rpc.req.
 	remoteSlots      map[string]network.IPeer
 	rpcs             map[int64]*rpc
 }
 
 func (d *dock) Close() {
+	d.socketsMutex.Lock()
+	closing := d.closing
+	d.closing = true
+	d.socketsMutex.Unlock()
+
+	if closing {
+		return
+	}
+
 	for _, s := range d.slots {
 		s.feature.OnDestroy(s)
 	}
-	d.slots = nil
 
-	for i := len(d.sockets) - 1; i >= 0; i-- {
-		d.sockets[i].Close()
+	d.socketsMutex.Lock()
+	d.closed = true
+	sockets := d.sockets
+	d.sockets = nil
+	d.socketsMutex.Unlock()
+
+	for i := len(sockets) - 1; i >= 0; i-- {
+		sockets[i].Close()
 	}
-	d.sockets = d.sockets[:0]
 }
 
 func (d *dock) OnConnected(peer network.IPeer) {
@@ -89,10 +105,8 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 			// Check if there is a RPC waiting for this Dock.
 			resp := pack.P.(*protoReady)
 			for _, slot := range resp.Slots {
-				for _, r := range d.rpcs {
-					if r.req != nil && r.req.Slot == slot {
-						d.commit(r)
-					}
+				for _, r := range d.waiting(slot) {
+					d.commit(r)
 				}
 			}
 		}
@@ -123,8 +137,9 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 			resp := pack.P.(*protoRegisterResponse)
 			listenAddr := fmt.Sprintf(":%d", resp.Port)
 			socket := network.NewSocket(listenAddr, "ferry", d)
-			socket.Listen()
-			d.sockets = append(d.sockets, socket)
+			if !d.open(socket, socket.Listen) {
+				return
+			}
 
 			// Send DockReadyRequest to Hub.
 			peer.Send(&packer{
@@ -140,13 +155,12 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 		{
 			resp := pack.P.(*protoQueryResponse)
 			socket := network.NewSocket(resp.DockAddr, "ferry", d)
-			socket.Dial()
-			d.sockets = append(d.sockets, socket)
+			d.open(socket, socket.Dial)
 		}
 	case cRpcRequest:
 		{
 			req := pack.P.(*protoRpcRequest)
-			target := d.slots[req.Slot]
+			target := d.find(req.Slot)
 			if nil != target {
 				go func() {
 					caller := chancall.NewCaller(target.callee)
@@ -181,21 +195,18 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 	case cRpcResponse:
 		{
 			resp := pack.P.(*protoRpcResponse)
-			rpc := d.rpcs[resp.Index]
+			rpc := d.take(resp.Index)
 			if nil != rpc {
-				go func() {
-					rpc.callback(&ret{
-						result: resp.Result,
-						err: func() error {
-							if "" != resp.Err {
-								return errors.New(resp.Err)
-							}
-
-							return nil
-						}(),
-					})
-					delete(d.rpcs, resp.Index)
-				}()
+				rpc.callback(&ret{
+					result: resp.Result,
+					err: func() error {
+						if "" != resp.Err {
+							return errors.New(resp.Err)
+						}
+
+						return nil
+					}(),
+				})
 			}
 		}
 	}
@@ -205,8 +216,73 @@ func (d *dock) run(hubAddr string) {
 	network.ExtendSerializer("ferry", newSerializer())
 
 	socket := network.NewSocket(hubAddr, "ferry", d)
-	socket.Dial()
-	d.sockets = append(d.sockets, socket)
+	d.open(socket, socket.Dial)
+}
+
+// open a socket and keep it until the dock is closed.
+func (d *dock) open(socket network.ISocket, connect func()) bool {
+	d.socketsMutex.Lock()
+	closed := d.closed
+	if !closed {
+		// Keep it first, packets may arrive before connect returns.
+		d.sockets = append(d.sockets, socket)
+	}
+	d.socketsMutex.Unlock()
+
+	if closed {
+		return false
+	}
+
+	connect()
+
+	d.socketsMutex.Lock()
+	closed = d.closed
+	d.socketsMutex.Unlock()
+
+	if closed {
+		// Closed in the meantime.
+		socket.Close()
+	}
+
+	return !closed
+}
+
+// find the slot of this dock, or nil if it has none or is closed.
+func (d *dock) find(name string) *slot {
+	d.socketsMutex.Lock()
+	defer d.socketsMutex.Unlock()
+
+	if d.closed {
+		return nil
+	}
+
+	return d.slots[name]
+}
+
+// waiting returns rpcs for the slot which are not sent yet.
+func (d *dock) waiting(slot string) []*rpc {
+	d.remoteSlotsMutex.Lock()
+	defer d.remoteSlotsMutex.Unlock()
+
+	rpcs := make([]*rpc, 0)
+	for _, r := range d.rpcs {
+		if nil != r.req && r.req.Slot == slot {
+			rpcs = append(rpcs, r)
+		}
+	}
+
+	return rpcs
+}
+
+// take the rpc with index out of the pending ones.
+func (d *dock) take(index int64) *rpc {
+	d.remoteSlotsMutex.Lock()
+	defer d.remoteSlotsMutex.Unlock()
+
+	rpc := d.rpcs[index]
+	delete(d.rpcs, index)
+
+	return rpc
 }
 
 func (d *dock) collect() []string {
@@ -227,23 +303,21 @@ func (d *dock) start() {
 }
 
 func (d *dock) call(name string, method string, args ...interface{}) error {
-	target := d.slots[name]
+	target := d.find(name)
 	if nil != target {
 		return chancall.NewCaller(target.callee).Call(method, args...)
 	} else {
 		rpc := newRpc()
-		d.rpcs[rpc.index] = rpc
 		return rpc.call(d, name, method, args...)
 	}
 }
 
 func (d *dock) callWithResult(name string, method string, args ...interface{}) ([]interface{}, error) {
-	target := d.slots[name]
+	target := d.find(name)
 	if nil != target {
 		return chancall.NewCaller(target.callee).CallWithResult(method, args...)
 	} else {
 		rpc := newRpc()
-		d.rpcs[rpc.index] = rpc
 		return rpc.callWithResult(d, name, method, args...)
 	}
 }
@@ -252,6 +326,12 @@ func (d *dock) commit(rpc *rpc) {
 	d.remoteSlotsMutex.Lock()
 	defer d.remoteSlotsMutex.Unlock()
 
+	if nil == rpc.req {
+		// Sent already.
+		return
+	}
+	d.rpcs[rpc.index] = rpc
+
 	peer, ok := d.remoteSlots[rpc.req.Slot]
 	if ok {
 		peer.Send(&packer{
@@ -259,8 +339,11 @@ func (d *dock) commit(rpc *rpc) {
 			P:  rpc.req,
 		})
 		rpc.req = nil
+	} else if hub := d.hub(); nil == hub {
+		delete(d.rpcs, rpc.index)
+		rpc.callback(&ret{err: errors.New("Dock is not running!")})
 	} else {
-		d.sockets[0].Send(&packer{
+		hub.Send(&packer{
 			Id: cQueryRequest,
 			P: &protoQueryRequest{
 				Slot: rpc.req.Slot,
@@ -268,3 +351,15 @@ func (d *dock) commit(rpc *rpc) {
 		})
 	}
 }
+
+// hub returns the socket to the hub, or nil if the dock is not running.
+func (d *dock) hub() network.ISocket {
+	d.socketsMutex.Lock()
+	defer d.socketsMutex.Unlock()
+
+	if 0 == len(d.sockets) {
+		return nil
+	}
+
+	return d.sockets[0]
+}
-- 
2.43.0


From 8e809ac6237ae8f34126aa437de1f382948f9075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:11 +0000
Subject: [PATCH 31/56] fix: guard the list of instances

Instances started concurrently could be lost from it and never be closed.
---
 runtime.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/runtime.go b/runtime.go
index 80428ab..6974e42 100644
--- a/runtime.go
+++ b/runtime.go
@@ -8,16 +8,22 @@ import (
 	"log"
 	"os"
 	"os/signal"
+	"sync"
 )
 
 type instance interface {
 	Close()
 }
 
-var insts []instance = make([]instance, 0)
+var (
+	instsMutex sync.Mutex
+	insts      []instance = make([]instance, 0)
+)
 
 func wait(inst instance) {
+	instsMutex.Lock()
 	insts = append(insts, inst)
+	instsMutex.Unlock()
 
 	c := make(chan os.Signal, 1)
 	signal.Notify(c, os.Interrupt, os.Kill)
@@ -27,8 +33,12 @@ func wait(inst instance) {
 }
 
 func destroy() {
-	for i := len(insts) - 1; i >= 0; i-- {
-		insts[i].Close()
+	instsMutex.Lock()
+	closing := insts
+	insts = nil
+	instsMutex.Unlock()
+
+	for i := len(closing) - 1; i >= 0; i-- {
+		closing[i].Close()
 	}
-	insts = insts[:0]
 }
-- 
2.43.0


From d2b26ddfb0226a624f1994d4ee7dbd9d08558c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 32/56] fix: guard the proxy registry and the proxies of a slot

A feature's OnStart and its methods run in different routines and may visit
concurrently.
---
 registry.go | 11 +++++++++++
 slot.go     | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/registry.go b/registry.go
index 02da909..0328f9d 100644
--- a/registry.go
+++ b/registry.go
@@ -4,14 +4,25 @@
 
 package ferry
 
+import (
+	"sync"
+)
+
+var registryMutex sync.Mutex
 var registry map[string]interface{} = make(map[string]interface{})
 
 func register(name string, maker interface{}) {
+	registryMutex.Lock()
+	defer registryMutex.Unlock()
+
 	registry[name] = maker
 }
 
 func tryMake(name string, s ISlot) (interface{}, bool) {
+	registryMutex.Lock()
 	maker := registry[name]
+	registryMutex.Unlock()
+
 	if nil != maker {
 		return maker.(func(slot ISlot) interface{})(s), true
 	}
diff --git a/slot.go b/slot.go
index e97030f..05afbcf 100644
--- a/slot.go
+++ b/slot.go
@@ -33,16 +33,27 @@ type slot struct {
 	discoverable bool
 	callee       chancall.ICallee
 	dock         *dock
+	visitMutex   sync.Mutex
 	visiters     map[string]interface{}
 	closeSig     chan bool
 	wg           sync.WaitGroup
 }
 
 func (s *slot) Visit(name string) interface{} {
+	s.visitMutex.Lock()
 	visitor := s.visiters[name]
+	s.visitMutex.Unlock()
+
 	if nil == visitor {
 		var ok bool
 		if visitor, ok = tryMake(name, s); ok {
+			s.visitMutex.Lock()
+			defer s.visitMutex.Unlock()
+
+			// Another routine could have been faster.
+			if made := s.visiters[name]; nil != made {
+				return made
+			}
 			s.visiters[name] = visitor
 		}
 	}
-- 
2.43.0


From e22af4eef592ad66792d2c6406bd6898ee10eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:22 +0000
Subject: [PATCH 33/56] fix: calls waiting on a lost connection return an error

They waited forever when the dock serving them, or the hub, went away.
---
 dock.go | 36 ++++++++++++++++++++++++++++++++++--
 rpc.go  |  3 +++
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/dock.go b/dock.go
index 6c4e1f9..9f703c8 100644
--- a/dock.go
+++ b/dock.go
@@ -41,6 +41,8 @@ type dock struct {
 	remoteSlotsMutex sync.Mutex // guards remoteSlots, rpcs and rpc.req.
 	remoteSlots      map[string]network.IPeer
 	rpcs             map[int64]*rpc
+	hubPeer          network.IPeer
+	hubLost          bool
 }
 
 func (d *dock) Close() {
@@ -70,6 +72,13 @@ func (d *dock) Close() {
 
 func (d *dock) OnConnected(peer network.IPeer) {
 	if peer.IsSelf() {
+		d.remoteSlotsMutex.Lock()
+		if nil == d.hubPeer {
+			// Hub is the first one to dial to.
+			d.hubPeer = peer
+		}
+		d.remoteSlotsMutex.Unlock()
+
 		log.Printf("[%s] connected to [%s].", peer.LocalAddr(), peer.RemoteAddr())
 	}
 
@@ -86,6 +95,27 @@ func (d *dock) OnConnected(peer network.IPeer) {
 }
 
 func (d *dock) OnClosed(peer network.IPeer) {
+	d.remoteSlotsMutex.Lock()
+	defer d.remoteSlotsMutex.Unlock()
+
+	for slot, p := range d.remoteSlots {
+		if p == peer {
+			delete(d.remoteSlots, slot)
+		}
+	}
+
+	if peer == d.hubPeer {
+		d.hubLost = true
+	}
+
+	// There will be no reply to what was sent to this peer.
+	for index, r := range d.rpcs {
+		if r.peer == peer || (d.hubLost && nil != r.req) {
+			delete(d.rpcs, index)
+			r.req = nil
+			r.callback(&ret{err: fmt.Errorf("Connection to [%s] is lost!", peer.RemoteAddr())})
+		}
+	}
 }
 
 func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
@@ -339,9 +369,11 @@ func (d *dock) commit(rpc *rpc) {
 			P:  rpc.req,
 		})
 		rpc.req = nil
-	} else if hub := d.hub(); nil == hub {
+		rpc.peer = peer
+	} else if hub := d.hub(); nil == hub || d.hubLost {
 		delete(d.rpcs, rpc.index)
-		rpc.callback(&ret{err: errors.New("Dock is not running!")})
+		rpc.req = nil
+		rpc.callback(&ret{err: errors.New("Dock is not connected to hub!")})
 	} else {
 		hub.Send(&packer{
 			Id: cQueryRequest,
diff --git a/rpc.go b/rpc.go
index 6dc85d8..732e4e2 100644
--- a/rpc.go
+++ b/rpc.go
@@ -7,6 +7,8 @@ package ferry
 import (
 	"sync/atomic"
 	"time"
+
+	"github.com/muguangyi/ferry/network"
 )
 
 // rpcIndex is the index of the latest rpc.
@@ -19,6 +21,7 @@ func newRpc() *rpc {
 type rpc struct {
 	index int64
 	req   *protoRpcRequest
+	peer  network.IPeer // where the request is sent to.
 	ret   chan *ret
 }
 
-- 
2.43.0


From 3d8ff21dd33b1d2791697afdc3447957276e42c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 34/56] fix: a dock survives the address of a dock that has
 gone

It exited when it could not connect to the address the hub had given it.
Now, and also when such a dock goes away before it has announced its slots,
the hub is asked again.
---
 dock.go           | 59 ++++++++++++++++++++++++++++++++++++++++++++++-
 network/API.go    |  3 +++
 network/socket.go | 22 ++++++++++++------
 3 files changed, 76 insertions(+), 8 deletions(-)

diff --git a/dock.go b/dock.go
index 9f703c8..c33d2d1 100644
--- a/dock.go
+++ b/dock.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"log"
 	"sync"
+	"time"
 
 	"github.com/muguangyi/ferry/chancall"
 	"github.com/muguangyi/ferry/network"
@@ -43,8 +44,13 @@ type dock struct {
 	rpcs             map[int64]*rpc
 	hubPeer          network.IPeer
 	hubLost          bool
+	retrying         bool
 }
 
+const (
+	cRetryDelay = 100 * time.Millisecond
+)
+
 func (d *dock) Close() {
 	d.socketsMutex.Lock()
 	closing := d.closing
@@ -95,6 +101,8 @@ func (d *dock) OnConnected(peer network.IPeer) {
 }
 
 func (d *dock) OnClosed(peer network.IPeer) {
+	defer d.retry()
+
 	d.remoteSlotsMutex.Lock()
 	defer d.remoteSlotsMutex.Unlock()
 
@@ -185,7 +193,15 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 		{
 			resp := pack.P.(*protoQueryResponse)
 			socket := network.NewSocket(resp.DockAddr, "ferry", d)
-			d.open(socket, socket.Dial)
+			d.open(socket, func() {
+				err := socket.TryDial()
+				if nil != err {
+					// The dock has gone, and hub will notice that as well.
+					log.Println(err)
+					d.discard(socket)
+					d.retry()
+				}
+			})
 		}
 	case cRpcRequest:
 		{
@@ -277,6 +293,47 @@ func (d *dock) open(socket network.ISocket, connect func()) bool {
 	return !closed
 }
 
+// discard a socket that could not be connected.
+func (d *dock) discard(socket network.ISocket) {
+	d.socketsMutex.Lock()
+	defer d.socketsMutex.Unlock()
+
+	for i, s := range d.sockets {
+		if s == socket {
+			d.sockets = append(d.sockets[:i:i], d.sockets[i+1:]...)
+			return
+		}
+	}
+}
+
+// retry asks hub again, after a while, for the slots that calls are still
+// waiting for.
+func (d *dock) retry() {
+	d.remoteSlotsMutex.Lock()
+	defer d.remoteSlotsMutex.Unlock()
+
+	if d.retrying || d.hubLost {
+		return
+	}
+	d.retrying = true
+
+	time.AfterFunc(cRetryDelay, func() {
+		rpcs := make(map[string]*rpc)
+		d.remoteSlotsMutex.Lock()
+		d.retrying = false
+		for _, r := range d.rpcs {
+			if nil != r.req {
+				rpcs[r.req.Slot] = r
+			}
+		}
+		d.remoteSlotsMutex.Unlock()
+
+		for _, r := range rpcs {
+			d.commit(r)
+		}
+	})
+}
+
 // find the slot of this dock, or nil if it has none or is closed.
 func (d *dock) find(name string) *slot {
 	d.socketsMutex.Lock()
diff --git a/network/API.go b/network/API.go
index f04ee00..ad43e9e 100644
--- a/network/API.go
+++ b/network/API.go
@@ -29,6 +29,9 @@ type ISocket interface {
 	// Dial to target socket.
 	Dial()
 
+	// Dial to target socket, and return the error if it can't be reached.
+	TryDial() error
+
 	// Close the socket.
 	Close()
 
diff --git a/network/socket.go b/network/socket.go
index fb26387..891161a 100644
--- a/network/socket.go
+++ b/network/socket.go
@@ -5,6 +5,7 @@
 package network
 
 import (
+	"errors"
 	"log"
 	"net"
 	"sync"
@@ -66,16 +67,21 @@ func (s *socket) Listen() {
 }
 
 func (s *socket) Dial() {
+	err := s.TryDial()
+	if nil != err {
+		log.Fatal(err)
+	}
+}
+
+func (s *socket) TryDial() error {
 	if nil == s.sink {
-		log.Fatal("Please call Init first!")
-		return
+		return errors.New("Please call Init first!")
 	}
 
 	var err error
 	s.net, err = makeNet("tcp")
 	if nil != err {
-		log.Fatal(err)
-		return
+		return err
 	}
 
 	s.Lock()
@@ -84,17 +90,19 @@ func (s *socket) Dial() {
 
 	conn, err := s.net.Dial("tcp", s.addr)
 	if nil != err {
-		log.Fatal(err)
-		return
+		return err
 	}
 
 	peer := newPeer(conn, s.serializer, s.sink, true, s.remove)
 	if !s.add(peer) {
+		// Closed in the meantime.
 		conn.Close()
-		return
+		return nil
 	}
 
 	peer.run()
+
+	return nil
 }
 
 func (s *socket) Close() {
-- 
2.43.0


From d5e3c1353751d1ab3fe1f525fa2e2a1f9984cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 35/56] fix: encode bounds the nesting depth like decode

A slice or map containing itself overflowed the stack, which ends the
process.
---
 codec/encoder.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/codec/encoder.go b/codec/encoder.go
index 5210706..bb158ee 100644
--- a/codec/encoder.go
+++ b/codec/encoder.go
@@ -133,7 +133,7 @@ func encodeString(writer io.Writer, value string) (n int, err error) {
 	return n1 + n2, err
 }
 
-func encodeArray(writer io.Writer, value reflect.Value) (n int, err error) {
+func encodeArray(writer io.Writer, value reflect.Value, depth int) (n int, err error) {
 	length := value.Len()
 	n, err = writer.Write(bytes{cArr32, byte(length >> 24), byte(length >> 16), byte(length >> 8), byte(length)})
 	if nil != err {
@@ -141,7 +141,7 @@ func encodeArray(writer io.Writer, value reflect.Value) (n int, err error) {
 	}
 
 	for i := 0; i < length; i++ {
-		ni, err := encodeValue(writer, value.Index(i))
+		ni, err := encodeValue(writer, value.Index(i), depth+1)
 		if nil != err {
 			return n + ni, err
 		}
@@ -152,7 +152,7 @@ func encodeArray(writer io.Writer, value reflect.Value) (n int, err error) {
 	return n, nil
 }
 
-func encodeMap(writer io.Writer, value reflect.Value) (n int, err error) {
+func encodeMap(writer io.Writer, value reflect.Value, depth int) (n int, err error) {
 	keys := value.MapKeys()
 	length := len(keys)
 	n, err = writer.Write(bytes{cMap32, byte(length >> 24), byte(length >> 16), byte(length >> 8), byte(length)})
@@ -161,13 +161,13 @@ func encodeMap(writer io.Writer, value reflect.Value) (n int, err error) {
 	}
 
 	for _, k := range keys {
-		nk, err := encodeValue(writer, k)
+		nk, err := encodeValue(writer, k, depth+1)
 		if nil != err {
 			return n + nk, err
 		}
 		n += nk
 
-		nk, err = encodeValue(writer, value.MapIndex(k))
+		nk, err = encodeValue(writer, value.MapIndex(k), depth+1)
 		if nil != err {
 			return n + nk, err
 		}
@@ -177,7 +177,11 @@ func encodeMap(writer io.Writer, value reflect.Value) (n int, err error) {
 	return n, nil
 }
 
-func encodeValue(writer io.Writer, value reflect.Value) (n int, err error) {
+func encodeValue(writer io.Writer, value reflect.Value, depth int) (n int, err error) {
+	if depth > cMaxDepth {
+		return 0, fmt.Errorf("Nested too deep!")
+	}
+
 	if !value.IsValid() || nil == value.Type() {
 		return encodeNil(writer)
 	}
@@ -194,14 +198,14 @@ func encodeValue(writer io.Writer, value reflect.Value) (n int, err error) {
 	case reflect.String:
 		return encodeString(writer, v.String())
 	case reflect.Array, reflect.Slice:
-		return encodeArray(writer, v)
+		return encodeArray(writer, v, depth)
 	case reflect.Map:
-		return encodeMap(writer, v)
+		return encodeMap(writer, v, depth)
 	case reflect.Interface:
 		{
 			vv := reflect.ValueOf(v.Interface())
 			if reflect.Interface != vv.Kind() {
-				return encodeValue(writer, vv)
+				return encodeValue(writer, vv, depth)
 			}
 		}
 	}
@@ -244,7 +248,7 @@ func encode(writer io.Writer, value interface{}) (n int, err error) {
 	case string:
 		return encodeString(writer, v)
 	default:
-		return encodeValue(writer, reflect.ValueOf(value))
+		return encodeValue(writer, reflect.ValueOf(value), 0)
 	}
 
 	return 0, nil
-- 
2.43.0


From a035e21647992c181e1960d4db81b1c7a9efb07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:30 +0000
Subject: [PATCH 36/56] fix: encode refuses arrays as map keys, which can't be
 decoded

---
 codec/encoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/codec/encoder.go b/codec/encoder.go
index bb158ee..60a5c34 100644
--- a/codec/encoder.go
+++ b/codec/encoder.go
@@ -161,6 +161,14 @@ func encodeMap(writer io.Writer, value reflect.Value, depth int) (n int, err err
 	}
 
 	for _, k := range keys {
+		key := k
+		if reflect.Interface == key.Kind() {
+			key = key.Elem()
+		}
+		if reflect.Array == key.Kind() {
+			return n, fmt.Errorf("Unsupported map key: %s", key.Type().String())
+		}
+
 		nk, err := encodeValue(writer, k, depth+1)
 		if nil != err {
 			return n + nk, err
-- 
2.43.0


From 52b11afaec6bd98e6b3f0e26af5428047815bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 37/56] fix: values that can't be sent fail the call, not the
 process

A pointer, struct or error among the arguments or results of a call between
docks ended the sending process.
---
 dock.go |  7 +++++++
 rpc.go  | 17 +++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/dock.go b/dock.go
index c33d2d1..813b5df 100644
--- a/dock.go
+++ b/dock.go
@@ -218,6 +218,13 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 						err = caller.Call(req.Method, req.Args...)
 					}
 
+					if nil == err {
+						err = sendable(result)
+					}
+					if nil != err {
+						result = nil
+					}
+
 					resp := &packer{
 						Id: cRpcResponse,
 						P: &protoRpcResponse{
diff --git a/rpc.go b/rpc.go
index 732e4e2..73b3671 100644
--- a/rpc.go
+++ b/rpc.go
@@ -5,9 +5,11 @@
 package ferry
 
 import (
+	"io/ioutil"
 	"sync/atomic"
 	"time"
 
+	"github.com/muguangyi/ferry/codec"
 	"github.com/muguangyi/ferry/network"
 )
 
@@ -31,6 +33,11 @@ type ret struct {
 }
 
 func (r *rpc) call(dock *dock, name string, method string, args ...interface{}) error {
+	err := sendable(args)
+	if nil != err {
+		return err
+	}
+
 	r.req = &protoRpcRequest{
 		Index:      r.index,
 		Slot:       name,
@@ -48,6 +55,11 @@ func (r *rpc) call(dock *dock, name string, method string, args ...interface{})
 }
 
 func (r *rpc) callWithResult(dock *dock, name string, method string, args ...interface{}) ([]interface{}, error) {
+	err := sendable(args)
+	if nil != err {
+		return nil, err
+	}
+
 	r.req = &protoRpcRequest{
 		Index:      r.index,
 		Slot:       name,
@@ -64,6 +76,11 @@ func (r *rpc) callWithResult(dock *dock, name string, method string, args ...int
 	return ret.result, ret.err
 }
 
+// sendable checks whether the values can be sent to another dock.
+func sendable(values []interface{}) error {
+	return codec.NewAny(values).Encode(ioutil.Discard)
+}
+
 func (r *rpc) callback(ret *ret) {
 	r.ret <- ret
 }
-- 
2.43.0


From a0aa1b3e0e06a92bbd7fec157c0bd317cd904cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:51 +0000
Subject: [PATCH 38/56] fix: a request for a slot the dock does not have is
 answered

The caller waited forever, like when the dock was about to close.
---
 dock.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dock.go b/dock.go
index 813b5df..f250651 100644
--- a/dock.go
+++ b/dock.go
@@ -243,6 +243,16 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 					}
 					peer.Send(resp)
 				}()
+			} else {
+				peer.Send(&packer{
+					Id: cRpcResponse,
+					P: &protoRpcResponse{
+						Index:  req.Index,
+						Slot:   req.Slot,
+						Method: req.Method,
+						Err:    fmt.Sprintf("[%s] slot is not found!", req.Slot),
+					},
+				})
 			}
 		}
 	case cRpcResponse:
-- 
2.43.0


From 5fb2833836899dfdeb3ff83d48a6fe61745b1764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 39/56] fix: docks take ports and addresses from the hub only

Any peer could make a dock start its features again, listen on a port of the
peer's choice, which ends the process if that is taken, or connect anywhere.
---
 dock.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dock.go b/dock.go
index f250651..dcae310 100644
--- a/dock.go
+++ b/dock.go
@@ -171,6 +171,10 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 	// Handle Hub response for RegisterRquest.
 	case cRegisterResponse:
 		{
+			if !d.isHub(peer) {
+				return
+			}
+
 			// Get the port that Hub alloced and start to listen as a server.
 			resp := pack.P.(*protoRegisterResponse)
 			listenAddr := fmt.Sprintf(":%d", resp.Port)
@@ -191,6 +195,10 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 		}
 	case cQueryResponse:
 		{
+			if !d.isHub(peer) {
+				return
+			}
+
 			resp := pack.P.(*protoQueryResponse)
 			socket := network.NewSocket(resp.DockAddr, "ferry", d)
 			d.open(socket, func() {
@@ -310,6 +318,13 @@ func (d *dock) open(socket network.ISocket, connect func()) bool {
 	return !closed
 }
 
+func (d *dock) isHub(peer network.IPeer) bool {
+	d.remoteSlotsMutex.Lock()
+	defer d.remoteSlotsMutex.Unlock()
+
+	return peer == d.hubPeer
+}
+
 // discard a socket that could not be connected.
 func (d *dock) discard(socket network.ISocket) {
 	d.socketsMutex.Lock()
-- 
2.43.0


From de07162097ca961829aa1c9e0cf1732385ef5312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 40/56] fix: every feature starts in its own routine

A feature whose OnStart keeps running kept those after it, in random order,
from being started.
---
 dock.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dock.go b/dock.go
index dcae310..0525516 100644
--- a/dock.go
+++ b/dock.go
@@ -191,7 +191,7 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 				},
 			})
 
-			go d.start()
+			d.start()
 		}
 	case cQueryResponse:
 		{
@@ -417,7 +417,7 @@ func (d *dock) collect() []string {
 
 func (d *dock) start() {
 	for _, s := range d.slots {
-		s.feature.OnStart(s)
+		go s.feature.OnStart(s)
 	}
 }
 
-- 
2.43.0


From 8a38b16cf2c713890e9bacf73061170c06dcb47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:16 +0000
Subject: [PATCH 41/56] fix: a reply counts only if it comes from where the
 request went

Any connected dock could complete a call with a guessed index, even one that
was not sent yet.
---
 dock.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dock.go b/dock.go
index 0525516..82a7b53 100644
--- a/dock.go
+++ b/dock.go
@@ -266,7 +266,7 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 	case cRpcResponse:
 		{
 			resp := pack.P.(*protoRpcResponse)
-			rpc := d.take(resp.Index)
+			rpc := d.take(resp.Index, peer)
 			if nil != rpc {
 				rpc.callback(&ret{
 					result: resp.Result,
@@ -393,12 +393,15 @@ func (d *dock) waiting(slot string) []*rpc {
 	return rpcs
 }
 
-// take the rpc with index out of the pending ones.
-func (d *dock) take(index int64) *rpc {
+// take the rpc with index, which was sent to peer, out of the pending ones.
+func (d *dock) take(index int64, peer network.IPeer) *rpc {
 	d.remoteSlotsMutex.Lock()
 	defer d.remoteSlotsMutex.Unlock()
 
 	rpc := d.rpcs[index]
+	if nil == rpc || rpc.peer != peer {
+		return nil
+	}
 	delete(d.rpcs, index)
 
 	return rpc
-- 
2.43.0


From 2e9c985418e378d4cb645a4dc79d2b15406e4cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:47 +0000
Subject: [PATCH 42/56] fix: results from another dock convert to the declared
 types

Results of a remote call arrive in the codec's own types (int8, []interface{},
map[interface{}]interface{}), so the type assertions of generated proxies
panic. Assign converts them to what the proxy method declares.
---
 assign.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)
 create mode 100644 assign.go

diff --git a/assign.go b/assign.go
new file mode 100644
index 0000000..3161cc5
--- /dev/null
+++ b/assign.go
@@ -0,0 +1,36 @@
+// Copyright 2019 MuGuangyi. All rights reserved.
+// Use of this source code is governed by a MIT-style
+// license that can be found in the LICENSE file.
+
+package ferry
+
+import (
+	"fmt"
+	"reflect"
+
+	"github.com/muguangyi/ferry/chancall"
+)
+
+// Assign results of a call to the variables that targets point to. Results from
+// another dock don't have the types that the method has returned, like int8 for
+// a small int, and are converted. Nothing is assigned if that is not possible.
+func Assign(results []interface{}, targets ...interface{}) error {
+	if len(results) != len(targets) {
+		return fmt.Errorf("Call has %d results, not %d!", len(results), len(targets))
+	}
+
+	values := make([]reflect.Value, len(results))
+	for i, target := range targets {
+		var err error
+		values[i], err = chancall.Convert(results[i], reflect.TypeOf(target).Elem())
+		if nil != err {
+			return err
+		}
+	}
+
+	for i, target := range targets {
+		reflect.ValueOf(target).Elem().Set(values[i])
+	}
+
+	return nil
+}
-- 
2.43.0


From fdddf94347355a3141b788e118ca4a7356e4cfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:47 +0000
Subject: [PATCH 43/56] fix: generated proxies compile and forward every
 parameter

Grouped and unnamed parameters were dropped, slice, map and empty interface
types were not supported, names could clash with the receiver and results
were asserted to types they do not have when the feature is remote.
---
 tool/ferry.gen.go | 167 +++++++++++++++++++++++-----------------------
 1 file changed, 82 insertions(+), 85 deletions(-)

diff --git a/tool/ferry.gen.go b/tool/ferry.gen.go
index 5717eb0..0df0101 100644
--- a/tool/ferry.gen.go
+++ b/tool/ferry.gen.go
@@ -7,17 +7,18 @@ package main
 import (
 	"bytes"
 	"flag"
+	"fmt"
 	"go/ast"
 	"go/format"
 	"go/parser"
 	"go/token"
-	"html/template"
 	"io/ioutil"
 	"log"
 	"os"
 	"path"
 	"path/filepath"
 	"strings"
+	"text/template"
 	"time"
 )
 
@@ -83,8 +84,12 @@ func scanFile(fset *token.FileSet, file string) []*astTarget {
 			return true
 		}
 
-		if target, ok := parseFile(file, decl); ok {
-			targets = append(targets, target)
+		if token.TYPE == decl.Tok {
+			for _, spec := range decl.Specs {
+				if target, ok := parseFile(file, spec.(*ast.TypeSpec)); ok {
+					targets = append(targets, target)
+				}
+			}
 		}
 
 		return true
@@ -93,18 +98,7 @@ func scanFile(fset *token.FileSet, file string) []*astTarget {
 	return targets
 }
 
-func parseFile(file string, decl *ast.GenDecl) (target *astTarget, ok bool) {
-	if token.TYPE != decl.Tok {
-		ok = false
-		return
-	}
-
-	if len(decl.Specs) > 1 {
-		ok = false
-		return
-	}
-
-	spec := decl.Specs[0].(*ast.TypeSpec)
+func parseFile(file string, spec *ast.TypeSpec) (target *astTarget, ok bool) {
 	itype, ok := spec.Type.(*ast.InterfaceType)
 	if !ok {
 		return
@@ -118,42 +112,24 @@ func parseFile(file string, decl *ast.GenDecl) (target *astTarget, ok bool) {
 
 	target.Methods = make(map[string]*astMethod)
 	for _, field := range itype.Methods.List {
+		ftype, isMethod := field.Type.(*ast.FuncType)
+		if !isMethod {
+			log.Printf("%s is ignored, it is not made of methods only", target.Name)
+			return nil, false
+		}
+
 		m := new(astMethod)
 		m.Name = field.Names[0].Name
-		m.Params = make([]*astField, 0)
-		m.Results = make([]*astField, 0)
-
-		ftype, _ := field.Type.(*ast.FuncType)
-
-		if nil != ftype.Params {
-			m.PCount = len(ftype.Params.List)
-			if m.PCount > 0 {
-				for _, param := range ftype.Params.List {
-					m.Params = append(m.Params, &astField{
-						Name: param.Names[0].Name,
-						Type: param.Type.(*ast.Ident).Name,
-					})
-				}
-			}
+		m.Params, isMethod = parseFields("arg", ftype.Params)
+		if isMethod {
+			m.Results, isMethod = parseFields("ret", ftype.Results)
 		}
-
-		if nil != ftype.Results {
-			m.RCount = len(ftype.Results.List)
-			if m.RCount > 0 {
-				for _, result := range ftype.Results.List {
-					m.Results = append(m.Results, &astField{
-						Name: func() string {
-							if len(result.Names) > 0 {
-								return result.Names[0].Name
-							}
-
-							return ""
-						}(),
-						Type: result.Type.(*ast.Ident).Name,
-					})
-				}
-			}
+		if !isMethod {
+			log.Printf("%s is ignored, %s has a type that can't be called with", target.Name, m.Name)
+			return nil, false
 		}
+		m.PCount = len(m.Params)
+		m.RCount = len(m.Results)
 
 		target.Methods[m.Name] = m
 	}
@@ -161,6 +137,58 @@ func parseFile(file string, decl *ast.GenDecl) (target *astTarget, ok bool) {
 	return
 }
 
+// parseFields lists the single parameters or results. They are numbered, as they
+// may have no names at all or names that have a meaning in the proxy.
+func parseFields(prefix string, list *ast.FieldList) (fields []*astField, ok bool) {
+	fields = make([]*astField, 0)
+	if nil == list {
+		return fields, true
+	}
+
+	for _, field := range list.List {
+		if !isValueType(field.Type) {
+			return nil, false
+		}
+
+		var tp bytes.Buffer
+		err := format.Node(&tp, token.NewFileSet(), field.Type)
+		if nil != err {
+			log.Fatal(err)
+		}
+
+		count := len(field.Names)
+		if 0 == count {
+			count = 1
+		}
+		for i := 0; i < count; i++ {
+			fields = append(fields, &astField{
+				Name: fmt.Sprintf("%s%d", prefix, len(fields)),
+				Type: tp.String(),
+			})
+		}
+	}
+
+	return fields, true
+}
+
+// isValueType tells whether values of the type may be sent to another dock.
+func isValueType(expr ast.Expr) bool {
+	switch t := expr.(type) {
+	case *ast.Ident:
+		return true
+	case *ast.ParenExpr:
+		return isValueType(t.X)
+	case *ast.ArrayType:
+		return isValueType(t.Elt)
+	case *ast.MapType:
+		return isValueType(t.Key) && isValueType(t.Value)
+	case *ast.InterfaceType:
+		return 0 == len(t.Methods.List)
+	}
+
+	return false
+}
+
 func genProxyCode(targets []*astTarget) (data []byte, ok bool) {
 	input := map[string]interface{}{
 		"date":    time.Now().Format("2006-01-02 15:04:05"),
@@ -173,37 +201,6 @@ func genProxyCode(targets []*astTarget) (data []byte, ok bool) {
 		}
 
 		return ""
-	}}).Funcs(template.FuncMap{"default": func(t string) string {
-		switch t {
-		case "bool":
-			return "false"
-		case "int":
-			return "0"
-		case "int8":
-			return "0"
-		case "int16":
-			return "0"
-		case "int32":
-			return "0"
-		case "int64":
-			return "0"
-		case "uint":
-			return "0"
-		case "uint8":
-			return "0"
-		case "uint16":
-			return "0"
-		case "uint32":
-			return "0"
-		case "uint64":
-			return "0"
-		case "float32":
-			return "0"
-		case "float64":
-			return "0"
-		default:
-			return "nil"
-		}
 	}}).Parse(gencode)
 	if nil != err {
 		log.Fatal(err)
@@ -270,15 +267,15 @@ type {{$target.Proxy}} struct {
 }
 
 {{range $i, $method := $target.Methods}}
-func (p *{{$target.Proxy}}) {{$method.Name}}({{range $j, $param := $method.Params}}{{$param.Name}} {{$param.Type}}{{if le $j $method.PCount}}, {{end}}{{end}}){{if gt $method.RCount 0}}({{range $k, $result := $method.Results}}{{$result.Type}}{{comma $k $method.RCount}}{{end}}){{end}}{
+func (p *{{$target.Proxy}}) {{$method.Name}}({{range $j, $param := $method.Params}}{{$param.Name}} {{$param.Type}}{{if le $j $method.PCount}}, {{end}}{{end}}){{if gt $method.RCount 0}}({{range $k, $result := $method.Results}}{{$result.Name}} {{$result.Type}}{{comma $k $method.RCount}}{{end}}){{end}}{
 	{{if gt $method.RCount 0}}results, err := p.slot.CallWithResult("{{$target.Name}}", "{{$method.Name}}", {{range $j, $param := $method.Params}}{{$param.Name}}{{comma $j $method.PCount}}{{end}})
-	{{else}}err := p.slot.Call("{{$target.Name}}", "{{$method.Name}}", {{range $j, $param := $method.Params}}{{$param.Name}}{{comma $j $method.PCount}}{{end}})
+	if nil == err {
+		ferry.Assign(results, {{range $k, $result := $method.Results}}&{{$result.Name}}{{comma $k $method.RCount}}{{end}})
+	}
+
+	return
+	{{else}}p.slot.Call("{{$target.Name}}", "{{$method.Name}}", {{range $j, $param := $method.Params}}{{$param.Name}}{{comma $j $method.PCount}}{{end}})
 	{{end}}
-	if nil != err {
-		return {{range $k, $result := $method.Results}}{{default $result.Type}}{{comma $k $method.RCount}}{{end}}
-	}{{if gt $method.RCount 0}}
-	
-	return {{range $k, $result := $method.Results}}results[{{$k}}].({{$result.Type}}){{comma $k $method.RCount}}{{end}}{{end}}
 }
 {{end}}
 // end {{$target.Name}}
-- 
2.43.0


From 2de3921aa63ce450d3a07992e231831ed91e4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 44/56] fix: Close reaches an instance from its first moment on

---
 ferry.go   |  5 +++--
 hub.go     | 16 ++++++++++++++++
 runtime.go |  5 ++++-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/ferry.go b/ferry.go
index b042456..c7feb58 100644
--- a/ferry.go
+++ b/ferry.go
@@ -32,15 +32,16 @@ type ISlot interface {
 // all features running in this dock.
 func Startup(hubAddr string, dockName string, slots ...ISlot) {
 	dock := newDock(dockName, slots...)
+	keep(dock)
 	dock.run(hubAddr)
-	wait(dock)
+	wait()
 }
 
 // Serve run a hub with addr, black list for ports to avoid allocing to docks.
 func Serve(hubAddr string, blackPorts ...int) {
 	hub := newHub()
 	hub.run(hubAddr, blackPorts...)
-	wait(hub)
+	wait()
 }
 
 // Close all containers including hub or dock.
diff --git a/hub.go b/hub.go
index dd4cc1d..cf01344 100644
--- a/hub.go
+++ b/hub.go
@@ -30,7 +30,9 @@ func newHub() *hub {
 }
 
 type hub struct {
+	socketMutex      sync.Mutex
 	socket           network.ISocket
+	closed           bool
 	docksMutex       sync.Mutex
 	docks            map[string]*list.List
 	queries          map[string][]network.IPeer // peers waiting for a slot to get ready.
@@ -46,6 +48,10 @@ type stub struct {
 }
 
 func (h *hub) Close() {
+	h.socketMutex.Lock()
+	h.closed = true
+	h.socketMutex.Unlock()
+
 	h.socket.Close()
 }
 
@@ -195,7 +201,17 @@ func (h *hub) run(hubAddr string, blackPorts ...int) {
 	network.ExtendSerializer("seek", newSerializer())
 
 	h.socket = network.NewSocket(hubAddr, "seek", h)
+	keep(h)
 	h.socket.Listen()
+
+	h.socketMutex.Lock()
+	closed := h.closed
+	h.socketMutex.Unlock()
+
+	if closed {
+		// Closed in the meantime.
+		h.socket.Close()
+	}
 }
 
 func (h *hub) allocate(addr string) (int, error) {
diff --git a/runtime.go b/runtime.go
index 6974e42..a35083f 100644
--- a/runtime.go
+++ b/runtime.go
@@ -20,11 +20,14 @@ var (
 	insts      []instance = make([]instance, 0)
 )
 
-func wait(inst instance) {
+// keep the instance to be closed by destroy.
+func keep(inst instance) {
 	instsMutex.Lock()
 	insts = append(insts, inst)
 	instsMutex.Unlock()
+}
 
+func wait() {
 	c := make(chan os.Signal, 1)
 	signal.Notify(c, os.Interrupt, os.Kill)
 	sig := <-c
-- 
2.43.0


From 21724a12a4ee1f93c9a6dc3092c8ef6e89f6cf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:38 +0000
Subject: [PATCH 45/56] fix: arguments and results are encoded at once

A call that fails because the connection is lost returns while its request may
still be queued, so the writing routine read the arguments while the caller was
free to modify them.
---
 dock.go     |  4 +++-
 protocol.go | 18 ++++++++++++++++--
 rpc.go      | 21 +++++++++++++++------
 3 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/dock.go b/dock.go
index 82a7b53..740311a 100644
--- a/dock.go
+++ b/dock.go
@@ -226,8 +226,9 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 						err = caller.Call(req.Method, req.Args...)
 					}
 
+					var packed []byte
 					if nil == err {
-						err = sendable(result)
+						packed, err = packValues(result)
 					}
 					if nil != err {
 						result = nil
@@ -247,6 +248,7 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 
 								return ""
 							}(),
+							packedResult: packed,
 						},
 					}
 					peer.Send(resp)
diff --git a/protocol.go b/protocol.go
index a428faa..b82bc6d 100644
--- a/protocol.go
+++ b/protocol.go
@@ -210,6 +210,16 @@ func (p *protoQueryResponse) Unmarshal(reader io.Reader) error {
 	return err
 }
 
+// writePacked writes values that could be encoded ahead.
+func writePacked(writer io.Writer, packed []byte, values []interface{}) error {
+	if nil == packed {
+		return codec.NewAny(values).Encode(writer)
+	}
+
+	_, err := writer.Write(packed)
+	return err
+}
+
 // RPC request
 type protoRpcRequest struct {
 	Index      int64
@@ -217,6 +227,8 @@ type protoRpcRequest struct {
 	Method     string
 	Args       []interface{}
 	WithResult bool
+
+	packedArgs []byte // encoded Args to send.
 }
 
 func (p *protoRpcRequest) Marshal(writer io.Writer) error {
@@ -235,7 +247,7 @@ func (p *protoRpcRequest) Marshal(writer io.Writer) error {
 		return err
 	}
 
-	err = codec.NewAny(p.Args).Encode(writer)
+	err = writePacked(writer, p.packedArgs, p.Args)
 	if nil != err {
 		return err
 	}
@@ -306,6 +318,8 @@ type protoRpcResponse struct {
 	Method string
 	Result []interface{}
 	Err    string
+
+	packedResult []byte // encoded Result to send.
 }
 
 func (p *protoRpcResponse) Marshal(writer io.Writer) error {
@@ -324,7 +338,7 @@ func (p *protoRpcResponse) Marshal(writer io.Writer) error {
 		return err
 	}
 
-	err = codec.NewAny(p.Result).Encode(writer)
+	err = writePacked(writer, p.packedResult, p.Result)
 	if nil != err {
 		return err
 	}
diff --git a/rpc.go b/rpc.go
index 73b3671..cda73b6 100644
--- a/rpc.go
+++ b/rpc.go
@@ -5,7 +5,7 @@
 package ferry
 
 import (
-	"io/ioutil"
+	"bytes"
 	"sync/atomic"
 	"time"
 
@@ -33,7 +33,7 @@ type ret struct {
 }
 
 func (r *rpc) call(dock *dock, name string, method string, args ...interface{}) error {
-	err := sendable(args)
+	packed, err := packValues(args)
 	if nil != err {
 		return err
 	}
@@ -43,6 +43,7 @@ func (r *rpc) call(dock *dock, name string, method string, args ...interface{})
 		Slot:       name,
 		Method:     method,
 		Args:       args,
+		packedArgs: packed,
 		WithResult: false,
 	}
 
@@ -55,7 +56,7 @@ func (r *rpc) call(dock *dock, name string, method string, args ...interface{})
 }
 
 func (r *rpc) callWithResult(dock *dock, name string, method string, args ...interface{}) ([]interface{}, error) {
-	err := sendable(args)
+	packed, err := packValues(args)
 	if nil != err {
 		return nil, err
 	}
@@ -65,6 +66,7 @@ func (r *rpc) callWithResult(dock *dock, name string, method string, args ...int
 		Slot:       name,
 		Method:     method,
 		Args:       args,
+		packedArgs: packed,
 		WithResult: true,
 	}
 
@@ -76,9 +78,16 @@ func (r *rpc) callWithResult(dock *dock, name string, method string, args ...int
 	return ret.result, ret.err
 }
 
-// sendable checks whether the values can be sent to another dock.
-func sendable(values []interface{}) error {
-	return codec.NewAny(values).Encode(ioutil.Discard)
+// packValues to send them to another dock. They belong to the caller again
+// after a call, so they can't be encoded later.
+func packValues(values []interface{}) ([]byte, error) {
+	var buf bytes.Buffer
+	err := codec.NewAny(values).Encode(&buf)
+	if nil != err {
+		return nil, err
+	}
+
+	return buf.Bytes(), nil
 }
 
 func (r *rpc) callback(ret *ret) {
-- 
2.43.0


From 72d2972b4b63e02e829933a9064aa3de3aa1ed55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:53 +0000
Subject: [PATCH 46/56] fix: a dock that does not answer holds up no others

---
 dock.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dock.go b/dock.go
index 740311a..a392a06 100644
--- a/dock.go
+++ b/dock.go
@@ -201,7 +201,8 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 
 			resp := pack.P.(*protoQueryResponse)
 			socket := network.NewSocket(resp.DockAddr, "ferry", d)
-			d.open(socket, func() {
+			// It could take long if the dock doesn't answer.
+			go d.open(socket, func() {
 				err := socket.TryDial()
 				if nil != err {
 					// The dock has gone, and hub will notice that as well.
-- 
2.43.0


From 759432b49be37199bf2831817305562976d0f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:53 +0000
Subject: [PATCH 47/56] fix: calls of a closed dock fail

---
 dock.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dock.go b/dock.go
index a392a06..488275b 100644
--- a/dock.go
+++ b/dock.go
@@ -457,15 +457,16 @@ func (d *dock) commit(rpc *rpc) {
 	}
 	d.rpcs[rpc.index] = rpc
 
+	hub := d.hub()
 	peer, ok := d.remoteSlots[rpc.req.Slot]
-	if ok {
+	if nil != hub && ok {
 		peer.Send(&packer{
 			Id: cRpcRequest,
 			P:  rpc.req,
 		})
 		rpc.req = nil
 		rpc.peer = peer
-	} else if hub := d.hub(); nil == hub || d.hubLost {
+	} else if nil == hub || d.hubLost {
 		delete(d.rpcs, rpc.index)
 		rpc.req = nil
 		rpc.callback(&ret{err: errors.New("Dock is not connected to hub!")})
-- 
2.43.0


From 915107d3c8c71a8f603e346514adfa29df700a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:34 +0000
Subject: [PATCH 48/56] fix: sockets to lost docks are let go

---
 dock.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dock.go b/dock.go
index 488275b..0e87d76 100644
--- a/dock.go
+++ b/dock.go
@@ -51,6 +51,17 @@ const (
 	cRetryDelay = 100 * time.Millisecond
 )
 
+// linkSink is the sink of a socket dialed to another dock.
+type linkSink struct {
+	*dock
+	socket network.ISocket
+}
+
+func (l *linkSink) OnClosed(peer network.IPeer) {
+	l.discard(l.socket)
+	l.dock.OnClosed(peer)
+}
+
 func (d *dock) Close() {
 	d.socketsMutex.Lock()
 	closing := d.closing
@@ -200,7 +211,9 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 			}
 
 			resp := pack.P.(*protoQueryResponse)
-			socket := network.NewSocket(resp.DockAddr, "ferry", d)
+			sink := &linkSink{dock: d}
+			socket := network.NewSocket(resp.DockAddr, "ferry", sink)
+			sink.socket = socket
 			// It could take long if the dock doesn't answer.
 			go d.open(socket, func() {
 				err := socket.TryDial()
-- 
2.43.0


From 15bfb49d4d3249d4df774cde6911ef1ceae87be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:24 +0000
Subject: [PATCH 49/56] fix: refuse to encode lengths of more than 32 bits

They were cut to 32 bits, so a string or array of 4 GB or more was encoded
with a wrong length and came back as something else.
---
 codec/code.go    |  3 +++
 codec/encoder.go | 26 +++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/codec/code.go b/codec/code.go
index 0c92289..009c49d 100644
--- a/codec/code.go
+++ b/codec/code.go
@@ -55,6 +55,9 @@ const (
 	cInt32Min = -cInt32Max
 
 	cMaxDepth = 10000
+
+	// The largest length of a string, array or map.
+	cMaxLength = 1<<32 - 1
 )
 
 type bytes []byte
diff --git a/codec/encoder.go b/codec/encoder.go
index 60a5c34..a1be137 100644
--- a/codec/encoder.go
+++ b/codec/encoder.go
@@ -121,9 +121,23 @@ func encodeInt(writer io.Writer, value int) (n int, err error) {
 	return 0, os.ErrNotExist
 }
 
+// fits tells whether length can be written.
+func fits(length int) error {
+	if uint64(length) > cMaxLength {
+		return fmt.Errorf("Length %d is too large!", length)
+	}
+
+	return nil
+}
+
 func encodeString(writer io.Writer, value string) (n int, err error) {
+	length := len(value)
+	err = fits(length)
+	if nil != err {
+		return 0, err
+	}
+
 	data := bytes(value)
-	length := len(data)
 	n1, err := writer.Write(bytes{cStr32, byte(length >> 24), byte(length >> 16), byte(length >> 8), byte(length)})
 	if nil != err {
 		return n1, err
@@ -135,6 +149,11 @@ func encodeString(writer io.Writer, value string) (n int, err error) {
 
 func encodeArray(writer io.Writer, value reflect.Value, depth int) (n int, err error) {
 	length := value.Len()
+	err = fits(length)
+	if nil != err {
+		return 0, err
+	}
+
 	n, err = writer.Write(bytes{cArr32, byte(length >> 24), byte(length >> 16), byte(length >> 8), byte(length)})
 	if nil != err {
 		return n, err
@@ -155,6 +174,11 @@ func encodeArray(writer io.Writer, value reflect.Value, depth int) (n int, err e
 func encodeMap(writer io.Writer, value reflect.Value, depth int) (n int, err error) {
 	keys := value.MapKeys()
 	length := len(keys)
+	err = fits(length)
+	if nil != err {
+		return 0, err
+	}
+
 	n, err = writer.Write(bytes{cMap32, byte(length >> 24), byte(length >> 16), byte(length >> 8), byte(length)})
 	if nil != err {
 		return n, err
-- 
2.43.0


From 2894af6daba4c204cabe555a0056b6a6576c7fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:46 +0000
Subject: [PATCH 50/56] fix: refuse calls and results that don't fit into a
 packet

The length of a packet was cut to 32 bits, so that one of 4 GB or more let
the receiver lose track of all packets after it.
---
 dock.go       |  2 +-
 rpc.go        | 18 ++++++++++++++----
 serializer.go |  8 ++++++++
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/dock.go b/dock.go
index 0e87d76..16f8416 100644
--- a/dock.go
+++ b/dock.go
@@ -242,7 +242,7 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 
 					var packed []byte
 					if nil == err {
-						packed, err = packValues(result)
+						packed, err = packValues(result, req.Slot, req.Method)
 					}
 					if nil != err {
 						result = nil
diff --git a/rpc.go b/rpc.go
index cda73b6..c8bc4d0 100644
--- a/rpc.go
+++ b/rpc.go
@@ -6,6 +6,7 @@ package ferry
 
 import (
 	"bytes"
+	"errors"
 	"sync/atomic"
 	"time"
 
@@ -33,7 +34,7 @@ type ret struct {
 }
 
 func (r *rpc) call(dock *dock, name string, method string, args ...interface{}) error {
-	packed, err := packValues(args)
+	packed, err := packValues(args, name, method)
 	if nil != err {
 		return err
 	}
@@ -56,7 +57,7 @@ func (r *rpc) call(dock *dock, name string, method string, args ...interface{})
 }
 
 func (r *rpc) callWithResult(dock *dock, name string, method string, args ...interface{}) ([]interface{}, error) {
-	packed, err := packValues(args)
+	packed, err := packValues(args, name, method)
 	if nil != err {
 		return nil, err
 	}
@@ -79,14 +80,23 @@ func (r *rpc) callWithResult(dock *dock, name string, method string, args ...int
 }
 
 // packValues to send them to another dock. They belong to the caller again
-// after a call, so they can't be encoded later.
-func packValues(values []interface{}) ([]byte, error) {
+// after a call, so they can't be encoded later. They have to fit into a packet
+// together with names.
+func packValues(values []interface{}, names ...string) ([]byte, error) {
 	var buf bytes.Buffer
 	err := codec.NewAny(values).Encode(&buf)
 	if nil != err {
 		return nil, err
 	}
 
+	size := uint64(buf.Len()) + cPacketFields
+	for _, name := range names {
+		size += uint64(len(name))
+	}
+	if size > cMaxPacket {
+		return nil, errors.New("Values are too large for a packet!")
+	}
+
 	return buf.Bytes(), nil
 }
 
diff --git a/serializer.go b/serializer.go
index 34dc401..daf43d9 100644
--- a/serializer.go
+++ b/serializer.go
@@ -13,6 +13,14 @@ import (
 	"github.com/muguangyi/ferry/network"
 )
 
+const (
+	// The largest length of a packet.
+	cMaxPacket = 1<<32 - 1
+
+	// More than the fields of a packet need besides values and names.
+	cPacketFields = 64
+)
+
 type packer struct {
 	Id cProtoType
 	P  IProto
-- 
2.43.0


From 4765ebae0d6861c2af8e49741afd0d6bd20f335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:13 +0000
Subject: [PATCH 51/56] fix: a method that ends its routine fails its call only

runtime.Goexit in a method left its caller and all later ones waiting forever.
---
 chancall/callee.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/chancall/callee.go b/chancall/callee.go
index 322f83f..1b9bc00 100644
--- a/chancall/callee.go
+++ b/chancall/callee.go
@@ -25,6 +25,9 @@ func (c *callee) SetTimeout(name string, timeout float32) {
 }
 
 func (c *callee) handling() {
+	// Left only if a method ends its routine with runtime.Goexit.
+	defer func() { go c.handling() }()
+
 	for {
 		err := c.process(<-c.callRequest)
 		if nil != err {
@@ -37,8 +40,11 @@ func (c *callee) process(request *callRequest) (err error) {
 	timer := track(request, c.meta.timeout(request.method))
 	defer timer.Stop()
 
-	result, callErr := c.meta.call(request.method, request.args...)
-	return c.result(request, &callResponse{result: result, err: callErr})
+	response := &callResponse{err: fmt.Errorf("[%s] function does not return!", request.method)}
+	defer func() { err = c.result(request, response) }()
+
+	response.result, response.err = c.meta.call(request.method, request.args...)
+	return
 }
 
 func (c *callee) result(request *callRequest, response *callResponse) (err error) {
-- 
2.43.0


From cf254f52c54969f6c26c6bd3b59098ea35ac3512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:25 +0000
Subject: [PATCH 52/56] fix: a method that panics with nil fails its call

The call returned no error and no results, with recover as it is in modules
of this Go version.
---
 chancall/meta.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/chancall/meta.go b/chancall/meta.go
index e3b9c90..35a12a9 100644
--- a/chancall/meta.go
+++ b/chancall/meta.go
@@ -54,8 +54,10 @@ func (m *meta) collect(target interface{}) {
 }
 
 func (m *meta) call(method string, args ...interface{}) (result []interface{}, err error) {
+	running := false
 	defer func() {
-		if r := recover(); nil != r {
+		// A panic with nil recovers nothing.
+		if r := recover(); nil != r || running {
 			result = nil
 			err = fmt.Errorf("[%s] function call failed: %v", method, r)
 		}
@@ -72,7 +74,10 @@ func (m *meta) call(method string, args ...interface{}) (result []interface{}, e
 
 			params = append(params, param)
 		}
+
+		running = true
 		ret := f.fn.Call(params)
+		running = false
 
 		result = make([]interface{}, len(ret))
 		for i, r := range ret {
-- 
2.43.0


From 2316ac66cc451a1f426bb3a1dcd4fc99ae271d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:42 +0000
Subject: [PATCH 53/56] fix: arguments that contain themselves fail the call,
 not the process

Converting one to a recursive type overflowed the stack.
---
 chancall/convert.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/chancall/convert.go b/chancall/convert.go
index e514537..219aa6e 100644
--- a/chancall/convert.go
+++ b/chancall/convert.go
@@ -14,6 +14,15 @@ import (
 // lose their element types on the way between docks, are converted element by
 // element.
 func Convert(arg interface{}, t reflect.Type) (reflect.Value, error) {
+	return convert(arg, t, 0)
+}
+
+func convert(arg interface{}, t reflect.Type, depth int) (reflect.Value, error) {
+	// A value may contain itself.
+	if depth > cMaxDepth {
+		return reflect.Value{}, fmt.Errorf("Nested too deep!")
+	}
+
 	if nil == arg {
 		switch t.Kind() {
 		case reflect.Interface, reflect.Slice, reflect.Map, reflect.Ptr, reflect.Func, reflect.Chan:
@@ -44,7 +53,7 @@ func Convert(arg interface{}, t reflect.Type) (reflect.Value, error) {
 		}
 
 		for i := 0; i < v.Len(); i++ {
-			elem, err := Convert(v.Index(i).Interface(), t.Elem())
+			elem, err := convert(v.Index(i).Interface(), t.Elem(), depth+1)
 			if nil != err {
 				return reflect.Value{}, err
 			}
@@ -60,12 +69,12 @@ func Convert(arg interface{}, t reflect.Type) (reflect.Value, error) {
 
 		target := reflect.MakeMap(t)
 		for _, k := range v.MapKeys() {
-			key, err := Convert(k.Interface(), t.Key())
+			key, err := convert(k.Interface(), t.Key(), depth+1)
 			if nil != err {
 				return reflect.Value{}, err
 			}
 
-			elem, err := Convert(v.MapIndex(k).Interface(), t.Elem())
+			elem, err := convert(v.MapIndex(k).Interface(), t.Elem(), depth+1)
 			if nil != err {
 				return reflect.Value{}, err
 			}
@@ -78,3 +87,8 @@ func Convert(arg interface{}, t reflect.Type) (reflect.Value, error) {
 
 	return reflect.Value{}, fmt.Errorf("Can't convert %s to %s!", v.Type(), t)
 }
+
+const (
+	// Values may be nested that deep.
+	cMaxDepth = 10000
+)
-- 
2.43.0


From b5153e9a22fb40e741736419af91f2a6d12d62b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:42 +0000
Subject: [PATCH 54/56] fix: interfaces of files that are only named like
 generated ones get proxies

---
 tool/ferry.gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tool/ferry.gen.go b/tool/ferry.gen.go
index 0df0101..702279d 100644
--- a/tool/ferry.gen.go
+++ b/tool/ferry.gen.go
@@ -64,7 +64,7 @@ func ignore(file string) bool {
 		return true
 	}
 
-	if strings.Contains(file, cGenFile) {
+	if cGenFile == filepath.Base(file) {
 		return true
 	}
 
-- 
2.43.0


From 6c91ebd15a3436a84134d666ff3e5d1480b27235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:10 +0000
Subject: [PATCH 55/56] fix: a socket can be dialed by several goroutines at
 once

---
 network/socket.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/network/socket.go b/network/socket.go
index 891161a..85c2213 100644
--- a/network/socket.go
+++ b/network/socket.go
@@ -14,7 +14,6 @@ import (
 
 type socket struct {
 	sync.Mutex
-	net        inet
 	sink       ISocketSink
 	addr       string
 	listener   net.Listener
@@ -24,14 +23,13 @@ type socket struct {
 }
 
 func (s *socket) Listen() {
-	var err error
-	s.net, err = makeNet("tcp")
+	n, err := makeNet("tcp")
 	if nil != err {
 		log.Fatal(err)
 		return
 	}
 
-	listener, err := s.net.Listen("tcp", s.addr)
+	listener, err := n.Listen("tcp", s.addr)
 	if nil != err {
 		log.Fatal(err)
 		return
@@ -78,8 +76,7 @@ func (s *socket) TryDial() error {
 		return errors.New("Please call Init first!")
 	}
 
-	var err error
-	s.net, err = makeNet("tcp")
+	n, err := makeNet("tcp")
 	if nil != err {
 		return err
 	}
@@ -88,7 +85,7 @@ func (s *socket) TryDial() error {
 	s.closed = false
 	s.Unlock()
 
-	conn, err := s.net.Dial("tcp", s.addr)
+	conn, err := n.Dial("tcp", s.addr)
 	if nil != err {
 		return err
 	}
-- 
2.43.0


From ab9943205c63f5862bea4f4d4aaf20cb00b0a110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:42 +0000
Subject: [PATCH 56/56] fix: proxies of interfaces whose names differ in case
 only get different names

---
 tool/ferry.gen.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tool/ferry.gen.go b/tool/ferry.gen.go
index 702279d..88ac3bb 100644
--- a/tool/ferry.gen.go
+++ b/tool/ferry.gen.go
@@ -190,6 +190,16 @@ func isValueType(expr ast.Expr) bool {
 }
 
 func genProxyCode(targets []*astTarget) (data []byte, ok bool) {
+	// Names of interfaces may differ in case only.
+	proxies := make(map[string]bool)
+	for _, target := range targets {
+		name := target.Proxy
+		for i := 2; proxies[target.Proxy]; i++ {
+			target.Proxy = fmt.Sprintf("%s%d", name, i)
+		}
+		proxies[target.Proxy] = true
+	}
+
 	input := map[string]interface{}{
 		"date":    time.Now().Format("2006-01-02 15:04:05"),
 		"targets": targets,
-- 
2.43.0

