From a7daa46a51f00206cbd2dab71896fa943b93ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 01/61] fix: amf reads exactly the announced bytes, in memory
 bounded by what arrives

---
 amf/helper.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/amf/helper.go b/amf/helper.go
index da0e6d4..d336db0 100755
--- a/amf/helper.go
+++ b/amf/helper.go
@@ -1,10 +1,14 @@
 package amf
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 )
 
+// 读取时预先分配的最大字节数
+const maxPrealloc = 4096
+
 // Array AMF数组接口
 type Array []interface{}
 
@@ -62,17 +66,21 @@ func readByte(r io.Reader) (byte, error) {
 
 // 读多字节
 func readBytes(r io.Reader, n int) ([]byte, error) {
-	bytes := make([]byte, n)
-	m, err := r.Read(bytes)
-	if err != nil {
-		return bytes, err
+	// 长度由对端声明, 不可信: 较短的直接分配, 较长的随实际收到的数据增长
+	if n <= maxPrealloc {
+		buf := make([]byte, n)
+		_, err := io.ReadFull(r, buf)
+
+		return buf, err
 	}
 
-	if m != n {
-		return bytes, fmt.Errorf("expected %d bytes, but got %d bytes", m, n)
+	var buf bytes.Buffer
+	m, err := io.CopyN(&buf, r, int64(n))
+	if err == io.EOF && m > 0 {
+		err = io.ErrUnexpectedEOF
 	}
 
-	return bytes, nil
+	return buf.Bytes(), err
 }
 
 // 下一个字节一定是target, 否则返回错误
-- 
2.43.0


From abc05ba4b523eb691c11f37e30df6a68ce3ee8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 02/61] fix: amf3 containers, XML and byte arrays read whole
 values and allocate by data received

---
 amf/amf3.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 9f0ae62..afd6ac3 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -239,7 +239,7 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 	var result EcmaArrayAMF3
 	ed.deObjTable = append(ed.deObjTable, result)
 	result.associative = make(Object)
-	result.dense = make(Array, refVal)
+	result.dense = make(Array, 0)
 
 	// list of assoicative array, terminated by an empty string
 	for key != "" {
@@ -258,10 +258,12 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 
 	// list of dense array
 	for i := uint32(0); i < refVal; i++ {
-		result.dense[i], err = ed.Decode(r)
+		val, err := ed.Decode(r)
 		if err != nil {
 			return EcmaArrayAMF3{}, err
 		}
+
+		result.dense = append(result.dense, val)
 	}
 
 	return result, nil
@@ -312,12 +314,13 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 
 		// Note: traits have property keys, encoded as amf3 strings
 		count := int(refVal >> 3)
-		trait.Properties = make([]string, count)
 		for i := 0; i < count; i++ {
-			trait.Properties[i], err = ed.decodeString(r)
+			key, err := ed.decodeString(r)
 			if err != nil {
 				return nil, err
 			}
+
+			trait.Properties = append(trait.Properties, key)
 		}
 
 		ed.traitTable = append(ed.traitTable, trait)
@@ -437,8 +440,7 @@ func (ed *EnDecAMF3) decodeXmlDoc(r io.Reader) (string, error) {
 	}
 
 	// 按数值取值
-	buf := make([]byte, refVal)
-	_, err = r.Read(buf)
+	buf, err := readBytes(r, int(refVal))
 	if err != nil {
 		return "", err
 	}
@@ -478,8 +480,7 @@ func (ed *EnDecAMF3) decodeByteArray(r io.Reader) ([]byte, error) {
 	}
 
 	// 按数值取值
-	result := make([]byte, refVal)
-	_, err = r.Read(result)
+	result, err := readBytes(r, int(refVal))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 2e276c8ba110cbf4b144ecd58a14fa698867a0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:01 +0000
Subject: [PATCH 03/61] fix: amf0 reference just past the table is an error,
 not a panic

---
 amf/amf0.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 5ecee4d..4dccb4f 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -182,7 +182,7 @@ func (ed *EnDecAMF0) decodeReference(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
-	if int(ref) > len(ed.deRefCache) {
+	if int(ref) >= len(ed.deRefCache) {
 		return nil, fmt.Errorf("bad reference %d (current length %d)", ref, len(ed.deRefCache))
 	}
 
-- 
2.43.0


From c7d8398abb1cbf8453ec13743ecf1d2538453de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 04/61] fix: amf0 references to strict arrays and typed objects
 yield their contents and count once

---
 amf/amf0.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 4dccb4f..babae25 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -148,27 +148,37 @@ func (ed *EnDecAMF0) decodeObject(r io.Reader) (Object, error) {
 	result := make(Object)
 	ed.deRefCache = append(ed.deRefCache, result)
 
+	err := ed.decodeMembers(r, result)
+	if err != nil {
+		return nil, err
+	}
+
+	return result, nil
+}
+
+// 读取对象的成员, 直到结束符
+func (ed *EnDecAMF0) decodeMembers(r io.Reader, result Object) error {
 	for {
 		// 读取字符串
 		key, err := ed.decodeString(r)
 		if err != nil {
-			return nil, err
+			return err
 		}
 
 		// [出口]空字符串后应该是结束符
 		if key == "" {
 			err = nextByteMustBe(r, objectEndMarkerOnAMF0)
 			if err != nil {
-				return nil, err
+				return err
 			}
 
-			return result, nil
+			return nil
 		}
 
 		// 序列未结束, 继续读取
 		value, err := ed.Decode(r)
 		if err != nil {
-			return nil, err
+			return err
 		}
 
 		result[key] = value
@@ -217,6 +227,7 @@ func (ed *EnDecAMF0) decodeStrictArray(r io.Reader) (Array, error) {
 
 	// 初始化数组
 	var result Array
+	index := len(ed.deRefCache)
 	ed.deRefCache = append(ed.deRefCache, result)
 
 	// 填充数组
@@ -229,6 +240,9 @@ func (ed *EnDecAMF0) decodeStrictArray(r io.Reader) (Array, error) {
 		result = append(result, val)
 	}
 
+	// 引用应得到完整的数组
+	ed.deRefCache[index] = result
+
 	return result, nil
 }
 
@@ -267,7 +281,6 @@ func (ed *EnDecAMF0) decodeLongString(r io.Reader) (string, error) {
 func (ed *EnDecAMF0) decodeTypedObject(r io.Reader) (TypedObject, error) {
 	// 数组化类型数组
 	var result TypedObject
-	ed.deRefCache = append(ed.deRefCache, result)
 
 	// 读取类型
 	typeVal, err := ed.decodeString(r)
@@ -275,8 +288,15 @@ func (ed *EnDecAMF0) decodeTypedObject(r io.Reader) (TypedObject, error) {
 		return result, err
 	}
 
+	// 类型和成员共用一个引用, 成员读取时写入同一个对象
+	objectVal := make(Object)
+	ed.deRefCache = append(ed.deRefCache, TypedObject{
+		Type:   typeVal,
+		Object: objectVal,
+	})
+
 	// 读取对象
-	objectVal, err := ed.decodeObject(r)
+	err = ed.decodeMembers(r, objectVal)
 	if err != nil {
 		return result, err
 	}
-- 
2.43.0


From fc6f50721ff22e12fbd6869ded00527f6bdddc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:16 +0000
Subject: [PATCH 05/61] fix: amf input ending inside a value is an error, not a
 clean end of batch

---
 amf/amf0.go | 16 +++++++++++++---
 amf/amf3.go | 13 ++++++++++++-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index babae25..0d773bc 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -49,12 +49,23 @@ func (ed *EnDecAMF0) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	val, err := ed.decodeValue(r, marker)
+	if err == io.EOF {
+		// 数据在值的中间结束
+		err = io.ErrUnexpectedEOF
+	}
+
+	return val, err
+}
+
+// 根据类型解析一个值
+func (ed *EnDecAMF0) decodeValue(r io.Reader, marker byte) (interface{}, error) {
 	switch marker {
 	case numberMarkerOnAMF0:
 		// marker: 1 byte 0x00
 		// format: 8 byte big endian float64
 		var f64 float64
-		err = binary.Read(r, binary.BigEndian, &f64)
+		err := binary.Read(r, binary.BigEndian, &f64)
 		if err != nil {
 			return f64, err
 		}
@@ -63,8 +74,7 @@ func (ed *EnDecAMF0) Decode(r io.Reader) (interface{}, error) {
 	case booleanMarkerOnAMF0:
 		// marker: 1 byte 0x01
 		// format: 1 byte, 0x00 = false, 0x01 = true
-		var flag byte
-		flag, err = readByte(r)
+		flag, err := readByte(r)
 		if err != nil {
 			return nil, err
 		}
diff --git a/amf/amf3.go b/amf/amf3.go
index afd6ac3..4fab838 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -76,6 +76,17 @@ func (ed *EnDecAMF3) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	val, err := ed.decodeValue(r, marker)
+	if err == io.EOF {
+		// 数据在值的中间结束
+		err = io.ErrUnexpectedEOF
+	}
+
+	return val, err
+}
+
+// 根据类型解析一个值
+func (ed *EnDecAMF3) decodeValue(r io.Reader, marker byte) (interface{}, error) {
 	switch marker {
 	case undefinedMarkerOnAMF3, nullMarkerOnAMF3:
 		return nil, nil
@@ -87,7 +98,7 @@ func (ed *EnDecAMF3) Decode(r io.Reader) (interface{}, error) {
 		return ed.readUint29(r)
 	case doubleMarkerOnAMF3:
 		var f64 float64
-		err = binary.Read(r, binary.BigEndian, &f64)
+		err := binary.Read(r, binary.BigEndian, &f64)
 		if err != nil {
 			return f64, err
 		}
-- 
2.43.0


From 18ce0c22b350ab88f8f6f24c66628a204a7b9f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 06/61] fix: amf dates follow the specification's layout and
 keep their milliseconds

---
 amf/amf0.go | 7 ++++---
 amf/amf3.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 0d773bc..3b652fd 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -635,12 +635,13 @@ func (ed *EnDecAMF0) encodeDate(w io.Writer, val time.Time) (int, error) {
 	}
 	n := 1
 
-	var m = 0
-	m, err = ed.encodeNumber(w, float64(val.Unix())*1000.0)
+	// 毫秒数: 日期标记后直接是8字节浮点数, 没有数字标记
+	millis := val.Unix()*1000 + int64(val.Nanosecond()/1000000)
+	err = binary.Write(w, binary.BigEndian, float64(millis))
 	if err != nil {
 		return 0, err
 	}
-	n += m
+	n += 8
 
 	err = binary.Write(w, binary.BigEndian, int16(0))
 	if err != nil {
diff --git a/amf/amf3.go b/amf/amf3.go
index 4fab838..5ae7a94 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -209,8 +209,9 @@ func (ed *EnDecAMF3) decodeDate(r io.Reader) (time.Time, error) {
 		return time.Time{}, fmt.Errorf("unable to read double: %s", err)
 	}
 
-	// 将毫秒转换为秒
-	result := time.Unix(int64(f64/1000), 0).UTC()
+	// 将毫秒转换为秒和纳秒
+	millis := int64(f64)
+	result := time.Unix(millis/1000, millis%1000*1000000).UTC()
 	ed.deObjTable = append(ed.deObjTable, result)
 
 	return result, nil
@@ -724,7 +725,7 @@ func (ed *EnDecAMF3) encodeDate(w io.Writer, val time.Time) (int, error) {
 	}
 	n++
 
-	u64 := float64(val.Unix()) * 1000.0
+	u64 := float64(val.Unix()*1000 + int64(val.Nanosecond()/1000000))
 	err = binary.Write(w, binary.BigEndian, &u64)
 	if err != nil {
 		return 0, err
-- 
2.43.0


From 400f42f26cddc8bb59941b0f509b4df07276062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 07/61] fix: amf0 reports a failed write of the AMF3 and XML
 markers

---
 amf/amf0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 3b652fd..79ae948 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -387,7 +387,7 @@ func (ed *EnDecAMF0) EncodeBatch(w io.Writer, args ...interface{}) error {
 func (ed *EnDecAMF0) EncodeWithAMF3(w io.Writer, val interface{}) (int, error) {
 	err := writeByte(w, avmPlusObjectMarkerOnAMF0)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 
 	n, err := ed.EnDecAMF3.Encode(w, val)
@@ -402,7 +402,7 @@ func (ed *EnDecAMF0) EncodeWithAMF3(w io.Writer, val interface{}) (int, error) {
 func (ed *EnDecAMF0) EncodeXmlDocument(w io.Writer, val string) (int, error) {
 	err := writeByte(w, xmlDocumentMarkerOnAMF0)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 
 	n, err := ed.encodeLongString(w, val, false)
-- 
2.43.0


From 48d443ca62372f1aef5ab777dead3af61a3b7673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 08/61] fix: amf0 rejects keys and type names it cannot
 represent

---
 amf/amf0.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index 79ae948..40355e3 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -529,6 +529,10 @@ func (ed *EnDecAMF0) encodeString(w io.Writer, val string, encodeMarker bool) (i
 		n++
 	}
 
+	if len(val) > 65535 {
+		return 0, fmt.Errorf("encode amf0: string of %d bytes is too long", len(val))
+	}
+
 	length := uint16(len(val))
 	err = binary.Write(w, binary.BigEndian, length)
 	if err != nil {
@@ -559,6 +563,11 @@ func (ed *EnDecAMF0) encodeObject(w io.Writer, val Object, encodeMarker bool) (i
 
 	var m = 0
 	for k, v := range val {
+		// 空key是结束符, 不能作为成员名
+		if k == "" {
+			return 0, fmt.Errorf("encode amf0: empty key in object")
+		}
+
 		// 数组key
 		m, err = ed.encodeString(w, k, false)
 		if err != nil {
-- 
2.43.0


From de503d23022fa9e56060d8a60d377e35f03ff847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:55 +0000
Subject: [PATCH 09/61] fix: amf3 trait and external flags are tested as bits

---
 amf/amf3.go          | 4 ++--
 amf/amf3_external.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 5ae7a94..e2e68b0 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -313,10 +313,10 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 		trait = ed.traitTable[index]
 	} else {
 		// Note: no property names are included in the trait information
-		trait.Externalizable = (refVal & 0x02) == 1
+		trait.Externalizable = (refVal & 0x02) != 0
 
 		// Note: another dynamic member follows until the string-type is the empty string.
-		trait.Dynamic = (refVal & 0x04) == 1
+		trait.Dynamic = (refVal & 0x04) != 0
 
 		// Note: use the empty string for anonymous classes
 		trait.Type, err = ed.decodeString(r)
diff --git a/amf/amf3_external.go b/amf/amf3_external.go
index f3481b2..eab8d67 100755
--- a/amf/amf3_external.go
+++ b/amf/amf3_external.go
@@ -71,7 +71,7 @@ func (ed *EnDecAMF3) decodeExternal(r io.Reader, obj *Object, fieldSets ...[]str
 		// 只有在flagSet里设置为1的值才会被解开
 		for p, field := range fieldNames {
 			flagBit := uint8(math.Exp2(float64(p)))
-			if (flags & flagBit) == 1 {
+			if (flags & flagBit) != 0 {
 				tmp, err := ed.Decode(r)
 				if err != nil {
 					return err
-- 
2.43.0


From 890a7d5b476bd6caa6b74b192a1ea0b73ff99c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 10/61] fix: amf3 object references yield the referenced value,
 with the specified numbering

---
 amf/amf3.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index e2e68b0..c105372 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -249,9 +249,10 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 
 	// 初始化数组
 	var result EcmaArrayAMF3
-	ed.deObjTable = append(ed.deObjTable, result)
 	result.associative = make(Object)
 	result.dense = make(Array, 0)
+	index := len(ed.deObjTable)
+	ed.deObjTable = append(ed.deObjTable, result)
 
 	// list of assoicative array, terminated by an empty string
 	for key != "" {
@@ -278,6 +279,9 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 		result.dense = append(result.dense, val)
 	}
 
+	// 引用应得到完整的数组
+	ed.deObjTable[index] = result
+
 	return result, nil
 }
 
@@ -339,6 +343,7 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 	}
 
 	var result interface{}
+	objIndex := len(ed.deObjTable)
 	ed.deObjTable = append(ed.deObjTable, result)
 
 	// objects can be externalizable, meaning that the system has no concrete understanding of
@@ -364,8 +369,6 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 				return nil, err
 			}
 
-			// store an extra reference to array collection container
-			ed.deObjTable = append(ed.deObjTable, result)
 		default:
 			// 调用外部函数
 			fn, ok := ed.externalHandlers[trait.Type]
@@ -379,12 +382,16 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 			}
 		}
 
+		// 引用应得到外部函数的结果
+		ed.deObjTable[objIndex] = result
+
 		// 外部函数调用完即可结束
 		return result, nil
 	}
 
 	// 解析Properties, Dynamic
 	obj := make(Object)
+	ed.deObjTable[objIndex] = obj
 
 	// non-externalizable objects have property keys in traits, iterate through them
 	// and add the read values to the object
@@ -446,11 +453,6 @@ func (ed *EnDecAMF3) decodeXmlDoc(r io.Reader) (string, error) {
 		return result, nil
 	}
 
-	// xml字符个数
-	if refVal == 0 {
-		return "", nil
-	}
-
 	// 按数值取值
 	buf, err := readBytes(r, int(refVal))
 	if err != nil {
@@ -486,11 +488,6 @@ func (ed *EnDecAMF3) decodeByteArray(r io.Reader) ([]byte, error) {
 		return result, nil
 	}
 
-	// 字节个数
-	if refVal == 0 {
-		return nil, nil
-	}
-
 	// 按数值取值
 	result, err := readBytes(r, int(refVal))
 	if err != nil {
-- 
2.43.0


From 2d9f5f7f5877311d1c3ef9079ff3880a37ff1e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 11/61] fix: amf3 encodes negative integers as doubles instead
 of failing

---
 amf/amf3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index c105372..2fc3829 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -577,13 +577,13 @@ func (ed *EnDecAMF3) Encode(w io.Writer, val interface{}) (int, error) {
 
 		return ed.encodeFalse(w)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
-		if v.Int() >= -536870911 && v.Int() < 536870911 {
+		if v.Int() >= 0 && v.Int() <= 0x1FFFFFFF {
 			return ed.encodeInteger(w, uint32(v.Int()))
 		}
 
 		return ed.encodeDouble(w, float64(v.Int()))
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32:
-		if v.Uint() < 536870911 {
+		if v.Uint() <= 0x1FFFFFFF {
 			return ed.encodeInteger(w, uint32(v.Uint()))
 		}
 
-- 
2.43.0


From 60559e73bebeb38c4d363fea0a87b721487dca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 12/61] fix: amf3 lengths that do not fit the header are an
 error

---
 amf/amf3.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amf/amf3.go b/amf/amf3.go
index 2fc3829..b3e09b4 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -911,6 +911,10 @@ func (ed *EnDecAMF3) encodeUtf8(w io.Writer, val string) (int, error) {
 }
 
 func (ed *EnDecAMF3) encodeUint29(w io.Writer, isRef bool, val uint32) (int, error) {
+	if val > 0x0FFFFFFF {
+		return 0, fmt.Errorf("cannot encode u29 header with value %d (out of range)", val)
+	}
+
 	val <<= 1
 	if !isRef {
 		val |= 0x1
-- 
2.43.0


From 5d0d73acbdf623d7b4f1eb0a2bf542e9b9370482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:17 +0000
Subject: [PATCH 13/61] fix: registering an external handler on an AMF0 codec
 does not panic

---
 amf/amf3.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amf/amf3.go b/amf/amf3.go
index b3e09b4..23cce76 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -66,6 +66,10 @@ func NewEnDecAMF3() *EnDecAMF3 {
 
 // RegisterExternalHandler 注册远程调用
 func (ed *EnDecAMF3) RegisterExternalHandler(name string, f ExternalHandler) {
+	if ed.externalHandlers == nil {
+		ed.externalHandlers = make(map[string]ExternalHandler)
+	}
+
 	ed.externalHandlers[name] = f
 }
 
-- 
2.43.0


From 3221f8caa2aac1107d496eb667380e2bbcaf84a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:18 +0000
Subject: [PATCH 14/61] fix: removing the metadata header strips the bytes it
 occupies in any encoding

---
 amf/metadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amf/metadata.go b/amf/metadata.go
index 299f42f..5abfd16 100755
--- a/amf/metadata.go
+++ b/amf/metadata.go
@@ -76,7 +76,7 @@ func DelMetaHeader(p []byte, d Decoder) ([]byte, error) {
 	}
 
 	if vv == SetDataFrame {
-		p = p[len(setFrameFrame):]
+		p = p[len(p)-r.Len():]
 	}
 
 	return p, nil
-- 
2.43.0


From 2b8adcc043ef44b776c9ee47126828dd16f4f31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 15/61] fix: flv composition time is a signed 24-bit value of
 this tag only

---
 container/flv/tag.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/container/flv/tag.go b/container/flv/tag.go
index f369bd1..269741d 100755
--- a/container/flv/tag.go
+++ b/container/flv/tag.go
@@ -130,10 +130,8 @@ func (tag *Tag) parseVideoHeader(b []byte) (int, error) {
 		// [2] H264包类型
 		tag.media.avcType = b[1]
 
-		// [3:5] 时间戳
-		for i := 2; i < 5; i++ {
-			tag.media.compositionTime = tag.media.compositionTime<<8 + int32(b[i])
-		}
+		// [3:5] 时间戳, 24位有符号整数
+		tag.media.compositionTime = int32(uint32(b[2])<<24|uint32(b[3])<<16|uint32(b[4])<<8) >> 8
 		n += 4
 	}
 
-- 
2.43.0


From 2966f115b9eacd3d7aef8c75db6964cb24112975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 16/61] fix: flv rejects tag data longer than its size field

---
 container/flv/muxer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/container/flv/muxer.go b/container/flv/muxer.go
index ae3d35a..6f0e715 100755
--- a/container/flv/muxer.go
+++ b/container/flv/muxer.go
@@ -118,6 +118,11 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 		return fmt.Errorf("unexpected type=%d", p.Type)
 	}
 
+	// DataSize只有3字节
+	if len(p.Data) > 0x00ffffff {
+		return fmt.Errorf("tag data of %d bytes is too long", len(p.Data))
+	}
+
 	// Flv data length
 	dataLen := uint32(len(p.Data))
 
-- 
2.43.0


From 366a622926565245c1ed81ee434035d706c3c4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 17/61] fix: h264 PPS ends where its length says

---
 parser/h264/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 052869e..10926a8 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -85,7 +85,7 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 		return errors.New("incomplete pps data")
 	}
 	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:]...)
+	pps = append(pps, tmpBuf[3:(3+seq.ppsLen)]...)
 
 	// 向specificInfo填充SPS和PPS
 	p.specificInfo = append(p.specificInfo, sps...)
-- 
2.43.0


From 1f3c28966f83e35067071cb01c50182fbdd3b3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 18/61] fix: h264 a new sequence header replaces the parameter
 sets of the previous one

---
 parser/h264/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 10926a8..7d97f83 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -87,8 +87,8 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 	pps = append(pps, startCode...)
 	pps = append(pps, tmpBuf[3:(3+seq.ppsLen)]...)
 
-	// 向specificInfo填充SPS和PPS
-	p.specificInfo = append(p.specificInfo, sps...)
+	// 向specificInfo填充SPS和PPS, 替换之前的序列头
+	p.specificInfo = append([]byte(nil), sps...)
 	p.specificInfo = append(p.specificInfo, pps...)
 
 	return nil
-- 
2.43.0


From 622e392b69a711d3092e58d91abd386e865a9c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 19/61] fix: aac frames longer than the ADTS length field are
 refused

---
 parser/aac/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 3864545..1a12ed7 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -79,6 +79,11 @@ func (p *Parser) addADTSToFrame(src []byte, w io.Writer) error {
 		return fmt.Errorf("audio data invalid, data size(%d), has specific config(%v)", len(src), p.gotSpecific)
 	}
 
+	// adts的帧长度字段只有13位
+	if len(src)+adtsHeaderLen > 0x1fff {
+		return fmt.Errorf("audio frame of %d bytes is too long", len(src))
+	}
+
 	// 音频帧大小
 	aacFrameLen := uint16(len(src))
 
-- 
2.43.0


From 798f8781ba7ca5fbacaa94613316ca562806f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 20/61] fix: ts key frames that fill the first packet are muxed
 instead of panicking

---
 container/ts/muxer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index 1509302..b0211d9 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -11,8 +11,7 @@ import (
 )
 
 const (
-	tsDefaultDataLen = 184
-	tsPacketLen      = 188
+	tsPacketLen = 188
 )
 
 const (
@@ -121,7 +120,7 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 		maxPayloadLen := tsPacketLen - i
 
 		// 计算待填充的长度
-		if pesTotalLen < tsDefaultDataLen {
+		if pesTotalLen < int(maxPayloadLen) {
 			// 除去pes外, 还应填充的无效字节长度
 			remainBytes := maxPayloadLen - byte(pesTotalLen)
 
-- 
2.43.0


From d02b7f8075e5912234a83f02e4b4b3ca5b421a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:51 +0000
Subject: [PATCH 21/61] fix: ts PES timestamps carry the prefixes the standard
 prescribes

---
 container/ts/table/pes.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/container/ts/table/pes.go b/container/ts/table/pes.go
index 4a86e77..90786ce 100644
--- a/container/ts/table/pes.go
+++ b/container/ts/table/pes.go
@@ -37,18 +37,19 @@ func (pe *Pes) GeneratePesHeader(mt int, mediaDataLen int, pts, dts int64) int {
 		return 0
 	}
 
-	// pts
-	ptsB5 := pe.encodeTs(pe.PesHeader[7], pts)
-	copy(pe.PesHeader[9:], ptsB5[:])
 	if mt == packet.PktVideo && pts != dts {
 		pe.PesHeader[7] |= 0x40
 		pe.PesHeader[8] += 0x05
 
-		// dts
-		dtsB5 := pe.encodeTs(pe.PesHeader[7], dts)
+		// dts, 前缀0001
+		dtsB5 := pe.encodeTs(0x40, dts)
 		copy(pe.PesHeader[14:], dtsB5[:])
 	}
 
+	// pts, 只有pts时前缀0010, 同时有dts时前缀0011
+	ptsB5 := pe.encodeTs(pe.PesHeader[7], pts)
+	copy(pe.PesHeader[9:], ptsB5[:])
+
 	// pes数据包的长度
 	pesDataLen := int(pe.PesHeader[8])
 	size := 3 + pesDataLen + mediaDataLen
-- 
2.43.0


From 70aad4230acfe9a46981d1d339e7dfc4bfb3f2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 22/61] fix: ts timestamps wrap modulo 2^33

---
 container/ts/table/pes.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/container/ts/table/pes.go b/container/ts/table/pes.go
index 90786ce..dcbf1c9 100644
--- a/container/ts/table/pes.go
+++ b/container/ts/table/pes.go
@@ -66,9 +66,6 @@ func (pe *Pes) GeneratePesHeader(mt int, mediaDataLen int, pts, dts int64) int {
 // 33位时间戳编码成40位时间戳
 func (pe *Pes) encodeTs(flag byte, ts int64) [5]byte {
 	var val uint16
-	if ts > 0x1ffffffff {
-		ts -= 0x1ffffffff
-	}
 
 	var u33 [5]byte
 
-- 
2.43.0


From c5b759395df6e81e3c432599b264d592bbf399cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 23/61] fix: ts timing neither wraps at 2^32 ticks nor loses
 the sign of the offset

---
 container/ts/mixer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index c6df3cc..a1d2b7b 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -167,11 +167,11 @@ func (m *Mixer) SetTsHeader() error {
 // 视频的PTS=DTS+时间增量
 // 音频的PTS=DTS
 func (m *Mixer) Update(p *packet.Packet, pktTs, avcTs uint32) error {
-	m.dts = int64(pktTs * avcHZ)
+	m.dts = int64(pktTs) * avcHZ
 
 	switch p.Type {
 	case packet.PktVideo:
-		m.pts = m.dts + int64(avcTs*avcHZ)
+		m.pts = m.dts + int64(int32(avcTs))*avcHZ
 	case packet.PktAudio:
 		// 音频采样率
 		sampleRate, err := m.parser.SampleRate()
-- 
2.43.0


From 5efb6773b7f3985b4ee9e2f9995b622bb5519ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:53 +0000
Subject: [PATCH 24/61] fix: ts service table advances its continuity counter

---
 container/ts/muxer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index b0211d9..c2ca987 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -25,6 +25,7 @@ type Muxer struct {
 	audioCc  byte /* 包递增计数器 */
 	patCc    byte /* 包递增计数器 */
 	pmtCc    byte /* 包递增计数器 */
+	sdtCc    byte /* 包递增计数器 */
 	sdt      [tsPacketLen]byte
 	pat      [tsPacketLen]byte
 	pmt      [tsPacketLen]byte
@@ -188,6 +189,10 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 func (muxer *Muxer) SDT(desc *bytes.Buffer) []byte {
 	sdt := table.NewSdt()
 
+	// 填写包递增计数器, 共4位, 超出则归零
+	sdt.TsHeader[3] |= muxer.sdtCc & 0x0f
+	muxer.sdtCc++
+
 	// 填充TS头
 	i := 0
 	copy(muxer.sdt[i:], sdt.TsHeader)
-- 
2.43.0


From 96e8667ad697e8d358cfc4205d80db7057500764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:54 +0000
Subject: [PATCH 25/61] fix: ts descriptors that do not fit the service table
 are refused instead of panicking

---
 container/ts/muxer.go            |  6 +++++-
 container/ts/table/descriptor.go | 35 +++++++++++++++++++++++++++++---
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index c2ca987..b465ff3 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -185,8 +185,12 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 	return nil
 }
 
-// SDT make service description table
+// SDT make service description table, 描述信息超出一个TS包时返回nil
 func (muxer *Muxer) SDT(desc *bytes.Buffer) []byte {
+	if desc.Len() > table.MaxDescriptorLen {
+		return nil
+	}
+
 	sdt := table.NewSdt()
 
 	// 填写包递增计数器, 共4位, 超出则归零
diff --git a/container/ts/table/descriptor.go b/container/ts/table/descriptor.go
index 54c1472..0cb6a40 100644
--- a/container/ts/table/descriptor.go
+++ b/container/ts/table/descriptor.go
@@ -3,8 +3,12 @@ package table
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 )
 
+// MaxDescriptorLen SDT表只占一个TS包, 描述信息的最大长度(188字节减去TS头, SDT头和CRC32)
+const MaxDescriptorLen = 188 - 5 - 16 - 4
+
 // Descriptor 描述表
 type Descriptor struct {
 	data *bytes.Buffer
@@ -22,14 +26,28 @@ func (d *Descriptor) GetBuffer() *bytes.Buffer {
 	return d.data
 }
 
+// 检查描述信息加上size字节后是否仍能放入SDT表
+func (d *Descriptor) checkLen(size int) error {
+	if d.data.Len()+size > MaxDescriptorLen {
+		return fmt.Errorf("descriptors of %d bytes are too long", d.data.Len()+size)
+	}
+
+	return nil
+}
+
 // Service serviceType: pmt表的program pid
 func (d *Descriptor) Service(serviceType byte, serviceProviderName string, serviceName string) error {
+	err := d.checkLen(5 + len(serviceProviderName) + len(serviceName))
+	if err != nil {
+		return err
+	}
+
 	serviceProviderNameLen := byte(len(serviceProviderName))
 
 	serviceNameLen := byte(len(serviceName))
 	descriptorLen := serviceProviderNameLen + serviceNameLen + 3
 
-	_, err := d.data.Write([]byte{0x48, descriptorLen, serviceType})
+	_, err = d.data.Write([]byte{0x48, descriptorLen, serviceType})
 	if err != nil {
 		return err
 	}
@@ -60,9 +78,15 @@ func (d *Descriptor) Service(serviceType byte, serviceProviderName string, servi
 // NetworkName 网络名称
 func (d *Descriptor) NetworkName(name string) error {
 	nameLen := len(name)
+
+	err := d.checkLen(2 + nameLen)
+	if err != nil {
+		return err
+	}
+
 	descriptorLen := byte(nameLen)
 
-	_, err := d.data.Write([]byte{0x40, descriptorLen})
+	_, err = d.data.Write([]byte{0x40, descriptorLen})
 	if err != nil {
 		return err
 	}
@@ -85,8 +109,13 @@ func (d *Descriptor) CountryAvailability(isAvailable bool, countryCode uint32) e
 	ret := [7]byte{0x49, 4, countryAvailabilityFlag}
 	binary.BigEndian.PutUint32(ret[3:], countryCode&0x0FFF)
 
+	err := d.checkLen(len(ret))
+	if err != nil {
+		return err
+	}
+
 	// 写入
-	_, err := d.data.Write(ret[:])
+	_, err = d.data.Write(ret[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a2ff8b92ecc47751c33faee53d3fe178c5d1ed44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 26/61] fix: ts saving a sequence header leaves no gap in the
 continuity counters

---
 container/ts/mixer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index a1d2b7b..1e16843 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -112,7 +112,9 @@ func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
 	}
 
 	m.cache.avcSeqHdr.Reset()
-	return m.muxer.Mux(p, 0, 0, m.cache.avcSeqHdr)
+
+	// 序列头不会输出, 使用独立的复用器, 不影响输出流的包递增计数器
+	return NewMuxer().Mux(p, 0, 0, m.cache.avcSeqHdr)
 }
 
 // SaveAACHeader 保存AAC序列头（flv->aac sequence header）
@@ -125,7 +127,9 @@ func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
 	}
 
 	m.cache.aacSeqHdr.Reset()
-	return m.muxer.Mux(p, 0, 0, m.cache.aacSeqHdr)
+
+	// 序列头不会输出, 使用独立的复用器, 不影响输出流的包递增计数器
+	return NewMuxer().Mux(p, 0, 0, m.cache.aacSeqHdr)
 }
 
 // SetTsHeader 封装PAT和PMT
-- 
2.43.0


From 7d3343df451235bd677dac0a5cf54a1feae58404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:37 +0000
Subject: [PATCH 27/61] fix: gop holds at most 1024 packets

---
 gop/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gop/array.go b/gop/array.go
index c299980..be16e06 100755
--- a/gop/array.go
+++ b/gop/array.go
@@ -26,7 +26,7 @@ func (a *array) reset() {
 // 将数据包保存到数组中
 func (a *array) write(p *packet.Packet) error {
 	// 如果关键帧间隔太长, 会导致在有限容量内不能完整存储视频
-	if len(a.packets) > maxGop {
+	if len(a.packets) >= maxGop {
 		return errors.New("the group of picture is too large")
 	}
 
-- 
2.43.0


From b8e358b7c496003eabffbfb35aa8558ff6e60031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:37 +0000
Subject: [PATCH 28/61] fix: gop a negative capacity caches nothing instead of
 panicking

---
 gop/gop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gop/gop.go b/gop/gop.go
index cffe9a7..d2bb3ea 100755
--- a/gop/gop.go
+++ b/gop/gop.go
@@ -17,6 +17,10 @@ type gopCache struct {
 // newGopCache GOP缓存
 // num不能等于0，否则会让播放器收到无法解码的H264包
 func newGopCache(num int) *gopCache {
+	if num < 0 {
+		num = 0
+	}
+
 	return &gopCache{
 		len:   0,
 		cap:   num,
-- 
2.43.0


From b9c439c5cafd41ae3f1fc091cffcaca20f1c4cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:41 +0000
Subject: [PATCH 29/61] fix: sip arguments with an empty value or a lone quote
 do not panic

---
 sips/header_args.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index 267ac18..74f9beb 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -29,7 +29,7 @@ func ParseArgsPairs(value string) Args {
 			m[pair] = ""
 		} else {
 			v := pair[i+1:]
-			if v[0] == '"' && v[len(v)-1] == '"' {
+			if len(v) >= 2 && v[0] == '"' && v[len(v)-1] == '"' {
 				v = v[1 : len(v)-1]
 			}
 			m[pair[:i]] = v
-- 
2.43.0


From 50a0c76b3f12794a8aeed9749149d1c49622a9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:42 +0000
Subject: [PATCH 30/61] fix: sip continuation line without a header does not
 panic

---
 sips/sips.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sips/sips.go b/sips/sips.go
index a3eb121..b95ebe3 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -200,8 +200,14 @@ func (s *SIP) ParseHeader(header []byte) {
 	// multiline headers must begin by SP or TAB
 	if header[0] == '\t' || header[0] == ' ' {
 
+		// There is no header to continue
+		last := s.Headers[s.lastHeaderParsed]
+		if len(last) == 0 {
+			return
+		}
+
 		header = bytes.TrimSpace(header)
-		s.Headers[s.lastHeaderParsed][len(s.Headers[s.lastHeaderParsed])-1] += fmt.Sprintf(" %s", string(header))
+		last[len(last)-1] += fmt.Sprintf(" %s", string(header))
 		return
 	}
 
-- 
2.43.0


From 2f2482264989f4c2158b44594c0c1a9ef2ff01c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 31/61] fix: sip body reading leaves what follows
 Content-Length in the stream

---
 sips/sips.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index b95ebe3..8650719 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -77,8 +77,12 @@ func (s *SIP) fillBody(r *bufio.Reader, supplement int) ([]byte, error) {
 
 	for size > 0 {
 
-		// read one block
-		buf := make([]byte, 4*1024)
+		// read one block, never beyond the body
+		block := 4 * 1024
+		if size < block {
+			block = size
+		}
+		buf := make([]byte, block)
 
 		n, err := r.Read(buf)
 		if err != nil {
-- 
2.43.0


From 282d6b3bfde4e840d3c5bbb7ff81453b808383c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:44 +0000
Subject: [PATCH 32/61] fix: sip headers sent in compact form are found under
 their long name

---
 sips/header.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/sips/header.go b/sips/header.go
index f19592c..38f1703 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -50,12 +50,10 @@ func (s SIPHeader) GetAllHeaders() map[string][]string {
 func (s SIPHeader) GetHeader(headerName string) []string {
 	headerName = strings.ToLower(headerName)
 	h := make([]string, 0)
-	if _, ok := s[headerName]; ok {
-		if len(s[headerName]) > 0 {
-			return s[headerName]
-		} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
-			return s[compactSipHeadersCorrespondence[headerName]]
-		}
+	if len(s[headerName]) > 0 {
+		return s[headerName]
+	} else if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
+		return s[compact]
 	}
 	return h
 }
@@ -65,12 +63,10 @@ func (s SIPHeader) GetHeader(headerName string) []string {
 // headers with the same name, it returns the first.
 func (s SIPHeader) GetFirstHeader(headerName string) string {
 	headerName = strings.ToLower(headerName)
-	if _, ok := s[headerName]; ok {
-		if len(s[headerName]) > 0 {
-			return s[headerName][0]
-		} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
-			return s[compactSipHeadersCorrespondence[headerName]][0]
-		}
+	if len(s[headerName]) > 0 {
+		return s[headerName][0]
+	} else if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
+		return s[compact][0]
 	}
 	return ""
 }
@@ -79,6 +75,11 @@ func (s SIPHeader) GetFirstHeader(headerName string) string {
 func (s SIPHeader) SetFirstHeader(headerName, header string) {
 	headerName = strings.ToLower(headerName)
 	s[headerName] = []string{header}
+
+	// the compact form is the same header
+	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok {
+		delete(s, compact)
+	}
 }
 
 // Bytes saves sip header into bytes
-- 
2.43.0


From a6a5f5dbd3774646e857b6b41c4707f6ae8fdfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:45 +0000
Subject: [PATCH 33/61] fix: sip header without values does not swallow the
 next header line

---
 sips/header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sips/header.go b/sips/header.go
index 38f1703..d144d2f 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -95,6 +95,11 @@ func (s SIPHeader) Bytes() []byte {
 
 	for k, v := range s {
 
+		// a header without values has no line
+		if len(v) == 0 {
+			continue
+		}
+
 		buf.WriteString(k)
 		buf.WriteString(":")
 		for _, v1 := range v {
-- 
2.43.0


From 0d8447f964aaf923204d14a23210b223d1c01ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:46 +0000
Subject: [PATCH 34/61] fix: sip response keeps its reason phrase when
 serialised

---
 sips/sips.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sips/sips.go b/sips/sips.go
index 8650719..8e526ab 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -241,7 +241,11 @@ func (s *SIP) Bytes() []byte {
 		buf.WriteString(" ")
 		buf.WriteString(s.ResponseCode.String())
 		buf.WriteString(" ")
-		buf.WriteString(s.ResponseCode.Text())
+		if len(s.ResponseStatus) > 0 {
+			buf.WriteString(s.ResponseStatus)
+		} else {
+			buf.WriteString(s.ResponseCode.Text())
+		}
 	} else {
 
 		// --> Request
-- 
2.43.0


From ef4a285d421352839c5d0ad8dd99f5be8178bf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:52 +0000
Subject: [PATCH 35/61] fix: sip display names are parsed

---
 sips/user.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/sips/user.go b/sips/user.go
index 131d5c5..fb72b90 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -51,10 +51,11 @@ func NewSIPUser(uri string) *SIPUser {
 	pos, state := 0, _FieldBase
 
 	var name, user, host, port []byte
+	var quoted, named bool // inside a quoted name, name no longer possible
 
-	for pos < len(uri) && uri[pos] != ';' {
+	for pos < len(uri) && (quoted || uri[pos] != ';') {
 
-		if uri[pos] == '>' || (uri[pos] == ' ' && state != _FieldName) {
+		if !quoted && (uri[pos] == '>' || (uri[pos] == ' ' && state != _FieldName)) {
 			state = _FieldBase
 			pos++
 			continue
@@ -65,7 +66,7 @@ func NewSIPUser(uri string) *SIPUser {
 
 			str := Substring(uri, pos, pos+4)
 			if str == "sip:" || str == "tel:" {
-				state = _FieldUser
+				state, named = _FieldUser, true
 				su.URIType = uri[pos : pos+3]
 				pos = pos + 4
 				continue
@@ -73,20 +74,30 @@ func NewSIPUser(uri string) *SIPUser {
 
 			str = Substring(uri, pos, pos+5)
 			if str == "sips:" {
-				state = _FieldUser
+				state, named = _FieldUser, true
 				su.URIType = uri[pos : pos+4]
 				pos = pos + 5
 				continue
 			}
 
-			if uri[pos] == '"' || su.URIType == "" {
-				state = _FieldName
+			if uri[pos] == '<' {
+				named = true
+			}
+			if !named {
+				state, named = _FieldName, true
+				if uri[pos] == '"' {
+					quoted = true
+					pos++
+				}
 				continue
 			}
 		case _FieldName:
 
-			if uri[pos] == '"' || uri[pos] == '<' {
-				state = _FieldBase
+			if quoted && uri[pos] == '\\' && pos+1 < len(uri) {
+				// escaped character
+				pos++
+			} else if (quoted && uri[pos] == '"') || (!quoted && uri[pos] == '<') {
+				state, quoted = _FieldBase, false
 				pos++
 				continue
 			}
-- 
2.43.0


From 14e3b40bf826c0111e77755723666ad3169cb2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:34 +0000
Subject: [PATCH 36/61] fix: flv a sequence header or metadata that cannot be
 saved leaves the saved ones and the flags alone

---
 container/flv/mixer.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/container/flv/mixer.go b/container/flv/mixer.go
index 316677a..3291936 100644
--- a/container/flv/mixer.go
+++ b/container/flv/mixer.go
@@ -48,13 +48,14 @@ func (m *Mixer) Mux(p *packet.Packet, pts uint32) error {
 
 // SaveMetadata 保存元数据
 func (m *Mixer) SaveMetadata(md amf.Object) error {
-	m.cache.metadata.Reset()
-
 	mdPkt, err := m.muxer.metadata(md)
 	if err != nil {
 		return err
 	}
 
+	// 生成成功后才替换缓存
+	m.cache.metadata.Reset()
+
 	_, err = m.cache.metadata.Write(mdPkt)
 	if err != nil {
 		return err
@@ -65,20 +66,36 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 
 // SaveAVCHeader 保存AVC序列头
 func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
+	var hdr bytes.Buffer
+
+	// 序列头pts为0, 作为视频的开端
+	err := m.muxer.mux(p, 0, &hdr)
+	if err != nil {
+		return err
+	}
+
+	// 生成成功后才替换缓存
 	m.cache.types.IsVideo()
-	m.cache.avcSeqHdr.Reset()
+	m.cache.avcSeqHdr = &hdr
 
-	// 复位缓存(序列头pts为0, 作为视频的开端)
-	return m.muxer.mux(p, 0, m.cache.avcSeqHdr)
+	return nil
 }
 
 // SaveAACHeader 保存AAC序列头
 func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
+	var hdr bytes.Buffer
+
+	// 序列头pts为0, 作为音频的开端
+	err := m.muxer.mux(p, 0, &hdr)
+	if err != nil {
+		return err
+	}
+
+	// 生成成功后才替换缓存
 	m.cache.types.IsAudio()
-	m.cache.aacSeqHdr.Reset()
+	m.cache.aacSeqHdr = &hdr
 
-	// 复位缓存(序列头pts为0, 作为音频的开端)
-	return m.muxer.mux(p, 0, m.cache.aacSeqHdr)
+	return nil
 }
 
 // SetFlvHeader 设置FLV的头部数据，每次调用都会增加TS头部计数
-- 
2.43.0


From 26e5fb093b03d30f82a2a484a44e5d288d0df882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 37/61] fix: parser a packet with a header of the other kind is
 an error, not a panic

---
 parser/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6c6885e..8d4a597 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -33,7 +33,10 @@ func (c *CodecParser) Parse(p *packet.Packet, w io.Writer) error {
 	switch p.Type {
 	case packet.PktVideo:
 		// 根据视频编码器做不同的处理
-		vh := p.Header.(packet.VideoPacketHeader)
+		vh, ok := p.Header.(packet.VideoPacketHeader)
+		if !ok {
+			return errors.New("video packet without a video packet header")
+		}
 		if vh.IsCodecAvc() {
 			// 初始化一个h264解析器
 			if c.h264 == nil {
@@ -48,7 +51,10 @@ func (c *CodecParser) Parse(p *packet.Packet, w io.Writer) error {
 		return fmt.Errorf("unexpected video codec number: %d", vh.CodecID())
 	case packet.PktAudio:
 		// 根据音频编码器做不同处理
-		ah := p.Header.(packet.AudioPacketHeader)
+		ah, ok := p.Header.(packet.AudioPacketHeader)
+		if !ok {
+			return errors.New("audio packet without an audio packet header")
+		}
 		if ah.IsSoundAAC() {
 			if c.aac == nil {
 				c.aac = aac.NewParser()
-- 
2.43.0


From d29c39494d42cbae8c6acf3ee911b95b3b06438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 38/61] fix: parser the sample rate is that of the audio parsed
 last

---
 parser/parser.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 8d4a597..26aa14f 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -16,6 +16,8 @@ type CodecParser struct {
 	aac  *aac.Parser
 	mp3  *mp3.Parser
 	h264 *h264.Parser
+
+	audio interface{ SampleRate() int } /* 最近一次成功解析音频的解析器 */
 }
 
 // NewCodecParser [音频/视频]新建解析器
@@ -60,14 +62,24 @@ func (c *CodecParser) Parse(p *packet.Packet, w io.Writer) error {
 				c.aac = aac.NewParser()
 			}
 
-			return c.aac.Parse(p.Media, ah.AACType(), w)
+			err := c.aac.Parse(p.Media, ah.AACType(), w)
+			if err == nil {
+				c.audio = c.aac
+			}
+
+			return err
 		}
 		if ah.IsSoundMP3() {
 			if c.mp3 == nil {
 				c.mp3 = mp3.NewParser()
 			}
 
-			return c.mp3.Parse(p.Media)
+			err := c.mp3.Parse(p.Media)
+			if err == nil {
+				c.audio = c.mp3
+			}
+
+			return err
 		}
 
 		// 默认返回错误
@@ -84,6 +96,10 @@ func (c *CodecParser) SampleRate() (int, error) {
 		return 0, errors.New("unexpected audio codec, support aac or mp3 only")
 	}
 
+	if c.audio != nil {
+		return c.audio.SampleRate(), nil
+	}
+
 	if c.aac != nil {
 		return c.aac.SampleRate(), nil
 	}
-- 
2.43.0


From a10467cc7837334dbf902c1753ee5751ced32e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 39/61] fix: h264 every parameter set of a sequence header is
 kept

---
 parser/h264/parser.go | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 7d97f83..80dda8b 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -66,26 +66,47 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 	seq.reserved2 = src[5] >> 5
 
 	// 提取SPS
-	seq.spsNum = src[5] & 0x1f                /* [3:7]SPS数量, 一般为1 */
-	seq.spsLen = int(src[6])<<8 | int(src[7]) /* [0:15]SPS长度 */
-	if len(src[8:]) < seq.spsLen || seq.spsLen <= 0 {
+	seq.spsNum = src[5] & 0x1f /* [3:7]SPS数量, 一般为1 */
+	if seq.spsNum == 0 {
 		return errors.New("incomplete sps data")
 	}
-	sps = append(sps, startCode...)
-	sps = append(sps, src[8:(8+seq.spsLen)]...)
+	tmpBuf := src[6:]
+	for i := byte(0); i < seq.spsNum; i++ {
+		if len(tmpBuf) < 2 {
+			return errors.New("incomplete sps data")
+		}
+		seq.spsLen = int(tmpBuf[0])<<8 | int(tmpBuf[1]) /* [0:15]SPS长度 */
+		tmpBuf = tmpBuf[2:]
+		if len(tmpBuf) < seq.spsLen || seq.spsLen <= 0 {
+			return errors.New("incomplete sps data")
+		}
+		sps = append(sps, startCode...)
+		sps = append(sps, tmpBuf[:seq.spsLen]...)
+		tmpBuf = tmpBuf[seq.spsLen:]
+	}
 
 	// 提取PPS
-	tmpBuf := src[(8 + seq.spsLen):]
 	if len(tmpBuf) < 4 {
 		return errors.New("incomplete pps header")
 	}
-	seq.ppsNum = tmpBuf[0]                          /* PPS数量 */
-	seq.ppsLen = int(tmpBuf[1])<<8 | int(tmpBuf[2]) /* [0:15]PPS长度 */
-	if len(tmpBuf[3:]) < seq.ppsLen || seq.ppsLen <= 0 {
+	seq.ppsNum = tmpBuf[0] /* PPS数量 */
+	if seq.ppsNum == 0 {
 		return errors.New("incomplete pps data")
 	}
-	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:(3+seq.ppsLen)]...)
+	tmpBuf = tmpBuf[1:]
+	for i := byte(0); i < seq.ppsNum; i++ {
+		if len(tmpBuf) < 2 {
+			return errors.New("incomplete pps data")
+		}
+		seq.ppsLen = int(tmpBuf[0])<<8 | int(tmpBuf[1]) /* [0:15]PPS长度 */
+		tmpBuf = tmpBuf[2:]
+		if len(tmpBuf) < seq.ppsLen || seq.ppsLen <= 0 {
+			return errors.New("incomplete pps data")
+		}
+		pps = append(pps, startCode...)
+		pps = append(pps, tmpBuf[:seq.ppsLen]...)
+		tmpBuf = tmpBuf[seq.ppsLen:]
+	}
 
 	// 向specificInfo填充SPS和PPS, 替换之前的序列头
 	p.specificInfo = append([]byte(nil), sps...)
-- 
2.43.0


From 147262302c85693ec0bbfc26d40d663745428f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 40/61] fix: sip the long and the compact form of a name are
 one header

---
 sips/header.go | 32 +++++++++++++++++++++++++-------
 sips/sips.go   |  5 +++++
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/sips/header.go b/sips/header.go
index d144d2f..313363b 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -31,6 +31,24 @@ var compactSipHeadersCorrespondence = map[string]string{
 	"via":                 "v",
 }
 
+// long header names by their short ones
+var longSipHeadersCorrespondence = make(map[string]string)
+
+func init() {
+	for long, compact := range compactSipHeadersCorrespondence {
+		longSipHeadersCorrespondence[compact] = long
+	}
+}
+
+// otherForm returns the compact form of a long header name or the long form
+// of a compact one, it is empty if the header has only one form.
+func otherForm(headerName string) string {
+	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok {
+		return compact
+	}
+	return longSipHeadersCorrespondence[headerName]
+}
+
 // SIPHeader sip's header
 type SIPHeader map[string][]string
 
@@ -52,8 +70,8 @@ func (s SIPHeader) GetHeader(headerName string) []string {
 	h := make([]string, 0)
 	if len(s[headerName]) > 0 {
 		return s[headerName]
-	} else if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
-		return s[compact]
+	} else if other := otherForm(headerName); other != "" && len(s[other]) > 0 {
+		return s[other]
 	}
 	return h
 }
@@ -65,8 +83,8 @@ func (s SIPHeader) GetFirstHeader(headerName string) string {
 	headerName = strings.ToLower(headerName)
 	if len(s[headerName]) > 0 {
 		return s[headerName][0]
-	} else if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
-		return s[compact][0]
+	} else if other := otherForm(headerName); other != "" && len(s[other]) > 0 {
+		return s[other][0]
 	}
 	return ""
 }
@@ -76,9 +94,9 @@ func (s SIPHeader) SetFirstHeader(headerName, header string) {
 	headerName = strings.ToLower(headerName)
 	s[headerName] = []string{header}
 
-	// the compact form is the same header
-	if compact, ok := compactSipHeadersCorrespondence[headerName]; ok {
-		delete(s, compact)
+	// the other form is the same header
+	if other := otherForm(headerName); other != "" {
+		delete(s, other)
 	}
 }
 
diff --git a/sips/sips.go b/sips/sips.go
index 8e526ab..b5f1928 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -222,6 +222,11 @@ func (s *SIP) ParseHeader(header []byte) {
 		headerName := strings.ToLower(string(bytes.Trim(header[:index], " ")))
 		headerValue := string(bytes.Trim(header[index+1:], " "))
 
+		// Both forms of a name are the same header
+		if other := otherForm(headerName); other != "" && len(s.Headers[other]) > 0 {
+			headerName = other
+		}
+
 		// Add header to object
 		s.Headers[headerName] = append(s.Headers[headerName], headerValue)
 		s.lastHeaderParsed = headerName
-- 
2.43.0


From 5bc918bf5dbb1c6f8e6a8221be063c91ea736db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 41/61] fix: sip empty items of an argument list are not pairs

---
 sips/header_args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sips/header_args.go b/sips/header_args.go
index 74f9beb..6e3f478 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -25,6 +25,10 @@ func NewArgs() Args {
 func ParseArgsPairs(value string) Args {
 	m := make(Args)
 	for _, pair := range m.ParseList(strings.TrimSpace(value)) {
+		// an empty item is no pair
+		if pair == "" {
+			continue
+		}
 		if i := strings.Index(pair, "="); i < 0 {
 			m[pair] = ""
 		} else {
-- 
2.43.0


From be30cebfead4662f56718d4a334bbde7b0f7b905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 42/61] fix: amf0 any non-zero boolean is true

---
 amf/amf0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 40355e3..c00cb20 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -73,13 +73,13 @@ func (ed *EnDecAMF0) decodeValue(r io.Reader, marker byte) (interface{}, error)
 		return f64, nil
 	case booleanMarkerOnAMF0:
 		// marker: 1 byte 0x01
-		// format: 1 byte, 0x00 = false, 0x01 = true
+		// format: 1 byte, 0x00 = false, others (usually 0x01) = true
 		flag, err := readByte(r)
 		if err != nil {
 			return nil, err
 		}
 
-		return flag == 1, nil
+		return flag != 0, nil
 	case stringMarkerOnAMF0:
 		return ed.decodeString(r)
 	case objectMarkerOnAMF0:
-- 
2.43.0


From dc98db179116ff8ca7a637019815083a3ca91df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 43/61] fix: sip an IPv6 address in brackets is one host

---
 sips/base.go    | 6 ++++++
 sips/request.go | 2 +-
 sips/user.go    | 2 +-
 sips/via.go     | 2 +-
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sips/base.go b/sips/base.go
index 57e9156..3f934bc 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -53,3 +53,9 @@ func Substring(v string, from, to int) string {
 
 	return v[from:to]
 }
+
+// beforePort tells whether a ':' behind this much of a host begins the port,
+// those between the brackets of an IPv6 address belong to the host.
+func beforePort(host []byte) bool {
+	return len(host) == 0 || host[0] != '[' || host[len(host)-1] == ']'
+}
diff --git a/sips/request.go b/sips/request.go
index ee83d33..9e9c034 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -79,7 +79,7 @@ func NewSIPRequest(uri string) *SIPRequest {
 			user = append(user, uri[pos])
 		case _FieldHost:
 
-			if uri[pos] == ':' {
+			if uri[pos] == ':' && beforePort(host) {
 				state = _FieldPort
 				pos++
 				continue
diff --git a/sips/user.go b/sips/user.go
index fb72b90..7ad9ba3 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -112,7 +112,7 @@ func NewSIPUser(uri string) *SIPUser {
 			user = append(user, uri[pos])
 		case _FieldHost:
 
-			if uri[pos] == ':' {
+			if uri[pos] == ':' && beforePort(host) {
 				state = _FieldPort
 				pos++
 				continue
diff --git a/sips/via.go b/sips/via.go
index 18c90de..bb18375 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -75,7 +75,7 @@ func NewSIPVia(uri string) *SIPVia {
 			}
 		case _FieldHost:
 
-			if uri[pos] == ':' {
+			if uri[pos] == ':' && beforePort(host) {
 				state = _FieldPort
 				pos++
 				continue
-- 
2.43.0


From 778821474de193db1ee39f477a47a0a7c33b1fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 44/61] fix: sip quoted strings escape quotes and backslashes
 only

---
 sips/base.go        | 10 ++++++++++
 sips/header_args.go |  3 +--
 sips/user.go        |  3 +--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/sips/base.go b/sips/base.go
index 3f934bc..b130cec 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -1,6 +1,8 @@
 // sips from https://github.com/google/gopacket/blob/master/layers/base.go
 package sips
 
+import "strings"
+
 // field token
 const (
 	_FieldBase = iota
@@ -59,3 +61,11 @@ func Substring(v string, from, to int) string {
 func beforePort(host []byte) bool {
 	return len(host) == 0 || host[0] != '[' || host[len(host)-1] == ']'
 }
+
+// quote makes s a quoted string: quotes and backslashes are escaped, line breaks,
+// which it cannot hold, become spaces and everything else stays as it is.
+func quote(s string) string {
+	return `"` + quoteReplacer.Replace(s) + `"`
+}
+
+var quoteReplacer = strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\r\n", " ", "\r", " ", "\n", " ")
diff --git a/sips/header_args.go b/sips/header_args.go
index 6e3f478..ced5092 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -4,7 +4,6 @@ package sips
 
 import (
 	"bytes"
-	"strconv"
 	"strings"
 )
 
@@ -133,7 +132,7 @@ func (a Args) CommaString() string {
 
 	var result string
 	for key, value := range a {
-		result += key + "=" + strconv.Quote(value) + ", "
+		result += key + "=" + quote(value) + ", "
 	}
 	return result[:len(result)-2]
 }
diff --git a/sips/user.go b/sips/user.go
index 7ad9ba3..6ba688b 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -6,7 +6,6 @@ package sips
 
 import (
 	"bytes"
-	"strconv"
 	"strings"
 )
 
@@ -152,7 +151,7 @@ func (s *SIPUser) Bytes() []byte {
 		if s.Name == "Anonymous" {
 			buf.WriteString(s.Name)
 		} else {
-			buf.WriteString(strconv.Quote(s.Name))
+			buf.WriteString(quote(s.Name))
 		}
 
 		buf.WriteString(" ")
-- 
2.43.0


From 4ea369113d4be409b4655d86fed6f49e5ec65d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 45/61] fix: aac a refused configuration leaves the previous
 one in force

---
 parser/aac/parser.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 1a12ed7..620260a 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -59,17 +59,19 @@ func (p *Parser) specificInfo(src []byte) error {
 		return errors.New("audio mpeg-specific, len(src)<2")
 	}
 
-	// 填充数据
-	p.gotSpecific = true
-	p.cfgInfo.objectType = (src[0] >> 3) & 0xff                    /* [0:4]编码类型 */
-	p.cfgInfo.sampleRateIndex = ((src[0] & 0x07) << 1) | src[1]>>7 /* [0:3]音频采样率索引值 */
-	p.cfgInfo.channel = (src[1] >> 3) & 0x0f                       /* [0:3]音频输出声道 */
+	sampleRateIndex := ((src[0] & 0x07) << 1) | src[1]>>7 /* [0:3]音频采样率索引值 */
 
-	// 兼容性报告
-	if p.cfgInfo.sampleRateIndex == 0xf {
+	// 兼容性报告, 不支持的配置不能替换之前的配置
+	if sampleRateIndex == 0xf {
 		return errors.New("incompatible extension sampling frequency")
 	}
 
+	// 填充数据
+	p.gotSpecific = true
+	p.cfgInfo.objectType = (src[0] >> 3) & 0xff /* [0:4]编码类型 */
+	p.cfgInfo.sampleRateIndex = sampleRateIndex
+	p.cfgInfo.channel = (src[1] >> 3) & 0x0f /* [0:3]音频输出声道 */
+
 	return nil
 }
 
-- 
2.43.0


From 4db86b0c3d3e5233e9e1ec5d8b69dae2f98f2f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:25 +0000
Subject: [PATCH 46/61] fix: ts mixer leaves the packet it muxes unchanged

Mux stored the converted media in the caller's packet, as a slice of its
own buffer. A packet that goes to several receivers (as those of a gop
cache do) was converted twice, and changed with every later frame.
---
 container/ts/mixer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index 1e16843..8cc7181 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -71,12 +71,15 @@ func (m *Mixer) parse(p *packet.Packet, cache *bytes.Buffer) error {
 
 // Mux 转换为ts格式（需要使用p.Media）
 func (m *Mixer) Mux(p *packet.Packet) error {
-	err := m.parse(p, m.cache.media)
+	// 同一个包可能会发送给多个接收者, 不能改动传入的包
+	pkt := *p
+
+	err := m.parse(&pkt, m.cache.media)
 	if err != nil {
 		return err
 	}
 
-	return m.muxer.Mux(p, m.dts, m.pts, m.ts)
+	return m.muxer.Mux(&pkt, m.dts, m.pts, m.ts)
 }
 
 // SaveMetadata 保存元数据
-- 
2.43.0


From 9a00b3743a96bd944b1a36d428371049fbf6a221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 47/61] fix: flv muxer leaves the metadata packet it writes
 unchanged

mux replaced the data of the caller's packet by the data without the
SetDataFrame command, which other receivers of the same packet need.
---
 container/flv/muxer.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/container/flv/muxer.go b/container/flv/muxer.go
index 6f0e715..2ba98f6 100755
--- a/container/flv/muxer.go
+++ b/container/flv/muxer.go
@@ -97,6 +97,9 @@ func (m *muxer) metadata(metadata amf.Object) ([]byte, error) {
 func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 	var typeID uint32
 
+	// 同一个包可能会发送给多个接收者, 不能改动传入的包
+	data := p.Data
+
 	// 数据预处理
 	switch p.Type {
 	case packet.PktVideo:
@@ -108,23 +111,23 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 		typeID = packet.TagScriptDataAMF0
 
 		// 从[SetDataFrame, data]数据中提取出data(SetDataFrame是RTMP信令, 在rtmp场景外, 应该剔除在外, 只保留数据)
-		data, err := amf.DelMetaHeader(p.Data, amf.NewEnDecAMF0())
+		body, err := amf.DelMetaHeader(p.Data, amf.NewEnDecAMF0())
 		if err != nil {
 			return err
 		}
 
-		p.Data = data
+		data = body
 	default:
 		return fmt.Errorf("unexpected type=%d", p.Type)
 	}
 
 	// DataSize只有3字节
-	if len(p.Data) > 0x00ffffff {
-		return fmt.Errorf("tag data of %d bytes is too long", len(p.Data))
+	if len(data) > 0x00ffffff {
+		return fmt.Errorf("tag data of %d bytes is too long", len(data))
 	}
 
 	// Flv data length
-	dataLen := uint32(len(p.Data))
+	dataLen := uint32(len(data))
 
 	/* 1字节, [0:1]Reserved, [2]Filter(unencrypted), [3:7]TagType */
 	/* 3字节, DataSize, 其中包含2字节的media header */
@@ -143,7 +146,7 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 	}
 
 	// 长度: dataLen
-	_, err = w.Write(p.Data)
+	_, err = w.Write(data)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 8e42d072c6708d3cee7bb2910cf1b25f53ca7a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 48/61] fix: amf values nested without end, or containing
 themselves, are refused instead of exhausting the stack

---
 amf/amf0.go   | 39 ++++++++++++++++++++++++++++++----
 amf/amf3.go   | 58 ++++++++++++++++++++++++++++++++++++++++++++++-----
 amf/helper.go |  3 +++
 3 files changed, 91 insertions(+), 9 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index c00cb20..4eece2e 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -168,6 +168,12 @@ func (ed *EnDecAMF0) decodeObject(r io.Reader) (Object, error) {
 
 // 读取对象的成员, 直到结束符
 func (ed *EnDecAMF0) decodeMembers(r io.Reader, result Object) error {
+	err := ed.enter()
+	if err != nil {
+		return err
+	}
+	defer ed.leave()
+
 	for {
 		// 读取字符串
 		key, err := ed.decodeString(r)
@@ -240,6 +246,12 @@ func (ed *EnDecAMF0) decodeStrictArray(r io.Reader) (Array, error) {
 	index := len(ed.deRefCache)
 	ed.deRefCache = append(ed.deRefCache, result)
 
+	err = ed.enter()
+	if err != nil {
+		return nil, err
+	}
+	defer ed.leave()
+
 	// 填充数组
 	for i := uint32(0); i < length; i++ {
 		val, err := ed.Decode(r)
@@ -478,6 +490,16 @@ func (ed *EnDecAMF0) EncodeUnsupported(w io.Writer) (int, error) {
 
 // ====================================================================
 
+// 编码下一层嵌套的编码器
+func (ed *EnDecAMF0) nested() (*EnDecAMF0, error) {
+	inner, err := ed.EnDecAMF3.nested()
+	if err != nil {
+		return nil, err
+	}
+
+	return &EnDecAMF0{EnDecAMF3: *inner}, nil
+}
+
 func (ed *EnDecAMF0) encodeNumber(w io.Writer, val float64) (int, error) {
 	err := writeByte(w, numberMarkerOnAMF0)
 	if err != nil {
@@ -551,7 +573,11 @@ func (ed *EnDecAMF0) encodeString(w io.Writer, val string, encodeMarker bool) (i
 
 func (ed *EnDecAMF0) encodeObject(w io.Writer, val Object, encodeMarker bool) (int, error) {
 	var n int
-	var err error
+
+	inner, err := ed.nested()
+	if err != nil {
+		return 0, err
+	}
 
 	if encodeMarker {
 		err = writeByte(w, objectMarkerOnAMF0)
@@ -576,7 +602,7 @@ func (ed *EnDecAMF0) encodeObject(w io.Writer, val Object, encodeMarker bool) (i
 		n += m
 
 		// 数组value
-		m, err = ed.Encode(w, v)
+		m, err = inner.Encode(w, v)
 		if err != nil {
 			return 0, err
 		}
@@ -610,7 +636,12 @@ func (ed *EnDecAMF0) encodeNull(w io.Writer) (int, error) {
 }
 
 func (ed *EnDecAMF0) encodeStrictArray(w io.Writer, val Array) (int, error) {
-	err := writeByte(w, strictArrayMarkerOnAMF0)
+	inner, err := ed.nested()
+	if err != nil {
+		return 0, err
+	}
+
+	err = writeByte(w, strictArrayMarkerOnAMF0)
 	if err != nil {
 		return 0, err
 	}
@@ -627,7 +658,7 @@ func (ed *EnDecAMF0) encodeStrictArray(w io.Writer, val Array) (int, error) {
 	// 数组(多类型)
 	var m = 0
 	for _, v := range val {
-		m, err = ed.Encode(w, v)
+		m, err = inner.Encode(w, v)
 		if err != nil {
 			return 0, err
 		}
diff --git a/amf/amf3.go b/amf/amf3.go
index 23cce76..d27e2f7 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -55,6 +55,8 @@ type EnDecAMF3 struct {
 	deObjTable       []interface{}
 	traitTable       []TraitAMF3
 	externalHandlers map[string]ExternalHandler
+	deDepth          int // 解码时所在的嵌套层数
+	enDepth          int // 编码时所在的嵌套层数
 }
 
 // NewEnDecAMF3 AMF3协议解析器
@@ -244,6 +246,12 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 		return res, err
 	}
 
+	err = ed.enter()
+	if err != nil {
+		return EcmaArrayAMF3{}, err
+	}
+	defer ed.leave()
+
 	// 按数值取值
 	var key string
 	key, err = ed.decodeString(r)
@@ -305,6 +313,12 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 		return ed.deObjTable[index], nil
 	}
 
+	err = ed.enter()
+	if err != nil {
+		return nil, err
+	}
+	defer ed.leave()
+
 	// each type has traits that are cached, if the peer sent a reference
 	// then we'll need to look it up and use it.
 	var trait TraitAMF3
@@ -504,6 +518,21 @@ func (ed *EnDecAMF3) decodeByteArray(r io.Reader) ([]byte, error) {
 	return result, nil
 }
 
+// 进入一层嵌套: 嵌套由对端决定, 不加限制会耗尽栈
+func (ed *EnDecAMF3) enter() error {
+	if ed.deDepth >= maxDepth {
+		return fmt.Errorf("decode amf: nested deeper than %d", maxDepth)
+	}
+	ed.deDepth++
+
+	return nil
+}
+
+// 离开一层嵌套
+func (ed *EnDecAMF3) leave() {
+	ed.deDepth--
+}
+
 // 根据协议, 解析 U29 的语义
 func (ed *EnDecAMF3) decodeUint29(r io.Reader) (bool, uint32, error) {
 	u29, err := ed.readUint29(r)
@@ -626,6 +655,15 @@ func (ed *EnDecAMF3) EncodeBatch(w io.Writer, args ...interface{}) error {
 
 // ======================================================================
 
+// 编码下一层嵌套的编码器: 包含自身的值不能编码
+func (ed *EnDecAMF3) nested() (*EnDecAMF3, error) {
+	if ed.enDepth >= maxDepth {
+		return nil, fmt.Errorf("encode amf: nested deeper than %d", maxDepth)
+	}
+
+	return &EnDecAMF3{enDepth: ed.enDepth + 1}, nil
+}
+
 func (ed *EnDecAMF3) encodeUndefined(w io.Writer) (int, error) {
 	err := writeByte(w, undefinedMarkerOnAMF3)
 	if err != nil {
@@ -737,7 +775,12 @@ func (ed *EnDecAMF3) encodeDate(w io.Writer, val time.Time) (int, error) {
 }
 
 func (ed *EnDecAMF3) encodeArray(w io.Writer, val Array) (int, error) {
-	err := writeByte(w, arrayMarkerOnAMF3)
+	inner, err := ed.nested()
+	if err != nil {
+		return 0, err
+	}
+
+	err = writeByte(w, arrayMarkerOnAMF3)
 	if err != nil {
 		return 0, err
 	}
@@ -757,7 +800,7 @@ func (ed *EnDecAMF3) encodeArray(w io.Writer, val Array) (int, error) {
 	n += m
 
 	for _, v := range val {
-		m, err = ed.Encode(w, v)
+		m, err = inner.Encode(w, v)
 		if err != nil {
 			return 0, err
 		}
@@ -768,7 +811,12 @@ func (ed *EnDecAMF3) encodeArray(w io.Writer, val Array) (int, error) {
 }
 
 func (ed *EnDecAMF3) encodeObject(w io.Writer, val TypedObject) (int, error) {
-	err := writeByte(w, objectMarkerOnAMF3)
+	inner, err := ed.nested()
+	if err != nil {
+		return 0, err
+	}
+
+	err = writeByte(w, objectMarkerOnAMF3)
 	if err != nil {
 		return 0, err
 	}
@@ -827,7 +875,7 @@ func (ed *EnDecAMF3) encodeObject(w io.Writer, val TypedObject) (int, error) {
 
 	// 写入value
 	for _, prop := range trait.Properties {
-		m, err = ed.Encode(w, val.Object[prop])
+		m, err = inner.Encode(w, val.Object[prop])
 		if err != nil {
 			return 0, err
 		}
@@ -853,7 +901,7 @@ func (ed *EnDecAMF3) encodeObject(w io.Writer, val TypedObject) (int, error) {
 				}
 				n += m
 
-				m, err = ed.Encode(w, v)
+				m, err = inner.Encode(w, v)
 				if err != nil {
 					return 0, err
 				}
diff --git a/amf/helper.go b/amf/helper.go
index d336db0..874c041 100755
--- a/amf/helper.go
+++ b/amf/helper.go
@@ -9,6 +9,9 @@ import (
 // 读取时预先分配的最大字节数
 const maxPrealloc = 4096
 
+// 值的最大嵌套层数
+const maxDepth = 10000
+
 // Array AMF数组接口
 type Array []interface{}
 
-- 
2.43.0


From 1ac59b2a91c0bdec700b9dd7af06134e7ae62510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 49/61] fix: sip argument values with separators are quoted
 when they are written

---
 sips/header_args.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index ced5092..7a5a9e2 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -109,15 +109,24 @@ func (a Args) Set(key, value string) {
 	a[key] = value
 }
 
+// argValue is a value as it is written in a list, one that would be
+// taken apart or trimmed when it is read is quoted
+func argValue(value string) string {
+	if strings.ContainsAny(value, ",;\"\r\n") || strings.TrimSpace(value) != value {
+		return quote(value)
+	}
+	return value
+}
+
 // SemicolonString returns the header arguments as a semicolon
-// separated unquoted strings with a leading semicolon.
+// separated strings with a leading semicolon.
 func (a Args) SemicolonString() string {
 	var result string
 	for key, value := range a {
 		if value == "" {
 			result += ";" + key
 		} else {
-			result += ";" + key + "=" + value
+			result += ";" + key + "=" + argValue(value)
 		}
 	}
 	return result
@@ -145,7 +154,7 @@ func (a Args) CRLFString() string {
 
 	var result string
 	for key, value := range a {
-		result += key + "=" + value + "\r\n"
+		result += key + "=" + argValue(value) + "\r\n"
 	}
 	return result
 }
-- 
2.43.0


From 29035677259d854454991267d0bb95dc90d31850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:22 +0000
Subject: [PATCH 50/61] fix: sip argument values that are not UTF-8 are kept as
 they are

---
 sips/header_args.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index 7a5a9e2..e99ee57 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -61,10 +61,11 @@ func (a Args) ParseList(value string) []string {
 	var list []string
 	var escape, quote bool
 	b := new(bytes.Buffer)
-	for _, r := range value {
+	for i := 0; i < len(value); i++ {
+		r := value[i]
 		switch {
 		case escape:
-			b.WriteRune(r)
+			b.WriteByte(r)
 			escape = false
 		case quote:
 			if r == '\\' {
@@ -73,16 +74,16 @@ func (a Args) ParseList(value string) []string {
 				if r == '"' {
 					quote = false
 				}
-				b.WriteRune(r)
+				b.WriteByte(r)
 			}
 		case r == ',' || r == ';' || r == '\n':
 			list = append(list, strings.TrimSpace(b.String()))
 			b.Reset()
 		case r == '"':
 			quote = true
-			b.WriteRune(r)
+			b.WriteByte(r)
 		default:
-			b.WriteRune(r)
+			b.WriteByte(r)
 		}
 	}
 	// Append last part.
-- 
2.43.0


From 4230f6aae35bc16f18fc87ca19f3bc600dde6517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:55 +0000
Subject: [PATCH 51/61] fix: sip lines longer than the buffer of the reader are
 read

---
 sips/sips.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index b5f1928..fec7bc7 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -118,13 +118,13 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 	for {
 
 		// Read next line
-		line, err := r.ReadSlice(byte('\n'))
+		line, err := r.ReadBytes(byte('\n'))
 		if err != nil {
 			if err != io.EOF {
 				return err
 			}
 
-			// ReadSlice返回EOF时line可能不为空，因此仍需收尾
+			// ReadBytes返回EOF时line可能不为空，因此仍需收尾
 			if len(line) == 0 {
 				break
 			}
-- 
2.43.0


From 0949388a6e9566d29c81b75bcd70155817aa2cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:55 +0000
Subject: [PATCH 52/61] fix: packets without a header of their kind are refused
 by the gop cache, an end of sequence starts no group

---
 gop/cache.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gop/cache.go b/gop/cache.go
index 77f6453..d71c5d3 100755
--- a/gop/cache.go
+++ b/gop/cache.go
@@ -1,6 +1,8 @@
 package gop
 
 import (
+	"errors"
+
 	"github.com/moggle-mog/goav/packet"
 )
 
@@ -25,15 +27,18 @@ func NewCache(gop int) *Cache {
 // WriteVideo write video packet
 func (c *Cache) WriteVideo(p *packet.Packet) error {
 	// 缓存视频序列头
-	vh := p.Header.(packet.VideoPacketHeader)
+	vh, ok := p.Header.(packet.VideoPacketHeader)
+	if !ok {
+		return errors.New("video packet without a video packet header")
+	}
 	if vh.IsSeqHdr() {
 		c.VideoSeqHdr.Write(p)
 		return nil
 	}
 
-	// 缓存视频数据包(不会包含序列头)
+	// 缓存视频数据包(不会包含序列头), 序列的尾属于当前的GOP, 不是新的关键帧
 	if vh.IsKeyFrame() || vh.IsInterFrame() {
-		return c.Gop.Write(p, vh.IsKeyFrame())
+		return c.Gop.Write(p, vh.IsKeyFrame() && !vh.IsEndOfSeq())
 	}
 
 	return nil
@@ -42,7 +47,10 @@ func (c *Cache) WriteVideo(p *packet.Packet) error {
 // WriteAudio write audio packet
 func (c *Cache) WriteAudio(p *packet.Packet) error {
 	// 缓存音频序列头
-	ah := p.Header.(packet.AudioPacketHeader)
+	ah, ok := p.Header.(packet.AudioPacketHeader)
+	if !ok {
+		return errors.New("audio packet without an audio packet header")
+	}
 
 	// aac
 	if ah.IsSoundAAC() && ah.IsAACSeqHdr() {
-- 
2.43.0


From 7fc0b756a604be57a58145a834cf26af263c98a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 53/61] fix: a video packet without a header is refused by the
 ts muxer

---
 container/ts/muxer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index b465ff3..820cbfc 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -3,6 +3,7 @@ package ts
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 
@@ -48,7 +49,10 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 	case packet.PktVideo:
 		pid = videoPID
 
-		vh := header.(packet.VideoPacketHeader)
+		vh, ok := header.(packet.VideoPacketHeader)
+		if !ok {
+			return errors.New("video packet without a video packet header")
+		}
 		isKeyFrame = vh.IsKeyFrame()
 	case packet.PktAudio:
 		pid = audioPID
-- 
2.43.0


From 967afef55301317b01ffe06c1928b27632e8b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:57 +0000
Subject: [PATCH 54/61] fix: a stream whose sequence header is refused is not
 announced

---
 container/ts/mixer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index 8cc7181..d46ecb1 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -107,13 +107,14 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 
 // SaveAVCHeader 保存AVC序列头（flv->avc sequence header）
 func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
-	m.cache.types.IsVideo()
-
 	err := m.parse(p, m.cache.avcSeqHdr)
 	if err != nil {
 		return err
 	}
 
+	// 解析成功后才声明该媒体类型
+	m.cache.types.IsVideo()
+
 	m.cache.avcSeqHdr.Reset()
 
 	// 序列头不会输出, 使用独立的复用器, 不影响输出流的包递增计数器
@@ -122,13 +123,14 @@ func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
 
 // SaveAACHeader 保存AAC序列头（flv->aac sequence header）
 func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
-	m.cache.types.IsAudio()
-
 	err := m.parse(p, m.cache.aacSeqHdr)
 	if err != nil {
 		return err
 	}
 
+	// 解析成功后才声明该媒体类型
+	m.cache.types.IsAudio()
+
 	m.cache.aacSeqHdr.Reset()
 
 	// 序列头不会输出, 使用独立的复用器, 不影响输出流的包递增计数器
-- 
2.43.0


From 47861a2c94ffe270ace4424acdf448e04c5526ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:58 +0000
Subject: [PATCH 55/61] fix: nalu lengths have the size that the sequence
 header declares

---
 parser/h264/parser.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 80dda8b..769a0ef 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -9,6 +9,7 @@ import (
 
 // Parser H264解析器
 type Parser struct {
+	naluLen      int           /* nalu长度字段的字节数, 由序列头指定 */
 	specificInfo []byte        /* {0: sps, 1: pps}, 均包含start code */
 	spsPps       *bytes.Buffer /* sps和pps共用, 均包含start code */
 }
@@ -16,7 +17,8 @@ type Parser struct {
 // NewParser 初始化h264解析器(pps/sps)
 func NewParser() *Parser {
 	return &Parser{
-		spsPps: bytes.NewBuffer(make([]byte, maxSpsPpsLen)),
+		naluLen: naluBytesLen,
+		spsPps:  bytes.NewBuffer(make([]byte, maxSpsPpsLen)),
 	}
 }
 
@@ -108,6 +110,9 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 		tmpBuf = tmpBuf[seq.ppsLen:]
 	}
 
+	// nalu长度字段的字节数
+	p.naluLen = int(seq.naluLen)
+
 	// 向specificInfo填充SPS和PPS, 替换之前的序列头
 	p.specificInfo = append([]byte(nil), sps...)
 	p.specificInfo = append(p.specificInfo, pps...)
@@ -126,12 +131,12 @@ func (p *Parser) isStartAtNaluHeader(src []byte) bool {
 
 // [AVCC格式] 提取NALU的长度
 func (p *Parser) naluSize(src []byte) (int, error) {
-	if len(src) < naluBytesLen {
+	if len(src) < p.naluLen {
 		return 0, errors.New("[hvcc]incomplete nalu data")
 	}
 
-	// [0:31] nalu单元的长度，不包括长度字段
-	buf := src[:naluBytesLen]
+	// nalu单元的长度，不包括长度字段
+	buf := src[:p.naluLen]
 	l := len(buf)
 
 	var size = 0
@@ -146,7 +151,7 @@ func (p *Parser) naluSize(src []byte) (int, error) {
 func (p *Parser) getAnnexbH264(src []byte, w io.Writer) error {
 	dataSize := len(src)
 
-	if dataSize == 0 || dataSize < naluBytesLen {
+	if dataSize == 0 || dataSize < p.naluLen {
 		return errors.New("incomplete h264 header")
 	}
 
@@ -175,8 +180,8 @@ func (p *Parser) getAnnexbH264(src []byte, w io.Writer) error {
 			return errors.New("invalid nalu body size")
 		}
 
-		index += naluBytesLen
-		dataSize -= naluBytesLen
+		index += p.naluLen
+		dataSize -= p.naluLen
 
 		// 紧跟着 Nalu size 后面的是 NALU 数据，没有四个字节 start code，直接从 h264 头开始
 		if dataSize < nalLen {
-- 
2.43.0


From 51a9b0fb7fb4c121c08b6676bac342ff4fedd82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:59 +0000
Subject: [PATCH 56/61] fix: aac configurations that adts cannot express are
 refused, he-aac has its core object type

---
 parser/aac/parser.go | 33 +++++++++++++++++++++++++++++++--
 parser/aac/type.go   |  6 ++++++
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 620260a..f86a0e5 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -66,11 +66,36 @@ func (p *Parser) specificInfo(src []byte) error {
 		return errors.New("incompatible extension sampling frequency")
 	}
 
+	objectType := src[0] >> 3       /* [0:4]编码类型 */
+	channel := (src[1] >> 3) & 0x0f /* [0:3]音频输出声道 */
+
+	// HE-AAC: SBR和PS是对核心编码的扩展, 核心编码类型在扩展采样率之后
+	if objectType == objectTypeSbr || objectType == objectTypePs {
+		index := 2
+		if len(src) > index && (src[1]&0x07)<<1|src[2]>>7 == 0xf {
+			// 扩展采样率未使用索引值, 其后还有24位
+			index += 3
+		}
+		if len(src) <= index {
+			return errors.New("audio mpeg-specific, incomplete extension")
+		}
+
+		objectType = (src[index] >> 2) & 0x1f
+	}
+
+	// adts头只能表示4种编码类型和8种声道
+	if objectType < 1 || objectType > 4 {
+		return fmt.Errorf("incompatible audio object type(%d)", objectType)
+	}
+	if channel > 7 {
+		return fmt.Errorf("incompatible channel configuration(%d)", channel)
+	}
+
 	// 填充数据
 	p.gotSpecific = true
-	p.cfgInfo.objectType = (src[0] >> 3) & 0xff /* [0:4]编码类型 */
+	p.cfgInfo.objectType = objectType
 	p.cfgInfo.sampleRateIndex = sampleRateIndex
-	p.cfgInfo.channel = (src[1] >> 3) & 0x0f /* [0:3]音频输出声道 */
+	p.cfgInfo.channel = channel
 
 	return nil
 }
@@ -81,6 +106,10 @@ func (p *Parser) addADTSToFrame(src []byte, w io.Writer) error {
 		return fmt.Errorf("audio data invalid, data size(%d), has specific config(%v)", len(src), p.gotSpecific)
 	}
 
+	if w == nil {
+		return errors.New("no writer for audio data")
+	}
+
 	// adts的帧长度字段只有13位
 	if len(src)+adtsHeaderLen > 0x1fff {
 		return fmt.Errorf("audio frame of %d bytes is too long", len(src))
diff --git a/parser/aac/type.go b/parser/aac/type.go
index 99bdee1..e9cd327 100644
--- a/parser/aac/type.go
+++ b/parser/aac/type.go
@@ -2,6 +2,12 @@ package aac
 
 const adtsHeaderLen = 7
 
+// Audio Object Type
+const (
+	objectTypeSbr = 5
+	objectTypePs  = 29
+)
+
 // AAC type
 const (
 	SeqHdr = iota
-- 
2.43.0


From 42944d2059fd8471e62accd7af536a95e518f19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 57/61] fix: mp3 frames are written, a missing writer is an
 error

---
 parser/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 26aa14f..631ed70 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -75,10 +75,16 @@ func (c *CodecParser) Parse(p *packet.Packet, w io.Writer) error {
 			}
 
 			err := c.mp3.Parse(p.Media)
-			if err == nil {
-				c.audio = c.mp3
+			if err != nil {
+				return err
 			}
+			c.audio = c.mp3
 
+			// mp3帧自带帧头, 原样写入w中
+			if w == nil {
+				return errors.New("no writer for audio data")
+			}
+			_, err = w.Write(p.Media)
 			return err
 		}
 
-- 
2.43.0


From f1b39c51237e7ec26461380cca2e53e09ea866d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:11 +0000
Subject: [PATCH 58/61] fix: tabs around the colon of a header are trimmed

---
 sips/sips.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index fec7bc7..842ae73 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -219,8 +219,8 @@ func (s *SIP) ParseHeader(header []byte) {
 	index := bytes.Index(header, []byte(":"))
 	if index >= 0 {
 
-		headerName := strings.ToLower(string(bytes.Trim(header[:index], " ")))
-		headerValue := string(bytes.Trim(header[index+1:], " "))
+		headerName := strings.ToLower(string(bytes.Trim(header[:index], " \t")))
+		headerValue := string(bytes.Trim(header[index+1:], " \t"))
 
 		// Both forms of a name are the same header
 		if other := otherForm(headerName); other != "" && len(s.Headers[other]) > 0 {
-- 
2.43.0


From 4cf5842228590a0323f9520d18c3289809d13e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:13 +0000
Subject: [PATCH 59/61] fix: the version of a status line is in any letter case

---
 sips/request.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sips/request.go b/sips/request.go
index 9e9c034..7520d10 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -171,7 +171,7 @@ func (s *SIP) ParseFirstLine(firstLine []byte) error {
 	}
 
 	// Determine the SIP packet type
-	if strings.HasPrefix(splits[0], "SIP") {
+	if strings.HasPrefix(strings.ToUpper(splits[0]), "SIP") {
 
 		// --> Response
 		s.IsResponse = true
-- 
2.43.0


From 354848714552db92800958d78bad22abe38dbfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 60/61] fix: blanks around the = of an argument are trimmed

---
 sips/header_args.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index e99ee57..27e9322 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -31,11 +31,11 @@ func ParseArgsPairs(value string) Args {
 		if i := strings.Index(pair, "="); i < 0 {
 			m[pair] = ""
 		} else {
-			v := pair[i+1:]
+			v := strings.TrimSpace(pair[i+1:])
 			if len(v) >= 2 && v[0] == '"' && v[len(v)-1] == '"' {
 				v = v[1 : len(v)-1]
 			}
-			m[pair[:i]] = v
+			m[strings.TrimSpace(pair[:i])] = v
 		}
 	}
 	return m
-- 
2.43.0


From c1a2fbc30a376103e9d035dd6d8b85a8b6fcea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:16 +0000
Subject: [PATCH 61/61] fix: a changed sampling rate keeps the times of earlier
 audio frames

---
 container/ts/sync.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/container/ts/sync.go b/container/ts/sync.go
index c75fdf3..c010055 100644
--- a/container/ts/sync.go
+++ b/container/ts/sync.go
@@ -13,6 +13,7 @@ const (
 type sync struct {
 	frameNum int64 // 累计帧数
 	frameDts int64 // 基准时间
+	frameInc int64 // 每帧的时间增量
 	syncMs   int64 // ms, 同步 |pts-dts|>syncMs 的"pts"和"dts"
 }
 
@@ -32,6 +33,12 @@ func newSync(ms int64) *sync {
 func (s *sync) syncAudioTs(dts *int64, sampleRate int) {
 	// 根据采样率, 换算音频相对于视频的时间增量
 	tsIncrement := avcHZ * 1000 * aacSL / sampleRate
+	if int64(tsIncrement) != s.frameInc {
+		// 采样率改变, 之前的帧仍按之前的采样率计算
+		s.frameDts += s.frameNum * s.frameInc
+		s.frameNum = 0
+		s.frameInc = int64(tsIncrement)
+	}
 	pts := s.frameDts + s.frameNum*int64(tsIncrement)
 
 	// 计算出pts和dts之间的差值
-- 
2.43.0

