From 9af0356c86316371348ed0b9fb786470d334e94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:33 +0000
Subject: [PATCH 01/15] fix: keep the comma after an omitted null member when
 marshaling with OmitNull

---
 marshal.go | 4 +++-
 sort.go    | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/marshal.go b/marshal.go
index 405d9d4..bf6d46b 100644
--- a/marshal.go
+++ b/marshal.go
@@ -252,7 +252,9 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) {
 	firstWritten := false
 	for k, child := range v.children.object {
-		firstWritten = writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt)
+		if writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt) {
+			firstWritten = true
+		}
 	}
 }
 
diff --git a/sort.go b/sort.go
index 0ebfc8e..7de00d2 100644
--- a/sort.go
+++ b/sort.go
@@ -195,7 +195,9 @@ func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) {
 	for i, key := range sov.keys {
 		child := sov.values[i]
 		par := newParentInfo(child, sov.parentInfo, stringKey(key))
-		firstWritten = writeObjectChildren(par, buf, !firstWritten, key, child, opt)
+		if writeObjectChildren(par, buf, !firstWritten, key, child, opt) {
+			firstWritten = true
+		}
 	}
 }
 
@@ -243,7 +245,9 @@ func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, op
 	firstWritten := false
 	for i, key := range sssv.keys {
 		child := sssv.values[i]
-		firstWritten = writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
+		if writeObjectChildren(nil, buf, !firstWritten, key, child, opt) {
+			firstWritten = true
+		}
 	}
 }
 
-- 
2.43.0


From 29ec4399900aeeadf99ff7acf5514f9470b1fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:11 +0000
Subject: [PATCH 02/15] fix: report an unsupported float nested in an object or
 array when marshaling

---
 marshal.go | 53 ++++++++++++++++++++++++++++++++++-------------------
 sort.go    | 18 ++++++++++++++----
 2 files changed, 48 insertions(+), 23 deletions(-)

diff --git a/marshal.go b/marshal.go
index bf6d46b..a8220d3 100644
--- a/marshal.go
+++ b/marshal.go
@@ -76,9 +76,9 @@ func marshalToBuffer(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt)
 	case Null:
 		marshalNull(buf)
 	case Object:
-		marshalObject(v, parentInfo, buf, opt)
+		err = marshalObject(v, parentInfo, buf, opt)
 	case Array:
-		marshalArray(v, parentInfo, buf, opt)
+		err = marshalArray(v, parentInfo, buf, opt)
 	}
 	return err
 }
@@ -216,10 +216,10 @@ func marshalNull(buf buffer.Buffer) {
 	_, _ = buf.WriteString("null")
 }
 
-func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
+func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) (err error) {
 	if len(v.children.object) == 0 {
 		_, _ = buf.WriteString("{}")
-		return
+		return nil
 	}
 
 	opt.indent.cnt++
@@ -227,18 +227,21 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 
 	if opt.MarshalLessFunc != nil {
 		sov := newSortObjectV(v, parentInfo, opt)
-		sov.marshalObjectWithLessFunc(buf, opt)
+		err = sov.marshalObjectWithLessFunc(buf, opt)
 
 	} else if len(opt.MarshalKeySequence) > 0 {
 		sssv := newSortStringSliceV(v, opt)
-		sssv.marshalObjectWithStringSlice(buf, opt)
+		err = sssv.marshalObjectWithStringSlice(buf, opt)
 
 	} else if opt.marshalBySetSequence {
 		sssv := newSortStringSliceVBySetSeq(v)
-		sssv.marshalObjectWithStringSlice(buf, opt)
+		err = sssv.marshalObjectWithStringSlice(buf, opt)
 
 	} else {
-		writeObjectKVInRandomizedSequence(v, buf, opt)
+		err = writeObjectKVInRandomizedSequence(v, buf, opt)
+	}
+	if err != nil {
+		return err
 	}
 
 	opt.indent.cnt--
@@ -247,22 +250,28 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 		writeIndent(buf, opt)
 	}
 	_ = buf.WriteByte('}')
+	return nil
 }
 
-func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) {
+func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) error {
 	firstWritten := false
 	for k, child := range v.children.object {
-		if writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt) {
+		written, err := writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt)
+		if err != nil {
+			return err
+		}
+		if written {
 			firstWritten = true
 		}
 	}
+	return nil
 }
 
 func writeObjectChildren(
 	parentInfo *ParentInfo, buf buffer.Buffer, isFirstOne bool, key string, child *V, opt *Opt,
-) (written bool) {
+) (written bool, err error) {
 	if child.IsNull() && opt.OmitNull {
-		return false
+		return false, nil
 	}
 	if !isFirstOne {
 		_ = buf.WriteByte(',')
@@ -282,8 +291,10 @@ func writeObjectChildren(
 		_, _ = buf.WriteString("\":")
 	}
 
-	_ = marshalToBuffer(child, parentInfo, buf, opt)
-	return true
+	if err = marshalToBuffer(child, parentInfo, buf, opt); err != nil {
+		return false, err
+	}
+	return true, nil
 }
 
 func writeIndent(buf buffer.Buffer, opt *Opt) {
@@ -293,10 +304,10 @@ func writeIndent(buf buffer.Buffer, opt *Opt) {
 	}
 }
 
-func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
+func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) (err error) {
 	if len(v.children.arr) == 0 {
 		_, _ = buf.WriteString("[]")
-		return
+		return nil
 	}
 
 	opt.indent.cnt++
@@ -311,12 +322,15 @@ func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 			writeIndent(buf, opt)
 		}
 		if opt.MarshalLessFunc == nil {
-			_ = marshalToBuffer(child, nil, buf, opt)
+			err = marshalToBuffer(child, nil, buf, opt)
 		} else {
-			_ = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
+			err = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
 		}
-		return true
+		return err == nil
 	})
+	if err != nil {
+		return err
+	}
 
 	opt.indent.cnt--
 	if opt.indent.enabled {
@@ -324,4 +338,5 @@ func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 		writeIndent(buf, opt)
 	}
 	_ = buf.WriteByte(']')
+	return nil
 }
diff --git a/sort.go b/sort.go
index 7de00d2..5eeadaf 100644
--- a/sort.go
+++ b/sort.go
@@ -186,7 +186,7 @@ func DefaultStringSequence(parent *ParentInfo, key1, key2 string, v1, v2 *V) boo
 	return strings.Compare(key1, key2) <= 0
 }
 
-func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) {
+func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) error {
 	// sort
 	sort.Sort(sov)
 
@@ -195,10 +195,15 @@ func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) {
 	for i, key := range sov.keys {
 		child := sov.values[i]
 		par := newParentInfo(child, sov.parentInfo, stringKey(key))
-		if writeObjectChildren(par, buf, !firstWritten, key, child, opt) {
+		written, err := writeObjectChildren(par, buf, !firstWritten, key, child, opt)
+		if err != nil {
+			return err
+		}
+		if written {
 			firstWritten = true
 		}
 	}
+	return nil
 }
 
 type sortObjectV struct {
@@ -237,7 +242,7 @@ func newSortObjectV(v *V, parentInfo *ParentInfo, opt *Opt) *sortObjectV {
 }
 
 // marshalObjectWithStringSlice use a slice to determine sequence of object
-func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, opt *Opt) {
+func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, opt *Opt) error {
 	// sort
 	sort.Sort(sssv)
 
@@ -245,10 +250,15 @@ func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, op
 	firstWritten := false
 	for i, key := range sssv.keys {
 		child := sssv.values[i]
-		if writeObjectChildren(nil, buf, !firstWritten, key, child, opt) {
+		written, err := writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
+		if err != nil {
+			return err
+		}
+		if written {
 			firstWritten = true
 		}
 	}
+	return nil
 }
 
 type sortStringSliceV struct {
-- 
2.43.0


From 2c12448a9b13a759f946a6ef40683c2095456a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:15 +0000
Subject: [PATCH 03/15] fix: return the import error of Append() instead of
 appending an invalid value

---
 insert_append_delete.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/insert_append_delete.go b/insert_append_delete.go
index 535a4a2..e3dfd10 100644
--- a/insert_append_delete.go
+++ b/insert_append_delete.go
@@ -428,6 +428,9 @@ func (v *V) AppendArray() Appender {
 //
 // InTheBeginning 函数将 Append 函数指定的 JSON 值，添加到参数指定的数组的最前端
 func (apd *appender) InTheBeginning(params ...any) (*V, error) {
+	if apd.err != nil {
+		return &V{}, apd.err
+	}
 	v := apd.v
 	c := apd.c
 	if nil == v || v.valueType == NotExist {
@@ -478,6 +481,9 @@ func (apd *appender) InTheBeginning(params ...any) (*V, error) {
 //
 // InTheEnd 函数将 Append 函数指定的 JSON 值，添加到参数指定的数组的最后面
 func (apd *appender) InTheEnd(params ...any) (*V, error) {
+	if apd.err != nil {
+		return &V{}, apd.err
+	}
 	v := apd.v
 	c := apd.c
 	if v.valueType == NotExist {
-- 
2.43.0


From 484ba0f408d63ee5acafbd160ca0a360a2250810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:19 +0000
Subject: [PATCH 04/15] fix: reject an uninitialized child in Insert() and
 Append() as Set() does

---
 insert_append_delete.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/insert_append_delete.go b/insert_append_delete.go
index e3dfd10..28b1b6d 100644
--- a/insert_append_delete.go
+++ b/insert_append_delete.go
@@ -189,7 +189,10 @@ func (ins *insert) Before(firstParam any, otherParams ...any) (*V, error) {
 	}
 	v := ins.v
 	c := ins.c
-	if v.valueType == NotExist {
+	if nil == v || v.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
+	if nil == c || c.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
 
@@ -241,6 +244,9 @@ func (ins *insert) After(firstParam any, otherParams ...any) (*V, error) {
 	if nil == v || v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 
 	// this is the last iteration
 	paramCount := len(otherParams)
@@ -436,6 +442,9 @@ func (apd *appender) InTheBeginning(params ...any) (*V, error) {
 	if nil == v || v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 
 	// this is the last iteration
 	paramCount := len(params)
@@ -486,7 +495,10 @@ func (apd *appender) InTheEnd(params ...any) (*V, error) {
 	}
 	v := apd.v
 	c := apd.c
-	if v.valueType == NotExist {
+	if nil == v || v.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
+	if nil == c || c.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
 
-- 
2.43.0


From e299e41fb11f67967d2b04981ec94470be92fc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:03 +0000
Subject: [PATCH 05/15] fix: import a nil marshaler pointer as null instead of
 a nil child

---
 import_export.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/import_export.go b/import_export.go
index 724754e..3193f7a 100644
--- a/import_export.go
+++ b/import_export.go
@@ -192,7 +192,7 @@ func getPointerOfValue(v reflect.Value) reflect.Value {
 
 func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
 	if v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	j, _ := v.Interface().(deepCopier)
 	return j.deepCopy(), nil
@@ -200,11 +200,11 @@ func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
 
 func parseJSONMarshaler(v reflect.Value, ex ext) (*V, error) {
 	if v.Kind() == reflect.Ptr && v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	marshaler, _ := v.Interface().(json.Marshaler)
 	if marshaler == nil {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	b, err := marshaler.MarshalJSON()
 	if err != nil {
@@ -246,7 +246,7 @@ func parseJSONMarshaler(v reflect.Value, ex ext) (*V, error) {
 
 func parseTextMarshaler(v reflect.Value, ex ext) (*V, error) {
 	if v.Kind() == reflect.Ptr && v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	marshaler, _ := v.Interface().(encoding.TextMarshaler)
 	if marshaler == nil {
@@ -342,7 +342,12 @@ func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
 		if err != nil {
 			return nil, err
 		}
-		res.MustAppend(child).InTheEnd()
+		if child == nil {
+			child = NewNull() // an array member could not be omitted
+		}
+		if _, err = res.Append(child).InTheEnd(); err != nil {
+			return nil, err
+		}
 	}
 
 	return res, nil
-- 
2.43.0


From 0828eb255837a8bacad29f189085612125ea511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:07 +0000
Subject: [PATCH 06/15] fix: report an uninitialized member instead of dropping
 it in Import()

---
 import_export.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/import_export.go b/import_export.go
index 3193f7a..3015984 100644
--- a/import_export.go
+++ b/import_export.go
@@ -378,7 +378,12 @@ func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) stri
 		if err != nil {
 			return res, err
 		}
-		res.MustSet(child).At(keyFunc(kk))
+		if child == nil {
+			continue // omitted
+		}
+		if _, err = res.Set(child).At(keyFunc(kk)); err != nil {
+			return res, err
+		}
 	}
 
 	return res, nil
@@ -461,7 +466,9 @@ func parseStructValue(v reflect.Value, ex ext) (*V, error) {
 
 		for i, k := range keys {
 			v := children[i]
-			res.MustSet(v).At(k)
+			if _, err = res.Set(v).At(k); err != nil {
+				return nil, err
+			}
 		}
 	}
 
-- 
2.43.0


From 66cd0e23c2c327f97e80469621273dc24e1f983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:11 +0000
Subject: [PATCH 07/15] fix: return a NotExist value instead of nil when
 unmarshaling empty data

---
 jsonvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonvalue.go b/jsonvalue.go
index d9e64de..eb3faf7 100644
--- a/jsonvalue.go
+++ b/jsonvalue.go
@@ -238,7 +238,7 @@ func MustUnmarshal(b []byte) *V {
 func Unmarshal(b []byte) (ret *V, err error) {
 	le := len(b)
 	if le == 0 {
-		return nil, ErrNilParameter
+		return &V{}, ErrNilParameter
 	}
 
 	trueB := make([]byte, len(b))
-- 
2.43.0


From a4fab9121091d102c3a46a1967d8721a8ce0b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:15 +0000
Subject: [PATCH 08/15] fix: do not panic when reading a number from a blank
 string

---
 unmarshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 249222a..f3e2c22 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -353,6 +353,9 @@ func unmarshalObjectWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V
 // - [ECMA-404 The JSON Data Interchange Standard](https://www.json.org/json-en.html)
 func parseNumber(v *V, p pool) (err error) {
 	it := iter(v.srcByte)
+	if len(it) == 0 {
+		return it.numErrorf(0, "no digits found")
+	}
 
 	parsed, end, reachEnd, err := it.parseNumber(p, 0)
 	if err != nil {
-- 
2.43.0


From fcb21aeaf854e958d272d81b12317af023d24d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:33 +0000
Subject: [PATCH 09/15] fix: do not panic in KeyPath.String() under the initial
 default options

---
 option.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/option.go b/option.go
index 163bff1..06d4d26 100644
--- a/option.go
+++ b/option.go
@@ -221,7 +221,9 @@ func ResetDefaultMarshalOptions() {
 }
 
 func emptyOptions() *Opt {
-	return &Opt{}
+	opt := &Opt{}
+	opt.parseEscapingFuncs()
+	return opt
 }
 
 func getDefaultOptions() *Opt {
-- 
2.43.0


From 9b72f4833d9bd2f3c48ba46d4d25e8ef0a8958b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:38 +0000
Subject: [PATCH 10/15] fix: make SetDefaultMarshalOptions() goroutine-safe as
 documented

---
 jsonvalue_internal.go | 4 ++--
 option.go             | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsonvalue_internal.go b/jsonvalue_internal.go
index f797560..f125abc 100644
--- a/jsonvalue_internal.go
+++ b/jsonvalue_internal.go
@@ -11,7 +11,7 @@ import (
 var internal = struct {
 	b64 *base64.Encoding
 
-	defaultMarshalOption *Opt
+	defaultMarshalOption atomic.Value // *Opt
 
 	predict struct {
 		bytesPerValue uint64
@@ -26,7 +26,7 @@ var internal = struct {
 
 func init() {
 	internal.b64 = base64.StdEncoding
-	internal.defaultMarshalOption = emptyOptions()
+	internal.defaultMarshalOption.Store(emptyOptions())
 	internalAddPredictSizePerValue(16, 1)
 
 	internal.types.JSONMarshaler = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
diff --git a/option.go b/option.go
index 06d4d26..aeba7e6 100644
--- a/option.go
+++ b/option.go
@@ -210,14 +210,14 @@ func (o Opt) mergeTo(tgt *Opt) {
 func SetDefaultMarshalOptions(opts ...Option) {
 	opt := emptyOptions()
 	opt.combineOptionsFrom(opts)
-	internal.defaultMarshalOption = opt
+	internal.defaultMarshalOption.Store(opt)
 }
 
 // ResetDefaultMarshalOptions reset default marshaling options to system default.
 //
 // ResetDefaultMarshalOptions 重设序列化时的默认选项为系统最原始的版本。
 func ResetDefaultMarshalOptions() {
-	internal.defaultMarshalOption = emptyOptions()
+	internal.defaultMarshalOption.Store(emptyOptions())
 }
 
 func emptyOptions() *Opt {
@@ -227,7 +227,7 @@ func emptyOptions() *Opt {
 }
 
 func getDefaultOptions() *Opt {
-	res := *internal.defaultMarshalOption
+	res := *internal.defaultMarshalOption.Load().(*Opt)
 	return &res
 }
 
-- 
2.43.0


From 0a9263ce836a060042a5b798b70cf1682253646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:44 +0000
Subject: [PATCH 11/15] fix: do not write beyond a string header in StoB()

---
 internal/unsafe/unsafe.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/unsafe/unsafe.go b/internal/unsafe/unsafe.go
index 53f95ec..8905c5c 100644
--- a/internal/unsafe/unsafe.go
+++ b/internal/unsafe/unsafe.go
@@ -12,7 +12,11 @@ func BtoS(b []byte) string {
 
 // StoB string to []byte
 func StoB(s string) []byte {
-	sh := (*reflect.SliceHeader)(unsafe.Pointer(&s))
-	sh.Cap = sh.Len
-	return *(*[]byte)(unsafe.Pointer(sh))
+	var b []byte
+	sh := (*reflect.StringHeader)(unsafe.Pointer(&s))
+	bh := (*reflect.SliceHeader)(unsafe.Pointer(&b))
+	bh.Data = sh.Data
+	bh.Len = sh.Len
+	bh.Cap = sh.Len
+	return b
 }
-- 
2.43.0


From 6fcb0917ca382336b4dc323c98924d2867bf55d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:50 +0000
Subject: [PATCH 12/15] fix: report an uninitialized member when marshaling
 instead of leaving half a document

---
 marshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index a8220d3..997723a 100644
--- a/marshal.go
+++ b/marshal.go
@@ -65,8 +65,8 @@ func (v *V) MarshalString(opts ...Option) (s string, err error) {
 
 func marshalToBuffer(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) (err error) {
 	switch v.valueType {
-	default:
-		// do nothing
+	default: // NotExist, Unknown
+		return ErrValueUninitialized
 	case String:
 		marshalString(v, buf, opt)
 	case Boolean:
-- 
2.43.0


From 19ffe7ef6ea2b9c556df2c7e953b6918de2c6345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:46 +0000
Subject: [PATCH 13/15] fix: escape the vertical tab character when marshaling

---
 option.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/option.go b/option.go
index aeba7e6..4e7bf77 100644
--- a/option.go
+++ b/option.go
@@ -581,6 +581,7 @@ func (o *Opt) parseEscapingFuncs() {
 	// ASCII control bytes should always escaped
 	iterate(0x00, 0x07, escAsciiControlChar)
 	// 0x08 is \b, encoding/json marshal as \u0008, but according to JSON standard, it should be "\b"
+	iterate(0x0B, 0x0B, escAsciiControlChar) // \v, there is no short form for it in JSON
 	iterate(0x0E, 0x1F, escAsciiControlChar)
 	o.asciiCharEscapingFunc[0x7F] = escAsciiControlChar // encoding/json does not escape DEL
 
-- 
2.43.0


From a35ec2acca732d43bf826a16862a99b2c6dd2b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:58 +0000
Subject: [PATCH 14/15] fix: documents nested deeper than 10000 levels end in
 an error, not in a stack overflow that kills the process

---
 unmarshal.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index f3e2c22..7105289 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -10,6 +10,18 @@ import (
 
 // ================ OUTER UNMARSHAL ================
 
+// maxNestingDepth is the maximum depth of arrays and objects in a raw text, the
+// same as that of encoding/json. Parsing is recursive, and without a limit a few
+// megabytes of '[' would exhaust the stack, which kills the process.
+const maxNestingDepth = 10000
+
+func checkNestingDepth(depth, offset int) error {
+	if depth > maxNestingDepth {
+		return fmt.Errorf("%w, exceeded max depth at Position %d", ErrRawBytesUnrecognized, offset)
+	}
+	return nil
+}
+
 // unmarshalWithIter parse bytes with unknown value type.
 func unmarshalWithIter(p pool, it iter, offset int) (v *V, err error) {
 	end := len(it)
@@ -21,10 +33,10 @@ func unmarshalWithIter(p pool, it iter, offset int) (v *V, err error) {
 	chr := it[offset]
 	switch chr {
 	case '{':
-		v, offset, err = unmarshalObjectWithIterUnknownEnd(p, it, offset, end)
+		v, offset, err = unmarshalObjectWithIterUnknownEnd(p, it, offset, end, 1)
 
 	case '[':
-		v, offset, err = unmarshalArrayWithIterUnknownEnd(p, it, offset, end)
+		v, offset, err = unmarshalArrayWithIterUnknownEnd(p, it, offset, end, 1)
 
 	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '-':
 		var n *V
@@ -77,7 +89,10 @@ func unmarshalWithIter(p pool, it iter, offset int) (v *V, err error) {
 
 // unmarshalArrayWithIterUnknownEnd is similar with unmarshalArrayWithIter, though should start with '[',
 // but it does not known where its ']' is
-func unmarshalArrayWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V, end int, err error) {
+func unmarshalArrayWithIterUnknownEnd(p pool, it iter, offset, right, depth int) (_ *V, end int, err error) {
+	if err = checkNestingDepth(depth, offset); err != nil {
+		return nil, -1, err
+	}
 	offset++
 	arr := newArray(p)
 
@@ -100,7 +115,7 @@ func unmarshalArrayWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V,
 			offset++
 
 		case '{':
-			v, sectEnd, err := unmarshalObjectWithIterUnknownEnd(p, it, offset, right)
+			v, sectEnd, err := unmarshalObjectWithIterUnknownEnd(p, it, offset, right, depth+1)
 			if err != nil {
 				return nil, -1, err
 			}
@@ -108,7 +123,7 @@ func unmarshalArrayWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V,
 			offset = sectEnd
 
 		case '[':
-			v, sectEnd, err := unmarshalArrayWithIterUnknownEnd(p, it, offset, right)
+			v, sectEnd, err := unmarshalArrayWithIterUnknownEnd(p, it, offset, right, depth+1)
 			if err != nil {
 				return nil, -1, err
 			}
@@ -173,7 +188,10 @@ func appendToArr(v *V, child *V) {
 }
 
 // unmarshalObjectWithIterUnknownEnd unmarshal object from raw bytes. it[offset] must be '{'
-func unmarshalObjectWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V, end int, err error) {
+func unmarshalObjectWithIterUnknownEnd(p pool, it iter, offset, right, depth int) (_ *V, end int, err error) {
+	if err = checkNestingDepth(depth, offset); err != nil {
+		return nil, -1, err
+	}
 	offset++
 	obj := newObject(p)
 
@@ -243,7 +261,7 @@ func unmarshalObjectWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V
 			if err = keyNotFoundErr(); err != nil {
 				return nil, -1, err
 			}
-			v, sectEnd, err := unmarshalObjectWithIterUnknownEnd(p, it, offset, right)
+			v, sectEnd, err := unmarshalObjectWithIterUnknownEnd(p, it, offset, right, depth+1)
 			if err != nil {
 				return nil, -1, err
 			}
@@ -255,7 +273,7 @@ func unmarshalObjectWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V
 			if err = keyNotFoundErr(); err != nil {
 				return nil, -1, err
 			}
-			v, sectEnd, err := unmarshalArrayWithIterUnknownEnd(p, it, offset, right)
+			v, sectEnd, err := unmarshalArrayWithIterUnknownEnd(p, it, offset, right, depth+1)
 			if err != nil {
 				return nil, -1, err
 			}
-- 
2.43.0


From f597d8285a09f18fa660b1d050356606171a6277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:58 +0000
Subject: [PATCH 15/15] fix: comparing numbers with far apart exponents does
 not expand them (1e-999999999 against 1 hung)

---
 compare.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/compare.go b/compare.go
index 9f7f8b2..8da9e8f 100644
--- a/compare.go
+++ b/compare.go
@@ -50,7 +50,7 @@ func greaterThan(left, right *V) (result, ok bool) {
 	}
 	a1, _ := decimal.NewFromString(string(left.srcByte))
 	a2, _ := decimal.NewFromString(string(right.srcByte))
-	return a1.GreaterThan(a2), true
+	return compareDecimals(a1, a2) > 0, true
 }
 
 func greaterOrEqualThan(left, right *V) (result, ok bool) {
@@ -62,7 +62,33 @@ func greaterOrEqualThan(left, right *V) (result, ok bool) {
 	}
 	a1, _ := decimal.NewFromString(string(left.srcByte))
 	a2, _ := decimal.NewFromString(string(right.srcByte))
-	return a1.GreaterThanOrEqual(a2), true
+	return compareDecimals(a1, a2) >= 0, true
+}
+
+// compareDecimals gives the same result as d1.Cmp(d2). But Cmp brings both numbers
+// to the same exponent first, which practically never ends for numbers like 1 and
+// 1e-999999999. This is only needed when the numbers are of about the same magnitude.
+func compareDecimals(d1, d2 decimal.Decimal) int {
+	s1, s2 := d1.Sign(), d2.Sign()
+	if s1 != s2 {
+		if s1 > s2 {
+			return 1
+		}
+		return -1
+	}
+	if s1 == 0 {
+		return 0
+	}
+
+	// NumDigits may be wrong by one
+	diff := int64(d1.NumDigits()) + int64(d1.Exponent()) - int64(d2.NumDigits()) - int64(d2.Exponent())
+	if diff > 2 {
+		return s1
+	}
+	if diff < -2 {
+		return -s1
+	}
+	return d1.Cmp(d2)
 }
 
 // Equal shows whether the content of two JSON values equal to each other.
@@ -101,7 +127,7 @@ func numberEqual(left, right *V) bool {
 
 	d1, _ := decimal.NewFromString(string(left.srcByte))
 	d2, _ := decimal.NewFromString(string(right.srcByte))
-	return d1.Equal(d2)
+	return compareDecimals(d1, d2) == 0
 }
 
 func objectEqual(left, right *V) bool {
-- 
2.43.0

