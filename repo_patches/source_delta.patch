From 7fa97900bc886043a7353bc9d70175b7142cf3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 01/36] fix: copy the driver's bytes in
 pgsql.AnyToEmptyInterface

database/sql passes []byte values to a Scanner that are valid only until the
next call to Next, Scan or Close, the scanner must not retain them.
---
 pgsql/any.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgsql/any.go b/pgsql/any.go
index ade61c8..95cc894 100644
--- a/pgsql/any.go
+++ b/pgsql/any.go
@@ -15,6 +15,10 @@ type anyToEmptyInterface struct {
 }
 
 func (v anyToEmptyInterface) Scan(src interface{}) error {
+	// the driver owns the bytes and may reuse them once Scan returns
+	if b, ok := src.([]byte); ok && b != nil {
+		src = append([]byte{}, b...)
+	}
 	*v.val = src
 	return nil
 }
-- 
2.43.0


From 6c59541c867f9961fc43d3fb134eb1859ebc6b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 02/36] fix: set the target to nil when the hstore scanners
 receive NULL

All other scanners do. Leaving the target alone keeps the value of an earlier
scan, e.g. that of the input record in an INSERT or UPDATE with RETURNING.
---
 pgsql/hstore.go    | 3 +++
 pgsql/hstorearr.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pgsql/hstore.go b/pgsql/hstore.go
index 4797905..225246d 100644
--- a/pgsql/hstore.go
+++ b/pgsql/hstore.go
@@ -68,6 +68,7 @@ func (v hstoreToStringMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -122,6 +123,7 @@ func (v hstoreToStringPtrMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -177,6 +179,7 @@ func (v hstoreToNullStringMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/hstorearr.go b/pgsql/hstorearr.go
index 3cd6860..2a1a943 100644
--- a/pgsql/hstorearr.go
+++ b/pgsql/hstorearr.go
@@ -98,6 +98,7 @@ func (v hstoreArrayToStringMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -201,6 +202,7 @@ func (v hstoreArrayToStringPtrMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -305,6 +307,7 @@ func (v hstoreArrayToNullStringMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
-- 
2.43.0


From 524ce641a4fe5fd22be60e1595ef9407422d4107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 03/36] fix: decode json and xml into a new value when scanning

Unmarshaling into the existing value merges it with what an earlier scan left
there, NULL and text given as string were ignored altogether.
---
 pgsql/convert_util.go | 28 ++++++++++++++++++++++++++++
 pgsql/json.go         |  7 ++++---
 pgsql/xml.go          |  7 ++++---
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 2a8fd1a..ac992ee 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -3,6 +3,7 @@ package pgsql
 import (
 	"bytes"
 	"encoding/hex"
+	"reflect"
 	"time"
 )
 
@@ -28,6 +29,33 @@ func srcbytes(src interface{}) ([]byte, error) {
 	return nil, nil // TODO error
 }
 
+// unmarshalNew unmarshals the data into a new value and stores that in val,
+// which is expected to be a non-nil pointer, so that what val pointed to before
+// does not leak into the result. If data is nil the zero value will be stored.
+func unmarshalNew(data []byte, val interface{}, unmarshal func([]byte, interface{}) error) error {
+	rv := reflect.ValueOf(val)
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
+		if data == nil {
+			return nil
+		}
+		return unmarshal(data, val) // let unmarshal report the invalid target
+	}
+
+	// An interface may hold the pointer the caller wants the data to be unmarshaled into.
+	if elem := rv.Elem(); data != nil && elem.Kind() == reflect.Interface && elem.Elem().Kind() == reflect.Ptr {
+		return unmarshal(data, val)
+	}
+
+	newval := reflect.New(rv.Type().Elem())
+	if data != nil {
+		if err := unmarshal(data, newval.Interface()); err != nil {
+			return err
+		}
+	}
+	rv.Elem().Set(newval.Elem())
+	return nil
+}
+
 // parse as single bytes
 func pgparsearray2(a []byte) (out []byte) {
 	out = make([]byte, 0, len(a))
diff --git a/pgsql/json.go b/pgsql/json.go
index 4f8138c..f3a1502 100644
--- a/pgsql/json.go
+++ b/pgsql/json.go
@@ -28,8 +28,9 @@ func (j jsontype) Value() (driver.Value, error) {
 }
 
 func (j jsontype) Scan(src interface{}) error {
-	if b, ok := src.([]byte); ok {
-		return json.Unmarshal(b, j.val)
+	data, err := srcbytes(src)
+	if err != nil {
+		return err
 	}
-	return nil
+	return unmarshalNew(data, j.val, json.Unmarshal)
 }
diff --git a/pgsql/xml.go b/pgsql/xml.go
index dac30b4..ae8a257 100644
--- a/pgsql/xml.go
+++ b/pgsql/xml.go
@@ -21,10 +21,11 @@ type xmltype struct {
 }
 
 func (x xmltype) Scan(src interface{}) error {
-	if b, ok := src.([]byte); ok {
-		return xml.Unmarshal(b, x.val)
+	data, err := srcbytes(src)
+	if err != nil {
+		return err
 	}
-	return nil
+	return unmarshalNew(data, x.val, xml.Unmarshal)
 }
 
 func (x xmltype) Value() (driver.Value, error) {
-- 
2.43.0


From 9a44dee5a2cd6ea8855932278a6344c1b7f08547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 04/36] fix: reset the target when a scanner receives NULL

The range array scanners assigned nil to their own copy of the pointer, others
returned without touching the target, which then kept the value of an earlier
scan.
---
 pgsql/box.go          |  1 +
 pgsql/char.go         |  2 ++
 pgsql/chararr.go      |  1 +
 pgsql/cidr.go         |  1 +
 pgsql/daterange.go    |  1 +
 pgsql/daterangearr.go |  2 +-
 pgsql/inet.go         |  2 ++
 pgsql/int4range.go    | 12 ++++++++++++
 pgsql/int4rangearr.go | 24 ++++++++++++------------
 pgsql/int8range.go    | 12 ++++++++++++
 pgsql/int8rangearr.go | 24 ++++++++++++------------
 pgsql/line.go         |  1 +
 pgsql/linearr.go      |  1 +
 pgsql/lseg.go         |  1 +
 pgsql/lsegarr.go      |  1 +
 pgsql/macaddr.go      |  1 +
 pgsql/money.go        |  1 +
 pgsql/numrange.go     | 12 ++++++++++++
 pgsql/numrangearr.go  | 24 ++++++++++++------------
 pgsql/point.go        |  1 +
 pgsql/pointarr.go     |  1 +
 pgsql/time.go         |  4 ++++
 pgsql/timetz.go       |  4 ++++
 pgsql/tsrange.go      |  1 +
 pgsql/tstzrange.go    |  1 +
 pgsql/uuid.go         |  1 +
 pgsql/varbit.go       |  1 +
 27 files changed, 101 insertions(+), 37 deletions(-)

diff --git a/pgsql/box.go b/pgsql/box.go
index 361f6f0..d9707dc 100644
--- a/pgsql/box.go
+++ b/pgsql/box.go
@@ -45,6 +45,7 @@ func (v boxToFloat64Array2Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2][2]float64{}
 		return nil
 	}
 
diff --git a/pgsql/char.go b/pgsql/char.go
index 18ff44b..ba51893 100644
--- a/pgsql/char.go
+++ b/pgsql/char.go
@@ -39,6 +39,7 @@ type charToByte struct {
 }
 
 func (v charToByte) Scan(src interface{}) error {
+	*v.val = 0
 	switch data := src.(type) {
 	case string:
 		if len(data) > 0 {
@@ -65,6 +66,7 @@ type charToRune struct {
 }
 
 func (v charToRune) Scan(src interface{}) error {
+	*v.val = 0
 	switch data := src.(type) {
 	case string:
 		if len(data) > 0 {
diff --git a/pgsql/chararr.go b/pgsql/chararr.go
index c0992be..2dba0d5 100644
--- a/pgsql/chararr.go
+++ b/pgsql/chararr.go
@@ -94,6 +94,7 @@ func (v charArrayToString) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = ""
 		return nil
 	}
 
diff --git a/pgsql/cidr.go b/pgsql/cidr.go
index 3534f53..f95a610 100644
--- a/pgsql/cidr.go
+++ b/pgsql/cidr.go
@@ -40,6 +40,7 @@ func (v cidrToIPNet) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = net.IPNet{}
 		return nil
 	}
 
diff --git a/pgsql/daterange.go b/pgsql/daterange.go
index 22d6e25..5256048 100644
--- a/pgsql/daterange.go
+++ b/pgsql/daterange.go
@@ -72,6 +72,7 @@ func (v dateRangeToTimeArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]time.Time{}
 		return nil
 	}
 
diff --git a/pgsql/daterangearr.go b/pgsql/daterangearr.go
index fe6d628..b8dac6f 100644
--- a/pgsql/daterangearr.go
+++ b/pgsql/daterangearr.go
@@ -59,7 +59,7 @@ func (v dateRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/inet.go b/pgsql/inet.go
index f4ae042..e2f885e 100644
--- a/pgsql/inet.go
+++ b/pgsql/inet.go
@@ -49,6 +49,7 @@ func (v inetToIPNet) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = net.IPNet{}
 		return nil
 	}
 
@@ -83,6 +84,7 @@ func (v inetToIP) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/int4range.go b/pgsql/int4range.go
index 9d912d3..07d6592 100644
--- a/pgsql/int4range.go
+++ b/pgsql/int4range.go
@@ -148,6 +148,7 @@ func (v int4RangeToIntArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int{}
 		return nil
 	}
 
@@ -191,6 +192,7 @@ func (v int4RangeToInt8Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int8{}
 		return nil
 	}
 
@@ -234,6 +236,7 @@ func (v int4RangeToInt16Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int16{}
 		return nil
 	}
 
@@ -277,6 +280,7 @@ func (v int4RangeToInt32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int32{}
 		return nil
 	}
 
@@ -320,6 +324,7 @@ func (v int4RangeToInt64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int64{}
 		return nil
 	}
 
@@ -363,6 +368,7 @@ func (v int4RangeToUintArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint{}
 		return nil
 	}
 
@@ -406,6 +412,7 @@ func (v int4RangeToUint8Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint8{}
 		return nil
 	}
 
@@ -449,6 +456,7 @@ func (v int4RangeToUint16Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint16{}
 		return nil
 	}
 
@@ -492,6 +500,7 @@ func (v int4RangeToUint32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint32{}
 		return nil
 	}
 
@@ -535,6 +544,7 @@ func (v int4RangeToUint64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint64{}
 		return nil
 	}
 
@@ -578,6 +588,7 @@ func (v int4RangeToFloat32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float32{}
 		return nil
 	}
 
@@ -621,6 +632,7 @@ func (v int4RangeToFloat64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float64{}
 		return nil
 	}
 
diff --git a/pgsql/int4rangearr.go b/pgsql/int4rangearr.go
index 8732f6a..41d8679 100644
--- a/pgsql/int4rangearr.go
+++ b/pgsql/int4rangearr.go
@@ -160,7 +160,7 @@ func (v int4RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v int4RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v int4RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v int4RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v int4RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v int4RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v int4RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v int4RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v int4RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v int4RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v int4RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v int4RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/int8range.go b/pgsql/int8range.go
index fff0d7d..aea0f72 100644
--- a/pgsql/int8range.go
+++ b/pgsql/int8range.go
@@ -148,6 +148,7 @@ func (v int8RangeToIntArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int{}
 		return nil
 	}
 
@@ -191,6 +192,7 @@ func (v int8RangeToInt8Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int8{}
 		return nil
 	}
 
@@ -234,6 +236,7 @@ func (v int8RangeToInt16Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int16{}
 		return nil
 	}
 
@@ -277,6 +280,7 @@ func (v int8RangeToInt32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int32{}
 		return nil
 	}
 
@@ -320,6 +324,7 @@ func (v int8RangeToInt64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int64{}
 		return nil
 	}
 
@@ -363,6 +368,7 @@ func (v int8RangeToUintArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint{}
 		return nil
 	}
 
@@ -406,6 +412,7 @@ func (v int8RangeToUint8Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint8{}
 		return nil
 	}
 
@@ -449,6 +456,7 @@ func (v int8RangeToUint16Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint16{}
 		return nil
 	}
 
@@ -492,6 +500,7 @@ func (v int8RangeToUint32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint32{}
 		return nil
 	}
 
@@ -535,6 +544,7 @@ func (v int8RangeToUint64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint64{}
 		return nil
 	}
 
@@ -578,6 +588,7 @@ func (v int8RangeToFloat32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float32{}
 		return nil
 	}
 
@@ -621,6 +632,7 @@ func (v int8RangeToFloat64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float64{}
 		return nil
 	}
 
diff --git a/pgsql/int8rangearr.go b/pgsql/int8rangearr.go
index 416f928..538e7e1 100644
--- a/pgsql/int8rangearr.go
+++ b/pgsql/int8rangearr.go
@@ -160,7 +160,7 @@ func (v int8RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v int8RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v int8RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v int8RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v int8RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v int8RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v int8RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v int8RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v int8RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v int8RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v int8RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v int8RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/line.go b/pgsql/line.go
index afabe56..a01893b 100644
--- a/pgsql/line.go
+++ b/pgsql/line.go
@@ -42,6 +42,7 @@ func (v lineToFloat64Array3) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [3]float64{}
 		return nil
 	}
 
diff --git a/pgsql/linearr.go b/pgsql/linearr.go
index 5d8e7a0..1f13ae4 100644
--- a/pgsql/linearr.go
+++ b/pgsql/linearr.go
@@ -57,6 +57,7 @@ func (v lineArrayToFloat64Array3Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/lseg.go b/pgsql/lseg.go
index b25849f..3acb3e6 100644
--- a/pgsql/lseg.go
+++ b/pgsql/lseg.go
@@ -44,6 +44,7 @@ func (v lsegToFloat64Array2Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2][2]float64{}
 		return nil
 	}
 
diff --git a/pgsql/lsegarr.go b/pgsql/lsegarr.go
index e7c5a0c..5e556b0 100644
--- a/pgsql/lsegarr.go
+++ b/pgsql/lsegarr.go
@@ -59,6 +59,7 @@ func (v lsegArrayToFloat64Array2Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/macaddr.go b/pgsql/macaddr.go
index 97d9ce3..a472120 100644
--- a/pgsql/macaddr.go
+++ b/pgsql/macaddr.go
@@ -39,6 +39,7 @@ func (v macAddrToHardwareAddr) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/money.go b/pgsql/money.go
index ca05195..7ad9796 100644
--- a/pgsql/money.go
+++ b/pgsql/money.go
@@ -35,6 +35,7 @@ func (v moneyToInt64) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = 0
 		return nil
 	}
 
diff --git a/pgsql/numrange.go b/pgsql/numrange.go
index 407a48b..ba6aaf4 100644
--- a/pgsql/numrange.go
+++ b/pgsql/numrange.go
@@ -148,6 +148,7 @@ func (v numRangeToIntArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int{}
 		return nil
 	}
 
@@ -191,6 +192,7 @@ func (v numRangeToInt8Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int8{}
 		return nil
 	}
 
@@ -234,6 +236,7 @@ func (v numRangeToInt16Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int16{}
 		return nil
 	}
 
@@ -277,6 +280,7 @@ func (v numRangeToInt32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int32{}
 		return nil
 	}
 
@@ -320,6 +324,7 @@ func (v numRangeToInt64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int64{}
 		return nil
 	}
 
@@ -363,6 +368,7 @@ func (v numRangeToUintArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint{}
 		return nil
 	}
 
@@ -406,6 +412,7 @@ func (v numRangeToUint8Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint8{}
 		return nil
 	}
 
@@ -449,6 +456,7 @@ func (v numRangeToUint16Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint16{}
 		return nil
 	}
 
@@ -492,6 +500,7 @@ func (v numRangeToUint32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint32{}
 		return nil
 	}
 
@@ -535,6 +544,7 @@ func (v numRangeToUint64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint64{}
 		return nil
 	}
 
@@ -578,6 +588,7 @@ func (v numRangeToFloat32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float32{}
 		return nil
 	}
 
@@ -621,6 +632,7 @@ func (v numRangeToFloat64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float64{}
 		return nil
 	}
 
diff --git a/pgsql/numrangearr.go b/pgsql/numrangearr.go
index 81557f0..9f43001 100644
--- a/pgsql/numrangearr.go
+++ b/pgsql/numrangearr.go
@@ -160,7 +160,7 @@ func (v numRangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v numRangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v numRangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v numRangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v numRangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v numRangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v numRangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v numRangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v numRangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v numRangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v numRangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v numRangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/point.go b/pgsql/point.go
index 142310f..62a036d 100644
--- a/pgsql/point.go
+++ b/pgsql/point.go
@@ -40,6 +40,7 @@ func (v pointToFloat64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float64{}
 		return nil
 	}
 
diff --git a/pgsql/pointarr.go b/pgsql/pointarr.go
index 79aebda..961f867 100644
--- a/pgsql/pointarr.go
+++ b/pgsql/pointarr.go
@@ -55,6 +55,7 @@ func (v pointArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/time.go b/pgsql/time.go
index eab6d66..b0a7240 100644
--- a/pgsql/time.go
+++ b/pgsql/time.go
@@ -27,6 +27,8 @@ func (v timeToString) Scan(src interface{}) error {
 		*v.val = string(data)
 	case string:
 		*v.val = data
+	case nil:
+		*v.val = ""
 	}
 	return nil
 }
@@ -43,6 +45,8 @@ func (v timeToByteSlice) Scan(src interface{}) error {
 		*v.val = data
 	case string:
 		*v.val = []byte(data)
+	case nil:
+		*v.val = nil
 	}
 	return nil
 }
diff --git a/pgsql/timetz.go b/pgsql/timetz.go
index 88cc3ea..432e961 100644
--- a/pgsql/timetz.go
+++ b/pgsql/timetz.go
@@ -27,6 +27,8 @@ func (v timetzToString) Scan(src interface{}) error {
 		*v.val = string(data)
 	case string:
 		*v.val = data
+	case nil:
+		*v.val = ""
 	}
 	return nil
 }
@@ -43,6 +45,8 @@ func (v timetzToByteSlice) Scan(src interface{}) error {
 		*v.val = data
 	case string:
 		*v.val = []byte(data)
+	case nil:
+		*v.val = nil
 	}
 	return nil
 }
diff --git a/pgsql/tsrange.go b/pgsql/tsrange.go
index 3171c1b..4d55649 100644
--- a/pgsql/tsrange.go
+++ b/pgsql/tsrange.go
@@ -43,6 +43,7 @@ func (v tsRangeToTimeArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]time.Time{}
 		return nil
 	}
 
diff --git a/pgsql/tstzrange.go b/pgsql/tstzrange.go
index 6e6ac60..2479cb8 100644
--- a/pgsql/tstzrange.go
+++ b/pgsql/tstzrange.go
@@ -43,6 +43,7 @@ func (v tstzRangeToTimeArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]time.Time{}
 		return nil
 	}
 
diff --git a/pgsql/uuid.go b/pgsql/uuid.go
index 1ed4368..88e990c 100644
--- a/pgsql/uuid.go
+++ b/pgsql/uuid.go
@@ -32,6 +32,7 @@ func (v uuidToByteArray16) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [16]byte{}
 		return nil
 	}
 
diff --git a/pgsql/varbit.go b/pgsql/varbit.go
index 7bdf237..a3904c4 100644
--- a/pgsql/varbit.go
+++ b/pgsql/varbit.go
@@ -54,6 +54,7 @@ func (v varBitToInt64) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = 0
 		return nil
 	}
 
-- 
2.43.0


From 3be4434923c6886db7bc23def647c78a4937dd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 05/36] fix: copy the driver's bytes in the time and timetz
 scanners

---
 pgsql/time.go   | 2 +-
 pgsql/timetz.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgsql/time.go b/pgsql/time.go
index b0a7240..81a3cb7 100644
--- a/pgsql/time.go
+++ b/pgsql/time.go
@@ -42,7 +42,7 @@ func (v timeToByteSlice) Scan(src interface{}) error {
 	case time.Time:
 		*v.val = []byte(data.Format(timeLayout))
 	case []byte:
-		*v.val = data
+		*v.val = append([]byte{}, data...) // data is owned by the driver
 	case string:
 		*v.val = []byte(data)
 	case nil:
diff --git a/pgsql/timetz.go b/pgsql/timetz.go
index 432e961..17eb510 100644
--- a/pgsql/timetz.go
+++ b/pgsql/timetz.go
@@ -42,7 +42,7 @@ func (v timetzToByteSlice) Scan(src interface{}) error {
 	case time.Time:
 		*v.val = []byte(data.Format(timetzLayout))
 	case []byte:
-		*v.val = data
+		*v.val = append([]byte{}, data...) // data is owned by the driver
 	case string:
 		*v.val = []byte(data)
 	case nil:
-- 
2.43.0


From 323b88254a5e683e60157e08c990b607ede9a2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 06/36] fix: decode NULL elements and reject malformed ones
 when scanning uuid[] into [][16]byte

---
 pgsql/convert_util.go | 4 ++++
 pgsql/uuidarr.go      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index ac992ee..4a0f210 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -3,6 +3,7 @@ package pgsql
 import (
 	"bytes"
 	"encoding/hex"
+	"errors"
 	"reflect"
 	"time"
 )
@@ -715,6 +716,9 @@ func pgParseVectorArray(a []byte) (out [][][]byte) {
 
 // Expected format: 'xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx'.
 func pgParseUUID(data []byte) (arr [16]byte, err error) {
+	if len(data) != 36 {
+		return arr, errors.New("pgsql: invalid uuid length")
+	}
 	if _, err = hex.Decode(arr[0:4], data[0:8]); err != nil {
 		return arr, err
 	}
diff --git a/pgsql/uuidarr.go b/pgsql/uuidarr.go
index 7095a42..dbedebd 100644
--- a/pgsql/uuidarr.go
+++ b/pgsql/uuidarr.go
@@ -82,6 +82,10 @@ func (v uuidArrayToByteArray16Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	uuids := make([][16]byte, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if len(elems[i]) == 4 && elems[i][0] == 'N' { // NULL?
+			continue
+		}
+
 		uuid, err := pgParseUUID(elems[i])
 		if err != nil {
 			return err
-- 
2.43.0


From 3e472651c45cca3c4a22722c15fa2e5df611763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 07/36] fix: honour NOT and SYMMETRIC in generated BETWEEN
 predicates

---
 internal/generator/generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index b931130..b1204ce 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1409,6 +1409,12 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 // makeSQLBetweenPredicate
 func makeSQLBetweenPredicate(g *generator, cond *postgres.BetweenConditional) SQL.BetweenPredicate {
 	predicate := SQL.BetweenPredicate{}
+	predicate.Not = cond.Predicate.IsOneOf(analysis.NotBetween, analysis.NotBetweenSym, analysis.NotBetweenAsym)
+	if cond.Predicate.IsOneOf(analysis.IsBetweenSym, analysis.NotBetweenSym) {
+		predicate.Sym = SQL.SYMMETRIC
+	} else if cond.Predicate.IsOneOf(analysis.IsBetweenAsym, analysis.NotBetweenAsym) {
+		predicate.Sym = SQL.ASYMMETRIC
+	}
 	predicate.Predicand = makeColRef(cond.ColIdent)
 
 	switch lower := cond.LowerBound.(type) {
-- 
2.43.0


From 17517cc1bfae8e7708f6a9eb5301b2ad5d8b65f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 08/36] fix: key the record type cache by the using package and
 fill it only after success

---
 internal/analysis/analysis.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index f31d8fa..d5c31bd 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -437,11 +437,12 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 	}()
 
 	ftyp := field.Type()
-	cacheKey := ftyp.String()
+	// The result of the analysis depends on the package that the type is
+	// used in, e.g. a type that's imported by one package is local to another.
+	cacheKey := relTypeKey{pkg: a.named.Obj().Pkg(), typ: ftyp.String()}
 	named, ok := ftyp.(*types.Named)
 	if ok {
 		ftyp = named.Underlying()
-		cacheKey = named.String()
 	}
 
 	relTypeCache.RLock()
@@ -501,10 +502,6 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 		rt.Base.IsImported = isImportedType(a, named)
 		rt.IsAfterScanner = typesutil.ImplementsAfterScanner(named)
 		ftyp = named.Underlying()
-
-		relTypeCache.Lock()
-		relTypeCache.m[cacheKey] = rt
-		relTypeCache.Unlock()
 	}
 
 	rt.Base.Kind = analyzeTypeKind(ftyp)
@@ -513,7 +510,18 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 	}
 
 	styp := ftyp.(*types.Struct)
-	return analyzeFieldInfoList(a, rt, styp)
+	if err := analyzeFieldInfoList(a, rt, styp); err != nil {
+		return err
+	}
+
+	// Cache only the complete result of a successful analysis.
+	if named != nil {
+		cached := *rt
+		relTypeCache.Lock()
+		relTypeCache.m[cacheKey] = &cached
+		relTypeCache.Unlock()
+	}
+	return nil
 }
 
 // analyzeFieldInfoList
@@ -2347,10 +2355,18 @@ func (t *TypeInfo) IsXMLIllegal() bool {
 ////////////////////////////////////////////////////////////////////////////////
 // Cache
 
+// relTypeKey identifies an analyzed RelType.
+type relTypeKey struct {
+	// The package that the type is used in.
+	pkg *types.Package
+	// The type's string representation.
+	typ string
+}
+
 var relTypeCache = struct {
 	sync.RWMutex
-	m map[string]*RelType
-}{m: make(map[string]*RelType)}
+	m map[relTypeKey]*RelType
+}{m: make(map[relTypeKey]*RelType)}
 
 ////////////////////////////////////////////////////////////////////////////////
 
-- 
2.43.0


From fe996ace5ba75780e5e2e86eb783bc50ce8dfe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 09/36] fix: do not modify shared field info when generating
 filter methods

---
 internal/generator/generator.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index b1204ce..b728d7c 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -850,18 +850,13 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 			continue
 		}
 
-		// add import if necessary
-		if imported := ff.Field.Type.ImportedTypes(); len(imported) > 0 {
-			for _, typ := range imported {
-				imp := addimport(g.file, typ.PkgPath, typ.PkgName)
-				ff.Field.Type.PkgName = imp.name
-			}
-		}
+		// add imports if necessary
+		typ := withImportNames(g.file, ff.Field.Type)
 
 		// the method's input and output arguments
 		methodecl.Type.Params = GO.ParamList{
 			{Names: oper, Type: GO.Ident{"string"}},
-			{Names: value, Type: GO.Ident{string(ff.Field.Type.Literal())}},
+			{Names: value, Type: GO.Ident{string(typ.Literal())}},
 		}
 		methodecl.Type.Results = GO.ParamList{{Type: GO.PointerType{GO.Ident{fs.TypeName}}}}
 
@@ -2097,6 +2092,28 @@ func addimport(f *file, path, name string) *impspec {
 	return imp
 }
 
+// withImportNames adds the imports required by the given type to the file and
+// returns a copy of the type in which the names of the imported packages are
+// those that are used by the file. The given type, which may be shared between
+// targets and files, is left as is.
+func withImportNames(f *file, typ analysis.TypeInfo) analysis.TypeInfo {
+	if typ.IsImported {
+		typ.PkgName = addimport(f, typ.PkgPath, typ.PkgName).name
+	}
+	if len(typ.Name) > 0 {
+		return typ
+	}
+	if typ.Key != nil {
+		key := withImportNames(f, *typ.Key)
+		typ.Key = &key
+	}
+	if typ.Elem != nil {
+		elem := withImportNames(f, *typ.Elem)
+		typ.Elem = &elem
+	}
+	return typ
+}
+
 // newImportDecl produces an import declaration for packages that are to be imported by the given file.
 func newImportDecl(f *file) *GO.ImportDecl {
 	imports := new(GO.ImportDecl)
-- 
2.43.0


From 065f52dd0bf864db2fbfff2b2cc3af3f12af6d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 10/36] fix: return the declared output of batch updates and
 filtered deletes

---
 internal/generator/generator.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index b728d7c..81e97d0 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1006,6 +1006,9 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 		columns := append(g.inputCols, g.inputColsPKeys...)
 		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
 		tail := SQL.UpdateTail{Where: g.whereClause}
+		if qs.Result != nil {
+			tail.Returning = SQL.ReturningClause(g.outputVals)
+		}
 		g.sqlTailNode = SQL.NodeList{alias, tail}
 		g.sqlMainNode = stmt
 		return
@@ -1049,6 +1052,13 @@ func buildSQLDeleteStatement(g *generator, qs *analysis.QueryStruct) {
 		stmt.Using.List = append(stmt.Using.List, g.tableExprSlice()...)
 	}
 
+	if qs.Filter != nil && len(g.outputVals) > 0 {
+		// the RETURNING clause has to follow the clauses of the filter
+		g.sqlTailNode = SQL.ReturningClause(g.outputVals)
+		g.sqlMainNode = stmt
+		return
+	}
+
 	stmt.Where = g.whereClause
 	stmt.Returning = SQL.ReturningClause(g.outputVals) //returning
 	g.sqlMainNode = stmt
-- 
2.43.0


From e22fad83a50e5cb2bf8c89d8c9c530a393f6ca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 11/36] fix: import gosql when the generated code refers to it

---
 internal/generator/generator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 81e97d0..ba2a98c 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1361,11 +1361,12 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				g.inputSliceArgs = append(g.inputSliceArgs, sx)
 				g.paramNum -= 1 // ordinal param won't be used directly
 
+				addimport(g.file, gosqlPkgPath, gosqlPkgName)
 				num := strconv.Itoa(len(g.inputSliceArgs))
 				arg1 := GO.Ident{"len" + num}
 				arg2 := GO.Ident{"pos" + num}
 
-				call := GO.CallExpr{Fun: GO.QualifiedIdent{"gosql", "InValueList"}}
+				call := GO.CallExpr{Fun: GO.QualifiedIdent{gosqlPkgName, "InValueList"}}
 				call.Args = GO.ArgsList{List: GO.ExprList{arg1, arg2}}
 
 				predicate := SQL.InPredicate{}
@@ -2179,8 +2180,9 @@ func makeErrorReturnStmt(g *generator, qs *analysis.QueryStruct, errExpr GO.Expr
 			errVar         = GO.Ident{"err"}
 			nilVal         = GO.Ident{"nil"}
 			queryStringVar = GO.Ident{"queryString"}
-			errorInfoType  = GO.QualifiedIdent{"gosql", "ErrorInfo"}
+			errorInfoType  = GO.QualifiedIdent{gosqlPkgName, "ErrorInfo"}
 		)
+		addimport(g.file, gosqlPkgPath, gosqlPkgName)
 
 		// produce:
 		//	return <fieldSelector>.HandleErrorInfo(&gosql.ErrorInfo{ ... })
-- 
2.43.0


From af3780e011ad9a1dbdc4f03a23a01cfa934dd21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 12/36] fix: do not import the record's package for single
 value outputs

---
 internal/generator/generator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index ba2a98c..154dc97 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -486,6 +486,11 @@ func buildQueryOutputInitRoot(g *generator, qs *analysis.QueryStruct) {
 		typ = qs.Result.Type
 	}
 
+	// a single, non-pointer value needs no initialization
+	if !typ.IsSlice && !typ.IsIter && !typ.IsPointer {
+		return
+	}
+
 	typeNode := GO.TypeNode(GO.Ident{typ.Base.Name})
 	if typ.Base.IsImported {
 		imp := addimport(g.file, typ.Base.PkgPath, typ.Base.PkgName)
-- 
2.43.0


From fa6c0ee3446abfad86ba24f995dd527e60e00b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:21 +0000
Subject: [PATCH 13/36] fix: report unsupported source types when scanning

---
 pgsql/convert_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 4a0f210..699ec7d 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/hex"
 	"errors"
+	"fmt"
 	"reflect"
 	"time"
 )
@@ -27,7 +28,7 @@ func srcbytes(src interface{}) ([]byte, error) {
 	case nil:
 		return nil, nil
 	}
-	return nil, nil // TODO error
+	return nil, fmt.Errorf("pgsql: unsupported source type: %T", src)
 }
 
 // unmarshalNew unmarshals the data into a new value and stores that in val,
-- 
2.43.0


From 96c2d84c9c96cc51e0e4aac801ee71176a5579ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:43 +0000
Subject: [PATCH 14/36] fix: qualify the target's columns in batch updates of
 unaliased relations

---
 internal/generator/generator.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 154dc97..3956ed7 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -585,7 +585,7 @@ func buildQueryOutputSourceColumns(g *generator, qs *analysis.QueryStruct) {
 
 	for _, fr := range g.info.Reads {
 		var expr SQL.ValueExpr
-		expr = makeColRef(fr.ColIdent)
+		expr = makeTargetColRef(qs, fr.ColIdent)
 		if fr.NeedsCOALESCE() {
 			expr = addCoalesceCallExpr(expr, fr.Field.CoalesceValue, fr.Column)
 		}
@@ -1198,7 +1198,7 @@ func buildSQLWhereClause(g *generator, qs *analysis.QueryStruct) {
 		for i, fw := range g.info.PKeys {
 			predicate := SQL.ComparisonPredicate{}
 			predicate.Cmp = sqlCMPOP[analysis.IsEQ]
-			predicate.LPredicand = makeColRef(fw.ColIdent)
+			predicate.LPredicand = makeTargetColRef(qs, fw.ColIdent)
 			predicate.RPredicand = makeParamSpec(g, fw.Field)
 
 			if qs.Rel.Type.IsSlice {
@@ -2320,6 +2320,18 @@ func makeColRef(id analysis.ColIdent) SQL.ColumnReference {
 	}
 }
 
+// makeTargetColRef is like makeColRef but for columns of the target relation.
+// In a batch update the relation's columns have the same names as those of the
+// values list, if they are not already qualified they are qualified here with
+// the relation's name to keep the references from being ambiguous.
+func makeTargetColRef(qs *analysis.QueryStruct, id analysis.ColIdent) SQL.ColumnReference {
+	ref := makeColRef(id)
+	if qs.IsUpdateSlice() && len(ref.Qual) == 0 && len(qs.Rel.Id.Alias) == 0 {
+		ref.Qual = `"` + qs.Rel.Id.Name + `"`
+	}
+	return ref
+}
+
 // makeRelIdent
 func makeRelIdent(id analysis.RelIdent) SQL.Ident {
 	return SQL.Ident{
-- 
2.43.0


From e903dbd34720d6b57f8c9342f87514266780d3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 15/36] fix: recognize handlers and after-scanners by their
 method sets

---
 internal/analysis/analysis.go    |  6 ++++++
 internal/typesutil/predicates.go | 35 +++++++++++++-------------------
 2 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index d5c31bd..d887332 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -2168,6 +2168,9 @@ func isBoolType(typ types.Type) bool {
 
 // isErrorHandler reports whether or not the given type implements the gosql.ErrorHandler interface.
 func isErrorHandler(typ types.Type) bool {
+	if ptr, ok := typ.(*types.Pointer); ok && !types.IsInterface(ptr.Elem()) {
+		typ = ptr.Elem()
+	}
 	named, ok := typ.(*types.Named)
 	if !ok {
 		return false
@@ -2177,6 +2180,9 @@ func isErrorHandler(typ types.Type) bool {
 
 // isErrorInfoHandler reports whether or not the given type implements the gosql.ErrorInfoHandler interface.
 func isErrorInfoHandler(typ types.Type) bool {
+	if ptr, ok := typ.(*types.Pointer); ok && !types.IsInterface(ptr.Elem()) {
+		typ = ptr.Elem()
+	}
 	named, ok := typ.(*types.Named)
 	if !ok {
 		return false
diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index d23c295..3ce7ffb 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -257,29 +257,28 @@ func IsDirective(ident string, typ types.Type) bool {
 	return ok && st.NumFields() == 1 && st.Field(0).Name() == "_isdir"
 }
 
+// lookupMethodSignature returns the signature of the named type's method with
+// the given name, or nil if there is no such method. The methods promoted from
+// embedded fields, and those of interface types, are included in the lookup.
+func lookupMethodSignature(named *types.Named, name string) *types.Signature {
+	obj, _, _ := types.LookupFieldOrMethod(named, true, nil, name)
+	if m, ok := obj.(*types.Func); ok {
+		return m.Type().(*types.Signature)
+	}
+	return nil
+}
+
 // ImplementsAfterScanner reports whether or not the given named type
 // implements the "gosql.AfterScanner" interface.
 func ImplementsAfterScanner(named *types.Named) bool {
-	var sig *types.Signature
-	for i := 0; i < named.NumMethods(); i++ {
-		if m := named.Method(i); m.Name() == "AfterScan" {
-			sig = m.Type().(*types.Signature)
-			break
-		}
-	}
+	sig := lookupMethodSignature(named, "AfterScan")
 	return sig != nil && sig.Params().Len() == 0 && sig.Results().Len() == 0
 }
 
 // ImplementsErrorHandler reports whether or not the given named type
 // implements the "gosql.ErrorHandler" interface.
 func ImplementsErrorHandler(named *types.Named) bool {
-	var sig *types.Signature
-	for i := 0; i < named.NumMethods(); i++ {
-		if m := named.Method(i); m.Name() == "HandleError" {
-			sig = m.Type().(*types.Signature)
-			break
-		}
-	}
+	sig := lookupMethodSignature(named, "HandleError")
 	if sig == nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
 		return false
 	}
@@ -290,13 +289,7 @@ func ImplementsErrorHandler(named *types.Named) bool {
 // ImplementsErrorInfoHandler reports whether or not the given named type
 // implements the "gosql.ErrorInfoHandler" interface.
 func ImplementsErrorInfoHandler(named *types.Named) bool {
-	var sig *types.Signature
-	for i := 0; i < named.NumMethods(); i++ {
-		if m := named.Method(i); m.Name() == "HandleErrorInfo" {
-			sig = m.Type().(*types.Signature)
-			break
-		}
-	}
+	sig := lookupMethodSignature(named, "HandleErrorInfo")
 	if sig == nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
 		return false
 	}
-- 
2.43.0


From efd40a4d026eb8aadbacb9bfec1c7817568bebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 16/36] fix: format the generated code of every file before
 writing any

---
 internal/command/command.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/command/command.go b/internal/command/command.go
index cc94378..c7f0141 100644
--- a/internal/command/command.go
+++ b/internal/command/command.go
@@ -90,6 +90,11 @@ func (cmd *Command) Run() error {
 				return err
 			}
 
+			// make it look pretty
+			if out.src, err = format.Source(out.buf.Bytes()); err != nil {
+				return err
+			}
+
 			outFiles[j] = out
 		}
 		result[i] = outFiles
@@ -126,6 +131,8 @@ type outFile struct {
 	targInfos []*postgres.TargetInfo
 	// the generated code
 	buf bytes.Buffer
+	// the formatted code
+	src []byte
 }
 
 func (cmd *Command) writeOutFile(out *outFile) (err error) {
@@ -140,14 +147,7 @@ func (cmd *Command) writeOutFile(out *outFile) (err error) {
 		}
 	}()
 
-	// make it look pretty
-	bs, err := format.Source(out.buf.Bytes())
-	if err != nil {
-		return err
-	}
-
-	buf := bytes.NewBuffer(bs)
-	if _, err := io.Copy(f, buf); err != nil {
+	if _, err := io.Copy(f, bytes.NewReader(out.src)); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 6b0e32fcce4f4d675c24928687c481a64a80d835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:01 +0000
Subject: [PATCH 17/36] fix: reject literals whose type is not among the loaded
 types

---
 internal/postgres/postgres.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 4e996c3..62b3573 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -966,7 +966,11 @@ func typeCheckComparison(c *checker, ltyp *Type, rtyp *Type, pred analysis.Predi
 			}
 			return errPredicateOperandQuantifier
 		}
-		rtyp = c.db.catalog.Types[rtyp.Elem]
+		elem, ok := c.db.catalog.Types[rtyp.Elem]
+		if !ok {
+			return errColumnComparison
+		}
+		rtyp = elem
 	}
 
 	if ltyp.OID == rtyp.OID {
@@ -2040,7 +2044,11 @@ func typeOfLiteral(c *checker, expr string) (*Type, dbErrorCode) {
 	if err := row.Scan(&typoid); err != nil {
 		return nil, errPredicateLiteralExpr
 	}
-	return c.db.catalog.Types[typoid], 0
+	typ, ok := c.db.catalog.Types[typoid]
+	if !ok { // pseudo type, or a type that's not visible
+		return nil, errPredicateLiteralExpr
+	}
+	return typ, 0
 }
 
 // isLength1Type reports whether or not the given column's type
-- 
2.43.0


From 38eeecd8d2866a7fe72eace31d7dbcf7beee4813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 18/36] fix: do not panic on joins without a condition

---
 internal/generator/generator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 3956ed7..a38d197 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1234,8 +1234,11 @@ func buildSQLTableJoinSlice(g *generator, qs *analysis.QueryStruct) {
 			conds[j] = g.info.Joins[i][j]
 		}
 
-		searchCond, _ := makeSQLBoolValueExprList(g, conds, GO.SelectorExpr{}, false)
+		searchCond, count := makeSQLBoolValueExprList(g, conds, GO.SelectorExpr{}, false)
 		searchCond.ListStyle = false
+		if count == 0 { // no conditions, join every row
+			searchCond.Initial = SQL.TruthPredicate{Predicand: SQL.Literal{"TRUE"}, Truth: SQL.TRUE}
+		}
 
 		join := SQL.TableJoin{}
 		join.Type = sqlJoinType[dir.JoinType]
-- 
2.43.0


From 67818d3a6c7e4c0760bd9c48071ddcec0ffc794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 19/36] fix: do not let literal expressions modify the database

---
 internal/postgres/postgres.go | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 62b3573..13ca1d1 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -4,6 +4,7 @@ package postgres
 // or anything really that should not change after initially inserted).
 
 import (
+	"context"
 	"database/sql"
 	"fmt"
 	"log"
@@ -2037,13 +2038,16 @@ func typeCompatibility(c *checker, ctyp *Type, ftyp analysis.TypeInfo, typmod1 b
 
 // typeOfLiteral returns the type of the given literal expression.
 func typeOfLiteral(c *checker, expr string) (*Type, dbErrorCode) {
-	const pgselectexprtype = `SELECT id::oid FROM pg_typeof(%s) AS id` //`
-
-	var typoid oid.OID
-	row := c.db.QueryRow(fmt.Sprintf(pgselectexprtype, expr))
-	if err := row.Scan(&typoid); err != nil {
+	typoid, err := selectLiteralType(c, fmt.Sprintf(`SELECT id::oid FROM pg_typeof(%s) AS id`, expr)) //`
+	if e, ok := err.(*pq.Error); ok && e.Code.Name() == "read_only_sql_transaction" {
+		// The evaluation of the expression would modify the
+		// database, get the type without the evaluation.
+		typoid, err = selectLiteralType(c, fmt.Sprintf(`SELECT id::oid FROM pg_typeof((SELECT %s WHERE false)) AS id`, expr)) //`
+	}
+	if err != nil {
 		return nil, errPredicateLiteralExpr
 	}
+
 	typ, ok := c.db.catalog.Types[typoid]
 	if !ok { // pseudo type, or a type that's not visible
 		return nil, errPredicateLiteralExpr
@@ -2051,6 +2055,27 @@ func typeOfLiteral(c *checker, expr string) (*Type, dbErrorCode) {
 	return typ, 0
 }
 
+// selectLiteralType executes the given query that selects the type of a literal
+// expression. Since the expression can be anything, the query is executed in
+// a read-only transaction, and as a prepared statement to make sure that the
+// expression does not contain additional statements.
+func selectLiteralType(c *checker, query string) (typoid oid.OID, err error) {
+	tx, err := c.db.BeginTx(context.Background(), &sql.TxOptions{ReadOnly: true})
+	if err != nil {
+		return 0, err
+	}
+	defer tx.Rollback()
+
+	stmt, err := tx.Prepare(query)
+	if err != nil {
+		return 0, err
+	}
+	defer stmt.Close()
+
+	err = stmt.QueryRow().Scan(&typoid)
+	return typoid, err
+}
+
 // isLength1Type reports whether or not the given column's type
 // is a "length 1" type, i.e. char(1), varchar(1), or bit(1)[], etc.
 func isLength1Type(c *checker, col *Column) bool {
-- 
2.43.0


From b3d1033c15eec1bc745e72d24a678c70fb1f8a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 20/36] fix: fail when an input file named with -f does not
 exist

---
 internal/config/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/config/config.go b/internal/config/config.go
index 9f15135..a10d664 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -254,6 +254,9 @@ func (c *Config) Validate() (err error) {
 		if err != nil {
 			return fmt.Errorf("error resolving absolute path of file: %q -- %v", fp, err)
 		}
+		if _, err := os.Stat(abs); err != nil {
+			return fmt.Errorf("error opening input file: %q -- %v", fp, err)
+		}
 		c.InputFiles.Value[i] = abs
 	}
 
-- 
2.43.0


From a48358440672276d5110a8afa7fac5e449c2aa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 21/36] fix: fail when source files of the project cannot be
 read or parsed

---
 internal/search/search.go | 104 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 100 insertions(+), 4 deletions(-)

diff --git a/internal/search/search.go b/internal/search/search.go
index 1fce5a9..d639331 100644
--- a/internal/search/search.go
+++ b/internal/search/search.go
@@ -1,9 +1,12 @@
 package search
 
 import (
+	"bytes"
+	"fmt"
 	"go/ast"
 	"go/token"
 	"go/types"
+	"os"
 	"path/filepath"
 	"regexp"
 	"strings"
@@ -82,6 +85,16 @@ func Search(dir string, recursive bool, filter func(filePath string) bool) (out
 		return nil, err
 	}
 
+	// make sure that the packages, and the project's packages they depend on, were read
+	packages.Visit(pkgs, nil, func(pkg *packages.Package) {
+		if err == nil {
+			err = checkFiles(pkg)
+		}
+	})
+	if err != nil {
+		return nil, err
+	}
+
 	// aggregate matches from all files in all packages
 	for _, pkg := range pkgs {
 		p := new(Package)
@@ -90,14 +103,15 @@ func Search(dir string, recursive bool, filter func(filePath string) bool) (out
 		p.Fset = pkg.Fset
 		p.Info = pkg.TypesInfo
 
-		for i, syn := range pkg.Syntax {
+		for _, syn := range pkg.Syntax {
 			// ignore file?
-			if filePath := pkg.CompiledGoFiles[i]; !filter(filePath) {
+			filePath := syntaxPath(pkg, syn)
+			if filePath == "" || !filter(filePath) {
 				continue
 			}
 
 			f := new(File)
-			f.Path = pkg.CompiledGoFiles[i]
+			f.Path = filePath
 			f.Package = p
 			for _, dec := range syn.Decls {
 				gd, ok := dec.(*ast.GenDecl)
@@ -113,7 +127,7 @@ func Search(dir string, recursive bool, filter func(filePath string) bool) (out
 
 					obj, ok := p.Info.Defs[typeSpec.Name]
 					if !ok {
-						continue
+						return nil, fmt.Errorf("%s: failed to load type %s of package %s", f.Path, typeSpec.Name.Name, p.Path)
 					}
 					typeName, ok := obj.(*types.TypeName)
 					if !ok {
@@ -133,6 +147,9 @@ func Search(dir string, recursive bool, filter func(filePath string) bool) (out
 
 			// add file only if a match was found
 			if len(f.Matches) > 0 {
+				if err := findError(pkg, f.Path, packages.ParseError); err != nil {
+					return nil, err
+				}
 				p.Files = append(p.Files, f)
 			}
 		}
@@ -146,6 +163,85 @@ func Search(dir string, recursive bool, filter func(filePath string) bool) (out
 	return out, nil
 }
 
+// syntaxPath returns the path of the file from which the given syntax tree was parsed.
+// If the file is not a Go source file the result will be empty.
+func syntaxPath(pkg *packages.Package, syn *ast.File) string {
+	if f := pkg.Fset.File(syn.FileStart); f != nil {
+		return f.Name()
+	}
+	return ""
+}
+
+// checkFiles returns an error if a Go file of the given package, or the package
+// as a whole, could not be read by the loader. Packages that do not belong to the
+// main module are not checked.
+func checkFiles(pkg *packages.Package) error {
+	var dir string
+	switch {
+	case len(pkg.GoFiles) > 0:
+		dir = filepath.Dir(pkg.GoFiles[0])
+	case len(pkg.IgnoredFiles) > 0:
+		dir = filepath.Dir(pkg.IgnoredFiles[0])
+	case pkg.Name == "" && len(pkg.Errors) > 0:
+		return pkg.Errors[0]
+	}
+	if dir == "" || pkg.Module == nil || !pkg.Module.Main {
+		return nil
+	}
+
+	// look for files that the loader failed to read
+	loaded := make(map[string]bool)
+	for _, syn := range pkg.Syntax {
+		loaded[syntaxPath(pkg, syn)] = true
+	}
+	for _, filePath := range pkg.CompiledGoFiles {
+		if len(pkg.CompiledGoFiles) <= len(pkg.Syntax) || loaded[filePath] {
+			continue
+		}
+		if err := findError(pkg, filePath, packages.ParseError); err != nil {
+			return err
+		}
+		return fmt.Errorf("%s: failed to load file", filePath)
+	}
+
+	// look for files that were left out by the loader
+	for _, files := range [][]string{pkg.GoFiles, pkg.CompiledGoFiles, pkg.IgnoredFiles} {
+		for _, filePath := range files {
+			loaded[filePath] = true
+		}
+	}
+	entries, err := os.ReadDir(dir)
+	if err != nil {
+		return err
+	}
+	for _, e := range entries {
+		name, filePath := e.Name(), filepath.Join(dir, e.Name())
+		if e.IsDir() || name[0] == '_' || name[0] == '.' || !strings.HasSuffix(name, ".go") ||
+			strings.HasSuffix(name, "_test.go") || loaded[filePath] {
+			continue
+		}
+		data, err := os.ReadFile(filePath)
+		if err != nil {
+			return err
+		}
+		// a damaged file is no source
+		if bytes.IndexByte(data, 0) < 0 {
+			return fmt.Errorf("%s: failed to load file", filePath)
+		}
+	}
+	return nil
+}
+
+// findError returns the package's first error of the given kind that is positioned in the given file.
+func findError(pkg *packages.Package, filePath string, kind packages.ErrorKind) error {
+	for _, err := range pkg.Errors {
+		if err.Kind == kind && strings.HasPrefix(err.Pos, filePath+":") {
+			return err
+		}
+	}
+	return nil
+}
+
 // hasIgnoreDirective reports whether or not the given documentation contains the "gosql:ignore" directive.
 func hasIgnoreDirective(doc *ast.CommentGroup) bool {
 	if doc != nil {
-- 
2.43.0


From 6bb823fce96b767141b9459082ec432c9b1c45fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 22/36] fix: replace output files as a whole

---
 internal/command/command.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/command/command.go b/internal/command/command.go
index c7f0141..bc03766 100644
--- a/internal/command/command.go
+++ b/internal/command/command.go
@@ -135,21 +135,29 @@ type outFile struct {
 	src []byte
 }
 
+// writeOutFile replaces the output file as a whole, so that an interrupted run
+// can leave behind only the complete old, or the complete new, output.
 func (cmd *Command) writeOutFile(out *outFile) (err error) {
-	f, err := os.Create(out.path)
+	tmp := out.path + ".tmp"
+	f, err := os.Create(tmp)
 	if err != nil {
 		return err
 	}
 	defer func() {
 		f.Close()
 		if err != nil {
-			os.Remove(out.path)
+			os.Remove(tmp)
 		}
 	}()
 
 	if _, err := io.Copy(f, bytes.NewReader(out.src)); err != nil {
 		return err
 	}
-
-	return f.Sync()
+	if err := f.Sync(); err != nil {
+		return err
+	}
+	if err := f.Close(); err != nil {
+		return err
+	}
+	return os.Rename(tmp, out.path)
 }
-- 
2.43.0


From 90588a64977966e3bcdae26489a0de4509a2218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 23/36] fix: use ".gosql" when the project also has a
 ".gosql.json"

---
 internal/config/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index a10d664..ec6aae6 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -327,7 +327,8 @@ func examineDir(path string) (isRoot bool, confName string, err error) {
 		if name == ".git" && info.IsDir() {
 			isRoot = true
 		}
-		if (name == ".gosql" || name == ".gosql.json") && !info.IsDir() {
+		// if both are present then ".gosql" is used, regardless of the order in the directory
+		if (name == ".gosql" || name == ".gosql.json" && confName == "") && !info.IsDir() {
 			confName = name
 		}
 	}
-- 
2.43.0


From 702631f55b11e2f02337f12f44b3bbcdae869f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 24/36] fix: make the choice among operators and procedures
 deterministic

---
 internal/postgres/postgres.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 13ca1d1..82f2288 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"log"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -761,11 +762,17 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 		}
 	}
 
-	var comp *compentry
+	// sort the candidates so that the result doesn't depend on the map's iteration order
+	var keys []OpKey
 	for key := range c.db.catalog.Operators {
-		if key.Name != oprname || key.Left != coid {
-			continue
+		if key.Name == oprname && key.Left == coid {
+			keys = append(keys, key)
 		}
+	}
+	sort.Slice(keys, func(i, j int) bool { return keys[i].Right < keys[j].Right })
+
+	var comp *compentry
+	for _, key := range keys {
 
 		typ, ok := c.db.catalog.Types[key.Right]
 		if !ok {
@@ -1738,7 +1745,7 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 		WHERE p.pronargs = 1
 		AND p.proname NOT LIKE 'pg_%'
 		AND p.proname NOT LIKE '_pg_%'
-		` //`
+		ORDER BY p.oid` //`
 	} else {
 		// pre v11
 		selectProcs = `SELECT
@@ -1751,7 +1758,7 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 		WHERE p.pronargs = 1
 		AND p.proname NOT LIKE 'pg_%'
 		AND p.proname NOT LIKE '_pg_%'
-		` //`
+		ORDER BY p.oid` //`
 	}
 	rows, err = db.Query(selectProcs)
 	if err != nil {
-- 
2.43.0


From e071a438f781e5c16a8e7cf9afdcd01e033e026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 25/36] fix: report the original error of failed database
 operations

---
 internal/postgres/errors.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index adf1e1b..f1c725e 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -267,7 +267,7 @@ var error_template_string = `
 Helper templates
 --------------------------------------------------------------------------------
 {{ define "external_error_issue" }}
-    - original error message: "{{Wb .Error.Error}}"
+    - original error message: "{{Wb .Err.Error}}"
     - please consider opening an issue if the error persists.
 {{ end }}
 
@@ -284,7 +284,7 @@ Database error templates
 {{ define "` + errDatabaseOpen.name() + `" -}}
 ERROR: {{Y "Failed to initialize database connection."}}
     An error occurred during the initialization of the database connection for the provided DSN "{{R .DB.DSN}}".
-    - original error message: "{{Wb .Error.Error}}"
+    - original error message: "{{Wb .Err.Error}}"
 {{ end }}
 
 {{ define "` + errDatabaseInit.name() + `" -}}
@@ -380,7 +380,7 @@ Relation error templates
 {{ define "` + errRelationColumnUnknownType.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Unknown column type."}}
     {{W "github.com/frk/gosql"}} is unable to retrieve the type information for column "{{R .Col.Name}}" in relation "{{R .Rel.Ref}}".
-    The column type's OID: {{R .Col.TypeOID}}
+    The column type's OID: {{R (printf "%d" .Col.TypeOID)}}
     Please consider opening an issue if the error persists.
 {{ end }}
 
-- 
2.43.0


From 655b2e28718b5c16de01931103461f7ee57691eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 26/36] fix: refuse to overwrite input files with the output

---
 internal/command/command.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/command/command.go b/internal/command/command.go
index bc03766..e3a5134 100644
--- a/internal/command/command.go
+++ b/internal/command/command.go
@@ -60,6 +60,21 @@ func (cmd *Command) Run() error {
 		return err
 	}
 
+	// the output must not replace the input
+	inPaths := make(map[string]bool)
+	for _, pkg := range pkgs {
+		for _, file := range pkg.Files {
+			inPaths[file.Path] = true
+		}
+	}
+	for _, pkg := range pkgs {
+		for _, file := range pkg.Files {
+			if path := cmd.outFilePath(file.Path); inPaths[path] {
+				return fmt.Errorf("the output of %q would overwrite the input file %q", file.Path, path)
+			}
+		}
+	}
+
 	result := make([][]*outFile, len(pkgs))
 	for i, pkg := range pkgs {
 		outFiles := make([]*outFile, len(pkg.Files))
-- 
2.43.0


From 34e5b3d8ae7e5538205334d127e2fb2f92bcaf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 27/36] fix: forget the filter value converters of previous
 configs

---
 internal/analysis/analysis.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index d887332..2ed3587 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -2379,6 +2379,7 @@ var relTypeCache = struct {
 var filterValueConverters = map[string]*Identifier{}
 
 func AnalyzeFilterValueConverters(cfg config.Config) error {
+	filterValueConverters = make(map[string]*Identifier) // drop those of other configs
 	for _, fvc := range cfg.FilterValueConverters {
 		key := fvc.Type.PkgPath + "." + fvc.Type.Name
 		filterValueConverters[key] = &Identifier{
-- 
2.43.0


From 88a718f32a95fd8a5022c8b1aeeb93ba02d0d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:16 +0000
Subject: [PATCH 28/36] fix: initialise pointer structs whose field paths only
 differ in where one name ends

The key of the set of initialised pointers was the concatenation of the
field names, so of N.E and NE, both pointers, only the first was set and
scanning into the other dereferenced nil.
---
 internal/generator/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index a38d197..78117ef 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -535,7 +535,7 @@ func buildQueryOutputInitFields(g *generator, qs *analysis.QueryStruct) {
 
 		fx := g.outputVar
 		for _, node := range fr.Field.Selector {
-			key += node.Name
+			key += "." + node.Name
 
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
 			if node.IsPointer && !done[key] {
-- 
2.43.0


From 87aee7456f1f09155501c88b59179ae5879964d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 29/36] fix: do not panic on an empty option in a field's sql
 tag

---
 internal/analysis/fieldmode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/analysis/fieldmode.go b/internal/analysis/fieldmode.go
index 1fb9386..194389f 100644
--- a/internal/analysis/fieldmode.go
+++ b/internal/analysis/fieldmode.go
@@ -30,6 +30,10 @@ func parseFieldMode(t tagutil.Tag) (m FieldMode) {
 	}
 
 	for _, opt := range tag[1:] {
+		if len(opt) == 0 { // e.g. a trailing comma
+			continue
+		}
+
 		////////////////////////////////////////////////////////////////
 		// handle deprecated field options
 		switch opt {
-- 
2.43.0


From 0193442dcc40f0c1f9fae3510763dbf54dcf31d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:31 +0000
Subject: [PATCH 30/36] fix: reject a where block without conditions instead of
 panicking

---
 internal/analysis/analysis.go | 6 ++++++
 internal/analysis/error.go    | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 2ed3587..4d465ef 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1023,6 +1023,12 @@ stackloop:
 			loop.items = append(loop.items, item)
 		}
 
+		// A block without a condition cannot be turned into SQL, and it
+		// must not be mistaken for one that matches every row.
+		if len(loop.items) == 0 {
+			return a.error(errMissingWhereCondition, f, "", tag, "", "")
+		}
+
 		if loop.where != nil {
 			loop.where.Items = loop.items
 		}
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index 20334a3..7ce7db6 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -221,6 +221,7 @@ const (
 	errMissingTagColumnList
 	errMissingOnConflictTarget
 	errMissingFilterConstructor
+	errMissingWhereCondition
 	errBadIdentTagValue
 	errBadColIdTagValue
 	errBadRelIdTagValue
@@ -436,6 +437,13 @@ var error_template_string = `
     {{Wb "FIX:"}} Make sure that the {{R .TargetName}} struct type has {{Wu "exactly one"}} field that implements the "gosql.FilterConstructor" interface.
 {{ end }}
 
+{{ define "` + errMissingWhereCondition.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Missing \"where\" condition."}}
+    The field {{R .FieldDefinition}} in {{Wb .TargetName}}, or a struct nested in it, has no fields that produce a search condition.
+    {{Wb "HINT:"}} Fields without an "{{W "sql"}}" tag are ignored.
+    {{Wb "FIX:"}} Add a condition to the struct, or remove the struct.
+{{ end }}
+
 {{ define "` + errBadIdentTagValue.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Bad identifier value in tag."}}
     The "sql" tag value {{R .TagValueSqlFirst}} in {{R .FieldDefinition}} from {{Wb .TargetName}} is an invalid {{Wi "identifier"}}.
-- 
2.43.0


From f8527de0d6550453bb1bda177660fecff596556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:52 +0000
Subject: [PATCH 31/36] fix: reject an update without a search condition and
 without primary key fields instead of panicking

---
 internal/postgres/errors.go   | 7 +++++++
 internal/postgres/postgres.go | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index f1c725e..14d2eaa 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -39,6 +39,7 @@ const (
 	errRelationConstraintScan    // TODO
 	errRelationIndexGet          // TODO
 	errRelationIndexScan         // TODO
+	errRelationPrimaryKeyUnset
 
 	// column errors
 	errColumnUnknown
@@ -408,6 +409,12 @@ Relation error templates
     {{- template "external_error_issue" . }}
 {{ end }}
 
+{{ define "` + errRelationPrimaryKeyUnset.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Primary key not set."}}
+    The rows of the relation "{{R .Rel.Name}}" to be updated with "{{R .Field.Definition}}" cannot be identified.
+    - without a search condition the field's type MUST have a field for a {{Wb "PRIMARY KEY"}} column.
+{{ end }}
+
 --------------------------------------------------------------------------------
 Column error templates
 --------------------------------------------------------------------------------
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 82f2288..b2d828b 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -432,6 +432,8 @@ func typeCheckQueryResultField(c *checker, qs *analysis.QueryStruct) error {
 //   - If the query represents an INSERT or UPDATE:
 //     ✅ Each field of the query's struct data type MUST be of a type that
 //     is writeable to the corresponding column.
+//   - If the query represents an UPDATE without a search condition:
+//     ✅ The struct data type MUST have a field for a primary key column.
 func typeCheckQueryRelField(c *checker, qs *analysis.QueryStruct) error {
 	if qs.Rel == nil || qs.Rel.IsDirective {
 		return nil
@@ -471,6 +473,13 @@ func typeCheckQueryRelField(c *checker, qs *analysis.QueryStruct) error {
 				}
 			}
 		}
+
+		// ✅ If the rows to be updated are to be identified by their
+		// primary keys, then there MUST be at least one such key.
+		if qs.IsUpdateWithPKeys() && len(c.res.PKeys) == 0 {
+			return c.dbError(dbError{Code: errRelationPrimaryKeyUnset,
+				Rel: relInfo{Relation: c.rel}}, qs.Rel)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From e2f7587a44f36ef6044ed94990776c9830a6a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 32/36] fix: batch updates put DEFAULT into the list of values,
 where PostgreSQL refuses it

---
 internal/generator/generator.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 78117ef..795bddf 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -297,7 +297,13 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 
 	for _, fw := range g.info.Writes {
 		if canUseDefault(qs, fw.Field) {
-			g.inputVals = append(g.inputVals, SQL.DEFAULT)
+			// DEFAULT isn't allowed in the VALUES list of the FROM clause,
+			// it has to be assigned to the column directly.
+			if qs.IsUpdateSlice() {
+				g.updateCols = append(g.updateCols, SQL.DEFAULT)
+			} else {
+				g.inputVals = append(g.inputVals, SQL.DEFAULT)
+			}
 			continue
 		}
 
@@ -1008,7 +1014,13 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	if qs.Rel.Type.IsSlice {
 		stmt.Head.From.List = append(stmt.Head.From.List, SQL.ValuesListClausePartial{})
 
-		columns := append(g.inputCols, g.inputColsPKeys...)
+		var columns SQL.NameGroup
+		for _, fw := range g.info.Writes {
+			if !canUseDefault(qs, fw.Field) {
+				columns = append(columns, SQL.Name(fw.Column.Name))
+			}
+		}
+		columns = append(columns, g.inputColsPKeys...)
 		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
 		tail := SQL.UpdateTail{Where: g.whereClause}
 		if qs.Result != nil {
@@ -2064,10 +2076,11 @@ func buildQueryResultRowsScan(g *generator, qs *analysis.QueryStruct) {
 //
 
 func inputPKeys(t *postgres.TargetInfo) (out []*postgres.FieldWrite) {
+	qs, _ := t.Struct.(*analysis.QueryStruct)
 	for i := 0; i < len(t.PKeys); i++ {
 		elide := false
 		for j := 0; j < len(t.Writes); j++ {
-			if t.Writes[j].Field == t.PKeys[i].Field {
+			if t.Writes[j].Field == t.PKeys[i].Field && (qs == nil || !canUseDefault(qs, t.Writes[j].Field)) {
 				elide = true
 			}
 		}
-- 
2.43.0


From 1bfbad0550dafbccb2251b821b961c9a12a708dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:40 +0000
Subject: [PATCH 33/36] fix: default of a Limit or Offset field set too late if
 the query has IN conditions

The params of a query with IN conditions are built together with the query
string, before the fallback values were assigned, so that an unset Limit or
Offset field was sent as 0 instead of its default.
---
 internal/generator/generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 795bddf..c72412f 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -239,6 +239,12 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 		g.queryResultStmt,
 	}
 
+	if len(g.inputSliceArgs) > 0 && len(g.queryLimitAndOffsetFallback) > 1 {
+		// here the query string's statements also build the params, the
+		// fallback values have to be set before that.
+		method.Body.List[0], method.Body.List[1] = method.Body.List[1], method.Body.List[0]
+	}
+
 	if g.cfg.MethodWithContext.Value {
 		ctxType := GO.TypeNode(GO.QualifiedIdent{"context", "Context"})
 		method.Type.Params = GO.ParamList{
-- 
2.43.0


From 2094b85e51297ebc55c851282674e677f9632d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:00 +0000
Subject: [PATCH 34/36] fix: LIMIT and OFFSET of a filtered select were placed
 in front of the filter's clauses

The resulting statement was a syntax error as soon as the filter had a
condition. The LIMIT 1 that is added for a single record is left to the
filter, which may have a limit of its own.
---
 internal/generator/generator.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index c72412f..5a3cac0 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1060,6 +1060,23 @@ func buildSQLSelectStatement(g *generator, qs *analysis.QueryStruct) {
 	}
 	stmt.Where = g.whereClause
 	stmt.Order = g.orderClause
+
+	if qs.Filter != nil {
+		// the LIMIT and OFFSET clauses have to follow the clauses of the filter
+		var tail SQL.NodeList
+		if g.limitClause.Value != nil {
+			tail = append(tail, g.limitClause)
+		}
+		if g.offsetClause.Value != nil {
+			tail = append(tail, g.offsetClause)
+		}
+		if len(tail) > 0 {
+			g.sqlTailNode = tail
+		}
+		g.sqlMainNode = stmt
+		return
+	}
+
 	stmt.Limit = g.limitClause
 	stmt.Offset = g.offsetClause
 	g.sqlMainNode = stmt
@@ -1138,7 +1155,8 @@ func buildSQLLimitClause(g *generator, qs *analysis.QueryStruct) {
 		// In case the QueryStruct doesn't have a "limit" field, but the relation
 		// field handles only a single record (i.e. it's not a slice, etc.)
 		// then, by default, generate a `LIMIT 1` clause.
-		if typ := qs.Rel.Type; !typ.IsArray && !typ.IsSlice && !typ.IsIter {
+		// A filter may have a limit of its own.
+		if typ := qs.Rel.Type; !typ.IsArray && !typ.IsSlice && !typ.IsIter && qs.Filter == nil {
 			g.limitClause.Value = SQL.LimitInt(1)
 		}
 		return
@@ -1783,7 +1801,7 @@ func buildQueryStringForFilter(g *generator, qs *analysis.QueryStruct) {
 }
 
 func buildQueryFilterParams(g *generator, qs *analysis.QueryStruct) {
-	if qs.Filter == nil || qs.Kind != analysis.QueryKindUpdate {
+	if qs.Filter == nil || (qs.Kind != analysis.QueryKindUpdate && len(g.inputArgs) == 0) {
 		g.queryFilterParams = GO.NoOp{}
 		return
 	}
-- 
2.43.0


From c47a2e15620542ff40b86a1fca079c72511afc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:37 +0000
Subject: [PATCH 35/36] fix: batch updates of a relation with the alias x named
 the list of values x as well

---
 internal/generator/generator.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 5a3cac0..c572449 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -316,7 +316,7 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 		if qs.IsUpdateSlice() {
 			col := SQL.ColumnIdent{}
 			col.Name = SQL.Name(fw.Column.Name)
-			col.Qual = "x"
+			col.Qual = valuesListAlias(qs)
 			g.updateCols = append(g.updateCols, col)
 
 			var expr SQL.ValueExpr
@@ -1027,7 +1027,7 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 			}
 		}
 		columns = append(columns, g.inputColsPKeys...)
-		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
+		alias := SQL.ValuesListAliasPartial{Alias: valuesListAlias(qs), Columns: columns}
 		tail := SQL.UpdateTail{Where: g.whereClause}
 		if qs.Result != nil {
 			tail.Returning = SQL.ReturningClause(g.outputVals)
@@ -1238,7 +1238,7 @@ func buildSQLWhereClause(g *generator, qs *analysis.QueryStruct) {
 			predicate.RPredicand = makeParamSpec(g, fw.Field)
 
 			if qs.Rel.Type.IsSlice {
-				col := SQL.ColumnIdent{Qual: "x", Name: SQL.Name(fw.ColIdent.Name)}
+				col := SQL.ColumnIdent{Qual: valuesListAlias(qs), Name: SQL.Name(fw.ColIdent.Name)}
 				predicate.RPredicand = SQL.CastExpr{Expr: col, Type: fw.Column.Type.NameFmt}
 			}
 
@@ -2372,6 +2372,19 @@ func makeTargetColRef(qs *analysis.QueryStruct, id analysis.ColIdent) SQL.Column
 	return ref
 }
 
+// valuesListAlias returns the alias for the values list of a batch update. The
+// alias must differ from the identifier of the target relation.
+func valuesListAlias(qs *analysis.QueryStruct) string {
+	target := qs.Rel.Id.Alias
+	if len(target) == 0 {
+		target = qs.Rel.Id.Name
+	}
+	if strings.EqualFold(target, "x") {
+		return "x1"
+	}
+	return "x"
+}
+
 // makeRelIdent
 func makeRelIdent(id analysis.RelIdent) SQL.Ident {
 	return SQL.Ident{
-- 
2.43.0


From b2fc302fbd8c0de343873afe54a313523ffaa25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:53 +0000
Subject: [PATCH 36/36] fix: batch updates of nullable enum columns sent the
 values without a type, which PostgreSQL refuses

---
 internal/generator/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index c572449..6c0e8cf 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -321,7 +321,7 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 
 			var expr SQL.ValueExpr
 			expr = makeParamSpec(g, fw.Field)
-			if fw.NeedsNULLIF() {
+			if _, ok := fw.Column.Type.ZeroValueLiteral(); ok && fw.NeedsNULLIF() {
 				expr = addNULLIFCallExpr(expr, fw.Column)
 			} else {
 				cast := SQL.CastExpr{}
-- 
2.43.0

