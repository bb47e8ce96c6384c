From 264b2c33b0434f7435dcefc6a070fed8eb56e833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 01/90] fix: read vectors with quoted or unquoted last elements

pgParseVector split quoted lexemes that contain a space, and
pgParseVectorArray repeated the tail of an unquoted last element and
did not unescape quoted ones.
---
 pgsql/convert_util.go | 49 ++++++++++++-------------------------------
 1 file changed, 13 insertions(+), 36 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 2a8fd1a..2a1003e 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -623,11 +623,15 @@ func pgParseCommaArray(a []byte) (out [][]byte) {
 	return out
 }
 
-// Expected format: 'E[ ...]' (space separated list of elements).
+// Expected format: 'E[ ...]' (space separated list of elements, a space
+// that's inside single quotes is part of the element).
 func pgParseVector(a []byte) (out [][]byte) {
 	var j int
+	var quoted bool
 	for i := 0; i < len(a); i++ {
-		if a[i] == ' ' {
+		if a[i] == '\'' {
+			quoted = !quoted
+		} else if a[i] == ' ' && !quoted {
 			out = append(out, a[j:i])
 			j = i + 1
 		}
@@ -644,41 +648,14 @@ func pgParseVectorArray(a []byte) (out [][][]byte) {
 	if len(a) == 0 {
 		return out // nothing to do if empty
 	}
-	a = a[1 : len(a)-1] // drop array delimiters
 
-	for i := 0; i < len(a); i++ {
-		switch a[i] {
-		case '"': // quoted element
-			vector := [][]byte{}
-
-			k := i + 1 // vector start
-			for j := k; j < len(a); j++ {
-				if a[j] == '"' { // vector end
-					vector = append(vector, a[k:j])
-					i = j + 1
-					break
-				}
-				if a[j] == ' ' {
-					vector = append(vector, a[k:j])
-					k = j + 1
-				}
-			}
-
-			out = append(out, vector)
-		case 'N': // NULL element?
-			if len(a) > i+3 && string(a[i:i+4]) == `NULL` {
-				out = append(out, [][]byte(nil))
-				i = i + 3
-			}
-		default: // unquoted element
-			k, j := i, i // elem start
-			for ; j < len(a); j++ {
-				if a[j] == ',' { // elem end
-					i = j
-					break
-				}
-			}
-			out = append(out, [][]byte{a[k:j]})
+	for _, elem := range pgParseStringArray(a) {
+		if elem == nil { // NULL element?
+			out = append(out, [][]byte(nil))
+		} else if len(elem) == 0 { // empty vector?
+			out = append(out, [][]byte{})
+		} else {
+			out = append(out, pgParseVector(elem))
 		}
 	}
 
-- 
2.43.0


From b548b14b21d75145b5d1654b8472e929dcb6b560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 02/90] fix: write empty and NULL elements of an int2vector
 array

An element without numbers overwrote its own opening quote, which made the
array literal malformed.
---
 pgsql/int2vectorarr.go | 132 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 132 insertions(+)

diff --git a/pgsql/int2vectorarr.go b/pgsql/int2vectorarr.go
index d4f980d..8e0c3d7 100644
--- a/pgsql/int2vectorarr.go
+++ b/pgsql/int2vectorarr.go
@@ -140,6 +140,14 @@ func (v int2VectorArrayFromIntSliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, ints := range v.val {
+		if ints == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(ints) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i := range ints {
 			out = strconv.AppendInt(out, int64(i), 10)
@@ -169,6 +177,9 @@ func (v int2VectorArrayToIntSliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	intss := make([][]int, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
 		ints := make([]int, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -198,6 +209,14 @@ func (v int2VectorArrayFromInt8SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int8s := range v.val {
+		if int8s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(int8s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i8 := range int8s {
 			out = strconv.AppendInt(out, int64(i8), 10)
@@ -227,6 +246,9 @@ func (v int2VectorArrayToInt8SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	int8ss := make([][]int8, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
 		int8s := make([]int8, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 8)
@@ -256,6 +278,14 @@ func (v int2VectorArrayFromInt16SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int16s := range v.val {
+		if int16s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(int16s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i16 := range int16s {
 			out = strconv.AppendInt(out, int64(i16), 10)
@@ -285,6 +315,9 @@ func (v int2VectorArrayToInt16SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	int16ss := make([][]int16, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
 		int16s := make([]int16, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -314,6 +347,14 @@ func (v int2VectorArrayFromInt32SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int32s := range v.val {
+		if int32s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(int32s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i32 := range int32s {
 			out = strconv.AppendInt(out, int64(i32), 10)
@@ -343,6 +384,9 @@ func (v int2VectorArrayToInt32SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	int32ss := make([][]int32, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
 		int32s := make([]int32, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -372,6 +416,14 @@ func (v int2VectorArrayFromInt64SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int64s := range v.val {
+		if int64s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(int64s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i64 := range int64s {
 			out = strconv.AppendInt(out, i64, 10)
@@ -401,6 +453,9 @@ func (v int2VectorArrayToInt64SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	int64ss := make([][]int64, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
 		int64s := make([]int64, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -430,6 +485,14 @@ func (v int2VectorArrayFromUintSliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uints := range v.val {
+		if uints == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(uints) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u := range uints {
 			out = strconv.AppendUint(out, uint64(u), 10)
@@ -459,6 +522,9 @@ func (v int2VectorArrayToUintSliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uintss := make([][]uint, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
 		uints := make([]uint, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 16)
@@ -488,6 +554,14 @@ func (v int2VectorArrayFromUint8SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint8s := range v.val {
+		if uint8s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(uint8s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u8 := range uint8s {
 			out = strconv.AppendUint(out, uint64(u8), 10)
@@ -517,6 +591,9 @@ func (v int2VectorArrayToUint8SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uint8ss := make([][]uint8, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
 		uint8s := make([]uint8, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 8)
@@ -546,6 +623,14 @@ func (v int2VectorArrayFromUint16SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint16s := range v.val {
+		if uint16s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(uint16s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u16 := range uint16s {
 			out = strconv.AppendUint(out, uint64(u16), 10)
@@ -575,6 +660,9 @@ func (v int2VectorArrayToUint16SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uint16ss := make([][]uint16, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
 		uint16s := make([]uint16, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 16)
@@ -604,6 +692,14 @@ func (v int2VectorArrayFromUint32SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint32s := range v.val {
+		if uint32s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(uint32s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u32 := range uint32s {
 			out = strconv.AppendUint(out, uint64(u32), 10)
@@ -633,6 +729,9 @@ func (v int2VectorArrayToUint32SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uint32ss := make([][]uint32, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
 		uint32s := make([]uint32, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 16)
@@ -662,6 +761,14 @@ func (v int2VectorArrayFromUint64SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint64s := range v.val {
+		if uint64s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(uint64s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u64 := range uint64s {
 			out = strconv.AppendUint(out, u64, 10)
@@ -691,6 +798,9 @@ func (v int2VectorArrayToUint64SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uint64ss := make([][]uint64, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
 		uint64s := make([]uint64, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 16)
@@ -720,6 +830,14 @@ func (v int2VectorArrayFromFloat32SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, float32s := range v.val {
+		if float32s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(float32s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, f32 := range float32s {
 			out = strconv.AppendInt(out, int64(f32), 10)
@@ -749,6 +867,9 @@ func (v int2VectorArrayToFloat32SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	float32ss := make([][]float32, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
 		float32s := make([]float32, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -778,6 +899,14 @@ func (v int2VectorArrayFromFloat64SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, float64s := range v.val {
+		if float64s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(float64s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, f64 := range float64s {
 			out = strconv.AppendInt(out, int64(f64), 10)
@@ -807,6 +936,9 @@ func (v int2VectorArrayToFloat64SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	float64ss := make([][]float64, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
 		float64s := make([]float64, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
-- 
2.43.0


From c3023aa9ecf3dcd967560b799962639b6fbf75a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 03/90] fix: keep the fractions of float numeric ranges

The float bounds of a numrange were written, and parsed, as integers.
---
 pgsql/numrange.go    | 24 ++++++++++++------------
 pgsql/numrangearr.go | 24 ++++++++++++------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/pgsql/numrange.go b/pgsql/numrange.go
index 407a48b..9c42ff6 100644
--- a/pgsql/numrange.go
+++ b/pgsql/numrange.go
@@ -562,9 +562,9 @@ type numRangeFromFloat32Array2 struct {
 
 func (v numRangeFromFloat32Array2) Value() (driver.Value, error) {
 	out := []byte{'['}
-	out = strconv.AppendInt(out, int64(v.val[0]), 10)
+	out = strconv.AppendFloat(out, float64(v.val[0]), 'f', -1, 32)
 	out = append(out, ',')
-	out = strconv.AppendInt(out, int64(v.val[1]), 10)
+	out = strconv.AppendFloat(out, float64(v.val[1]), 'f', -1, 32)
 	out = append(out, ')')
 	return out, nil
 }
@@ -581,15 +581,15 @@ func (v numRangeToFloat32Array2) Scan(src interface{}) error {
 		return nil
 	}
 
-	var lo, hi int64
+	var lo, hi float64
 	elems := pgParseRange(data)
 	if len(elems[0]) > 0 {
-		if lo, err = strconv.ParseInt(string(elems[0]), 10, 64); err != nil {
+		if lo, err = strconv.ParseFloat(string(elems[0]), 32); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		if hi, err = strconv.ParseInt(string(elems[1]), 10, 64); err != nil {
+		if hi, err = strconv.ParseFloat(string(elems[1]), 32); err != nil {
 			return err
 		}
 	}
@@ -605,9 +605,9 @@ type numRangeFromFloat64Array2 struct {
 
 func (v numRangeFromFloat64Array2) Value() (driver.Value, error) {
 	out := []byte{'['}
-	out = strconv.AppendInt(out, int64(v.val[0]), 10)
+	out = strconv.AppendFloat(out, v.val[0], 'f', -1, 64)
 	out = append(out, ',')
-	out = strconv.AppendInt(out, int64(v.val[1]), 10)
+	out = strconv.AppendFloat(out, v.val[1], 'f', -1, 64)
 	out = append(out, ')')
 	return out, nil
 }
@@ -624,20 +624,20 @@ func (v numRangeToFloat64Array2) Scan(src interface{}) error {
 		return nil
 	}
 
-	var lo, hi int64
+	var lo, hi float64
 	elems := pgParseRange(data)
 	if len(elems[0]) > 0 {
-		if lo, err = strconv.ParseInt(string(elems[0]), 10, 64); err != nil {
+		if lo, err = strconv.ParseFloat(string(elems[0]), 64); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		if hi, err = strconv.ParseInt(string(elems[1]), 10, 64); err != nil {
+		if hi, err = strconv.ParseFloat(string(elems[1]), 64); err != nil {
 			return err
 		}
 	}
 
-	v.val[0] = float64(lo)
-	v.val[1] = float64(hi)
+	v.val[0] = lo
+	v.val[1] = hi
 	return nil
 }
diff --git a/pgsql/numrangearr.go b/pgsql/numrangearr.go
index 81557f0..40712b2 100644
--- a/pgsql/numrangearr.go
+++ b/pgsql/numrangearr.go
@@ -771,9 +771,9 @@ func (v numRangeArrayFromFloat32Array2Slice) Value() (driver.Value, error) {
 
 	for _, a := range v.val {
 		out = append(out, '"', '[')
-		out = strconv.AppendInt(out, int64(a[0]), 10)
+		out = strconv.AppendFloat(out, float64(a[0]), 'f', -1, 32)
 		out = append(out, ',')
-		out = strconv.AppendInt(out, int64(a[1]), 10)
+		out = strconv.AppendFloat(out, float64(a[1]), 'f', -1, 32)
 		out = append(out, ')', '"', ',')
 	}
 
@@ -798,15 +798,15 @@ func (v numRangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	ranges := make([][2]float32, len(elems))
 
 	for i, elem := range elems {
-		var lo, hi int64
+		var lo, hi float64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 32); err != nil {
+			if lo, err = strconv.ParseFloat(string(arr[0]), 32); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 32); err != nil {
+			if hi, err = strconv.ParseFloat(string(arr[1]), 32); err != nil {
 				return err
 			}
 		}
@@ -834,9 +834,9 @@ func (v numRangeArrayFromFloat64Array2Slice) Value() (driver.Value, error) {
 
 	for _, a := range v.val {
 		out = append(out, '"', '[')
-		out = strconv.AppendInt(out, int64(a[0]), 10)
+		out = strconv.AppendFloat(out, a[0], 'f', -1, 64)
 		out = append(out, ',')
-		out = strconv.AppendInt(out, int64(a[1]), 10)
+		out = strconv.AppendFloat(out, a[1], 'f', -1, 64)
 		out = append(out, ')', '"', ',')
 	}
 
@@ -861,21 +861,21 @@ func (v numRangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	ranges := make([][2]float64, len(elems))
 
 	for i, elem := range elems {
-		var lo, hi int64
+		var lo, hi float64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 64); err != nil {
+			if lo, err = strconv.ParseFloat(string(arr[0]), 64); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 64); err != nil {
+			if hi, err = strconv.ParseFloat(string(arr[1]), 64); err != nil {
 				return err
 			}
 		}
 
-		ranges[i][0] = float64(lo)
-		ranges[i][1] = float64(hi)
+		ranges[i][0] = lo
+		ranges[i][1] = hi
 	}
 
 	*v.val = ranges
-- 
2.43.0


From 9e770ecfc5a6f3535979442e97d2d9cbdde3b090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 04/90] fix: report numerics that overflow the destination
 instead of wrapping

numeric[] elements were parsed as 64 bit integers and then converted to the
narrower element type of the destination.
---
 pgsql/numericarr.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pgsql/numericarr.go b/pgsql/numericarr.go
index 0398a41..8948c18 100644
--- a/pgsql/numericarr.go
+++ b/pgsql/numericarr.go
@@ -213,7 +213,7 @@ func (v numericArrayToInt8Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int8s := make([]int8, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 10, 64)
+		i64, err := strconv.ParseInt(string(elems[i]), 10, 8)
 		if err != nil {
 			return err
 		}
@@ -262,7 +262,7 @@ func (v numericArrayToInt16Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int16s := make([]int16, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 10, 64)
+		i64, err := strconv.ParseInt(string(elems[i]), 10, 16)
 		if err != nil {
 			return err
 		}
@@ -311,7 +311,7 @@ func (v numericArrayToInt32Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int32s := make([]int32, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 10, 64)
+		i64, err := strconv.ParseInt(string(elems[i]), 10, 32)
 		if err != nil {
 			return err
 		}
@@ -460,7 +460,7 @@ func (v numericArrayToUint8Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint8s := make([]uint8, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 8)
 		if err != nil {
 			return err
 		}
@@ -509,7 +509,7 @@ func (v numericArrayToUint16Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint16s := make([]uint16, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 16)
 		if err != nil {
 			return err
 		}
@@ -558,7 +558,7 @@ func (v numericArrayToUint32Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint32s := make([]uint32, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 32)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 947664497ab52186791dd11e0f4944b9f75c2124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 05/90] fix: read the whole int8 range into uint and float32
 elements

int8[] to []uint and int8range[] to [][2]float32 accepted 32 bit values only.
---
 pgsql/int8arr.go      | 2 +-
 pgsql/int8rangearr.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pgsql/int8arr.go b/pgsql/int8arr.go
index 5999c24..29e119d 100644
--- a/pgsql/int8arr.go
+++ b/pgsql/int8arr.go
@@ -409,7 +409,7 @@ func (v int8ArrayToUintSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uints := make([]uint, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 32)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
 		if err != nil {
 			return err
 		}
diff --git a/pgsql/int8rangearr.go b/pgsql/int8rangearr.go
index 416f928..674e2d4 100644
--- a/pgsql/int8rangearr.go
+++ b/pgsql/int8rangearr.go
@@ -801,12 +801,12 @@ func (v int8RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 		var lo, hi int64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 32); err != nil {
+			if lo, err = strconv.ParseInt(string(arr[0]), 10, 64); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 32); err != nil {
+			if hi, err = strconv.ParseInt(string(arr[1]), 10, 64); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From f5b7ccc93f50d6299680005bdb9a4beb93f14a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 06/90] fix: quote braces and keep control characters in char
 arrays

Braces were written unquoted, which made the array literal malformed, and
bell and backspace characters were dropped.
---
 pgsql/chararr.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pgsql/chararr.go b/pgsql/chararr.go
index c0992be..931c69e 100644
--- a/pgsql/chararr.go
+++ b/pgsql/chararr.go
@@ -60,14 +60,12 @@ func (v charArrayFromString) Value() (driver.Value, error) {
 
 	for _, r := range v.val {
 		switch r {
-		case ' ', '\t', '\r', '\n', '\f', '\v':
+		case ' ', '\a', '\b', '\t', '\r', '\n', '\f', '\v', '{', '}':
 			out = append(out, '"', byte(r), '"', ',')
 		case '"', '\\':
 			out = append(out, '"', '\\', byte(r), '"', ',')
 		case ',':
 			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
 		default:
 			if size := utf8.RuneLen(r); size > 1 {
 				p := make([]byte, size+1, size+1)
@@ -118,14 +116,12 @@ func (v charArrayFromByteSlice) Value() (driver.Value, error) {
 
 	for _, b := range v.val {
 		switch b {
-		case ' ', '\t', '\r', '\n', '\f', '\v':
+		case ' ', '\a', '\b', '\t', '\r', '\n', '\f', '\v', '{', '}':
 			out = append(out, '"', b, '"', ',')
 		case '"', '\\':
 			out = append(out, '"', '\\', b, '"', ',')
 		case ',':
 			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
 		default:
 			out = append(out, b, ',')
 		}
@@ -169,14 +165,12 @@ func (v charArrayFromRuneSlice) Value() (driver.Value, error) {
 
 	for _, r := range v.val {
 		switch r {
-		case ' ', '\t', '\r', '\n', '\f', '\v':
+		case ' ', '\a', '\b', '\t', '\r', '\n', '\f', '\v', '{', '}':
 			out = append(out, '"', byte(r), '"', ',')
 		case '"', '\\':
 			out = append(out, '"', '\\', byte(r), '"', ',')
 		case ',':
 			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
 		default:
 			if size := utf8.RuneLen(r); size > 1 {
 				p := make([]byte, size+1, size+1)
@@ -229,14 +223,12 @@ func (v charArrayFromStringSlice) Value() (driver.Value, error) {
 	for _, v := range v.val {
 		r, size := utf8.DecodeRuneInString(v)
 		switch r {
-		case ' ', '\t', '\r', '\n', '\f', '\v':
+		case ' ', '\a', '\b', '\t', '\r', '\n', '\f', '\v', '{', '}':
 			out = append(out, '"', byte(r), '"', ',')
 		case '"', '\\':
 			out = append(out, '"', '\\', byte(r), '"', ',')
 		case ',':
 			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
 		default:
 			if size > 1 {
 				p := make([]byte, size+1, size+1)
-- 
2.43.0


From 5f6e2036102193e0adfe62852bc57493e0562106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 07/90] fix: tell array elements that begin with NULL from NULL

An unquoted text array element like NULLs was read as NULL followed by
another element.
---
 pgsql/convert_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 2a1003e..4156dee 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -273,7 +273,7 @@ mainloop:
 				}
 			}
 		case 'N': // NULL?
-			if len(a) > i+3 && string(a[i:i+4]) == `NULL` {
+			if len(a) > i+3 && string(a[i:i+4]) == `NULL` && (len(a) == i+4 || a[i+4] == ',') {
 				out = append(out, []byte(nil))
 				i = i + 3
 				continue mainloop
-- 
2.43.0


From a2f2dcbef43f93c521e355791c4b755c42e5e037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 08/90] fix: keep the microseconds of times

The layouts cut times and timestamps down to milliseconds, PostgreSQL stores
microseconds.
---
 pgsql/convert_util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 4156dee..4f7e245 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -8,10 +8,10 @@ import (
 
 const (
 	dateLayout        = "2006-01-02"
-	timeLayout        = "15:04:05.999"
-	timetzLayout      = "15:04:05.999-07:00"
-	timestampLayout   = "2006-01-02 15:04:05.999"
-	timestamptzLayout = "2006-01-02 15:04:05.999-07"
+	timeLayout        = "15:04:05.999999"
+	timetzLayout      = "15:04:05.999999-07:00"
+	timestampLayout   = "2006-01-02 15:04:05.999999"
+	timestamptzLayout = "2006-01-02 15:04:05.999999-07"
 )
 
 var noZone = time.FixedZone("", 0)
-- 
2.43.0


From 766b443e418786d6cf02be3d6ac0789ea5d9c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 09/90] fix: handle time zone offsets that aren't whole hours

The minutes of an offset like +05:30 were dropped when writing, which changed
the instant, and made the value unreadable. Whole hour offsets of a timetz
array, on the other hand, were unreadable because of the missing minutes.
---
 pgsql/convert_util.go   | 16 +++++++++++++++-
 pgsql/timestamptzarr.go |  2 +-
 pgsql/timetzarr.go      |  2 +-
 pgsql/tstzrange.go      |  4 ++--
 pgsql/tstzrangearr.go   |  4 ++--
 5 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 4f7e245..7c23fbd 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -3,6 +3,7 @@ package pgsql
 import (
 	"bytes"
 	"encoding/hex"
+	"strings"
 	"time"
 )
 
@@ -11,7 +12,7 @@ const (
 	timeLayout        = "15:04:05.999999"
 	timetzLayout      = "15:04:05.999999-07:00"
 	timestampLayout   = "2006-01-02 15:04:05.999999"
-	timestamptzLayout = "2006-01-02 15:04:05.999999-07"
+	timestamptzLayout = "2006-01-02 15:04:05.999999-07:00"
 )
 
 var noZone = time.FixedZone("", 0)
@@ -198,6 +199,19 @@ func pgparsehstorearr(a []byte) (out [][][2][]byte) {
 	return out
 }
 
+// pgParseTimetz parses the value according to the layout, which must end with the
+// zone offset "-07:00", the minutes of the offset however can be missing from the
+// value, and they can be followed by the seconds of the offset.
+func pgParseTimetz(layout string, a []byte) (t time.Time, err error) {
+	base := strings.TrimSuffix(layout, "-07:00")
+	for _, zone := range []string{"-07", "-07:00", "-07:00:00"} {
+		if t, err = time.Parse(base+zone, string(a)); err == nil {
+			return t, nil
+		}
+	}
+	return t, err
+}
+
 func pgparsedate(a []byte) (time.Time, error) {
 	return time.ParseInLocation(dateLayout, string(a), time.UTC)
 }
diff --git a/pgsql/timestamptzarr.go b/pgsql/timestamptzarr.go
index 7bd4dc3..c966f23 100644
--- a/pgsql/timestamptzarr.go
+++ b/pgsql/timestamptzarr.go
@@ -66,7 +66,7 @@ func (v timestamptzArrayToTimeSlice) Scan(src interface{}) error {
 		}
 
 		ts = ts[1 : len(ts)-1] // drop surrounding double quotes
-		t, err := time.Parse(timestamptzLayout, string(ts))
+		t, err := pgParseTimetz(timestamptzLayout, ts)
 		if err != nil {
 			return err
 		}
diff --git a/pgsql/timetzarr.go b/pgsql/timetzarr.go
index 101ac5e..68a3c49 100644
--- a/pgsql/timetzarr.go
+++ b/pgsql/timetzarr.go
@@ -57,7 +57,7 @@ func (v timetzArrayToTimeSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	times := make([]time.Time, len(elems))
 	for i := 0; i < len(elems); i++ {
-		t, err := time.Parse(timetzLayout, string(elems[i]))
+		t, err := pgParseTimetz(timetzLayout, elems[i])
 		if err != nil {
 			return err
 		}
diff --git a/pgsql/tstzrange.go b/pgsql/tstzrange.go
index 6e6ac60..75c956e 100644
--- a/pgsql/tstzrange.go
+++ b/pgsql/tstzrange.go
@@ -51,14 +51,14 @@ func (v tstzRangeToTimeArray2) Scan(src interface{}) error {
 	if len(elems[0]) > 0 {
 		s := elems[0]
 		s = s[1 : len(s)-1] // remove surrounding double quotes
-		if lo, err = time.Parse(timestamptzLayout, string(s)); err != nil {
+		if lo, err = pgParseTimetz(timestamptzLayout, s); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
 		s := elems[1]
 		s = s[1 : len(s)-1] // remove surrounding double quotes
-		if hi, err = time.Parse(timestamptzLayout, string(s)); err != nil {
+		if hi, err = pgParseTimetz(timestamptzLayout, s); err != nil {
 			return err
 		}
 	}
diff --git a/pgsql/tstzrangearr.go b/pgsql/tstzrangearr.go
index 04543f8..08c289e 100644
--- a/pgsql/tstzrangearr.go
+++ b/pgsql/tstzrangearr.go
@@ -69,11 +69,11 @@ func (v tstzRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 		a[1] = a[1][2 : len(a[1])-2]
 
 		var t0, t1 time.Time
-		t0, err = time.ParseInLocation(timestamptzLayout, string(a[0]), noZone)
+		t0, err = pgParseTimetz(timestamptzLayout, a[0])
 		if err != nil {
 			return err
 		}
-		t1, err = time.ParseInLocation(timestamptzLayout, string(a[1]), noZone)
+		t1, err = pgParseTimetz(timestamptzLayout, a[1])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 9fcf2776dff060e6a0724618dbd08a9f0ad133a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 10/90] fix: write and read the infinite bounds of timestamp
 ranges

A range without a bound was read as the zero time, but the zero time wasn't
written as an infinite bound, and reading an array with such a range, an empty
range, or a NULL, panicked or lost the element.
---
 pgsql/convert_util.go | 38 ++++++++++++++++++++++++++++++++++++--
 pgsql/tsrange.go      |  9 ++-------
 pgsql/tsrangearr.go   | 30 ++++++++++++++----------------
 pgsql/tstzrange.go    |  9 ++-------
 pgsql/tstzrangearr.go | 30 ++++++++++++++----------------
 5 files changed, 68 insertions(+), 48 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 7c23fbd..d8ad3cd 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -216,7 +216,34 @@ func pgparsedate(a []byte) (time.Time, error) {
 	return time.ParseInLocation(dateLayout, string(a), time.UTC)
 }
 
+// pgAppendTimeRange appends the range of the two timestamps to buf. The zero time.Time
+// stands for an infinite bound. The timestamps are surrounded by the given quote.
+func pgAppendTimeRange(buf []byte, val [2]time.Time, layout, quote string) []byte {
+	if !val[0].IsZero() {
+		buf = append(buf, '[')
+		buf = append(buf, quote...)
+		buf = val[0].AppendFormat(buf, layout)
+		buf = append(buf, quote...)
+	} else {
+		buf = append(buf, '(')
+	}
+
+	buf = append(buf, ',')
+
+	if !val[1].IsZero() {
+		buf = append(buf, quote...)
+		buf = val[1].AppendFormat(buf, layout)
+		buf = append(buf, quote...)
+	}
+
+	return append(buf, ')')
+}
+
 func pgParseRange(a []byte) (out [2][]byte) {
+	if len(a) < 2 { // NULL?
+		return out
+	}
+
 	a = a[1 : len(a)-1] // drop range delimiters
 
 	for i := 0; i < len(a); i++ {
@@ -251,10 +278,17 @@ mainloop:
 			}
 		}
 
-		if a[i] == 'N' { // NULL?
+		// NULL, or an element that doesn't need quotes, e.g. the range "empty"
+		j := i
+		for j < len(a) && a[j] != ',' {
+			j++
+		}
+		if string(a[i:j]) == "NULL" {
 			out = append(out, []byte(nil))
-			i += 4
+		} else {
+			out = append(out, a[i:j])
 		}
+		i = j
 	}
 
 	return out
diff --git a/pgsql/tsrange.go b/pgsql/tsrange.go
index 3171c1b..f38cd0f 100644
--- a/pgsql/tsrange.go
+++ b/pgsql/tsrange.go
@@ -24,13 +24,8 @@ func (v tsRangeFromTimeArray2) Value() (driver.Value, error) {
 	// len(`"yyyy-mm-dd hh:mm:ss"`) == 21
 	size := 3 + (len(v.val) * 21)
 
-	out := make([]byte, 2, size)
-	out[0], out[1] = '[', '"'
-
-	out = append(out, v.val[0].Format(timestampLayout)...)
-	out = append(out, '"', ',', '"')
-	out = append(out, v.val[1].Format(timestampLayout)...)
-	out = append(out, '"', ')')
+	out := make([]byte, 0, size)
+	out = pgAppendTimeRange(out, v.val, timestampLayout, `"`)
 	return out, nil
 }
 
diff --git a/pgsql/tsrangearr.go b/pgsql/tsrangearr.go
index b6312fc..d820008 100644
--- a/pgsql/tsrangearr.go
+++ b/pgsql/tsrangearr.go
@@ -35,11 +35,9 @@ func (v tsRangeArrayFromTimeArray2Slice) Value() (driver.Value, error) {
 	out[0] = '{'
 
 	for _, a := range v.val {
-		out = append(out, '"', '[', '\\', '"')
-		out = append(out, a[0].Format(timestampLayout)...)
-		out = append(out, '\\', '"', ',', '\\', '"')
-		out = append(out, a[1].Format(timestampLayout)...)
-		out = append(out, '\\', '"', ')', '"', ',')
+		out = append(out, '"')
+		out = pgAppendTimeRange(out, a, timestampLayout, `\"`)
+		out = append(out, '"', ',')
 	}
 
 	out[len(out)-1] = '}' // replace last "," with "}"
@@ -59,23 +57,23 @@ func (v tsRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	slice := make([][2]time.Time, len(elems))
 	for i := 0; i < len(elems); i++ {
 		a := pgParseRange(elems[i])
 
-		// drop surrounding escaped double quotes
-		a[0] = a[0][2 : len(a[0])-2]
-		a[1] = a[1][2 : len(a[1])-2]
-
 		var t0, t1 time.Time
-		t0, err = time.ParseInLocation(timestampLayout, string(a[0]), noZone)
-		if err != nil {
-			return err
+		if len(a[0]) > 0 {
+			s := a[0][1 : len(a[0])-1] // drop surrounding double quotes
+			if t0, err = time.ParseInLocation(timestampLayout, string(s), noZone); err != nil {
+				return err
+			}
 		}
-		t1, err = time.ParseInLocation(timestampLayout, string(a[1]), noZone)
-		if err != nil {
-			return err
+		if len(a[1]) > 0 {
+			s := a[1][1 : len(a[1])-1] // drop surrounding double quotes
+			if t1, err = time.ParseInLocation(timestampLayout, string(s), noZone); err != nil {
+				return err
+			}
 		}
 
 		slice[i][0] = t0
diff --git a/pgsql/tstzrange.go b/pgsql/tstzrange.go
index 75c956e..444e7c0 100644
--- a/pgsql/tstzrange.go
+++ b/pgsql/tstzrange.go
@@ -24,13 +24,8 @@ func (v tstzRangeFromTimeArray2) Value() (driver.Value, error) {
 	// len(`"yyyy-mm-dd hh:mm:ss-tz"`) == 24
 	size := 3 + (2 * 24)
 
-	out := make([]byte, 2, size)
-	out[0], out[1] = '[', '"'
-
-	out = append(out, v.val[0].Format(timestamptzLayout)...)
-	out = append(out, '"', ',', '"')
-	out = append(out, v.val[1].Format(timestamptzLayout)...)
-	out = append(out, '"', ')')
+	out := make([]byte, 0, size)
+	out = pgAppendTimeRange(out, v.val, timestamptzLayout, `"`)
 	return out, nil
 }
 
diff --git a/pgsql/tstzrangearr.go b/pgsql/tstzrangearr.go
index 08c289e..d31ccd7 100644
--- a/pgsql/tstzrangearr.go
+++ b/pgsql/tstzrangearr.go
@@ -35,11 +35,9 @@ func (v tstzRangeArrayFromTimeArray2Slice) Value() (driver.Value, error) {
 	out[0] = '{'
 
 	for _, a := range v.val {
-		out = append(out, '"', '[', '\\', '"')
-		out = append(out, a[0].Format(timestamptzLayout)...)
-		out = append(out, '\\', '"', ',', '\\', '"')
-		out = append(out, a[1].Format(timestamptzLayout)...)
-		out = append(out, '\\', '"', ')', '"', ',')
+		out = append(out, '"')
+		out = pgAppendTimeRange(out, a, timestamptzLayout, `\"`)
+		out = append(out, '"', ',')
 	}
 
 	out[len(out)-1] = '}' // replace last "," with "}"
@@ -59,23 +57,23 @@ func (v tstzRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseQuotedStringArray(data)
+	elems := pgParseStringArray(data)
 	slice := make([][2]time.Time, len(elems))
 	for i := 0; i < len(elems); i++ {
 		a := pgParseRange(elems[i])
 
-		// drop surrounding escaped double quotes
-		a[0] = a[0][2 : len(a[0])-2]
-		a[1] = a[1][2 : len(a[1])-2]
-
 		var t0, t1 time.Time
-		t0, err = pgParseTimetz(timestamptzLayout, a[0])
-		if err != nil {
-			return err
+		if len(a[0]) > 0 {
+			s := a[0][1 : len(a[0])-1] // drop surrounding double quotes
+			if t0, err = pgParseTimetz(timestamptzLayout, s); err != nil {
+				return err
+			}
 		}
-		t1, err = pgParseTimetz(timestamptzLayout, a[1])
-		if err != nil {
-			return err
+		if len(a[1]) > 0 {
+			s := a[1][1 : len(a[1])-1] // drop surrounding double quotes
+			if t1, err = pgParseTimetz(timestamptzLayout, s); err != nil {
+				return err
+			}
 		}
 
 		slice[i][0] = t0
-- 
2.43.0


From ee51cd1e0c25d0d997bdd1f47ee9fa9a0ae2db74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 11/90] fix: escape the elements of tsvector and tsquery arrays

---
 pgsql/daterangearr.go |   2 +-
 pgsql/int4rangearr.go |  24 ++++-----
 pgsql/int8rangearr.go |  24 ++++-----
 pgsql/numrangearr.go  |  24 ++++-----
 pgsql/tsqueryarr.go   |  68 ++++---------------------
 pgsql/tsvectorarr.go  | 114 +++++-------------------------------------
 6 files changed, 59 insertions(+), 197 deletions(-)

diff --git a/pgsql/daterangearr.go b/pgsql/daterangearr.go
index fe6d628..b8dac6f 100644
--- a/pgsql/daterangearr.go
+++ b/pgsql/daterangearr.go
@@ -59,7 +59,7 @@ func (v dateRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/int4rangearr.go b/pgsql/int4rangearr.go
index 8732f6a..41d8679 100644
--- a/pgsql/int4rangearr.go
+++ b/pgsql/int4rangearr.go
@@ -160,7 +160,7 @@ func (v int4RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v int4RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v int4RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v int4RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v int4RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v int4RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v int4RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v int4RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v int4RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v int4RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v int4RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v int4RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/int8rangearr.go b/pgsql/int8rangearr.go
index 674e2d4..9665955 100644
--- a/pgsql/int8rangearr.go
+++ b/pgsql/int8rangearr.go
@@ -160,7 +160,7 @@ func (v int8RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v int8RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v int8RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v int8RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v int8RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v int8RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v int8RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v int8RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v int8RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v int8RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v int8RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v int8RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/numrangearr.go b/pgsql/numrangearr.go
index 40712b2..c1a674b 100644
--- a/pgsql/numrangearr.go
+++ b/pgsql/numrangearr.go
@@ -160,7 +160,7 @@ func (v numRangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v numRangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v numRangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v numRangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v numRangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v numRangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v numRangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v numRangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v numRangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v numRangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v numRangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v numRangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/tsqueryarr.go b/pgsql/tsqueryarr.go
index 2b8d3e7..3bf0eed 100644
--- a/pgsql/tsqueryarr.go
+++ b/pgsql/tsqueryarr.go
@@ -36,32 +36,13 @@ func (v tsQueryArrayFromStringSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (len(v.val) * 2) + // number of surrounding double quotes
-		(len(v.val) - 1) + // number of commas between elements
-		2 // curly braces
+	out := []byte{'{'}
 	for i := 0; i < len(v.val); i++ {
-		size += len(v.val[i]) // length of the element
+		out = pgAppendQuote1(out, []byte(v.val[i]))
+		out = append(out, ',')
 	}
 
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		pos += 1
-		out[pos] = '"'
-		pos += 1
-
-		length := len(v.val[i])
-		copy(out[pos:pos+length], v.val[i])
-		pos += length
-
-		out[pos] = '"'
-		pos += 1
-		out[pos] = ','
-	}
-
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -99,46 +80,17 @@ func (v tsQueryArrayFromByteSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (len(v.val) * 2) + // number of surrounding double quotes
-		(len(v.val) - 1) + // number of commas between elements
-		2 // curly braces
+	out := []byte{'{'}
 	for i := 0; i < len(v.val); i++ {
 		if v.val[i] == nil {
-			size += 2 // len(`NULL`) - 2 double quotes
+			out = append(out, 'N', 'U', 'L', 'L', ',')
 		} else {
-			size += len(v.val[i]) // length of the element
+			out = pgAppendQuote1(out, v.val[i])
+			out = append(out, ',')
 		}
 	}
 
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		pos += 1
-
-		if v.val[i] == nil {
-			out[pos+0] = 'N'
-			out[pos+1] = 'U'
-			out[pos+2] = 'L'
-			out[pos+3] = 'L'
-			pos += 4
-		} else {
-			out[pos] = '"'
-			pos += 1
-
-			length := len(v.val[i])
-			copy(out[pos:pos+length], v.val[i])
-			pos += length
-
-			out[pos] = '"'
-			pos += 1
-		}
-
-		out[pos] = ','
-	}
-
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -158,7 +110,7 @@ func (v tsQueryArrayToByteSliceSlice) Scan(src interface{}) error {
 	elems := pgParseStringArray(data)
 	bytess := make([][]byte, len(elems))
 	for i := 0; i < len(elems); i++ {
-		if len(elems[i]) == 4 && elems[i][0] == 'N' { // NULL?
+		if elems[i] == nil { // NULL?
 			continue
 		}
 
diff --git a/pgsql/tsvectorarr.go b/pgsql/tsvectorarr.go
index fe117a0..b805ea1 100644
--- a/pgsql/tsvectorarr.go
+++ b/pgsql/tsvectorarr.go
@@ -1,8 +1,10 @@
 package pgsql
 
 import (
+	"bytes"
 	"database/sql"
 	"database/sql/driver"
+	"strings"
 )
 
 // TSVectorArrayFromStringSliceSlice returns a driver.Valuer that produces a PostgreSQL tsvector[] from the given Go [][]string.
@@ -36,63 +38,17 @@ func (v tsVectorArrayFromStringSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (2 + (len(v.val) - 1)) // curly braces + number of commas
+	out := []byte{'{'}
 	for i := 0; i < len(v.val); i++ {
 		if v.val[i] == nil {
-			size += 4 // len(`NULL`)
-		} else if len(v.val[i]) == 0 {
-			size += 2 // len(`""`)
+			out = append(out, 'N', 'U', 'L', 'L', ',')
 		} else {
-			size += (2 + (len(v.val[i]) - 1)) // double quotes + number of spaces
-			for j := 0; j < len(v.val[i]); j++ {
-				size += len(v.val[i][j])
-			}
+			out = pgAppendQuote1(out, []byte(strings.Join(v.val[i], " ")))
+			out = append(out, ',')
 		}
 	}
 
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			out[pos+1] = 'N'
-			out[pos+2] = 'U'
-			out[pos+3] = 'L'
-			out[pos+4] = 'L'
-			out[pos+5] = ','
-			pos += 5
-			continue
-		}
-
-		if len(v.val[i]) == 0 {
-			out[pos+1] = '"'
-			out[pos+2] = '"'
-			out[pos+3] = ','
-			pos += 3
-			continue
-		}
-
-		pos += 1
-		out[pos] = '"'
-
-		for j, num := 0, len(v.val[i]); j < num; j++ {
-			pos += 1
-
-			length := len(v.val[i][j])
-			copy(out[pos:pos+length], v.val[i][j])
-
-			pos += length
-			out[pos] = ' '
-		}
-
-		out[pos] = '"'
-		pos += 1
-
-		out[pos] = ','
-	}
-
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -142,63 +98,17 @@ func (v tsVectorArrayFromByteSliceSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (2 + (len(v.val) - 1)) // curly braces + number of commas
+	out := []byte{'{'}
 	for i := 0; i < len(v.val); i++ {
 		if v.val[i] == nil {
-			size += 4 // len(`NULL`)
-		} else if len(v.val[i]) == 0 {
-			size += 2 // len(`""`)
+			out = append(out, 'N', 'U', 'L', 'L', ',')
 		} else {
-			size += (2 + (len(v.val[i]) - 1)) // double quotes + number of spaces
-			for j := 0; j < len(v.val[i]); j++ {
-				size += len(v.val[i][j])
-			}
+			out = pgAppendQuote1(out, bytes.Join(v.val[i], []byte{' '}))
+			out = append(out, ',')
 		}
 	}
 
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			out[pos+1] = 'N'
-			out[pos+2] = 'U'
-			out[pos+3] = 'L'
-			out[pos+4] = 'L'
-			out[pos+5] = ','
-			pos += 5
-			continue
-		}
-
-		if len(v.val[i]) == 0 {
-			out[pos+1] = '"'
-			out[pos+2] = '"'
-			out[pos+3] = ','
-			pos += 3
-			continue
-		}
-
-		pos += 1
-		out[pos] = '"'
-
-		for j, num := 0, len(v.val[i]); j < num; j++ {
-			pos += 1
-
-			length := len(v.val[i][j])
-			copy(out[pos:pos+length], v.val[i][j])
-
-			pos += length
-			out[pos] = ' '
-		}
-
-		out[pos] = '"'
-		pos += 1
-
-		out[pos] = ','
-	}
-
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
-- 
2.43.0


From 6a061fd4ed7091316340580f1c00b5723322a90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 12/90] fix: tell empty hstore values from NULL

---
 pgsql/convert_util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index d8ad3cd..0211054 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -96,6 +96,7 @@ func pgparsehstore(a []byte) (out [][2][]byte) {
 
 	for i := 0; i < len(a); i++ {
 		if a[i] == '"' { // start of key or value?
+			pair[idx] = []byte{} // can be empty but isn't NULL
 			for j := i + 1; j < len(a); j++ {
 				if a[j] == '\\' {
 					j++ // skip escaped char
@@ -148,6 +149,7 @@ func pgparsehstorearr(a []byte) (out [][][2][]byte) {
 			for j := i + 1; j < len(a); j++ {
 
 				if a[j] == '\\' && a[j+1] == '"' { // start of key or value?
+					pair[idx] = []byte{} // can be empty but isn't NULL
 					for k := j + 2; k < len(a); k++ {
 						if a[k] == '\\' {
 							if a[k+1] == '\\' { // escape??
-- 
2.43.0


From 31f74bc0b41fb1ecc7ec18ed12de89e1073b8ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 13/90] fix: keep the host bits and the address of an inet

An address without a netmask, which is how an inet with the longest netmask is
read, couldn't be written back, the host bits of a network were dropped, and
reading a network into a net.IP silently produced nil.
---
 pgsql/convert_util.go | 11 +++++++++++
 pgsql/inet.go         | 16 +++++++++++++---
 pgsql/inetarr.go      | 11 +++++++++--
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 0211054..3038496 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -3,6 +3,7 @@ package pgsql
 import (
 	"bytes"
 	"encoding/hex"
+	"net"
 	"strings"
 	"time"
 )
@@ -712,6 +713,16 @@ func pgParseVectorArray(a []byte) (out [][][]byte) {
 	return out
 }
 
+// pgFormatIPNet formats the given network as an inet. An address that doesn't
+// have a netmask, which is how pgsql returns an inet with the longest netmask,
+// is formatted without one.
+func pgFormatIPNet(ipnet net.IPNet) []byte {
+	if ipnet.IP != nil && ipnet.Mask == nil {
+		return []byte(ipnet.IP.String())
+	}
+	return []byte(ipnet.String())
+}
+
 // Expected format: 'xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx'.
 func pgParseUUID(data []byte) (arr [16]byte, err error) {
 	if _, err = hex.Decode(arr[0:4], data[0:8]); err != nil {
diff --git a/pgsql/inet.go b/pgsql/inet.go
index f4ae042..68617dc 100644
--- a/pgsql/inet.go
+++ b/pgsql/inet.go
@@ -34,7 +34,7 @@ func (v inetFromIPNet) Value() (driver.Value, error) {
 	if v.val.IP == nil && v.val.Mask == nil {
 		return nil, nil
 	}
-	return []byte(v.val.String()), nil
+	return pgFormatIPNet(v.val), nil
 }
 
 type inetToIPNet struct {
@@ -52,9 +52,11 @@ func (v inetToIPNet) Scan(src interface{}) error {
 		return nil
 	}
 
-	_, ipnet, err := net.ParseCIDR(str)
+	ip, ipnet, err := net.ParseCIDR(str)
 	if err != nil {
 		ipnet = &net.IPNet{IP: net.ParseIP(str)}
+	} else if !ip.Equal(ipnet.IP) { // keep the host bits
+		ipnet.IP = ip
 	}
 	*v.val = *ipnet
 	return nil
@@ -86,6 +88,14 @@ func (v inetToIP) Scan(src interface{}) error {
 		return nil
 	}
 
-	*v.val = net.ParseIP(str)
+	ip := net.ParseIP(str)
+	if ip == nil { // with netmask?
+		var err error
+		if ip, _, err = net.ParseCIDR(str); err != nil {
+			return err
+		}
+	}
+
+	*v.val = ip
 	return nil
 }
diff --git a/pgsql/inetarr.go b/pgsql/inetarr.go
index c5f9478..271100c 100644
--- a/pgsql/inetarr.go
+++ b/pgsql/inetarr.go
@@ -40,7 +40,7 @@ func (v inetArrayFromIPNetSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, ipnet := range v.val {
-		out = append(out, []byte(ipnet.String())...)
+		out = append(out, pgFormatIPNet(ipnet)...)
 		out = append(out, ',')
 	}
 
@@ -64,9 +64,11 @@ func (v inetArrayToIPNetSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	ipnets := make([]net.IPNet, len(elems))
 	for i := 0; i < len(elems); i++ {
-		_, ipnet, err := net.ParseCIDR(string(elems[i]))
+		ip, ipnet, err := net.ParseCIDR(string(elems[i]))
 		if err != nil {
 			ipnet = &net.IPNet{IP: net.ParseIP(string(elems[i]))}
+		} else if !ip.Equal(ipnet.IP) { // keep the host bits
+			ipnet.IP = ip
 		}
 		ipnets[i] = *ipnet
 	}
@@ -114,6 +116,11 @@ func (v inetArrayToIPSlice) Scan(src interface{}) error {
 	ips := make([]net.IP, len(elems))
 	for i := 0; i < len(elems); i++ {
 		ips[i] = net.ParseIP(string(elems[i]))
+		if ips[i] == nil && string(elems[i]) != "NULL" { // with netmask?
+			if ips[i], _, err = net.ParseCIDR(string(elems[i])); err != nil {
+				return err
+			}
+		}
 	}
 
 	*v.val = ips
-- 
2.43.0


From 1c06116dd895ecd5b8a2a876884aca619b4b5a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 14/90] fix: convert money without floating point numbers

Cents were lost to rounding, and negative amounts as well as amounts above $999
couldn't be read.
---
 pgsql/convert_util.go | 29 +++++++++++++++++++++++++++++
 pgsql/money.go        |  8 +++-----
 pgsql/moneyarr.go     | 11 +++--------
 3 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 3038496..ddda623 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -3,7 +3,9 @@ package pgsql
 import (
 	"bytes"
 	"encoding/hex"
+	"fmt"
 	"net"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -713,6 +715,33 @@ func pgParseVectorArray(a []byte) (out [][][]byte) {
 	return out
 }
 
+// pgAppendCents appends the number of cents as a decimal number to buf.
+func pgAppendCents(buf []byte, cents int64) []byte {
+	u64 := uint64(cents)
+	if cents < 0 {
+		buf = append(buf, '-')
+		u64 = -u64
+	}
+
+	buf = strconv.AppendUint(buf, u64/100, 10)
+	return append(buf, '.', byte('0'+u64/10%10), byte('0'+u64%10))
+}
+
+// pgParseCents parses a money value, e.g. '-$1,234.56', as the number of cents.
+func pgParseCents(a []byte) (int64, error) {
+	if len(a) < 3 || a[len(a)-3] != '.' {
+		return 0, fmt.Errorf("pgsql: invalid money value %q", a)
+	}
+
+	digits := make([]byte, 0, len(a))
+	for i, c := range a {
+		if c != '$' && c != ',' && i != len(a)-3 {
+			digits = append(digits, c)
+		}
+	}
+	return strconv.ParseInt(string(digits), 10, 64)
+}
+
 // pgFormatIPNet formats the given network as an inet. An address that doesn't
 // have a netmask, which is how pgsql returns an inet with the longest netmask,
 // is formatted without one.
diff --git a/pgsql/money.go b/pgsql/money.go
index ca05195..6d498f9 100644
--- a/pgsql/money.go
+++ b/pgsql/money.go
@@ -3,7 +3,6 @@ package pgsql
 import (
 	"database/sql"
 	"database/sql/driver"
-	"strconv"
 )
 
 // MoneyFromInt64 returns a driver.Valuer that produces a PostgreSQL money from the given Go int64.
@@ -22,7 +21,7 @@ type moneyFromInt64 struct {
 
 func (v moneyFromInt64) Value() (driver.Value, error) {
 	out := []byte{'$'}
-	out = strconv.AppendFloat(out, float64(v.val)/100.0, 'f', 2, 64)
+	out = pgAppendCents(out, v.val)
 	return out, nil
 }
 
@@ -38,12 +37,11 @@ func (v moneyToInt64) Scan(src interface{}) error {
 		return nil
 	}
 
-	data = data[1:] // drop $
-	f64, err := strconv.ParseFloat(string(data), 64)
+	i64, err := pgParseCents(data)
 	if err != nil {
 		return err
 	}
 
-	*v.val = int64(f64 * 100.0)
+	*v.val = i64
 	return nil
 }
diff --git a/pgsql/moneyarr.go b/pgsql/moneyarr.go
index ce857b2..4ccd039 100644
--- a/pgsql/moneyarr.go
+++ b/pgsql/moneyarr.go
@@ -3,7 +3,6 @@ package pgsql
 import (
 	"database/sql"
 	"database/sql/driver"
-	"strconv"
 )
 
 // MoneyArrayFromInt64Slice returns a driver.Valuer that produces a PostgreSQL money[] from the given Go []int64.
@@ -36,7 +35,7 @@ func (v moneyArrayFromInt64Slice) Value() (driver.Value, error) {
 
 	for i := 0; i < len(v.val); i++ {
 		out = append(out, '$')
-		out = strconv.AppendFloat(out, float64(v.val[i])/100.0, 'f', 2, 64)
+		out = pgAppendCents(out, v.val[i])
 		out = append(out, ',')
 	}
 
@@ -57,16 +56,12 @@ func (v moneyArrayToInt64Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseCommaArray(data)
+	elems := pgParseStringArray(data)
 	int64s := make([]int64, len(elems))
 	for i := 0; i < len(elems); i++ {
-		elems[i] = elems[i][1:] // drop $
-		f64, err := strconv.ParseFloat(string(elems[i]), 64)
-		if err != nil {
+		if int64s[i], err = pgParseCents(elems[i]); err != nil {
 			return err
 		}
-
-		int64s[i] = int64(f64 * 100.0)
 	}
 
 	*v.val = int64s
-- 
2.43.0


From e38f1d7612b930b15b0500c12ef59e1efd7ca188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 15/90] fix: read NULL arrays, array elements, and addresses as
 nil or zero

A NULL left the previous value in the variable, a NULL element was read as four
characters, as the text "NULL", was dropped, or it panicked.
---
 pgsql/boxarr.go       |  3 ++
 pgsql/byteaarr.go     |  6 +++
 pgsql/chararr.go      |  9 ++++-
 pgsql/cidr.go         |  1 +
 pgsql/convert_util.go | 89 +++++++++++++++----------------------------
 pgsql/hstore.go       |  3 ++
 pgsql/hstorearr.go    |  3 ++
 pgsql/inet.go         |  2 +
 pgsql/linearr.go      |  1 +
 pgsql/lsegarr.go      |  1 +
 pgsql/macaddr.go      |  1 +
 pgsql/pointarr.go     |  1 +
 pgsql/uuidarr.go      |  4 ++
 pgsql/varbitarr.go    |  3 ++
 14 files changed, 68 insertions(+), 59 deletions(-)

diff --git a/pgsql/boxarr.go b/pgsql/boxarr.go
index 04587f1..5257e37 100644
--- a/pgsql/boxarr.go
+++ b/pgsql/boxarr.go
@@ -66,6 +66,9 @@ func (v boxArrayToFloat64Array2Array2Slice) Scan(src interface{}) error {
 	boxes := make([][2][2]float64, n)
 	for i := 0; i < n; i++ {
 		j := i * 4
+		if elems[j] == nil { // NULL?
+			continue
+		}
 
 		x1, err := strconv.ParseFloat(string(elems[j]), 64)
 		if err != nil {
diff --git a/pgsql/byteaarr.go b/pgsql/byteaarr.go
index 6773d7b..1cfea97 100644
--- a/pgsql/byteaarr.go
+++ b/pgsql/byteaarr.go
@@ -71,6 +71,9 @@ func (v byteaArrayToByteSliceSlice) Scan(src interface{}) error {
 	out := make([][]byte, len(elems))
 	for i := 0; i < len(elems); i++ {
 		src := elems[i]
+		if string(src) == "NULL" {
+			continue
+		}
 
 		// drop the initial "\\x and the last "
 		src = src[4 : len(src)-1]
@@ -133,6 +136,9 @@ func (v byteaArrayToStringSlice) Scan(src interface{}) error {
 	out := make([]string, len(elems))
 	for i := 0; i < len(elems); i++ {
 		src := elems[i]
+		if string(src) == "NULL" {
+			continue
+		}
 
 		// drop the initial "\\x and the last "
 		src = src[4 : len(src)-1]
diff --git a/pgsql/chararr.go b/pgsql/chararr.go
index 931c69e..53c402c 100644
--- a/pgsql/chararr.go
+++ b/pgsql/chararr.go
@@ -221,6 +221,11 @@ func (v charArrayFromStringSlice) Value() (driver.Value, error) {
 	out[0] = '{'
 
 	for _, v := range v.val {
+		if v == "" {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		r, size := utf8.DecodeRuneInString(v)
 		switch r {
 		case ' ', '\a', '\b', '\t', '\r', '\n', '\f', '\v', '{', '}':
@@ -262,7 +267,9 @@ func (v charArrayToStringSlice) Scan(src interface{}) error {
 	runes := pgparsearray3(data)
 	val := make([]string, len(runes))
 	for i := 0; i < len(val); i++ {
-		val[i] = string(runes[i])
+		if runes[i] != 0 {
+			val[i] = string(runes[i])
+		}
 	}
 	*v.val = val
 	return nil
diff --git a/pgsql/cidr.go b/pgsql/cidr.go
index 3534f53..f95a610 100644
--- a/pgsql/cidr.go
+++ b/pgsql/cidr.go
@@ -40,6 +40,7 @@ func (v cidrToIPNet) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = net.IPNet{}
 		return nil
 	}
 
diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index ddda623..701be9c 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -32,58 +32,29 @@ func srcbytes(src interface{}) ([]byte, error) {
 	return nil, nil // TODO error
 }
 
-// parse as single bytes
+// parse as single bytes, a NULL or an empty element is parsed as 0
 func pgparsearray2(a []byte) (out []byte) {
-	out = make([]byte, 0, len(a))
-
-	a = a[1 : len(a)-1] // drop curly braces
-
-	for i := 0; i < len(a); i++ {
-		if a[i] == '"' {
-			if a[i+1] == '\\' {
-				out = append(out, a[i+2])
-				i += 3
-				continue
-			} else {
-				out = append(out, a[i+1])
-				i += 2
-				continue
-			}
-		}
-
-		if a[i] != ',' {
-			out = append(out, a[i])
+	elems := pgParseStringArray(a)
+	out = make([]byte, 0, len(elems))
+	for _, elem := range elems {
+		if len(elem) > 0 {
+			out = append(out, elem...)
+		} else {
+			out = append(out, 0)
 		}
 	}
-
 	return out
 }
 
-// parse as single runes
+// parse as single runes, a NULL or an empty element is parsed as 0
 func pgparsearray3(a []byte) (out []rune) {
-	out = make([]rune, 0)
-
-	a = a[1 : len(a)-1] // drop curly braces
-	r := bytes.Runes(a)
-
-	for i := 0; i < len(r); i++ {
-		if r[i] == '"' {
-			if r[i+1] == '\\' {
-				out = append(out, r[i+2])
-				i += 3
-				continue
-			} else {
-				out = append(out, r[i+1])
-				i += 2
-				continue
-			}
-		}
-
-		if r[i] != ',' {
-			out = append(out, r[i])
+	elems := pgParseStringArray(a)
+	out = make([]rune, len(elems))
+	for i, elem := range elems {
+		if len(elem) > 0 {
+			out[i] = bytes.Runes(elem)[0]
 		}
 	}
-
 	return out
 }
 
@@ -634,26 +605,28 @@ func pgParseBoxArray(a []byte) (out [][]byte) {
 		return out // nothing to do if empty "{}"
 	}
 
-	a = a[2 : len(a)-2] // drop the first "{(" and last ")}"
+	a = a[1 : len(a)-1] // drop curly braces
 
-	n := 0 // start of next elem
+	n := 0 // start of next coordinate
 	for i := 0; i < len(a); i++ {
-		if a[i] == ',' {
-			out = append(out, a[n:i])
-			n = i + 1
-		}
-
-		if a[i] == ')' {
-			out = append(out, a[n:i])
-			i += 2 // skip over ",(" or ";("
+		switch a[i] {
+		case '(':
 			n = i + 1
+		case ',', ')':
+			if n > 0 {
+				out = append(out, a[n:i])
+				n = 0
+			}
+			if a[i] == ',' && i+1 < len(a) && a[i+1] != '(' {
+				n = i + 1
+			}
+		case 'N': // NULL, or the NaN of a box?
+			if n == 0 {
+				out = append(out, nil, nil, nil, nil)
+				i += 3
+			}
 		}
 	}
-
-	// append the last element
-	if n > 0 {
-		out = append(out, a[n:])
-	}
 	return out
 }
 
diff --git a/pgsql/hstore.go b/pgsql/hstore.go
index 4797905..225246d 100644
--- a/pgsql/hstore.go
+++ b/pgsql/hstore.go
@@ -68,6 +68,7 @@ func (v hstoreToStringMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -122,6 +123,7 @@ func (v hstoreToStringPtrMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -177,6 +179,7 @@ func (v hstoreToNullStringMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/hstorearr.go b/pgsql/hstorearr.go
index 3cd6860..2a1a943 100644
--- a/pgsql/hstorearr.go
+++ b/pgsql/hstorearr.go
@@ -98,6 +98,7 @@ func (v hstoreArrayToStringMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -201,6 +202,7 @@ func (v hstoreArrayToStringPtrMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -305,6 +307,7 @@ func (v hstoreArrayToNullStringMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/inet.go b/pgsql/inet.go
index 68617dc..dc28981 100644
--- a/pgsql/inet.go
+++ b/pgsql/inet.go
@@ -49,6 +49,7 @@ func (v inetToIPNet) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = net.IPNet{}
 		return nil
 	}
 
@@ -85,6 +86,7 @@ func (v inetToIP) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/linearr.go b/pgsql/linearr.go
index 5d8e7a0..1f13ae4 100644
--- a/pgsql/linearr.go
+++ b/pgsql/linearr.go
@@ -57,6 +57,7 @@ func (v lineArrayToFloat64Array3Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/lsegarr.go b/pgsql/lsegarr.go
index e7c5a0c..5e556b0 100644
--- a/pgsql/lsegarr.go
+++ b/pgsql/lsegarr.go
@@ -59,6 +59,7 @@ func (v lsegArrayToFloat64Array2Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/macaddr.go b/pgsql/macaddr.go
index 97d9ce3..a472120 100644
--- a/pgsql/macaddr.go
+++ b/pgsql/macaddr.go
@@ -39,6 +39,7 @@ func (v macAddrToHardwareAddr) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/pointarr.go b/pgsql/pointarr.go
index 79aebda..961f867 100644
--- a/pgsql/pointarr.go
+++ b/pgsql/pointarr.go
@@ -55,6 +55,7 @@ func (v pointArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/uuidarr.go b/pgsql/uuidarr.go
index 7095a42..6f8efa9 100644
--- a/pgsql/uuidarr.go
+++ b/pgsql/uuidarr.go
@@ -143,6 +143,10 @@ func (v uuidArrayToStringSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	strings := make([]string, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if string(elems[i]) == "NULL" {
+			continue
+		}
+
 		strings[i] = string(elems[i])
 	}
 
diff --git a/pgsql/varbitarr.go b/pgsql/varbitarr.go
index a73bba0..a4eef49 100644
--- a/pgsql/varbitarr.go
+++ b/pgsql/varbitarr.go
@@ -292,6 +292,9 @@ func (v varBitArrayToStringSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	strings := make([]string, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if len(elems[i]) == 4 && elems[i][0] == 'N' { // NULL?
+			continue
+		}
 		if len(elems[i]) == 2 && elems[i][0] == '"' { // ""?
 			continue
 		}
-- 
2.43.0


From fab6b5de2b2115f7ccaea23d5ffd4bcb1fc22f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 16/90] fix: copy the bytes that belong to the driver

---
 pgsql/any.go    | 4 ++++
 pgsql/time.go   | 2 +-
 pgsql/timetz.go | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pgsql/any.go b/pgsql/any.go
index ade61c8..b6c47fd 100644
--- a/pgsql/any.go
+++ b/pgsql/any.go
@@ -15,6 +15,10 @@ type anyToEmptyInterface struct {
 }
 
 func (v anyToEmptyInterface) Scan(src interface{}) error {
+	if b, ok := src.([]byte); ok {
+		src = append([]byte{}, b...) // the driver owns b
+	}
+
 	*v.val = src
 	return nil
 }
diff --git a/pgsql/time.go b/pgsql/time.go
index eab6d66..cdd5ea8 100644
--- a/pgsql/time.go
+++ b/pgsql/time.go
@@ -40,7 +40,7 @@ func (v timeToByteSlice) Scan(src interface{}) error {
 	case time.Time:
 		*v.val = []byte(data.Format(timeLayout))
 	case []byte:
-		*v.val = data
+		*v.val = append([]byte{}, data...) // the driver owns data
 	case string:
 		*v.val = []byte(data)
 	}
diff --git a/pgsql/timetz.go b/pgsql/timetz.go
index 88cc3ea..ba9f610 100644
--- a/pgsql/timetz.go
+++ b/pgsql/timetz.go
@@ -40,7 +40,7 @@ func (v timetzToByteSlice) Scan(src interface{}) error {
 	case time.Time:
 		*v.val = []byte(data.Format(timetzLayout))
 	case []byte:
-		*v.val = data
+		*v.val = append([]byte{}, data...) // the driver owns data
 	case string:
 		*v.val = []byte(data)
 	}
-- 
2.43.0


From c3b48fa318732bd42d5967a035df77b9041f88a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 17/90] fix: unmarshal JSON and XML that the driver returns as
 a string

---
 pgsql/json.go | 9 ++++++---
 pgsql/xml.go  | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pgsql/json.go b/pgsql/json.go
index 4f8138c..41f4ee5 100644
--- a/pgsql/json.go
+++ b/pgsql/json.go
@@ -28,8 +28,11 @@ func (j jsontype) Value() (driver.Value, error) {
 }
 
 func (j jsontype) Scan(src interface{}) error {
-	if b, ok := src.([]byte); ok {
-		return json.Unmarshal(b, j.val)
+	b, err := srcbytes(src)
+	if err != nil {
+		return err
+	} else if b == nil {
+		return nil
 	}
-	return nil
+	return json.Unmarshal(b, j.val)
 }
diff --git a/pgsql/xml.go b/pgsql/xml.go
index dac30b4..0fe40dc 100644
--- a/pgsql/xml.go
+++ b/pgsql/xml.go
@@ -21,10 +21,13 @@ type xmltype struct {
 }
 
 func (x xmltype) Scan(src interface{}) error {
-	if b, ok := src.([]byte); ok {
-		return xml.Unmarshal(b, x.val)
+	b, err := srcbytes(src)
+	if err != nil {
+		return err
+	} else if b == nil {
+		return nil
 	}
-	return nil
+	return xml.Unmarshal(b, x.val)
 }
 
 func (x xmltype) Value() (driver.Value, error) {
-- 
2.43.0


From b925e8fdc6dd357ae8e4fe058a1d555fca8fe658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:28 +0000
Subject: [PATCH 18/90] fix: compare to nil and booleans with operators other
 than "=" and "<>"

Col added no predicate for them, which left a dangling AND behind.
---
 filter/filter.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/filter/filter.go b/filter/filter.go
index 2e21f61..e335557 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -208,22 +208,28 @@ func (c *Constructor) Col(column string, op string, value interface{}) {
 			switch op {
 			case "=":
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NULL"})
-			case "<>":
+			case "<>", "!=":
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NOT NULL"})
+			default:
+				c.filter.where = append(c.filter.where, sqlBinary{col: column, op: op, val: value})
 			}
 		case true:
 			switch op {
 			case "=":
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS TRUE"})
-			case "<>":
+			case "<>", "!=":
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NOT TRUE"})
+			default:
+				c.filter.where = append(c.filter.where, sqlBinary{col: column, op: op, val: value})
 			}
 		case false:
 			switch op {
 			case "=":
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS FALSE"})
-			case "<>":
+			case "<>", "!=":
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NOT FALSE"})
+			default:
+				c.filter.where = append(c.filter.where, sqlBinary{col: column, op: op, val: value})
 			}
 		default:
 			c.filter.where = append(c.filter.where, sqlBinary{
-- 
2.43.0


From 97358d926ec62fa5bc61c9b1e9257038e24349cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 19/90] fix: filter by an empty list of values

"IN ()" is a syntax error, a column is in no empty list.
---
 filter/convenience.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filter/convenience.go b/filter/convenience.go
index b323a6c..8a318d7 100644
--- a/filter/convenience.go
+++ b/filter/convenience.go
@@ -14,6 +14,11 @@ type sqlIn[T any] struct {
 func (sqlIn[T]) canAndOr() bool { return true }
 
 func (n sqlIn[T]) write(w *sqlWriter) {
+	if len(n.vals) == 0 {
+		w.WriteString("FALSE") // "IN ()" is not valid SQL
+		return
+	}
+
 	w.WriteString(n.col)
 	w.WriteString(" IN (")
 	for i := range n.vals {
-- 
2.43.0


From 2985cf1b1642c911f1034fa8cc91a36c3cc6dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:41 +0000
Subject: [PATCH 20/90] fix: write no operators and parentheses that have
 nothing to connect

Rules with unknown keys, which are ignored unless in strict mode, nests that
add nothing, and trailing operators made the WHERE clause malformed.
---
 filter/filter.go | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/filter/filter.go b/filter/filter.go
index e335557..6921a03 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -476,6 +476,42 @@ var (
 	_ gosql.Filter = (*filter)(nil)
 )
 
+// dropDangling returns the nodes without the logical operators that have no left or
+// no right operand, and without empty parentheses. These remain when a predicate is
+// ignored, e.g. an FQL rule whose key has no entry in the colmap. If that leaves two
+// operators next to each other the OR is retained, because the other operator, an AND,
+// could only have connected the missing operand.
+func dropDangling(nodes []sqlNode) (out []sqlNode) {
+	isop := func(n sqlNode) bool { return n == sqlAnd{} || n == sqlOr{} }
+
+	for _, n := range nodes {
+		if isop(n) {
+			if len(out) == 0 || out[len(out)-1] == (sqlLParen{}) {
+				continue // no left operand
+			}
+			if last := len(out) - 1; isop(out[last]) {
+				if n == (sqlOr{}) {
+					out[last] = n
+				}
+				continue
+			}
+		} else if n == (sqlRParen{}) {
+			if len(out) > 0 && isop(out[len(out)-1]) {
+				out = out[:len(out)-1] // no right operand
+			}
+			if len(out) > 0 && out[len(out)-1] == (sqlLParen{}) {
+				out = out[:len(out)-1]
+				continue
+			}
+		}
+		out = append(out, n)
+	}
+	if len(out) > 0 && isop(out[len(out)-1]) {
+		out = out[:len(out)-1]
+	}
+	return out
+}
+
 // ToSQL returns the SQL representation of the filter together with a list of
 // parameters to be used with the SQL string. The given ppos argument specifies
 // the current parameter position of the caller.
@@ -483,9 +519,9 @@ var (
 // The ToSQL method implements the gosql.Filter interface.
 func (f *filter) ToSQL(ppos int) (filterString string, params []interface{}) {
 	w := sqlWriter{p: ppos}
-	if len(f.where) > 0 {
+	if where := dropDangling(f.where); len(where) > 0 {
 		w.WriteString(" WHERE ")
-		for _, node := range f.where {
+		for _, node := range where {
 			node.write(&w)
 		}
 	}
@@ -518,9 +554,9 @@ var (
 // ToSQL implements the gosql.Filter interface.
 func (f *countFilter) ToSQL(ppos int) (filterString string, params []interface{}) {
 	w := sqlWriter{p: ppos}
-	if len(f.where) > 0 {
+	if where := dropDangling(f.where); len(where) > 0 {
 		w.WriteString(" WHERE ")
-		for _, node := range f.where {
+		for _, node := range where {
 			node.write(&w)
 		}
 	}
-- 
2.43.0


From 47cf1c2048d19a5f8bc0e015ac6180c90eecbc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:42 +0000
Subject: [PATCH 21/90] fix: keep the offset of very large page numbers from
 overflowing

---
 filter/filter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filter/filter.go b/filter/filter.go
index 6921a03..e47a5ed 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -2,6 +2,7 @@ package filter
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -349,6 +350,9 @@ func (c *Constructor) Offset(start int64) {
 func (c *Constructor) Page(page int64) {
 	if page > 0 && c.filter.limit >= 0 {
 		c.filter.offset = c.filter.limit * (page - 1)
+		if c.filter.limit > 0 && page-1 > math.MaxInt64/c.filter.limit {
+			c.filter.offset = math.MaxInt64 // past the end
+		}
 	}
 }
 
-- 
2.43.0


From 672af86e80544cdd0290f278196580793a6cc46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 22/90] fix: emit NOT and [A]SYMMETRIC for between predicates

---
 internal/generator/generator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index b931130..2c2a9f1 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1409,8 +1409,16 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 // makeSQLBetweenPredicate
 func makeSQLBetweenPredicate(g *generator, cond *postgres.BetweenConditional) SQL.BetweenPredicate {
 	predicate := SQL.BetweenPredicate{}
+	predicate.Not = cond.Predicate.IsOneOf(analysis.NotBetween, analysis.NotBetweenSym, analysis.NotBetweenAsym)
 	predicate.Predicand = makeColRef(cond.ColIdent)
 
+	switch cond.Predicate {
+	case analysis.IsBetweenSym, analysis.NotBetweenSym:
+		predicate.Sym = SQL.SYMMETRIC
+	case analysis.IsBetweenAsym, analysis.NotBetweenAsym:
+		predicate.Sym = SQL.ASYMMETRIC
+	}
+
 	switch lower := cond.LowerBound.(type) {
 	case *postgres.ColumnConditional:
 		predicate.LowEnd = makeColRef(lower.RHSColIdent)
-- 
2.43.0


From 485abfb0aa4a9321c70a0aa7f35d1ada4882f7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 23/90] fix: recognise the isbetweenasym and notbetweenasym
 predicates

---
 internal/analysis/enums.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/analysis/enums.go b/internal/analysis/enums.go
index d93b68e..7d3519d 100644
--- a/internal/analysis/enums.go
+++ b/internal/analysis/enums.go
@@ -355,6 +355,7 @@ var predicates = [...]string{
 // predicateAdjectives is a whitelist of predicate adjectives and adverbs. Used for parsing tags.
 var predicateAdjectives = []string{
 	"between",
+	"betweenasym",
 	"betweensym",
 	"distinct",
 	"false",
-- 
2.43.0


From 35e036f104ccc67901443343c130bf0845687cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 24/90] fix: place the clauses of a select after those of its
 filter

---
 internal/generator/generator.go | 34 +++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 2c2a9f1..892e802 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1037,10 +1037,28 @@ func buildSQLSelectStatement(g *generator, qs *analysis.QueryStruct) {
 	if qs.Join != nil {
 		stmt.Join.List = append(stmt.Join.List, g.tableJoinSlice...)
 	}
-	stmt.Where = g.whereClause
-	stmt.Order = g.orderClause
-	stmt.Limit = g.limitClause
-	stmt.Offset = g.offsetClause
+	if qs.Filter != nil {
+		// The filter's clauses, starting with the WHERE clause, are appended
+		// at runtime, the rest of the clauses has to follow them.
+		tail := SQL.NodeList{}
+		if len(g.orderClause.List) > 0 {
+			tail = append(tail, g.orderClause)
+		}
+		if g.limitClause.Value != nil {
+			tail = append(tail, g.limitClause)
+		}
+		if g.offsetClause.Value != nil {
+			tail = append(tail, g.offsetClause)
+		}
+		if len(tail) > 0 {
+			g.sqlTailNode = tail
+		}
+	} else {
+		stmt.Where = g.whereClause
+		stmt.Order = g.orderClause
+		stmt.Limit = g.limitClause
+		stmt.Offset = g.offsetClause
+	}
 	g.sqlMainNode = stmt
 }
 
@@ -1109,7 +1127,11 @@ func buildSQLLimitClause(g *generator, qs *analysis.QueryStruct) {
 	if qs.Limit == nil {
 		// In case the QueryStruct doesn't have a "limit" field, but the relation
 		// field handles only a single record (i.e. it's not a slice, etc.)
-		// then, by default, generate a `LIMIT 1` clause.
+		// then, by default, generate a `LIMIT 1` clause, unless the query
+		// has a filter, whose own LIMIT clause it would be in conflict with.
+		if qs.Filter != nil {
+			return
+		}
 		if typ := qs.Rel.Type; !typ.IsArray && !typ.IsSlice && !typ.IsIter {
 			g.limitClause.Value = SQL.LimitInt(1)
 		}
@@ -1753,7 +1775,7 @@ func buildQueryStringForFilter(g *generator, qs *analysis.QueryStruct) {
 }
 
 func buildQueryFilterParams(g *generator, qs *analysis.QueryStruct) {
-	if qs.Filter == nil || qs.Kind != analysis.QueryKindUpdate {
+	if qs.Filter == nil || len(g.inputArgs) == 0 {
 		g.queryFilterParams = GO.NoOp{}
 		return
 	}
-- 
2.43.0


From 6bab5ef0ad347f650ec9df1925b56ca088c83120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 25/90] fix: apply the limit and offset fallbacks before the
 params are collected

---
 internal/generator/generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 892e802..58abdd0 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -247,6 +247,12 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 		}
 	}
 
+	if len(g.inputSliceArgs) > 0 && len(g.queryLimitAndOffsetFallback) > 1 {
+		// the params slice is populated by the query string statement, the
+		// fallback values have to be set before that happens.
+		method.Body.List[0], method.Body.List[1] = method.Body.List[1], method.Body.List[0]
+	}
+
 	g.file.Decls = append(g.file.Decls, method)
 }
 
-- 
2.43.0


From f004658397b7cda92de76a2737e2d2f3a092bbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:23 +0000
Subject: [PATCH 26/90] fix: don't read the fields that can be neither read nor
 written

---
 internal/analysis/types.go    | 11 +++++++++++
 internal/postgres/postgres.go |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/analysis/types.go b/internal/analysis/types.go
index d2c5df5..1941148 100644
--- a/internal/analysis/types.go
+++ b/internal/analysis/types.go
@@ -691,6 +691,17 @@ func (f FieldInfo) IsWriteOnly() bool {
 	return f.Mode.IsWriteOnly()
 }
 
+// CanSelect reports whether or not the field, and
+// the records in which it is nested, can be selected.
+func (f FieldInfo) CanSelect() bool {
+	for i := range f.Selector {
+		if !f.Selector[i].Mode.CanSelect() {
+			return false
+		}
+	}
+	return f.Mode.CanSelect()
+}
+
 func (f FieldInfo) ExcludeFromFilter() bool {
 	for i := range f.Selector {
 		if f.Selector[i].Mode.CanExcludeFilter() {
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 4e996c3..ad2d40b 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1999,7 +1999,7 @@ func skipFieldUpdate(c *checker, fw *FieldWrite) bool {
 
 // skipFieldRead reports whether or not the given FieldRead should be skipped.
 func skipFieldRead(c *checker, fr *FieldRead) bool {
-	return fr.Field.IsWriteOnly() && (c.force == nil || !c.force.Contains(fr.ColIdent))
+	return !fr.Field.CanSelect() && (c.force == nil || !c.force.Contains(fr.ColIdent))
 }
 
 // typeCompatibility
-- 
2.43.0


From a96b3cef776d67f4c05857476c7d33ddfd0c98c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 27/90] fix: don't write the fields of nested records that are
 read-only

---
 internal/analysis/types.go    | 22 ++++++++++++++++++++++
 internal/postgres/postgres.go |  4 ++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/internal/analysis/types.go b/internal/analysis/types.go
index 1941148..49a3393 100644
--- a/internal/analysis/types.go
+++ b/internal/analysis/types.go
@@ -702,6 +702,28 @@ func (f FieldInfo) CanSelect() bool {
 	return f.Mode.CanSelect()
 }
 
+// CanInsert reports whether or not the field, and
+// the records in which it is nested, can be inserted.
+func (f FieldInfo) CanInsert() bool {
+	for i := range f.Selector {
+		if !f.Selector[i].Mode.CanInsert() {
+			return false
+		}
+	}
+	return f.Mode.CanInsert()
+}
+
+// CanUpdate reports whether or not the field, and
+// the records in which it is nested, can be updated.
+func (f FieldInfo) CanUpdate() bool {
+	for i := range f.Selector {
+		if !f.Selector[i].Mode.CanUpdate() {
+			return false
+		}
+	}
+	return f.Mode.CanUpdate()
+}
+
 func (f FieldInfo) ExcludeFromFilter() bool {
 	for i := range f.Selector {
 		if f.Selector[i].Mode.CanExcludeFilter() {
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index ad2d40b..ec3743d 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1989,12 +1989,12 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 
 // skipFieldInsert reports whether or not the given FieldWrite should be skipped for INSERTs.
 func skipFieldInsert(c *checker, fw *FieldWrite) bool {
-	return !fw.Field.Mode.CanInsert() && (c.force == nil || !c.force.Contains(fw.ColIdent))
+	return !fw.Field.CanInsert() && (c.force == nil || !c.force.Contains(fw.ColIdent))
 }
 
 // skipFieldUpdate reports whether or not the given FieldWrite should be skipped for UPDATEs.
 func skipFieldUpdate(c *checker, fw *FieldWrite) bool {
-	return !fw.Field.Mode.CanUpdate() && (c.force == nil || !c.force.Contains(fw.ColIdent))
+	return !fw.Field.CanUpdate() && (c.force == nil || !c.force.Contains(fw.ColIdent))
 }
 
 // skipFieldRead reports whether or not the given FieldRead should be skipped.
-- 
2.43.0


From a50d687711484cec2a29bf26ce2df09c521798d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:48 +0000
Subject: [PATCH 28/90] fix: qualify the columns of relations without alias
 when the query has others

---
 internal/generator/generator.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 58abdd0..238b68a 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -586,7 +586,7 @@ func buildQueryOutputSourceColumns(g *generator, qs *analysis.QueryStruct) {
 
 	for _, fr := range g.info.Reads {
 		var expr SQL.ValueExpr
-		expr = makeColRef(fr.ColIdent)
+		expr = makeTargetColRef(qs, fr.ColIdent)
 		if fr.NeedsCOALESCE() {
 			expr = addCoalesceCallExpr(expr, fr.Field.CoalesceValue, fr.Column)
 		}
@@ -1216,7 +1216,7 @@ func buildSQLWhereClause(g *generator, qs *analysis.QueryStruct) {
 		for i, fw := range g.info.PKeys {
 			predicate := SQL.ComparisonPredicate{}
 			predicate.Cmp = sqlCMPOP[analysis.IsEQ]
-			predicate.LPredicand = makeColRef(fw.ColIdent)
+			predicate.LPredicand = makeTargetColRef(qs, fw.ColIdent)
 			predicate.RPredicand = makeParamSpec(g, fw.Field)
 
 			if qs.Rel.Type.IsSlice {
@@ -2316,6 +2316,16 @@ func makeColRef(id analysis.ColIdent) SQL.ColumnReference {
 	}
 }
 
+// makeTargetColRef makes a reference to a column of the query's target relation.
+// If the relation has no alias and it isn't the only one in the query, then the
+// column is qualified with the relation's name to keep it from being ambiguous.
+func makeTargetColRef(qs *analysis.QueryStruct, id analysis.ColIdent) SQL.ColumnReference {
+	if len(id.Qualifier) == 0 && (qs.Join != nil || qs.IsUpdateSlice()) {
+		id.Qualifier = `"` + qs.Rel.Id.Name + `"`
+	}
+	return makeColRef(id)
+}
+
 // makeRelIdent
 func makeRelIdent(id analysis.RelIdent) SQL.Ident {
 	return SQL.Ident{
-- 
2.43.0


From f4664e0af78bac7321cd1779d3bf85cee4e109d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:04 +0000
Subject: [PATCH 29/90] fix: return the rows of slice updates into the result
 field

---
 internal/generator/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 238b68a..cb44242 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1017,6 +1017,9 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 		columns := append(g.inputCols, g.inputColsPKeys...)
 		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
 		tail := SQL.UpdateTail{Where: g.whereClause}
+		if qs.Result != nil {
+			tail.Returning = SQL.ReturningClause(g.outputVals)
+		}
 		g.sqlTailNode = SQL.NodeList{alias, tail}
 		g.sqlMainNode = stmt
 		return
-- 
2.43.0


From 4d52b28baa78128a71e790b6593f645e49eb20ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 30/90] fix: keep DEFAULT out of the values list of slice
 updates

---
 internal/generator/generator.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index cb44242..55c46af 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -303,7 +303,12 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 
 	for _, fw := range g.info.Writes {
 		if canUseDefault(qs, fw.Field) {
-			g.inputVals = append(g.inputVals, SQL.DEFAULT)
+			if qs.IsUpdateSlice() {
+				// DEFAULT isn't allowed in the VALUES list of the FROM clause
+				g.updateCols = append(g.updateCols, SQL.DEFAULT)
+			} else {
+				g.inputVals = append(g.inputVals, SQL.DEFAULT)
+			}
 			continue
 		}
 
@@ -1014,7 +1019,14 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	if qs.Rel.Type.IsSlice {
 		stmt.Head.From.List = append(stmt.Head.From.List, SQL.ValuesListClausePartial{})
 
-		columns := append(g.inputCols, g.inputColsPKeys...)
+		// the columns of the VALUES list, which excludes those set to DEFAULT
+		var columns SQL.NameGroup
+		for i, col := range g.inputCols {
+			if g.updateCols[i] != SQL.DEFAULT {
+				columns = append(columns, col)
+			}
+		}
+		columns = append(columns, g.inputColsPKeys...)
 		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
 		tail := SQL.UpdateTail{Where: g.whereClause}
 		if qs.Result != nil {
-- 
2.43.0


From e5b76ac5295f362d78e425f70476e423d0505967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:01 +0000
Subject: [PATCH 31/90] fix: pass the primary keys that are set to DEFAULT, and
 convert those of types that need it

---
 internal/generator/generator.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 55c46af..ec99132 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -41,10 +41,10 @@ func Write(f io.Writer, pkgName string, targets []*postgres.TargetInfo, cfg conf
 		g.file = file
 		g.fmtColIdent = fmtColIdent
 		g.queryRecv = GO.Ident{"q"}
-		g.inputPKeys = inputPKeys(info)
 
 		switch s := info.Struct.(type) {
 		case *analysis.QueryStruct:
+			g.inputPKeys = inputPKeys(s, info)
 			buildQueryCode(g, s)
 		case *analysis.FilterStruct:
 			buildFilterCode(g, s)
@@ -425,6 +425,7 @@ func buildQueryInputPKeyFields(g *generator, qs *analysis.QueryStruct) {
 				fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
 			}
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{fw.Field.Name}}
+			fx = addConverterCallExpr(g, fx, fw.Valuer)
 			g.inputArgs = append(g.inputArgs, fx)
 		}
 	}
@@ -2094,11 +2095,13 @@ func buildQueryResultRowsScan(g *generator, qs *analysis.QueryStruct) {
 // Helpers
 //
 
-func inputPKeys(t *postgres.TargetInfo) (out []*postgres.FieldWrite) {
+// inputPKeys returns the primary key fields that are not already part of
+// the query's input, i.e. those whose values aren't written by the query.
+func inputPKeys(qs *analysis.QueryStruct, t *postgres.TargetInfo) (out []*postgres.FieldWrite) {
 	for i := 0; i < len(t.PKeys); i++ {
 		elide := false
 		for j := 0; j < len(t.Writes); j++ {
-			if t.Writes[j].Field == t.PKeys[i].Field {
+			if t.Writes[j].Field == t.PKeys[i].Field && !canUseDefault(qs, t.Writes[j].Field) {
 				elide = true
 			}
 		}
-- 
2.43.0


From 492164ad0fbd07d33d8b9d44a346ccf5405ba7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 32/90] fix: place the RETURNING clause of deletes after the
 WHERE clause of the filter

---
 internal/generator/generator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index ec99132..a2c0745 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1094,6 +1094,14 @@ func buildSQLDeleteStatement(g *generator, qs *analysis.QueryStruct) {
 		stmt.Using.List = append(stmt.Using.List, g.tableExprSlice()...)
 	}
 
+	if qs.Filter != nil && len(g.outputVals) > 0 {
+		// The filter's WHERE clause is appended at runtime,
+		// the RETURNING clause has to follow it.
+		g.sqlTailNode = SQL.UpdateTail{Returning: SQL.ReturningClause(g.outputVals)}
+		g.sqlMainNode = stmt
+		return
+	}
+
 	stmt.Where = g.whereClause
 	stmt.Returning = SQL.ReturningClause(g.outputVals) //returning
 	g.sqlMainNode = stmt
-- 
2.43.0


From 32c2d32a78c0a89f2346694e56712a13cf502417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 33/90] fix: read inet arrays with the functions that read them

---
 internal/postgres/compatibility.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/compatibility.go b/internal/postgres/compatibility.go
index 115333b..80ba236 100644
--- a/internal/postgres/compatibility.go
+++ b/internal/postgres/compatibility.go
@@ -215,8 +215,8 @@ func init_oid2literal() map[compkey]map[analysis.LiteralType]compentry {
 			analysis.LiteralByteSlice: {},
 		},
 		{oid: oid.InetArr}: {
-			analysis.LiteralIPSlice:    {valuer: "InetArrayFromIPSlice", scanner: "InetArrayFromIPSlice"},
-			analysis.LiteralIPNetSlice: {valuer: "InetArrayFromIPNetSlice", scanner: "InetArrayFromIPNetSlice"},
+			analysis.LiteralIPSlice:    {valuer: "InetArrayFromIPSlice", scanner: "InetArrayToIPSlice"},
+			analysis.LiteralIPNetSlice: {valuer: "InetArrayFromIPNetSlice", scanner: "InetArrayToIPNetSlice"},
 			analysis.LiteralString:     {},
 			analysis.LiteralByteSlice:  {},
 		},
-- 
2.43.0


From 49406ed79c452898e22283f69338699f52a81fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 34/90] fix: quote the zero value of lseg columns

---
 internal/postgres/oid/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/postgres/oid/types.go b/internal/postgres/oid/types.go
index 5bd705d..32dbaf0 100644
--- a/internal/postgres/oid/types.go
+++ b/internal/postgres/oid/types.go
@@ -247,7 +247,7 @@ var TypeToZeroValue = map[OID]string{
 	JSONBArr:      `'{}'`,
 	// Line:          `''`,
 	LineArr:        `'{}'`,
-	LSeg:           `[(0,0),(0,0)]`,
+	LSeg:           `'[(0,0),(0,0)]'`,
 	LSegArr:        `'{}'`,
 	MACAddr:        `'00:00:00:00:00:00'`,
 	MACAddrArr:     `'{}'`,
-- 
2.43.0


From e19aadd085a9c647fbe8c0c06d30a4e228310c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 35/90] fix: accept for columns of length 1 what is accepted
 for columns of any length

---
 internal/postgres/postgres.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index ec3743d..9f9fb3d 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -2028,6 +2028,11 @@ func typeCompatibility(c *checker, ctyp *Type, ftyp analysis.TypeInfo, typmod1 b
 			return &comp
 		}
 	}
+
+	// the entries of "length 1" types are in addition to those of the type in general
+	if typmod1 {
+		return typeCompatibility(c, ctyp, ftyp, false)
+	}
 	return nil // not compatible
 }
 
-- 
2.43.0


From c72e2ef6b09ebbe47066f6e9859e68ba5ab206c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 36/90] fix: refuse pointers and named types where the
 converter functions can't take them

---
 internal/postgres/postgres.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 9f9fb3d..5800943 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -754,7 +754,7 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 	key := OpKey{Left: coid, Right: coid, Name: oprname}
 	if _, ok := c.db.catalog.Operators[key]; ok {
 		typmod1 := isLength1Type(c, cond.Column)
-		if comp := typeCompatibility(c, ctyp, ftyp, typmod1); comp != nil {
+		if comp := typeCompatibility(c, ctyp, ftyp, typmod1); comp != nil && (comp.valuer == "" || isConverterType(ftyp)) {
 			cond.Valuer = comp.valuer
 			return 0
 		}
@@ -775,7 +775,7 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 			if ce.valuer == "" {
 				comp = ce
 				break
-			} else if comp == nil {
+			} else if comp == nil && isConverterType(ftyp) {
 				comp = ce
 			}
 		}
@@ -842,7 +842,7 @@ func typeCheckFieldConditionalWithFunc(c *checker, cond *FieldConditional) dbErr
 				ftyp = analysis.TypeInfo{Kind: analysis.TypeKindString}
 			}
 
-			if comp := typeCompatibility(c, p.R, ftyp, false); comp != nil {
+			if comp := typeCompatibility(c, p.R, ftyp, false); comp != nil && (comp.valuer == "" || isConverterType(ftyp)) {
 				cond.Valuer = comp.valuer
 				return 0
 			}
@@ -1221,7 +1221,7 @@ func typeCheckFieldRead(c *checker, f *analysis.FieldInfo, strict bool) error {
 		}
 
 		typmod1 := isLength1Type(c, col)
-		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil {
+		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil && (comp.scanner == "" || isConverterType(f.Type)) {
 			return comp.scanner, 0
 		}
 
@@ -1345,7 +1345,7 @@ func typeCheckFieldWrite(c *checker, f *analysis.FieldInfo) (*FieldWrite, error)
 		}
 
 		typmod1 := isLength1Type(c, col)
-		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil {
+		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil && (comp.valuer == "" || isConverterType(f.Type)) {
 			return comp.valuer, 0
 		}
 
@@ -1463,7 +1463,7 @@ func typeCheckFieldFilter(c *checker, f *analysis.FieldInfo, strict bool) error
 		}
 
 		typmod1 := isLength1Type(c, col)
-		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil {
+		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil && (comp.valuer == "" || isConverterType(f.Type)) {
 			return comp.valuer, 0
 		}
 
@@ -2036,6 +2036,13 @@ func typeCompatibility(c *checker, ctyp *Type, ftyp analysis.TypeInfo, typmod1 b
 	return nil // not compatible
 }
 
+// isConverterType reports whether or not a value of the given type, or a pointer to it, can be
+// passed to the converter functions as is. The functions do not take pointers to pointers, nor
+// do they take named types in place of the basic ones.
+func isConverterType(typ analysis.TypeInfo) bool {
+	return typ.Kind != analysis.TypeKindPtr && !(typ.Kind.IsBasic() && len(typ.Name) > 0)
+}
+
 // typeOfLiteral returns the type of the given literal expression.
 func typeOfLiteral(c *checker, expr string) (*Type, dbErrorCode) {
 	const pgselectexprtype = `SELECT id::oid FROM pg_typeof(%s) AS id` //`
-- 
2.43.0


From 9bf7425f282c895236154a683f059f1823edbae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 37/90] fix: keep PostgreSQL from taking the binary values of
 nullable columns for text

---
 internal/postgres/oid/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/postgres/oid/types.go b/internal/postgres/oid/types.go
index 32dbaf0..30695f8 100644
--- a/internal/postgres/oid/types.go
+++ b/internal/postgres/oid/types.go
@@ -209,7 +209,7 @@ var TypeToZeroValue = map[OID]string{
 	BoxArr:        `'{}'`,
 	BPChar:        `''`,
 	BPCharArr:     `'{}'`,
-	Bytea:         `'\x'`,
+	Bytea:         `'\x'::bytea`,
 	ByteaArr:      `'{}'`,
 	Char:          `''`,
 	CharArr:       `'{}'`,
-- 
2.43.0


From 2f3fde67be81fd40e1c23e0545930266c0cb477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 38/90] fix: give the parameters of nullable columns the type
 of the column rather than that of the zero

---
 internal/generator/generator.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index a2c0745..40e20a5 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -717,6 +717,13 @@ func addNULLIFCallExpr(x SQL.ValueExpr, c *postgres.Column) SQL.ValueExpr {
 		nullif.Value = x
 		nullif.Expr = SQL.Literal{lit}
 
+		// The parameter takes on the type of the literal, and the
+		// values of these types may not be valid as those of an integer.
+		switch c.Type.OID {
+		case oid.Int8, oid.Numeric, oid.Float4, oid.Money:
+			nullif.Expr = SQL.CastExpr{Expr: nullif.Expr, Type: c.Type.NameFmt}
+		}
+
 		cast := SQL.CastExpr{}
 		cast.Expr = nullif
 		cast.Type = c.Type.NameFmt
-- 
2.43.0


From 8fc734ace6841501fff1704ac7e13a7f4db81eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 39/90] fix: cast the values of slice updates whose column has
 no zero value

---
 internal/generator/generator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 40e20a5..0801a78 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -322,7 +322,8 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 			expr = makeParamSpec(g, fw.Field)
 			if fw.NeedsNULLIF() {
 				expr = addNULLIFCallExpr(expr, fw.Column)
-			} else {
+			}
+			if _, ok := expr.(SQL.CastExpr); !ok {
 				cast := SQL.CastExpr{}
 				cast.Expr = expr
 				cast.Type = fw.Column.Type.NameFmt
-- 
2.43.0


From 85a16426567058c6d596228f6f181676e362afc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 40/90] fix: cast to char and bit types without a length limit

---
 internal/postgres/postgres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 5800943..923699f 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1618,7 +1618,7 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 	const selectTypes = `SELECT
 		t.oid
 		, t.typname
-		, pg_catalog.format_type(t.oid, NULL)
+		, pg_catalog.format_type(t.oid, -1)
 		, t.typlen
 		, t.typtype
 		, t.typcategory
-- 
2.43.0


From b0ca182bf335e27a0811541340c0ea3f2e21e3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 41/90] fix: refuse quantifiers with predicates that do not
 take them

---
 internal/analysis/enums.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/analysis/enums.go b/internal/analysis/enums.go
index 7d3519d..59ddaba 100644
--- a/internal/analysis/enums.go
+++ b/internal/analysis/enums.go
@@ -392,7 +392,9 @@ func (p Predicate) IsArray() bool { return _seq_pred_start < p && p < _seq_pred_
 func (p Predicate) IsUnary() bool { return p.IsNull() || p.IsBoolean() }
 
 // CanQuantify reports whether or not the predicate can be used together with a quantifier.
-func (p Predicate) CanQuantify() bool { return p.IsBinary() || p.IsPatternMatch() }
+func (p Predicate) CanQuantify() bool {
+	return (p.IsBinary() || p.IsPatternMatch()) && !p.IsOneOf(IsDistinct, NotDistinct, IsSimilar, NotSimilar)
+}
 
 // IsOneOf reports whether or not p is one of the provided predicates.
 func (p Predicate) IsOneOf(pp ...Predicate) bool {
-- 
2.43.0


From 39f2d1ccbd7a44151b6f97059921422120bf1dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 42/90] fix: resolve the operators and functions of conditions
 the way postgres does

Comparisons of equal types were accepted without there being an operator, while
those that need an implicit cast or a polymorphic operator were refused. Aggregate,
window, and invisible functions were accepted, and the parameters of overloaded
functions were left untyped.
---
 internal/generator/generator.go |   3 +
 internal/postgres/oid/types.go  |   3 +
 internal/postgres/postgres.go   | 195 ++++++++++++++++++++------------
 internal/postgres/types.go      |   2 +
 4 files changed, 132 insertions(+), 71 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 0801a78..fe228dc 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1341,6 +1341,9 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 
 					rhsFuncCall := SQL.RoutineInvocation{}
 					rhsFuncCall.Name = string(cond.FuncName)
+					if cond.FuncArgType != nil {
+						rhs = SQL.CastExpr{Expr: rhs, Type: cond.FuncArgType.NameFmt}
+					}
 					rhsFuncCall.Args = []SQL.ValueExpr{rhs}
 					rhs = rhsFuncCall
 				}
diff --git a/internal/postgres/oid/types.go b/internal/postgres/oid/types.go
index 30695f8..dcce13b 100644
--- a/internal/postgres/oid/types.go
+++ b/internal/postgres/oid/types.go
@@ -4,6 +4,9 @@ type OID uint32
 
 const (
 	Any            OID = 2276
+	AnyArray       OID = 2277
+	AnyEnum        OID = 3500
+	AnyRange       OID = 3831
 	Bit            OID = 1560
 	BitArr         OID = 1561
 	Bool           OID = 16
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 923699f..02a5c68 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"log"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -719,10 +720,14 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 	var (
 		ftyp    = cond.FieldType
 		ctyp    = cond.Column.Type
-		coid    = cond.Column.Type.OID
 		oprname = predicateToOprname[cond.Predicate]
 	)
 
+	// An array predicate compares the column to the individual elements.
+	if cond.Predicate.IsArray() && ftyp.Elem != nil {
+		ftyp = *ftyp.Elem
+	}
+
 	// XXX(mkopriva): not sure this is the correct approach ...
 	// The checker can either trust the user to provide a value in the correct
 	// format, or it could "request" more information by specifying that some
@@ -732,41 +737,40 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 		ftyp = analysis.TypeInfo{Kind: analysis.TypeKindString}
 	}
 
-	if ctyp.Type == TypeTypeEnum { // enum labels are basically text
-		coid = oid.Text
-	}
-
-	if cond.Predicate.IsArray() || cond.Quantifier > 0 {
-		// FIXME(mkopriva): this currently breaks for custom types like
-		// enums. Must figure out how to find the oid of a custom type...
-		id, ok := oid.TypeToArray[cond.Column.Type.OID]
-		if ok {
-			ctyp, ok = c.db.catalog.Types[id]
-		}
-		if !ok && cond.Predicate.IsArray() {
-			return errPredicateOperandArray
-		} else if !ok && cond.Quantifier > 0 {
-			log.Println("EHHEHEHEHE")
+	if cond.Quantifier > 0 {
+		if ctyp = arrayTypeOf(c, cond.Column.Type); ctyp == nil {
 			return errPredicateOperandQuantifier
 		}
 	}
 
-	key := OpKey{Left: coid, Right: coid, Name: oprname}
-	if _, ok := c.db.catalog.Operators[key]; ok {
+	// NOTE the elements of an array predicate's list are not passed through a valuer.
+	canUseValuer := isConverterType(ftyp) && !cond.Predicate.IsArray()
+
+	if hasOperator(c, oprname, cond.Column.Type, cond.Column.Type) {
 		typmod1 := isLength1Type(c, cond.Column)
-		if comp := typeCompatibility(c, ctyp, ftyp, typmod1); comp != nil && (comp.valuer == "" || isConverterType(ftyp)) {
+		if comp := typeCompatibility(c, ctyp, ftyp, typmod1); comp != nil && (comp.valuer == "" || canUseValuer) {
 			cond.Valuer = comp.valuer
 			return 0
 		}
 	}
 
+	// The field's value will be cast to an array of the column's type.
+	if cond.Quantifier > 0 {
+		return errColumnFieldComparison
+	}
+
+	// Look at the operators with a different right hand side operand type, to
+	// make the result deterministic prefer the one with the lowest type OID.
 	var comp *compentry
+	var rights []oid.OID
 	for key := range c.db.catalog.Operators {
-		if key.Name != oprname || key.Left != coid {
-			continue
+		if key.Name == oprname && key.Left == cond.Column.Type.OID && key.Right != key.Left {
+			rights = append(rights, key.Right)
 		}
-
-		typ, ok := c.db.catalog.Types[key.Right]
+	}
+	sort.Slice(rights, func(i, j int) bool { return rights[i] < rights[j] })
+	for _, right := range rights {
+		typ, ok := c.db.catalog.Types[right]
 		if !ok {
 			continue
 		}
@@ -775,7 +779,7 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 			if ce.valuer == "" {
 				comp = ce
 				break
-			} else if comp == nil && isConverterType(ftyp) {
+			} else if comp == nil && canUseValuer {
 				comp = ce
 			}
 		}
@@ -793,6 +797,11 @@ func typeCheckFieldConditionalWithFunc(c *checker, cond *FieldConditional) dbErr
 	if !ok {
 		return errProcedureUnknown
 	}
+	for _, p := range procs {
+		if p.IsAgg { // not allowed in WHERE
+			return errProcedureUnknown
+		}
+	}
 
 	// - 1. produce a set of LR proc return type & comparison op
 	//      combinations that are valid
@@ -830,8 +839,21 @@ func typeCheckFieldConditionalWithFunc(c *checker, cond *FieldConditional) dbErr
 		}
 	}
 
+	// Prefer the function that takes the column's type as is,
+	// and use the same function for both operands if possible.
+	rank := func(p pair) (n int) {
+		if p.L.OID != cond.Column.Type.OID {
+			n += 2
+		}
+		if p.R.OID != p.L.OID {
+			n += 1
+		}
+		return n
+	}
+	sort.SliceStable(pairs, func(i, j int) bool { return rank(pairs[i]) < rank(pairs[j]) })
+
 	for _, p := range pairs {
-		if checkTypeCoercion(c, p.L.OID, cond.Column.Type.OID) {
+		if isImplicitlyCastable(c, p.L.OID, cond.Column.Type.OID) {
 			// XXX(mkopriva): not sure this is the correct approach ...
 			// The checker can either trust the user to provide a value in the correct
 			// format, or it could "request" more information by specifying that some
@@ -844,6 +866,12 @@ func typeCheckFieldConditionalWithFunc(c *checker, cond *FieldConditional) dbErr
 
 			if comp := typeCompatibility(c, p.R, ftyp, false); comp != nil && (comp.valuer == "" || isConverterType(ftyp)) {
 				cond.Valuer = comp.valuer
+				// if the function is overloaded, then the type of the parameter
+				// must be specified unless it is text, which is the type that
+				// postgres prefers for parameters of an unknown type.
+				if len(procs) > 1 && p.R.OID != oid.Text {
+					cond.FuncArgType = p.R
+				}
 				return 0
 			}
 		}
@@ -960,7 +988,7 @@ func typeCheckColumnConditional(c *checker, cond *ColumnConditional, rel *Relati
 //	   an entry in the pg_operator table.
 func typeCheckComparison(c *checker, ltyp *Type, rtyp *Type, pred analysis.Predicate, qua analysis.Quantifier) dbErrorCode {
 	if pred.IsArray() || qua > 0 {
-		if rtyp.Category != TypeCategoryArray {
+		if rtyp == nil || rtyp.Category != TypeCategoryArray {
 			if pred.IsArray() {
 				return errPredicateOperandArray
 			}
@@ -968,42 +996,85 @@ func typeCheckComparison(c *checker, ltyp *Type, rtyp *Type, pred analysis.Predi
 		}
 		rtyp = c.db.catalog.Types[rtyp.Elem]
 	}
-
-	if ltyp.OID == rtyp.OID {
-		return 0
+	if rtyp == nil {
+		return errColumnComparison
 	}
 
+	// untyped string constants take on the type of the LHS
 	if (ltyp.Category == TypeCategoryString || ltyp.Type == TypeTypeEnum) && rtyp.OID == oid.Unknown {
-		return 0
+		rtyp = ltyp
 	}
 
 	// if operator exists, accept
-	opkey := OpKey{Left: ltyp.OID, Right: rtyp.OID, Name: predicateToOprname[pred]}
-	if _, ok := c.db.catalog.Operators[opkey]; ok {
+	if hasOperator(c, predicateToOprname[pred], ltyp, rtyp) {
 		return 0
 	}
+	return errColumnComparison
+}
 
-	// if L & R are not the same type, try *implicit* casting.
-	if opkey.Left != opkey.Right {
-		castkey := CastKey{Source: opkey.Left, Target: opkey.Right}
-		if cast := c.db.catalog.Casts[castkey]; cast != nil && cast.Context == CastContextImplicit {
-			k := OpKey{Left: cast.Target, Right: cast.Target, Name: opkey.Name}
-			if _, ok := c.db.catalog.Operators[k]; ok {
-				return 0
+// hasOperator reports whether or not there is an operator with the given name
+// that can be applied to operands of the given types, either directly, or after
+// an implicit cast of the operands.
+func hasOperator(c *checker, name string, ltyp, rtyp *Type) bool {
+	if _, ok := c.db.catalog.Operators[OpKey{Left: ltyp.OID, Right: rtyp.OID, Name: name}]; ok {
+		return true
+	}
+
+	// same type, look for an operator with polymorphic operands
+	if ltyp.OID == rtyp.OID {
+		var any oid.OID
+		switch {
+		case ltyp.Type == TypeTypeDomain:
+			// the operators of a domain are those of its base type
+			return true
+		case ltyp.Type == TypeTypeEnum:
+			any = oid.AnyEnum
+		case ltyp.Type == TypeTypeRange:
+			any = oid.AnyRange
+		case ltyp.Category == TypeCategoryArray:
+			// the elements must be comparable as well
+			elem, ename := c.db.catalog.Types[ltyp.Elem], "<"
+			if name == "=" || name == "<>" {
+				ename = "="
 			}
+			if elem != nil && hasOperator(c, ename, elem, elem) {
+				any = oid.AnyArray
+			}
+		}
+		if _, ok := c.db.catalog.Operators[OpKey{Left: any, Right: any, Name: name}]; ok && any > 0 {
+			return true
 		}
+	}
 
-		// switch target & source
-		castkey = CastKey{Source: opkey.Right, Target: opkey.Left}
-		if cast := c.db.catalog.Casts[castkey]; cast != nil && cast.Context == CastContextImplicit {
-			k := OpKey{Left: cast.Target, Right: cast.Target, Name: opkey.Name}
-			if _, ok := c.db.catalog.Operators[k]; ok {
-				return 0
-			}
+	// look for an operator to whose operands the types can be implicitly cast
+	for key := range c.db.catalog.Operators {
+		if key.Name == name && isImplicitlyCastable(c, key.Left, ltyp.OID) && isImplicitlyCastable(c, key.Right, rtyp.OID) {
+			return true
 		}
 	}
+	return false
+}
 
-	return errColumnComparison
+// isImplicitlyCastable reports whether or not the source type is the
+// same as the target type, or can be implicitly cast to it.
+func isImplicitlyCastable(c *checker, target, source oid.OID) bool {
+	if target == source {
+		return true
+	}
+	cast := c.db.catalog.Casts[CastKey{Target: target, Source: source}]
+	return cast != nil && cast.Context == CastContextImplicit
+}
+
+// arrayTypeOf returns the array type whose element is the
+// given type, or nil if there is no such type.
+func arrayTypeOf(c *checker, typ *Type) *Type {
+	if id, ok := oid.TypeToArray[typ.OID]; ok {
+		return c.db.catalog.Types[id]
+	}
+	if typ.Type == TypeTypeEnum { // enum labels are basically text
+		return c.db.catalog.Types[oid.TextArr]
+	}
+	return nil
 }
 
 // typeCheckQueryOnConflictStruct
@@ -1496,30 +1567,6 @@ func typeCheckFieldFilter(c *checker, f *analysis.FieldInfo, strict bool) error
 	return nil
 }
 
-func checkTypeCoercion(c *checker, target oid.OID, source oid.OID) bool {
-	// if same type, accept
-	if target == source {
-		return true
-	}
-
-	// if target is ANY, accept
-	if target == oid.Any {
-		return true
-	}
-
-	// if source is an untyped string constant assume it can be converted to anything
-	if source == oid.Unknown {
-		return true
-	}
-
-	// if pg_cast says ok, accept.
-	key := CastKey{Target: target, Source: source}
-	if cast := c.db.catalog.Casts[key]; cast != nil {
-		return cast.Context == CastContextImplicit || cast.Context == CastContextAssignment
-	}
-	return false
-}
-
 ////////////////////////////////////////////////////////////////////////////////
 // Find Functions
 //
@@ -1731,6 +1778,9 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 			, p.prokind = 'a'
 		FROM pg_proc p
 		WHERE p.pronargs = 1
+		AND p.prokind IN ('f', 'a')
+		AND NOT p.proretset
+		AND pg_catalog.pg_function_is_visible(p.oid)
 		AND p.proname NOT LIKE 'pg_%'
 		AND p.proname NOT LIKE '_pg_%'
 		` //`
@@ -1744,6 +1794,9 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 			, p.proisagg
 		FROM pg_proc p
 		WHERE p.pronargs = 1
+		AND NOT p.proiswindow
+		AND NOT p.proretset
+		AND pg_catalog.pg_function_is_visible(p.oid)
 		AND p.proname NOT LIKE 'pg_%'
 		AND p.proname NOT LIKE '_pg_%'
 		` //`
diff --git a/internal/postgres/types.go b/internal/postgres/types.go
index a90ba38..3def105 100644
--- a/internal/postgres/types.go
+++ b/internal/postgres/types.go
@@ -70,6 +70,8 @@ type (
 		Quantifier analysis.Quantifier
 		// Name of the modifier function, or empty.
 		FuncName analysis.FuncName
+		// The type to which to cast the modifier function's parameter, or nil.
+		FuncArgType *Type
 		// Name of the valuer to be employed, or empty.
 		Valuer string
 	}
-- 
2.43.0


From d17a776113a4e3de6112a5534b30f27e3f0af064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 43/90] fix: recognize methods that are promoted from embedded
 fields or declared by interfaces

The gosql.Conn, FilterConstructor, ErrorHandler, ErrorInfoHandler, AfterScanner,
Scanner, Valuer etc. predicates looked only at the methods that are declared for
the type itself, types that implement an interface by embedding another type
were not recognized. A field of type gosql.ErrorHandler, or gosql.ErrorInfoHandler,
was ignored.
---
 internal/typesutil/predicates.go | 75 ++++++++++++++++----------------
 1 file changed, 37 insertions(+), 38 deletions(-)

diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index d23c295..0129d8c 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -261,8 +261,9 @@ func IsDirective(ident string, typ types.Type) bool {
 // implements the "gosql.AfterScanner" interface.
 func ImplementsAfterScanner(named *types.Named) bool {
 	var sig *types.Signature
-	for i := 0; i < named.NumMethods(); i++ {
-		if m := named.Method(i); m.Name() == "AfterScan" {
+	mm := methodsOf(named)
+	for i := 0; i < mm.NumMethods(); i++ {
+		if m := mm.Method(i); m.Name() == "AfterScan" {
 			sig = m.Type().(*types.Signature)
 			break
 		}
@@ -274,8 +275,9 @@ func ImplementsAfterScanner(named *types.Named) bool {
 // implements the "gosql.ErrorHandler" interface.
 func ImplementsErrorHandler(named *types.Named) bool {
 	var sig *types.Signature
-	for i := 0; i < named.NumMethods(); i++ {
-		if m := named.Method(i); m.Name() == "HandleError" {
+	mm := methodsOf(named)
+	for i := 0; i < mm.NumMethods(); i++ {
+		if m := mm.Method(i); m.Name() == "HandleError" {
 			sig = m.Type().(*types.Signature)
 			break
 		}
@@ -291,8 +293,9 @@ func ImplementsErrorHandler(named *types.Named) bool {
 // implements the "gosql.ErrorInfoHandler" interface.
 func ImplementsErrorInfoHandler(named *types.Named) bool {
 	var sig *types.Signature
-	for i := 0; i < named.NumMethods(); i++ {
-		if m := named.Method(i); m.Name() == "HandleErrorInfo" {
+	mm := methodsOf(named)
+	for i := 0; i < mm.NumMethods(); i++ {
+		if m := mm.Method(i); m.Name() == "HandleErrorInfo" {
 			sig = m.Type().(*types.Signature)
 			break
 		}
@@ -321,10 +324,7 @@ func ImplementsErrorInfoHandler(named *types.Named) bool {
 
 // ImplementsGosqlConn reports whether or not the given named type implements the "gosql.Conn" interface.
 func ImplementsGosqlConn(named *types.Named) bool {
-	mm := Methoder(named)
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		mm = iface
-	}
+	mm := methodsOf(named)
 
 	var hasExec, hasQuery, hasQueryRow bool
 	var hasExecContext, hasQueryContext, hasQueryRowContext bool
@@ -425,10 +425,7 @@ func ImplementsGosqlFilterConstructor(typ types.Type) bool {
 		return false
 	}
 
-	mm := Methoder(named)
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		mm = iface
-	}
+	mm := methodsOf(named)
 
 	var hasInit, hasInitV2, hasCol, hasAnd, hasOr bool
 
@@ -498,10 +495,7 @@ func ImplementsGosqlFilterConstructor(typ types.Type) bool {
 // interface type, ImplementsScanner will report whether or not that interface
 // type declares, or embeds, the "Scan(interface{}) error" method.
 func ImplementsScanner(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsScanner(iface)
-	}
-	return IsScanner(named)
+	return IsScanner(methodsOf(named))
 }
 
 // IsScanner reports whether or not the given Methoder type declares,
@@ -529,10 +523,7 @@ func IsScanner(mm Methoder) bool {
 // an interface type, ImplementsValuer will report whether or not that interface
 // type declares, or embeds, the "Value() (driver.Value, error)" method.
 func ImplementsValuer(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsValuer(iface)
-	}
-	return IsValuer(named)
+	return IsValuer(methodsOf(named))
 }
 
 // IsValuer reports whether or not the given Methoder type declares,
@@ -560,10 +551,7 @@ func IsValuer(mm Methoder) bool {
 // is an interface type, ImplementsJSONMarshaler will report whether or not that
 // interface type declares, or embeds, the "MarshalJSON() ([]byte, error)" method.
 func ImplementsJSONMarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsJSONMarshaler(iface)
-	}
-	return IsJSONMarshaler(named)
+	return IsJSONMarshaler(methodsOf(named))
 }
 
 // IsJSONMarshaler reports whether or not the given Methoder type declares,
@@ -591,10 +579,7 @@ func IsJSONMarshaler(mm Methoder) bool {
 // is an interface type, ImplementsJSONUnmarshaler will report whether or not that
 // interface type declares, or embeds, the "UnmarshalJSON([]byte) (error)" method.
 func ImplementsJSONUnmarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsJSONUnmarshaler(iface)
-	}
-	return IsJSONUnmarshaler(named)
+	return IsJSONUnmarshaler(methodsOf(named))
 }
 
 // IsJSONUnmarshaler reports whether or not the given Methoder type declares,
@@ -622,10 +607,7 @@ func IsJSONUnmarshaler(mm Methoder) bool {
 // type, ImplementsXMLMarshaler will report whether or not that interface type declares,
 // or embeds, the "MarshalXML(*xml.Encoder, xml.StartElement) (error)" method.
 func ImplementsXMLMarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsXMLMarshaler(iface)
-	}
-	return IsXMLMarshaler(named)
+	return IsXMLMarshaler(methodsOf(named))
 }
 
 // IsXMLMarshaler reports whether or not the given Methoder type declares,
@@ -654,10 +636,7 @@ func IsXMLMarshaler(mm Methoder) bool {
 // type, ImplementsXMLUnmarshaler will report whether or not that interface type declares,
 // or embeds, the "UnmarshalXML(*xml.Decoder, xml.StartElement) (error)" method.
 func ImplementsXMLUnmarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsXMLUnmarshaler(iface)
-	}
-	return IsXMLUnmarshaler(named)
+	return IsXMLUnmarshaler(methodsOf(named))
 }
 
 // IsXMLUnmarshaler reports whether or not the given Methoder type declares,
@@ -688,6 +667,26 @@ type Methoder interface {
 	Method(i int) *types.Func
 }
 
+// methodsOf returns the methods of the given named type, including those that
+// are promoted from embedded fields. If the named type's underlying type is an
+// interface type, the result are the methods that are declared, or embedded,
+// by that interface type.
+func methodsOf(named *types.Named) Methoder {
+	if iface, ok := named.Underlying().(*types.Interface); ok {
+		return iface
+	}
+	return methodSet{types.NewMethodSet(types.NewPointer(named))}
+}
+
+// methodSet implements the Methoder interface.
+type methodSet struct {
+	*types.MethodSet
+}
+
+func (ms methodSet) NumMethods() int { return ms.Len() }
+
+func (ms methodSet) Method(i int) *types.Func { return ms.At(i).Obj().(*types.Func) }
+
 // isbyteslice reports whether or not the given type is a []byte type.
 func isbyteslice(t types.Type) bool {
 	if s, ok := t.(*types.Slice); ok {
-- 
2.43.0


From dbeeb2fb389678b4ea1e098cd8708a59eff133a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 44/90] fix: accept every type that implements ErrorHandler,
 ErrorInfoHandler or FilterConstructor

Pointers to such types were ignored, or rejected, and a filter constructor had
to have the InitV2 method, which isn't part of gosql.FilterConstructor, even
without the v2 option.
---
 internal/analysis/analysis.go    |  8 +++++++-
 internal/typesutil/predicates.go | 10 +++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index f31d8fa..9d5c2b7 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -208,7 +208,7 @@ func analyzeFilterStruct(a *analysis, structType *types.Struct) (*FilterStruct,
 			}
 		} else {
 			// fields with specific names / types
-			if typesutil.ImplementsGosqlFilterConstructor(fvar.Type()) {
+			if typesutil.ImplementsGosqlFilterConstructor(fvar.Type(), tag.Contains("filter", "v2")) {
 				if err := analyzeFilterConstructorField(a, fvar, ftag); err != nil {
 					return nil, err
 				}
@@ -2160,6 +2160,9 @@ func isBoolType(typ types.Type) bool {
 
 // isErrorHandler reports whether or not the given type implements the gosql.ErrorHandler interface.
 func isErrorHandler(typ types.Type) bool {
+	if ptr, ok := typ.(*types.Pointer); ok && !types.IsInterface(ptr.Elem()) {
+		typ = ptr.Elem()
+	}
 	named, ok := typ.(*types.Named)
 	if !ok {
 		return false
@@ -2169,6 +2172,9 @@ func isErrorHandler(typ types.Type) bool {
 
 // isErrorInfoHandler reports whether or not the given type implements the gosql.ErrorInfoHandler interface.
 func isErrorInfoHandler(typ types.Type) bool {
+	if ptr, ok := typ.(*types.Pointer); ok && !types.IsInterface(ptr.Elem()) {
+		typ = ptr.Elem()
+	}
 	named, ok := typ.(*types.Named)
 	if !ok {
 		return false
diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index 0129d8c..45b8e33 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -418,8 +418,12 @@ func ImplementsGosqlConn(named *types.Named) bool {
 }
 
 // ImplementsGosqlFilterConstructor reports whether or not the given named
-// type implements the "gosql.FilterConstructor" interface.
-func ImplementsGosqlFilterConstructor(typ types.Type) bool {
+// type, or pointer to a named type, implements the "gosql.FilterConstructor"
+// interface. If v2 is true, the type also has to have the "InitV2" method.
+func ImplementsGosqlFilterConstructor(typ types.Type, v2 bool) bool {
+	if ptr, ok := typ.(*types.Pointer); ok && !types.IsInterface(ptr.Elem()) {
+		typ = ptr.Elem()
+	}
 	named, ok := typ.(*types.Named)
 	if !ok {
 		return false
@@ -487,7 +491,7 @@ func ImplementsGosqlFilterConstructor(typ types.Type) bool {
 		}
 	}
 
-	return hasInit && hasInitV2 && hasCol && hasAnd && hasOr
+	return hasInit && (hasInitV2 || !v2) && hasCol && hasAnd && hasOr
 }
 
 // ImplementsScanner reports whether or not the given named type implements the
-- 
2.43.0


From cd8c2d08cd91aa01e403d897aba2cc7bd76d1d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 45/90] fix: format the generated code before any file is
 written

Code that go/format rejects, e.g. because of a bad method_name, made the tool
truncate and then remove the existing output file.
---
 internal/command/command.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/internal/command/command.go b/internal/command/command.go
index cc94378..3c67cba 100644
--- a/internal/command/command.go
+++ b/internal/command/command.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"fmt"
 	"go/format"
-	"io"
 	"os"
 	"path/filepath"
 	"strings"
@@ -90,6 +89,13 @@ func (cmd *Command) Run() error {
 				return err
 			}
 
+			// make it look pretty, nothing is written unless the
+			// code for all of the files is known to be valid
+			out.src, err = format.Source(out.buf.Bytes())
+			if err != nil {
+				return fmt.Errorf("failed to format the code generated for: %q -- %v", file.Path, err)
+			}
+
 			outFiles[j] = out
 		}
 		result[i] = outFiles
@@ -126,6 +132,8 @@ type outFile struct {
 	targInfos []*postgres.TargetInfo
 	// the generated code
 	buf bytes.Buffer
+	// the formatted code
+	src []byte
 }
 
 func (cmd *Command) writeOutFile(out *outFile) (err error) {
@@ -140,14 +148,7 @@ func (cmd *Command) writeOutFile(out *outFile) (err error) {
 		}
 	}()
 
-	// make it look pretty
-	bs, err := format.Source(out.buf.Bytes())
-	if err != nil {
-		return err
-	}
-
-	buf := bytes.NewBuffer(bs)
-	if _, err := io.Copy(f, buf); err != nil {
+	if _, err := f.Write(out.src); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 044e21a6b32ff3c65d52559c77ad558963cb8757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 46/90] fix: reject output filename formats that overwrite the
 input files

---
 internal/config/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/config/config.go b/internal/config/config.go
index 9f15135..cf4abe7 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -275,6 +275,11 @@ func (c *Config) Validate() (err error) {
 	} else if n > 1 || (n == 1 && !strings.Contains(c.OutputFileNameFormat.Value, "%s")) {
 		return fmt.Errorf("bad output filename format: %q", c.OutputFileNameFormat.Value)
 	}
+	// check that the output will not overwrite the input
+	if f := c.OutputFileNameFormat.Value; f == "%s" || f == "%s.go" {
+		return fmt.Errorf("bad output filename format: %q, the output file's name must"+
+			" be different from the input file's name", f)
+	}
 
 	// check the filter column key configuration for errors
 	rxFCKTag := regexp.MustCompile(`^(?:[A-Za-z_]\w*)?$`)
-- 
2.43.0


From 0aaf0f2624a4abe4655cfd5b75be886472bc3af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:54 +0000
Subject: [PATCH 47/90] fix: import the gosql package wherever the generated
 code refers to it

---
 internal/generator/generator.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index fe228dc..572ea82 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -181,8 +181,9 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 	typ := g.cfg.MethodArgumentType
 	imp := addimport(g.file, typ.PkgPath, typ.PkgName)
 	typ.PkgName = imp.name
+	ctxPkgName := ""
 	if g.cfg.MethodWithContext.Value {
-		_ = addimport(g.file, "context", "")
+		ctxPkgName = addimport(g.file, "context", "").name
 	}
 
 	buildQueryInput(g, qs)
@@ -240,7 +241,7 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 	}
 
 	if g.cfg.MethodWithContext.Value {
-		ctxType := GO.TypeNode(GO.QualifiedIdent{"context", "Context"})
+		ctxType := GO.TypeNode(GO.QualifiedIdent{ctxPkgName, "Context"})
 		method.Type.Params = GO.ParamList{
 			{Names: GO.Ident{"ctx"}, Type: ctxType},
 			method.Type.Params[0],
@@ -639,8 +640,8 @@ func buildQueryLimitOffsetFallback(g *generator, qs *analysis.QueryStruct) {
 // addConverterCallExpr
 func addConverterCallExpr(g *generator, x GO.ExprNode, converter string) GO.ExprNode {
 	if len(converter) > 0 {
-		addimport(g.file, pgsqlPkgPath, pgsqlPkgName)
-		sel := GO.SelectorExpr{X: GO.Ident{pgsqlPkgName}, Sel: GO.Ident{converter}}
+		imp := addimport(g.file, pgsqlPkgPath, pgsqlPkgName)
+		sel := GO.SelectorExpr{X: GO.Ident{imp.name}, Sel: GO.Ident{converter}}
 		return GO.CallExpr{Fun: sel, Args: GO.ArgsList{List: x}}
 	}
 	return x
@@ -1423,7 +1424,7 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				arg1 := GO.Ident{"len" + num}
 				arg2 := GO.Ident{"pos" + num}
 
-				call := GO.CallExpr{Fun: GO.QualifiedIdent{"gosql", "InValueList"}}
+				call := GO.CallExpr{Fun: makeGosqlIdent(g, "InValueList")}
 				call.Args = GO.ArgsList{List: GO.ExprList{arg1, arg2}}
 
 				predicate := SQL.InPredicate{}
@@ -1520,7 +1521,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 		queryStringVar = GO.Ident{"queryString"}
 		paramsVar      = GO.Ident{"params"}
 		ifaceSliceType = GO.Ident{"[]interface{}"}
-		ordinalParams  = GO.QualifiedIdent{"gosql", "OrdinalParameters"}
 		forLoop        = GO.ForStmt{}
 	)
 
@@ -1588,7 +1588,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 		strConcatExprList = make([]GO.ExprNode, valueCount+1) // +1 for the final `),`
 	)
 
-	var importGosql bool
 	inputVals := append(g.inputVals, g.inputValsPKeys...)
 	for i, val := range inputVals {
 		sep := `, `
@@ -1600,8 +1599,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 			defaultCount += 1
 			strConcatExprList[i] = GO.RawStringLit(sep + `DEFAULT`)
 		} else {
-			importGosql = true
-
 			// produce:
 			//	`, ` + gosql.OrdinalParameters[pos+<i - defaultCount>] +
 			binExpr := GO.BinaryExpr{Op: GO.BinaryAdd}
@@ -1610,7 +1607,7 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 
 			concatExpr := GO.BinaryExpr{Op: GO.BinaryAdd}
 			concatExpr.X = GO.RawStringLit(sep)
-			concatExpr.Y = GO.IndexExpr{X: ordinalParams, Index: binExpr}
+			concatExpr.Y = GO.IndexExpr{X: makeGosqlIdent(g, "OrdinalParameters"), Index: binExpr}
 
 			if ni, ok := val.(SQL.NULLIF); ok {
 				concatExpr.X = GO.RawStringLit(sep + `NULLIF(`)
@@ -1631,9 +1628,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 
 		}
 	}
-	if importGosql {
-		addimport(g.file, gosqlPkgPath, gosqlPkgName)
-	}
 
 	strConcatExprList[len(strConcatExprList)-1] = GO.RawStringLit(`),`)
 
@@ -2207,6 +2201,13 @@ func newImportDecl(f *file) *GO.ImportDecl {
 	return imports
 }
 
+// makeGosqlIdent makes a reference to an object of the gosql package
+// and ensures that the package is imported by the generated file.
+func makeGosqlIdent(g *generator, name string) GO.QualifiedIdent {
+	imp := addimport(g.file, gosqlPkgPath, gosqlPkgName)
+	return GO.QualifiedIdent{imp.name, name}
+}
+
 // makeErrorReturnStmt
 func makeErrorReturnStmt(g *generator, qs *analysis.QueryStruct, errExpr GO.ExprNode) GO.StmtNode {
 	if qs.ErrorHandler == nil {
@@ -2219,7 +2220,7 @@ func makeErrorReturnStmt(g *generator, qs *analysis.QueryStruct, errExpr GO.Expr
 			errVar         = GO.Ident{"err"}
 			nilVal         = GO.Ident{"nil"}
 			queryStringVar = GO.Ident{"queryString"}
-			errorInfoType  = GO.QualifiedIdent{"gosql", "ErrorInfo"}
+			errorInfoType  = makeGosqlIdent(g, "ErrorInfo")
 		)
 
 		// produce:
-- 
2.43.0


From 8568589a15bc50d69efc2ac33b98bb9b0f22cdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 48/90] fix: import the package of the output type only if the
 generated code names the type

---
 internal/generator/generator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 572ea82..3ac8a90 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -500,6 +500,11 @@ func buildQueryOutputInitRoot(g *generator, qs *analysis.QueryStruct) {
 		typ = qs.Result.Type
 	}
 
+	// a plain struct needs no initialization
+	if !typ.IsSlice && !typ.IsIter && !typ.IsPointer {
+		return
+	}
+
 	typeNode := GO.TypeNode(GO.Ident{typ.Base.Name})
 	if typ.Base.IsImported {
 		imp := addimport(g.file, typ.Base.PkgPath, typ.Base.PkgName)
-- 
2.43.0


From e57f9a83e324a09a0fc7a0cf03479155309d5a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 49/90] fix: cache the analyzed relation types per package

---
 internal/analysis/analysis.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 9d5c2b7..44d58d2 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -444,6 +444,9 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 		cacheKey = named.String()
 	}
 
+	// the result depends on the package in which the target is declared
+	cacheKey = a.pkgPath + "\x00" + cacheKey
+
 	relTypeCache.RLock()
 	v := relTypeCache.m[cacheKey]
 	relTypeCache.RUnlock()
-- 
2.43.0


From 3488977d39a3e0232dd09d080de00f5d74d4201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 50/90] fix: ignore the unexported fields of imported structs
 that are referenced by pointer

---
 internal/analysis/analysis.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 44d58d2..ba4e3f4 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -554,8 +554,8 @@ stackloop:
 				sqltag == "-" ||
 				// - has blank name, i.e. it's practically inaccessible
 				fvar.Name() == "_" ||
-				// - it's unexported and the field's struct type is imported
-				(!fvar.Exported() && loop.typ.IsImported) {
+				// - it's unexported and declared in another package
+				(!fvar.Exported() && fvar.Pkg().Path() != a.pkgPath) {
 				continue
 			}
 
-- 
2.43.0


From f02dd33b61a7833b9703e3d2f97074c16baf9462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:51 +0000
Subject: [PATCH 51/90] fix: refer to the types of filter method arguments by
 the names under which they're imported

---
 internal/analysis/analysis.go   | 38 ++++++++++++++++++++++-----------
 internal/analysis/types.go      | 17 ---------------
 internal/generator/generator.go | 22 +++++++++++--------
 3 files changed, 39 insertions(+), 38 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index ba4e3f4..8545450 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -2228,16 +2228,30 @@ func (t *TypeInfo) GenericLiteral() LiteralType {
 	return t.literal(false, true)
 }
 
-func (t *TypeInfo) Literal() LiteralType {
-	return t.literal(false, true)
+// Literal returns the type's literal, the qualify func is used to obtain the package
+// qualifiers of the named types. Types that can't be written out as a literal are
+// represented by the empty interface.
+func (t *TypeInfo) Literal(qualify func(*TypeInfo) string) LiteralType {
+	lit := t.literalFunc(qualify, true)
+	if strings.Contains(string(lit), "<un") {
+		return "interface{}"
+	}
+	return lit
 }
 
 func (t *TypeInfo) literal(pkgLocal, elidePtr bool) LiteralType {
-	if len(t.Name) > 0 {
+	return t.literalFunc(func(t *TypeInfo) string {
 		if pkgLocal && len(t.PkgLocal) > 0 && t.PkgLocal != "." {
-			return LiteralType(t.PkgLocal + "." + t.Name)
-		} else if len(t.PkgName) > 0 {
-			return LiteralType(t.PkgName + "." + t.Name)
+			return t.PkgLocal
+		}
+		return t.PkgName
+	}, elidePtr)
+}
+
+func (t *TypeInfo) literalFunc(qualify func(*TypeInfo) string, elidePtr bool) LiteralType {
+	if len(t.Name) > 0 {
+		if pkgName := qualify(t); len(pkgName) > 0 {
+			return LiteralType(pkgName + "." + t.Name)
 		}
 		return LiteralType(t.Name)
 	}
@@ -2246,18 +2260,18 @@ func (t *TypeInfo) literal(pkgLocal, elidePtr bool) LiteralType {
 	default: // assume builtin basic
 		return LiteralType(typeKinds[t.Kind])
 	case TypeKindArray:
-		return LiteralType("["+strconv.FormatInt(t.ArrayLen, 10)+"]") + t.Elem.literal(pkgLocal, false)
+		return LiteralType("["+strconv.FormatInt(t.ArrayLen, 10)+"]") + t.Elem.literalFunc(qualify, false)
 	case TypeKindSlice:
-		return "[]" + t.Elem.literal(pkgLocal, false)
+		return "[]" + t.Elem.literalFunc(qualify, false)
 	case TypeKindMap:
-		return LiteralType("map["+t.Key.literal(pkgLocal, false)+"]") + t.Elem.literal(pkgLocal, false)
+		return LiteralType("map["+t.Key.literalFunc(qualify, false)+"]") + t.Elem.literalFunc(qualify, false)
 	case TypeKindPtr:
 		if elidePtr {
-			return t.Elem.literal(pkgLocal, false)
+			return t.Elem.literalFunc(qualify, false)
 		} else {
-			return "*" + t.Elem.literal(pkgLocal, false)
+			return "*" + t.Elem.literalFunc(qualify, false)
 		}
-		return "*" + t.Elem.literal(pkgLocal, false)
+		return "*" + t.Elem.literalFunc(qualify, false)
 	case TypeKindUint8:
 		if t.IsByte {
 			return "byte"
diff --git a/internal/analysis/types.go b/internal/analysis/types.go
index 49a3393..fefd7c3 100644
--- a/internal/analysis/types.go
+++ b/internal/analysis/types.go
@@ -656,23 +656,6 @@ func (t TypeInfo) ImplementsValuer() bool {
 	return t.IsValuer || (t.Kind == TypeKindPtr && t.Elem.IsValuer)
 }
 
-func (t TypeInfo) ImportedTypes() (out []TypeInfo) {
-	if t.IsImported {
-		return []TypeInfo{t}
-	} else if t.Kind == TypeKindPtr || t.Kind == TypeKindSlice || t.Kind == TypeKindArray {
-		return t.Elem.ImportedTypes()
-	} else if t.Kind == TypeKindMap {
-		if key := t.Key.ImportedTypes(); len(key) > 0 {
-			out = append(out, key...)
-		}
-		if elem := t.Elem.ImportedTypes(); len(elem) > 0 {
-			out = append(out, elem...)
-		}
-		return out
-	}
-	return nil
-}
-
 func (f FieldInfo) IsReadOnly() bool {
 	for i := range f.Selector {
 		if f.Selector[i].Mode.IsReadOnly() {
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 3ac8a90..48f5328 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -876,18 +876,10 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 			continue
 		}
 
-		// add import if necessary
-		if imported := ff.Field.Type.ImportedTypes(); len(imported) > 0 {
-			for _, typ := range imported {
-				imp := addimport(g.file, typ.PkgPath, typ.PkgName)
-				ff.Field.Type.PkgName = imp.name
-			}
-		}
-
 		// the method's input and output arguments
 		methodecl.Type.Params = GO.ParamList{
 			{Names: oper, Type: GO.Ident{"string"}},
-			{Names: value, Type: GO.Ident{string(ff.Field.Type.Literal())}},
+			{Names: value, Type: makeFilterValueType(g, ff.Field)},
 		}
 		methodecl.Type.Results = GO.ParamList{{Type: GO.PointerType{GO.Ident{fs.TypeName}}}}
 
@@ -906,6 +898,18 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 	}
 }
 
+// makeFilterValueType makes the type of the value argument of the filter method for the
+// given field, the packages of the imported types are added to the file's import set.
+func makeFilterValueType(g *generator, f *analysis.FieldInfo) GO.TypeNode {
+	lit := f.Type.Literal(func(t *analysis.TypeInfo) string {
+		if t.IsImported {
+			return addimport(g.file, t.PkgPath, t.PkgName).name
+		}
+		return ""
+	})
+	return GO.Ident{string(lit)}
+}
+
 // buildFilterMethodBoolOp
 func buildFilterMethodBoolOp(g *generator, fs *analysis.FilterStruct, name string) {
 	var (
-- 
2.43.0


From 838075fded3384396b3e5607e98d6313c829f142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 52/90] fix: see through type aliases

---
 internal/analysis/analysis.go    | 30 ++++++-------
 internal/typesutil/predicates.go | 74 ++++++++++++++------------------
 internal/typesutil/utils.go      |  4 +-
 3 files changed, 49 insertions(+), 59 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 8545450..99e702a 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -436,7 +436,7 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 		}
 	}()
 
-	ftyp := field.Type()
+	ftyp := types.Unalias(field.Type())
 	cacheKey := ftyp.String()
 	named, ok := ftyp.(*types.Named)
 	if ok {
@@ -473,15 +473,15 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 	} else {
 		// If not an iterator, check for slices, arrays, and pointers.
 		if slice, ok := ftyp.(*types.Slice); ok { // allows []T / []*T
-			ftyp = slice.Elem()
+			ftyp = types.Unalias(slice.Elem())
 			rt.IsSlice = true
 		} else if array, ok := ftyp.(*types.Array); ok { // allows [N]T / [N]*T
-			ftyp = array.Elem()
+			ftyp = types.Unalias(array.Elem())
 			rt.IsArray = true
 			rt.ArrayLen = array.Len()
 		}
 		if ptr, ok := ftyp.(*types.Pointer); ok { // allows *T
-			ftyp = ptr.Elem()
+			ftyp = types.Unalias(ptr.Elem())
 			rt.IsPointer = true
 		}
 
@@ -648,7 +648,7 @@ stackloop:
 // pointer types it will analyze the element type of those types. The second return
 // value is the types.Type representation of the base element type of the given type.
 func analyzeTypeInfo(a *analysis, tt types.Type) (typ TypeInfo, base types.Type) {
-	base = tt
+	base = types.Unalias(tt)
 
 	if named, ok := base.(*types.Named); ok {
 		pkg := named.Obj().Pkg()
@@ -729,13 +729,13 @@ func analyzeIteratorFunction(a *analysis, rt *RelType, sig *types.Signature) (ou
 	}
 
 	typ := sig.Params().At(0).Type()
-	if ptr, ok := typ.(*types.Pointer); ok { // allows *T
+	if ptr, ok := types.Unalias(typ).(*types.Pointer); ok { // allows *T
 		typ = ptr.Elem()
 		rt.IsPointer = true
 	}
 
 	// Make sure that the argument type is a named struct type.
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return nil, false
 	} else if _, ok := named.Underlying().(*types.Struct); !ok {
@@ -1781,7 +1781,7 @@ func addToRelSpace(a *analysis, id RelIdent) (ecode errorCode, errval string) {
 
 // analyzeTypeKind returns the TypeKind for the given types.Type.
 func analyzeTypeKind(typ types.Type) TypeKind {
-	switch x := typ.(type) {
+	switch x := types.Unalias(typ).(type) {
 	case *types.Basic:
 		return typesBasicKindToTypeKind[x.Kind()]
 	case *types.Array:
@@ -2144,7 +2144,7 @@ type exportable interface {
 
 // isIntegerType reports whether or not the given type is one of the basic (un)signed integer types.
 func isIntegerType(typ types.Type) bool {
-	basic, ok := typ.(*types.Basic)
+	basic, ok := types.Unalias(typ).(*types.Basic)
 	if !ok {
 		return false
 	}
@@ -2154,7 +2154,7 @@ func isIntegerType(typ types.Type) bool {
 
 // isBoolType reports whether or not the given type is a boolean.
 func isBoolType(typ types.Type) bool {
-	basic, ok := typ.(*types.Basic)
+	basic, ok := types.Unalias(typ).(*types.Basic)
 	if !ok {
 		return false
 	}
@@ -2163,10 +2163,10 @@ func isBoolType(typ types.Type) bool {
 
 // isErrorHandler reports whether or not the given type implements the gosql.ErrorHandler interface.
 func isErrorHandler(typ types.Type) bool {
-	if ptr, ok := typ.(*types.Pointer); ok && !types.IsInterface(ptr.Elem()) {
+	if ptr, ok := types.Unalias(typ).(*types.Pointer); ok && !types.IsInterface(ptr.Elem()) {
 		typ = ptr.Elem()
 	}
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -2175,10 +2175,10 @@ func isErrorHandler(typ types.Type) bool {
 
 // isErrorInfoHandler reports whether or not the given type implements the gosql.ErrorInfoHandler interface.
 func isErrorInfoHandler(typ types.Type) bool {
-	if ptr, ok := typ.(*types.Pointer); ok && !types.IsInterface(ptr.Elem()) {
+	if ptr, ok := types.Unalias(typ).(*types.Pointer); ok && !types.IsInterface(ptr.Elem()) {
 		typ = ptr.Elem()
 	}
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -2187,7 +2187,7 @@ func isErrorInfoHandler(typ types.Type) bool {
 
 // isFilterType reports whether or not the given type is the gosql.Filter type.
 func isFilterType(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index 45b8e33..dd2c6b4 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -7,7 +7,7 @@ import (
 
 // IsString reports whether or not the given type is the builtin "string" type.
 func IsString(typ types.Type) bool {
-	basic, ok := typ.(*types.Basic)
+	basic, ok := types.Unalias(typ).(*types.Basic)
 	if !ok {
 		return false
 	}
@@ -16,14 +16,14 @@ func IsString(typ types.Type) bool {
 
 // IsStringMap reports whether or not the given type is the "map[string]string" type.
 func IsStringMap(typ types.Type) bool {
-	m, ok := typ.(*types.Map)
+	m, ok := types.Unalias(typ).(*types.Map)
 	if !ok {
 		return false
 	}
-	if k, ok := m.Key().(*types.Basic); !ok || k.Kind() != types.String || k.Name() != "string" {
+	if k, ok := types.Unalias(m.Key()).(*types.Basic); !ok || k.Kind() != types.String || k.Name() != "string" {
 		return false
 	}
-	if e, ok := m.Elem().(*types.Basic); !ok || e.Kind() != types.String || e.Name() != "string" {
+	if e, ok := types.Unalias(m.Elem()).(*types.Basic); !ok || e.Kind() != types.String || e.Name() != "string" {
 		return false
 	}
 	return true
@@ -31,11 +31,11 @@ func IsStringMap(typ types.Type) bool {
 
 // IsStringColumnMap reports whether or not the given type is the "map[string]filter.Column" type.
 func IsStringColumnMap(typ types.Type) bool {
-	m, ok := typ.(*types.Map)
+	m, ok := types.Unalias(typ).(*types.Map)
 	if !ok {
 		return false
 	}
-	if k, ok := m.Key().(*types.Basic); !ok || k.Kind() != types.String || k.Name() != "string" {
+	if k, ok := types.Unalias(m.Key()).(*types.Basic); !ok || k.Kind() != types.String || k.Name() != "string" {
 		return false
 	}
 	if !IsFilterColumn(m.Elem()) {
@@ -46,7 +46,7 @@ func IsStringColumnMap(typ types.Type) bool {
 
 // IsNiladicFunc reports whether or not the given type is the "func()" type.
 func IsNiladicFunc(typ types.Type) bool {
-	sig, ok := typ.(*types.Signature)
+	sig, ok := types.Unalias(typ).(*types.Signature)
 	if !ok {
 		return false
 	}
@@ -55,7 +55,7 @@ func IsNiladicFunc(typ types.Type) bool {
 
 // IsError reports whether or not the given type is the "error" type.
 func IsError(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -66,17 +66,7 @@ func IsError(typ types.Type) bool {
 
 // IsEmptyInterface reports whether or not the given type is the "interface{}" type.
 func IsEmptyInterface(typ types.Type) bool {
-	// handle builtin "any" alias
-	if alias, ok := typ.(*types.Alias); ok {
-		pkg := alias.Obj().Pkg()
-		name := alias.Obj().Name()
-		if name != "any" || pkg != nil {
-			return false
-		}
-		typ = alias.Underlying()
-	}
-
-	iface, ok := typ.(*types.Interface)
+	iface, ok := types.Unalias(typ).(*types.Interface)
 	if !ok {
 		return false
 	}
@@ -85,7 +75,7 @@ func IsEmptyInterface(typ types.Type) bool {
 
 // IsEmptyInterfaceSlice reports whether or not the given type is the "[]interface{}" type.
 func IsEmptyInterfaceSlice(typ types.Type) bool {
-	if s, ok := typ.(*types.Slice); ok {
+	if s, ok := types.Unalias(typ).(*types.Slice); ok {
 		return IsEmptyInterface(s.Elem())
 	}
 	return false
@@ -93,7 +83,7 @@ func IsEmptyInterfaceSlice(typ types.Type) bool {
 
 // IsContext reports whether or not the given type is the standard "context.Context" type.
 func IsContext(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -111,7 +101,7 @@ func IsContext(typ types.Type) bool {
 // IsTime returns true also for types that embed "time.Time" directly, this
 // is to provide support for custom timestamp types.
 func IsTime(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -128,7 +118,7 @@ func IsTime(typ types.Type) bool {
 	if S, ok := named.Underlying().(*types.Struct); ok {
 		for i := 0; i < S.NumFields(); i++ {
 			f := S.Field(i)
-			named, ok := f.Type().(*types.Named)
+			named, ok := types.Unalias(f.Type()).(*types.Named)
 			if ok && f.Anonymous() {
 				typeName := named.Obj()
 				if pkg := typeName.Pkg(); pkg != nil {
@@ -146,7 +136,7 @@ func IsTime(typ types.Type) bool {
 
 // IsSqlResult reports whether or not the given type is the standard "sql.Result" type.
 func IsSqlResult(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -162,11 +152,11 @@ func IsSqlResult(typ types.Type) bool {
 
 // IsSqlRowsPtr reports whether or not the given type is the standard "*sql.Rows" type.
 func IsSqlRowsPtr(typ types.Type) bool {
-	ptr, ok := typ.(*types.Pointer)
+	ptr, ok := types.Unalias(typ).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	named, ok := ptr.Elem().(*types.Named)
+	named, ok := types.Unalias(ptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -182,11 +172,11 @@ func IsSqlRowsPtr(typ types.Type) bool {
 
 // IsSqlRowPtr reports whether or not the given type is the standard "*sql.Row" type.
 func IsSqlRowPtr(typ types.Type) bool {
-	ptr, ok := typ.(*types.Pointer)
+	ptr, ok := types.Unalias(typ).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	named, ok := ptr.Elem().(*types.Named)
+	named, ok := types.Unalias(ptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -202,7 +192,7 @@ func IsSqlRowPtr(typ types.Type) bool {
 
 // IsSqlDriverValue reports whether or not the given type is the "database/sql/driver.Value" type.
 func IsSqlDriverValue(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -218,7 +208,7 @@ func IsSqlDriverValue(typ types.Type) bool {
 
 // IsFilterColumn reports whether or not the given type is the "github.com/frk/gosql/filter.Column" type.
 func IsFilterColumn(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -238,7 +228,7 @@ func IsFilterColumn(typ types.Type) bool {
 
 // IsDirective reports whether or not the given type is a "github.com/frk/gosql" directive type.
 func IsDirective(ident string, typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -309,11 +299,11 @@ func ImplementsErrorInfoHandler(named *types.Named) bool {
 
 	// check that the method's argument is of type *gosql.ErrorInfo
 	argtyp := sig.Params().At(0).Type()
-	argptr, ok := argtyp.(*types.Pointer)
+	argptr, ok := types.Unalias(argtyp).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	argnamed, ok := argptr.Elem().(*types.Named)
+	argnamed, ok := types.Unalias(argptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -421,10 +411,10 @@ func ImplementsGosqlConn(named *types.Named) bool {
 // type, or pointer to a named type, implements the "gosql.FilterConstructor"
 // interface. If v2 is true, the type also has to have the "InitV2" method.
 func ImplementsGosqlFilterConstructor(typ types.Type, v2 bool) bool {
-	if ptr, ok := typ.(*types.Pointer); ok && !types.IsInterface(ptr.Elem()) {
+	if ptr, ok := types.Unalias(typ).(*types.Pointer); ok && !types.IsInterface(ptr.Elem()) {
 		typ = ptr.Elem()
 	}
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -693,8 +683,8 @@ func (ms methodSet) Method(i int) *types.Func { return ms.At(i).Obj().(*types.Fu
 
 // isbyteslice reports whether or not the given type is a []byte type.
 func isbyteslice(t types.Type) bool {
-	if s, ok := t.(*types.Slice); ok {
-		if e, ok := s.Elem().(*types.Basic); ok && e.Kind() == types.Byte {
+	if s, ok := types.Unalias(t).(*types.Slice); ok {
+		if e, ok := types.Unalias(s.Elem()).(*types.Basic); ok && e.Kind() == types.Byte {
 			return true
 		}
 	}
@@ -703,11 +693,11 @@ func isbyteslice(t types.Type) bool {
 
 // isxmlencoder reports whether or not the given type is an *encoding/xml.Encoder type.
 func isxmlencoder(typ types.Type) bool {
-	ptr, ok := typ.(*types.Pointer)
+	ptr, ok := types.Unalias(typ).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	named, ok := ptr.Elem().(*types.Named)
+	named, ok := types.Unalias(ptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -719,11 +709,11 @@ func isxmlencoder(typ types.Type) bool {
 
 // isxmldecoder reports whether or not the given type is a *encoding/xml.Decoder type.
 func isxmldecoder(typ types.Type) bool {
-	ptr, ok := typ.(*types.Pointer)
+	ptr, ok := types.Unalias(typ).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	named, ok := ptr.Elem().(*types.Named)
+	named, ok := types.Unalias(ptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -735,7 +725,7 @@ func isxmldecoder(typ types.Type) bool {
 
 // isxmlstartelem reports whether or not the given type is a encoding/xml.StartElement type.
 func isxmlstartelem(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
diff --git a/internal/typesutil/utils.go b/internal/typesutil/utils.go
index 7435d1c..5985175 100644
--- a/internal/typesutil/utils.go
+++ b/internal/typesutil/utils.go
@@ -19,7 +19,7 @@ type NamedStruct struct {
 // type is not a struct then GetStruct will return an error.
 func GetStruct(v *types.Var) (*NamedStruct, error) {
 	ns := new(NamedStruct)
-	typ := v.Type()
+	typ := types.Unalias(v.Type())
 
 	var ok bool
 	if ns.Named, ok = typ.(*types.Named); ok {
@@ -36,7 +36,7 @@ func GetStruct(v *types.Var) (*NamedStruct, error) {
 // variable. If the type of the given variable is not a directive an empty
 // string will be returned instead.
 func GetDirectiveName(v *types.Var) string {
-	named, ok := v.Type().(*types.Named)
+	named, ok := types.Unalias(v.Type()).(*types.Named)
 	if !ok {
 		return ""
 	}
-- 
2.43.0


From 4a0754bbdeb4a11388f8068f4308101e2e47cfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 53/90] fix: don't panic on fields and arguments of the
 predeclared error type

---
 internal/analysis/analysis.go    | 13 +++++++------
 internal/typesutil/predicates.go | 12 ++++++------
 internal/typesutil/utils.go      | 11 ++++++++++-
 3 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 99e702a..4328221 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -651,11 +651,12 @@ func analyzeTypeInfo(a *analysis, tt types.Type) (typ TypeInfo, base types.Type)
 	base = types.Unalias(tt)
 
 	if named, ok := base.(*types.Named); ok {
-		pkg := named.Obj().Pkg()
 		typ.Name = named.Obj().Name()
-		typ.PkgPath = pkg.Path()
-		typ.PkgName = pkg.Name()
-		typ.PkgLocal = pkg.Name()
+		if pkg := named.Obj().Pkg(); pkg != nil { // predeclared types have none
+			typ.PkgPath = pkg.Path()
+			typ.PkgName = pkg.Name()
+			typ.PkgLocal = pkg.Name()
+		}
 		typ.IsImported = isImportedType(a, named)
 		typ.IsScanner = typesutil.ImplementsScanner(named)
 		typ.IsValuer = typesutil.ImplementsValuer(named)
@@ -2127,7 +2128,7 @@ func (cl *ColIdentList) Contains(cid ColIdent) bool {
 // isImportedType reports whether or not the given type is imported based on
 // on the package in which the target of the analysis is declared.
 func isImportedType(a *analysis, named *types.Named) bool {
-	return named != nil && named.Obj().Pkg().Path() != a.pkgPath
+	return named != nil && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() != a.pkgPath
 }
 
 // isAccessible reports whether or not the given value is accessible from
@@ -2196,7 +2197,7 @@ func isFilterType(typ types.Type) bool {
 		return false
 	}
 
-	path := named.Obj().Pkg().Path()
+	path := typesutil.PkgPath(named)
 	return strings.HasSuffix(path, "github.com/frk/gosql")
 }
 
diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index dd2c6b4..05add30 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -214,7 +214,7 @@ func IsFilterColumn(typ types.Type) bool {
 	}
 
 	name := named.Obj().Name()
-	path := named.Obj().Pkg().Path()
+	path := PkgPath(named)
 
 	if name != "Column" {
 		return false
@@ -238,7 +238,7 @@ func IsDirective(ident string, typ types.Type) bool {
 	}
 
 	// Compare the suffix only to allow for vendor imports.
-	path := named.Obj().Pkg().Path()
+	path := PkgPath(named)
 	if !strings.HasSuffix(path, "github.com/frk/gosql") {
 		return false
 	}
@@ -308,7 +308,7 @@ func ImplementsErrorInfoHandler(named *types.Named) bool {
 		return false
 	}
 	name := argnamed.Obj().Name()
-	path := argnamed.Obj().Pkg().Path()
+	path := PkgPath(argnamed)
 	return strings.HasSuffix(path, "github.com/frk/gosql") && name == "ErrorInfo"
 }
 
@@ -703,7 +703,7 @@ func isxmlencoder(typ types.Type) bool {
 	}
 
 	name := named.Obj().Name()
-	path := named.Obj().Pkg().Path()
+	path := PkgPath(named)
 	return name == "Encoder" && path == "encoding/xml"
 }
 
@@ -719,7 +719,7 @@ func isxmldecoder(typ types.Type) bool {
 	}
 
 	name := named.Obj().Name()
-	path := named.Obj().Pkg().Path()
+	path := PkgPath(named)
 	return name == "Decoder" && path == "encoding/xml"
 }
 
@@ -731,6 +731,6 @@ func isxmlstartelem(typ types.Type) bool {
 	}
 
 	name := named.Obj().Name()
-	path := named.Obj().Pkg().Path()
+	path := PkgPath(named)
 	return name == "StartElement" && path == "encoding/xml"
 }
diff --git a/internal/typesutil/utils.go b/internal/typesutil/utils.go
index 5985175..af6d5d0 100644
--- a/internal/typesutil/utils.go
+++ b/internal/typesutil/utils.go
@@ -41,7 +41,7 @@ func GetDirectiveName(v *types.Var) string {
 		return ""
 	}
 
-	path := named.Obj().Pkg().Path()
+	path := PkgPath(named)
 	if !strings.HasSuffix(path, "github.com/frk/gosql") {
 		return ""
 	}
@@ -54,3 +54,12 @@ func GetDirectiveName(v *types.Var) string {
 	}
 	return named.Obj().Name()
 }
+
+// PkgPath returns the path of the package in which the given named type is
+// declared. The result is empty for the predeclared types, e.g. "error".
+func PkgPath(named *types.Named) string {
+	if pkg := named.Obj().Pkg(); pkg != nil {
+		return pkg.Path()
+	}
+	return ""
+}
-- 
2.43.0


From 0ff4bdb5bd69e74ec9a17cb60a0a570bfd84a345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 54/90] fix: accept object identifiers whose package path has a
 dash or a single character

---
 internal/config/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/config/types.go b/internal/config/types.go
index b8a3a04..7217cdf 100644
--- a/internal/config/types.go
+++ b/internal/config/types.go
@@ -232,7 +232,7 @@ func (id ObjectIdent) String() string {
 	return v
 }
 
-var rxObjId = regexp.MustCompile(`^\w[\w\.-/]*\w\.[A-Za-z_]\w*$`)
+var rxObjId = regexp.MustCompile(`^\w(?:[\w./~+-]*\w)?\.[A-Za-z_]\w*$`)
 
 // Set implements the flag.Value interface.
 func (id *ObjectIdent) Set(value string) error {
-- 
2.43.0


From 700b479a03db4190ba1ff6459f6118027a694c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 55/90] fix: declare every filter method once

The methods of fields, or chains of nested fields, that have the same name were
declared twice, and fields named And, Or or Init, or like the field of the filter
constructor, were in conflict with those.
---
 internal/generator/generator.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 48f5328..fae1bf4 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -846,6 +846,8 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 		value = GO.Ident{"val"}                     // the value argument name
 		ctor  = GO.Ident{fs.FilterConstructor.Name} // filter constructor field's name
 		selx  = GO.SelectorExpr{X: GO.SelectorExpr{X: recv, Sel: ctor}, Sel: GO.Ident{"Col"}}
+
+		nameset = make(map[string]struct{}) // used to ensure unique method names
 	)
 
 	for _, ff := range g.info.Filters {
@@ -871,10 +873,13 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 		}
 		methodecl.Name.Name += ff.Field.Name
 
-		// skip if name is reserved
-		if _, ok := reservedFilterMethodNames[methodecl.Name.Name]; ok {
+		// skip if name is reserved, or if it's already taken
+		if _, ok := reservedFilterMethodNames[methodecl.Name.Name]; ok || methodecl.Name.Name == ctor.Name {
+			continue
+		} else if _, ok := nameset[methodecl.Name.Name]; ok {
 			continue
 		}
+		nameset[methodecl.Name.Name] = struct{}{}
 
 		// the method's input and output arguments
 		methodecl.Type.Params = GO.ParamList{
@@ -2448,6 +2453,9 @@ var reservedFilterMethodNames = map[string]struct{}{
 	"TextSearch":    struct{}{},
 	"AND":           struct{}{},
 	"OR":            struct{}{},
+	"And":           struct{}{},
+	"Or":            struct{}{},
+	"Init":          struct{}{},
 }
 
 var sqlQUANTIFIER = map[analysis.Quantifier]SQL.QUANTIFIER{
-- 
2.43.0


From 2cbec9596957b23a5a29ed22fe271342904a70a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 56/90] fix: don't panic on empty options in the sql tag of
 fields

---
 internal/analysis/fieldmode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/analysis/fieldmode.go b/internal/analysis/fieldmode.go
index 1fb9386..e9122bd 100644
--- a/internal/analysis/fieldmode.go
+++ b/internal/analysis/fieldmode.go
@@ -30,6 +30,10 @@ func parseFieldMode(t tagutil.Tag) (m FieldMode) {
 	}
 
 	for _, opt := range tag[1:] {
+		if len(opt) == 0 {
+			continue
+		}
+
 		////////////////////////////////////////////////////////////////
 		// handle deprecated field options
 		switch opt {
-- 
2.43.0


From 11ede0ba1253c615e7cca1211c3bc19d5d6c67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 57/90] fix: name the imports of packages whose path doesn't
 end in their name

---
 internal/generator/generator.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index fae1bf4..a7f87b4 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -3,6 +3,7 @@ package generator
 import (
 	"io"
 	"log"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -2141,11 +2142,16 @@ func inputPKeys(qs *analysis.QueryStruct, t *postgres.TargetInfo) (out []*postgr
 
 // addimport adds a new impspec to the file's impset if it is not already a member of the set.
 func addimport(f *file, path, name string) *impspec {
+	// If the package's name isn't known use the last element of the path, unless
+	// that can't be the name, the import then needs to be given a name of its own.
+	local := false
 	if name == "" {
 		name = path
 		if i := strings.LastIndexByte(name, '/'); i > -1 {
 			name = name[i+1:]
 		}
+		local = rxNonPkgName.MatchString(name)
+		name = rxNonIdent.ReplaceAllString(name, "_")
 	}
 
 	var namesake *impspec
@@ -2161,7 +2167,7 @@ func addimport(f *file, path, name string) *impspec {
 		}
 	}
 
-	imp := &impspec{path: path, name: name}
+	imp := &impspec{path: path, name: name, local: local}
 	if namesake != nil {
 		namesake.num += 1
 		imp.name = name + strconv.Itoa(namesake.num)
@@ -2172,6 +2178,15 @@ func addimport(f *file, path, name string) *impspec {
 	return imp
 }
 
+var (
+	// rxNonIdent matches what can not be part of an identifier.
+	rxNonIdent = regexp.MustCompile(`^[0-9]|\W`)
+
+	// rxNonPkgName matches the last elements of paths that are not the name of
+	// the package, i.e. those that aren't identifiers, and major versions.
+	rxNonPkgName = regexp.MustCompile(`^[0-9]|\W|^v[0-9]+$`)
+)
+
 // newImportDecl produces an import declaration for packages that are to be imported by the given file.
 func newImportDecl(f *file) *GO.ImportDecl {
 	imports := new(GO.ImportDecl)
-- 
2.43.0


From 07f8bc018f304cbde084dd41b7f824ed964b63c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:25 +0000
Subject: [PATCH 58/90] fix: keep the case of the text search column's name

---
 internal/analysis/analysis.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 4328221..a98e137 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1744,8 +1744,7 @@ func analyzeOptionalDirective(a *analysis, f *types.Var, tag string) error {
 // analyzeTextSearchDirective analyzes the given field and its tag as the gosql.TextSearch
 // directive and sets the result to the given analysis' filter.
 func analyzeTextSearchDirective(a *analysis, f *types.Var, tag string) error {
-	tval := tagutil.New(tag).First("sql")
-	tval = strings.ToLower(strings.TrimSpace(tval))
+	tval := strings.TrimSpace(tagutil.New(tag).First("sql"))
 
 	cid, ecode, eval := parseColIdent(a, tval)
 	if ecode > 0 {
-- 
2.43.0


From 6b4f735103731e3d7ee83a841a123406c2a826e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 59/90] fix: quote the reserved words that are used as aliases
 and qualifiers

---
 internal/generator/generator.go | 39 ++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index a7f87b4..480976b 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -2378,7 +2378,7 @@ func makeRelTypeNode(reltyp analysis.RelType) GO.TypeNode {
 // makeColRef
 func makeColRef(id analysis.ColIdent) SQL.ColumnReference {
 	return SQL.ColumnReference{
-		Qual: id.Qualifier,
+		Qual: quoteReserved(id.Qualifier),
 		Name: SQL.Name(id.Name),
 	}
 }
@@ -2397,11 +2397,20 @@ func makeTargetColRef(qs *analysis.QueryStruct, id analysis.ColIdent) SQL.Column
 func makeRelIdent(id analysis.RelIdent) SQL.Ident {
 	return SQL.Ident{
 		Name:  SQL.Name(id.Name),
-		Qual:  id.Qualifier,
-		Alias: id.Alias,
+		Qual:  quoteReserved(id.Qualifier),
+		Alias: quoteReserved(id.Alias),
 	}
 }
 
+// quoteReserved encloses the given identifier, of a schema, a relation, or
+// an alias, in double quotes if it is a word reserved by postgres.
+func quoteReserved(name string) string {
+	if _, ok := sqlReservedWords[strings.ToLower(name)]; ok {
+		return `"` + name + `"`
+	}
+	return name
+}
+
 ////////////////////////////////////////////////////////////////////////////////
 // Predicate Functions
 //
@@ -2444,7 +2453,7 @@ func makeColIdentFormatter(cfg config.Config) (fn func(analysis.ColIdent) string
 // fmtColIdent returns the string representation of the column identifier.
 func fmtColIdent(id analysis.ColIdent) string {
 	if len(id.Qualifier) > 0 {
-		return id.Qualifier + "." + id.Name
+		return quoteReserved(id.Qualifier) + "." + id.Name
 	}
 	return id.Name
 }
@@ -2453,7 +2462,7 @@ func fmtColIdent(id analysis.ColIdent) string {
 // with the name enclosed in double quotes.
 func fmtColIdentQuoted(id analysis.ColIdent) string {
 	if len(id.Qualifier) > 0 {
-		return id.Qualifier + `."` + id.Name + `"`
+		return quoteReserved(id.Qualifier) + `."` + id.Name + `"`
 	}
 	return `"` + id.Name + `"`
 }
@@ -2473,6 +2482,26 @@ var reservedFilterMethodNames = map[string]struct{}{
 	"Init":          struct{}{},
 }
 
+// sqlReservedWords is the set of words that postgres doesn't accept, unless
+// they are quoted, as the name of a schema or a relation, or as an alias.
+var sqlReservedWords = func() map[string]struct{} {
+	words := make(map[string]struct{})
+	for _, w := range strings.Fields(`
+		all analyse analyze and any array as asc asymmetric authorization binary both case cast
+		check collate collation column concurrently constraint create cross current_catalog
+		current_date current_role current_schema current_time current_timestamp current_user
+		default deferrable desc distinct do else end except false fetch for foreign freeze from
+		full grant group having ilike in initially inner intersect into is isnull join lateral
+		leading left like limit localtime localtimestamp natural not notnull null offset on only
+		or order outer overlaps placing primary references returning right select session_user
+		similar some symmetric system_user table tablesample then to trailing true union unique
+		user using variadic verbose when where window with
+	`) {
+		words[w] = struct{}{}
+	}
+	return words
+}()
+
 var sqlQUANTIFIER = map[analysis.Quantifier]SQL.QUANTIFIER{
 	analysis.QuantAny:  SQL.ANY,
 	analysis.QuantSome: SQL.SOME,
-- 
2.43.0


From ade031babaafd3b1fdba71b9527f1561bce638ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 60/90] fix: separate the VALUES list from other relations and
 qualify ambiguous columns

---
 internal/generator/generator.go | 69 +++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 12 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 480976b..8a65bc5 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -12,6 +12,7 @@ import (
 	"github.com/frk/gosql/internal/postgres"
 	"github.com/frk/gosql/internal/postgres/oid"
 
+	"github.com/frk/ast"
 	GO "github.com/frk/ast/golang"
 	SQL "github.com/frk/ast/sqlang"
 )
@@ -177,6 +178,22 @@ func (g *generator) tableExprSlice() []SQL.TableExpr {
 	return s
 }
 
+// valuesAlias returns the alias of the VALUES list of a slice update, one that's
+// not used by any of the query's relations.
+func (g *generator) valuesAlias() string {
+	alias := "x"
+	for taken := true; taken; {
+		taken = false
+		for name := range g.info.Info.RelSpace {
+			if strings.ToLower(name) == alias {
+				alias, taken = alias+"x", true
+				break
+			}
+		}
+	}
+	return alias
+}
+
 // buildQueryCode builds code for the given QueryStruct.
 func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 	typ := g.cfg.MethodArgumentType
@@ -317,7 +334,7 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 		if qs.IsUpdateSlice() {
 			col := SQL.ColumnIdent{}
 			col.Name = SQL.Name(fw.Column.Name)
-			col.Qual = "x"
+			col.Qual = g.valuesAlias()
 			g.updateCols = append(g.updateCols, col)
 
 			var expr SQL.ValueExpr
@@ -1042,7 +1059,11 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	}
 
 	if qs.Rel.Type.IsSlice {
-		stmt.Head.From.List = append(stmt.Head.From.List, SQL.ValuesListClausePartial{})
+		if len(stmt.Head.From.List) > 0 {
+			stmt.Head.From.List = append(stmt.Head.From.List, nextValuesListClause{})
+		} else {
+			stmt.Head.From.List = append(stmt.Head.From.List, SQL.ValuesListClausePartial{})
+		}
 
 		// the columns of the VALUES list, which excludes those set to DEFAULT
 		var columns SQL.NameGroup
@@ -1052,7 +1073,7 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 			}
 		}
 		columns = append(columns, g.inputColsPKeys...)
-		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
+		alias := SQL.ValuesListAliasPartial{Alias: g.valuesAlias(), Columns: columns}
 		tail := SQL.UpdateTail{Where: g.whereClause}
 		if qs.Result != nil {
 			tail.Returning = SQL.ReturningClause(g.outputVals)
@@ -1075,6 +1096,17 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	g.sqlMainNode = stmt
 }
 
+// nextValuesListClause is the opening of a VALUES list that isn't the first
+// item in the FROM clause.
+type nextValuesListClause struct {
+	SQL.ValuesListClausePartial
+}
+
+func (c nextValuesListClause) Walk(w *ast.Writer) {
+	w.Write(", ")
+	c.ValuesListClausePartial.Walk(w)
+}
+
 // buildSQLSelectStatement builds and returns an SQL.SelectStatement.
 func buildSQLSelectStatement(g *generator, qs *analysis.QueryStruct) {
 	stmt := SQL.SelectStatement{}
@@ -1220,7 +1252,7 @@ func buildSQLOrderClause(g *generator, qs *analysis.QueryStruct) {
 
 	for _, item := range qs.OrderBy.Items {
 		order := SQL.OrderBy{}
-		order.Column = makeColRef(item.ColIdent)
+		order.Column = makeQueryColRef(g, item.ColIdent)
 		order.Desc = (item.Direction == analysis.OrderDesc)
 		order.NullsFirst = (item.Nulls == analysis.NullsFirst)
 		g.orderClause.List = append(g.orderClause.List, order)
@@ -1268,7 +1300,7 @@ func buildSQLWhereClause(g *generator, qs *analysis.QueryStruct) {
 			predicate.RPredicand = makeParamSpec(g, fw.Field)
 
 			if qs.Rel.Type.IsSlice {
-				col := SQL.ColumnIdent{Qual: "x", Name: SQL.Name(fw.ColIdent.Name)}
+				col := SQL.ColumnIdent{Qual: g.valuesAlias(), Name: SQL.Name(fw.ColIdent.Name)}
 				predicate.RPredicand = SQL.CastExpr{Expr: col, Type: fw.Column.Type.NameFmt}
 			}
 
@@ -1346,7 +1378,7 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				fieldName = cond.FieldName // needed for isin/notin predicates
 				pred = cond.Predicate
 				qua = cond.Quantifier
-				lhs = makeColRef(cond.ColIdent)
+				lhs = makeQueryColRef(g, cond.ColIdent)
 				rhs = makeParamSpec(g, cond)
 
 				if len(cond.FuncName) > 0 {
@@ -1370,9 +1402,9 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 			case *postgres.ColumnConditional:
 				pred = cond.Predicate
 				qua = cond.Quantifier
-				lhs = makeColRef(cond.LHSColIdent)
+				lhs = makeQueryColRef(g, cond.LHSColIdent)
 				if !cond.RHSColIdent.IsEmpty() {
-					rhs = makeColRef(cond.RHSColIdent)
+					rhs = makeQueryColRef(g, cond.RHSColIdent)
 				} else if len(cond.RHSLiteral) > 0 {
 					rhs = SQL.Literal{cond.RHSLiteral}
 				}
@@ -1489,7 +1521,7 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 func makeSQLBetweenPredicate(g *generator, cond *postgres.BetweenConditional) SQL.BetweenPredicate {
 	predicate := SQL.BetweenPredicate{}
 	predicate.Not = cond.Predicate.IsOneOf(analysis.NotBetween, analysis.NotBetweenSym, analysis.NotBetweenAsym)
-	predicate.Predicand = makeColRef(cond.ColIdent)
+	predicate.Predicand = makeQueryColRef(g, cond.ColIdent)
 
 	switch cond.Predicate {
 	case analysis.IsBetweenSym, analysis.NotBetweenSym:
@@ -1500,14 +1532,14 @@ func makeSQLBetweenPredicate(g *generator, cond *postgres.BetweenConditional) SQ
 
 	switch lower := cond.LowerBound.(type) {
 	case *postgres.ColumnConditional:
-		predicate.LowEnd = makeColRef(lower.RHSColIdent)
+		predicate.LowEnd = makeQueryColRef(g, lower.RHSColIdent)
 	case *postgres.FieldConditional:
 		predicate.LowEnd = makeParamSpec(g, lower)
 	}
 
 	switch upper := cond.UpperBound.(type) {
 	case *postgres.ColumnConditional:
-		predicate.HighEnd = makeColRef(upper.RHSColIdent)
+		predicate.HighEnd = makeQueryColRef(g, upper.RHSColIdent)
 	case *postgres.FieldConditional:
 		predicate.HighEnd = makeParamSpec(g, upper)
 	}
@@ -2388,7 +2420,20 @@ func makeColRef(id analysis.ColIdent) SQL.ColumnReference {
 // column is qualified with the relation's name to keep it from being ambiguous.
 func makeTargetColRef(qs *analysis.QueryStruct, id analysis.ColIdent) SQL.ColumnReference {
 	if len(id.Qualifier) == 0 && (qs.Join != nil || qs.IsUpdateSlice()) {
-		id.Qualifier = `"` + qs.Rel.Id.Name + `"`
+		id.Qualifier = qs.Rel.Id.Alias
+		if len(id.Qualifier) == 0 {
+			id.Qualifier = `"` + qs.Rel.Id.Name + `"`
+		}
+	}
+	return makeColRef(id)
+}
+
+// makeQueryColRef makes a reference to a column as identified by one of the query's
+// conditions or directives. A column without a qualifier is a column of the target
+// relation, it is qualified if the query has other relations.
+func makeQueryColRef(g *generator, id analysis.ColIdent) SQL.ColumnReference {
+	if qs, ok := g.info.Struct.(*analysis.QueryStruct); ok {
+		return makeTargetColRef(qs, id)
 	}
 	return makeColRef(id)
 }
-- 
2.43.0


From d75d8ccaf062357c175d0e1ba2103148a2ae7cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:01 +0000
Subject: [PATCH 61/90] fix: refuse writes without columns, with duplicate
 columns, or without a primary key to update by

---
 internal/postgres/errors.go   | 21 +++++++++++++++++
 internal/postgres/postgres.go | 43 +++++++++++++++++++++++++++--------
 2 files changed, 54 insertions(+), 10 deletions(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index adf1e1b..394e16f 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -49,6 +49,7 @@ const (
 	errColumnFieldComparison
 	errColumnQualifierUnknown
 	errColumnComparison
+	errColumnWriteDuplicate
 	// predicate errors
 	errPredicateOperandQuantifier
 	errPredicateOperandArray
@@ -67,6 +68,9 @@ const (
 	errOnConflictIndexColumnsNotUnique
 	errOnConflictConstraintUnknown
 	errOnConflictConstraintNotUnique
+	// write errors
+	errWriteColumnsMissing
+	errUpdatePrimaryKeyMissing
 )
 
 type dbError struct {
@@ -446,6 +450,23 @@ Column error templates
     {{end -}}
 {{ end }}
 
+{{ define "` + errColumnWriteDuplicate.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Column written more than once."}}
+    The column "{{R .Col.IdRef}}" of the field "{{R .Field.Name}}" is already written by another field.
+    - a column MUST NOT be written by more than one field, use the "{{W "ro"}}" option or the "{{W "-"}}" tag to exclude a field.
+{{ end }}
+
+{{ define "` + errWriteColumnsMissing.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "No columns to write."}}
+    The field "{{R .Field.Name}}" of type "{{R .Field.Type}}" has no columns that can be written to the relation "{{R .Rel.Id.Name}}".
+{{ end }}
+
+{{ define "` + errUpdatePrimaryKeyMissing.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "No primary key to update by."}}
+    The field "{{R .Field.Name}}" of type "{{R .Field.Type}}" has no column that belongs to the primary key of the relation "{{R .Rel.Id.Name}}".
+    - an update without a {{Wb "WHERE"}} condition, a filter, or the "{{W "gosql.All"}}" directive MUST have a field for the primary key.
+{{ end }}
+
 {{ define "` + errColumnQualifierUnknown.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Column qualifier relation not found."}}
     The qualifier "{{R .Col.Id.Qualifier}}" matches no relation.
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 02a5c68..10f7162 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -262,6 +262,7 @@ func typeCheckQueryStruct(c *checker, qs *analysis.QueryStruct) error {
 		typeCheckQueryResultField,
 		typeCheckQueryRelField,
 
+		typeCheckQueryWriteColumns,
 		typeCheckQueryWhereStruct,
 		typeCheckQueryOnConflictStruct,
 	}
@@ -279,16 +280,6 @@ func typeCheckQueryStruct(c *checker, qs *analysis.QueryStruct) error {
 		// would be thrown, or make this check optional, something that can be turned
 		// on/off...?)
 	}
-
-	// TODO(mkopriva): if this is an insert or update (i.e. write) the column
-	// generated from the field tags cannot contain duplicate columns. Conversely
-	// if this is a read query (select, or I,U,D with returning) the columns do
-	// not have to be unique.
-
-	// TODO(mkopriva): if this is an UPDATE but none of the columns associated
-	// with the available fields constitute a complete primary key of the table,
-	// an error should be returned as then there's no way to properly match the
-	// data instances with specific rows in the table.
 	return nil
 }
 
@@ -474,6 +465,38 @@ func typeCheckQueryRelField(c *checker, qs *analysis.QueryStruct) error {
 	return nil
 }
 
+// typeCheckQueryWriteColumns checks the columns that will be written by the query.
+//
+// CHECKLIST:
+//   - If the query represents an INSERT or UPDATE:
+//     ✅ There MUST be at least one column to write.
+//     ✅ No column MUST be written by more than one field. (Conversely the columns
+//     that are read do not have to be unique.)
+//   - If the query represents an UPDATE whose rows are matched by the primary key:
+//     ✅ There MUST be a field for the primary key, without it there's no way to
+//     match the data instances with specific rows in the table.
+func typeCheckQueryWriteColumns(c *checker, qs *analysis.QueryStruct) error {
+	if !qs.IsInsertOrUpdate() {
+		return nil
+	}
+
+	seen := make(map[string]bool)
+	for _, w := range c.res.Writes {
+		if seen[w.Column.Name] {
+			return c.dbError(dbError{Code: errColumnWriteDuplicate, Rel: relInfo{Relation: c.rel},
+				Col: colInfo{Id: w.Field.ColIdent, Column: w.Column}}, w.Field)
+		}
+		seen[w.Column.Name] = true
+	}
+	if len(c.res.Writes) == 0 {
+		return c.dbError(dbError{Code: errWriteColumnsMissing, Rel: relInfo{Relation: c.rel}}, qs.Rel)
+	}
+	if qs.IsUpdateWithPKeys() && len(c.res.PKeys) == 0 {
+		return c.dbError(dbError{Code: errUpdatePrimaryKeyMissing, Rel: relInfo{Relation: c.rel}}, qs.Rel)
+	}
+	return nil
+}
+
 // typeCheckQueryJoinStruct ...
 func typeCheckQueryJoinStruct(c *checker, qs *analysis.QueryStruct) error {
 	if qs.Join == nil {
-- 
2.43.0


From 5dcc9ba04fe2253fd2959453c58d1fc1f320f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 62/90] fix: write out the type arguments of generic types

---
 internal/analysis/analysis.go   | 17 +++++++++++++++--
 internal/analysis/types.go      |  5 +++++
 internal/generator/generator.go | 26 +++++++++++++++-----------
 3 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index a98e137..d38c7e4 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -600,6 +600,7 @@ stackloop:
 				node.TypePkgPath = typ.PkgPath
 				node.TypePkgName = typ.PkgName
 				node.TypePkgLocal = typ.PkgLocal
+				node.TypeArgs = typ.TypeArgs
 				node.IsImported = typ.IsImported
 				node.IsPointer = (f.Type.Kind == TypeKindPtr)
 				node.Mode = parseFieldMode(tag)
@@ -657,6 +658,10 @@ func analyzeTypeInfo(a *analysis, tt types.Type) (typ TypeInfo, base types.Type)
 			typ.PkgName = pkg.Name()
 			typ.PkgLocal = pkg.Name()
 		}
+		for i := 0; i < named.TypeArgs().Len(); i++ {
+			arg, _ := analyzeTypeInfo(a, named.TypeArgs().At(i))
+			typ.TypeArgs = append(typ.TypeArgs, &arg)
+		}
 		typ.IsImported = isImportedType(a, named)
 		typ.IsScanner = typesutil.ImplementsScanner(named)
 		typ.IsValuer = typesutil.ImplementsValuer(named)
@@ -2250,10 +2255,18 @@ func (t *TypeInfo) literal(pkgLocal, elidePtr bool) LiteralType {
 
 func (t *TypeInfo) literalFunc(qualify func(*TypeInfo) string, elidePtr bool) LiteralType {
 	if len(t.Name) > 0 {
+		lit := LiteralType(t.Name)
 		if pkgName := qualify(t); len(pkgName) > 0 {
-			return LiteralType(pkgName + "." + t.Name)
+			lit = LiteralType(pkgName) + "." + lit
+		}
+		if len(t.TypeArgs) > 0 {
+			args := make([]string, len(t.TypeArgs))
+			for i, arg := range t.TypeArgs {
+				args[i] = string(arg.literalFunc(qualify, false))
+			}
+			lit += LiteralType("[" + strings.Join(args, ", ") + "]")
 		}
-		return LiteralType(t.Name)
+		return lit
 	}
 
 	switch t.Kind {
diff --git a/internal/analysis/types.go b/internal/analysis/types.go
index fefd7c3..f19e640 100644
--- a/internal/analysis/types.go
+++ b/internal/analysis/types.go
@@ -174,6 +174,9 @@ type (
 		IsByte bool
 		// Indicates whether or not the type is the "rune" alias type.
 		IsRune bool
+		// If the type is an instance of a generic type, TypeArgs will hold
+		// the info on the type's arguments.
+		TypeArgs []*TypeInfo
 		// If kind is array, ArrayLen will hold the array's length.
 		ArrayLen int64
 		// If kind is map, key will hold the info on the map's key type.
@@ -234,6 +237,8 @@ type (
 		// The local name of the imported package of the field's type (including ".").
 		// Empty if the type is unnamed.
 		TypePkgLocal string
+		// The info on the arguments of the field's type, if it's generic.
+		TypeArgs []*TypeInfo
 		// Indicates whether or not the type is imported.
 		IsImported bool
 		// Indicates whether or not the field is embedded.
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 8a65bc5..ae9c85f 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -523,11 +523,7 @@ func buildQueryOutputInitRoot(g *generator, qs *analysis.QueryStruct) {
 		return
 	}
 
-	typeNode := GO.TypeNode(GO.Ident{typ.Base.Name})
-	if typ.Base.IsImported {
-		imp := addimport(g.file, typ.Base.PkgPath, typ.Base.PkgName)
-		typeNode = GO.QualifiedIdent{imp.name, typ.Base.Name}
-	}
+	typeNode := makeTypeNode(g, typ.Base)
 
 	var rootinit GO.StmtNode
 	if !typ.IsSlice && !typ.IsIter && typ.IsPointer {
@@ -571,11 +567,13 @@ func buildQueryOutputInitFields(g *generator, qs *analysis.QueryStruct) {
 
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
 			if node.IsPointer && !done[key] {
-				typeNode := GO.TypeNode(GO.Ident{node.TypeName})
-				if node.IsImported {
-					imp := addimport(g.file, node.TypePkgPath, node.TypePkgName)
-					typeNode = GO.QualifiedIdent{imp.name, node.TypeName}
-				}
+				typeNode := makeTypeNode(g, analysis.TypeInfo{
+					Name:       node.TypeName,
+					PkgPath:    node.TypePkgPath,
+					PkgName:    node.TypePkgName,
+					IsImported: node.IsImported,
+					TypeArgs:   node.TypeArgs,
+				})
 
 				init := GO.AssignStmt{Token: GO.Assign}
 				init.Lhs = fx
@@ -924,7 +922,13 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 // makeFilterValueType makes the type of the value argument of the filter method for the
 // given field, the packages of the imported types are added to the file's import set.
 func makeFilterValueType(g *generator, f *analysis.FieldInfo) GO.TypeNode {
-	lit := f.Type.Literal(func(t *analysis.TypeInfo) string {
+	return makeTypeNode(g, f.Type)
+}
+
+// makeTypeNode makes the literal of the given type, the packages of the types
+// that it consists of are imported.
+func makeTypeNode(g *generator, typ analysis.TypeInfo) GO.TypeNode {
+	lit := typ.Literal(func(t *analysis.TypeInfo) string {
 		if t.IsImported {
 			return addimport(g.file, t.PkgPath, t.PkgName).name
 		}
-- 
2.43.0


From 3372ba9db4678e97234b5a0fca0581419cc8d7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:45 +0000
Subject: [PATCH 63/90] fix: refuse empty nested where structs and skip the
 unexported fields of imported ones

---
 internal/analysis/analysis.go | 10 +++++++++-
 internal/analysis/error.go    |  7 +++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index d38c7e4..458b186 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1025,6 +1025,10 @@ stackloop:
 		}
 
 		if loop.where != nil {
+			if len(loop.items) == 0 {
+				fv := a.info.FieldMap[loop.where]
+				return a.error(errNoWhereFields, fv.Var, f.Name(), fv.Tag, "", "")
+			}
 			loop.where.Items = loop.items
 		}
 
@@ -2138,13 +2142,17 @@ func isImportedType(a *analysis, named *types.Named) bool {
 // isAccessible reports whether or not the given value is accessible from
 // the package in which the target of the analysis is declared.
 func isAccessible(a *analysis, x exportable, named *types.Named) bool {
-	return x.Name() != "_" && (x.Exported() || !isImportedType(a, named))
+	if x.Name() == "_" {
+		return false
+	}
+	return x.Exported() || (!isImportedType(a, named) && (x.Pkg() == nil || x.Pkg().Path() == a.pkgPath))
 }
 
 // exportable is implemented by both types.Var and types.Func.
 type exportable interface {
 	Name() string
 	Exported() bool
+	Pkg() *types.Package
 }
 
 // isIntegerType reports whether or not the given type is one of the basic (un)signed integer types.
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index 20334a3..f7162b3 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -230,6 +230,7 @@ const (
 	errBadOverrideTagValue
 	errBadDirectiveBooleanExpr
 	errBadBetweenPredicate
+	errNoWhereFields
 	errBadJoinConditionLHS
 	errIllegalSliceUpdateModifier
 	errIllegalListPredicate
@@ -508,6 +509,12 @@ var error_template_string = `
 	}
 {{ end }}
 
+{{ define "` + errNoWhereFields.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "No conditions in where struct."}}
+    The {{R .FieldName}} field from {{Wb .TargetName}} has no fields that could be used as conditions of the WHERE clause.
+    {{Wb "FIX:"}} add a field with an "sql" tag, or remove the "sql" tag of the {{R .FieldName}} field.
+{{ end }}
+
 {{ define "` + errBadJoinConditionLHS.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Bad join_condition LHS."}}
     The LHS "{{R .TagError}}" of the "{{R .TagExpr}}" expression in {{R (raw .TagString)}} is not allowed. 
-- 
2.43.0


From 7e243bf2d0c3fd27476ea6026cb649f6ba794eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 64/90] fix: count the records regardless of order, limit and
 offset, and apply these when filtered records' existence is selected

---
 internal/generator/generator.go | 45 +++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index ae9c85f..da66448 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -453,7 +453,7 @@ func buildQueryInputPKeyFields(g *generator, qs *analysis.QueryStruct) {
 
 // buildQueryInputLimitField
 func buildQueryInputLimitField(g *generator, qs *analysis.QueryStruct) {
-	if qs.Limit == nil || len(qs.Limit.Name) == 0 {
+	if qs.Limit == nil || len(qs.Limit.Name) == 0 || qs.Kind == analysis.QueryKindSelectCount {
 		return
 	}
 
@@ -463,7 +463,7 @@ func buildQueryInputLimitField(g *generator, qs *analysis.QueryStruct) {
 
 // buildQueryInputOffsetField
 func buildQueryInputOffsetField(g *generator, qs *analysis.QueryStruct) {
-	if qs.Offset == nil || len(qs.Offset.Name) == 0 {
+	if qs.Offset == nil || len(qs.Offset.Name) == 0 || qs.Kind == analysis.QueryKindSelectCount {
 		return
 	}
 
@@ -625,6 +625,11 @@ func buildQueryOutputSourceColumns(g *generator, qs *analysis.QueryStruct) {
 
 // buildQueryLimitOffsetFallback
 func buildQueryLimitOffsetFallback(g *generator, qs *analysis.QueryStruct) {
+	if qs.Kind == analysis.QueryKindSelectCount {
+		g.queryLimitAndOffsetFallback = GO.StmtList{GO.NoOp{}}
+		return
+	}
+
 	if limit := qs.Limit; limit != nil && limit.Value > 0 && len(limit.Name) > 0 {
 		sx := GO.SelectorExpr{X: g.queryRecv, Sel: GO.Ident{limit.Name}}
 
@@ -1122,17 +1127,7 @@ func buildSQLSelectStatement(g *generator, qs *analysis.QueryStruct) {
 	if qs.Filter != nil {
 		// The filter's clauses, starting with the WHERE clause, are appended
 		// at runtime, the rest of the clauses has to follow them.
-		tail := SQL.NodeList{}
-		if len(g.orderClause.List) > 0 {
-			tail = append(tail, g.orderClause)
-		}
-		if g.limitClause.Value != nil {
-			tail = append(tail, g.limitClause)
-		}
-		if g.offsetClause.Value != nil {
-			tail = append(tail, g.offsetClause)
-		}
-		if len(tail) > 0 {
+		if tail := makeSQLSelectTail(g); len(tail) > 0 {
 			g.sqlTailNode = tail
 		}
 	} else {
@@ -1144,6 +1139,20 @@ func buildSQLSelectStatement(g *generator, qs *analysis.QueryStruct) {
 	g.sqlMainNode = stmt
 }
 
+// makeSQLSelectTail returns the list of those clauses that follow the WHERE clause.
+func makeSQLSelectTail(g *generator) (tail SQL.NodeList) {
+	if len(g.orderClause.List) > 0 {
+		tail = append(tail, g.orderClause)
+	}
+	if g.limitClause.Value != nil {
+		tail = append(tail, g.limitClause)
+	}
+	if g.offsetClause.Value != nil {
+		tail = append(tail, g.offsetClause)
+	}
+	return tail
+}
+
 // buildSQLDeleteStatement builds an SQL.DeleteStatement.
 func buildSQLDeleteStatement(g *generator, qs *analysis.QueryStruct) {
 	stmt := SQL.DeleteStatement{}
@@ -1176,10 +1185,10 @@ func buildSQLSelectCountStatement(g *generator, qs *analysis.QueryStruct) {
 		stmt.Join.List = append(stmt.Join.List, g.tableJoinSlice...)
 	}
 
+	// The number of the matching records doesn't depend on their order, nor on
+	// the part of them that's selected by the LIMIT and OFFSET clauses.
 	if qs.Filter == nil {
 		stmt.Where = g.whereClause
-		stmt.Order = g.orderClause
-		stmt.Offset = g.offsetClause
 	}
 
 	g.sqlMainNode = stmt
@@ -1202,7 +1211,11 @@ func buildSQLSelectExistsStatement(g *generator, qs *analysis.QueryStruct) {
 		stmt.Offset = g.offsetClause
 	} else {
 		stmt.Open = true
-		g.closeFilter = true
+		if tail := makeSQLSelectTail(g); len(tail) > 0 {
+			g.sqlTailNode = append(tail, SQL.Literal{`)`})
+		} else {
+			g.closeFilter = true
+		}
 	}
 
 	g.sqlMainNode = stmt
-- 
2.43.0


From b6fb28a5c635d9c925805ac04e7fa7d8ba745cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:21 +0000
Subject: [PATCH 65/90] fix: convert pointers to named empty interfaces

---
 internal/generator/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index da66448..d14fa64 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -602,6 +602,10 @@ func buildQueryOutputTargetFields(g *generator, qs *analysis.QueryStruct) {
 
 		fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{fr.Field.Name}}
 		fx = GO.UnaryExpr{Op: GO.UnaryAmp, X: fx}
+		if fr.Field.Type.IsEmptyInterface && len(fr.Field.Type.Name) > 0 && len(fr.Scanner) > 0 && fr.Scanner != "JSON" {
+			// the converter takes a pointer to the unnamed empty interface
+			fx = GO.CallExpr{Fun: GO.Ident{"(*interface{})"}, Args: GO.ArgsList{List: fx}}
+		}
 		fx = addConverterCallExpr(g, fx, fr.Scanner)
 		g.outputArgs = append(g.outputArgs, fx)
 	}
-- 
2.43.0


From df1e4ecce90d95c93946cfa45fb81900831a85f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:18 +0000
Subject: [PATCH 66/90] fix: refuse structs nested in themselves and don't hang
 on types that consist of themselves

---
 internal/analysis/analysis.go | 37 +++++++++++++++++++++++++++++++----
 internal/analysis/error.go    |  7 +++++++
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 458b186..7f0906a 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -61,6 +61,8 @@ type analysis struct {
 	query *QueryStruct
 	// ...
 	info *Info
+	// The named types that are being analyzed by analyzeTypeInfo.
+	typeStack []*types.Named
 }
 
 // Info holds information related to an analyzed TargetStruct. If the analysis
@@ -497,10 +499,14 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 
 	if named != nil {
 		pkg := named.Obj().Pkg()
+		if pkg == nil { // predeclared types have none
+			return a.error(errBadRelType, field, "", "", "", "")
+		}
 		rt.Base.Name = named.Obj().Name()
 		rt.Base.PkgPath = pkg.Path()
 		rt.Base.PkgName = pkg.Name()
 		rt.Base.PkgLocal = pkg.Name()
+		rt.Base.TypeArgs = analyzeTypeArgs(a, named)
 		rt.Base.IsImported = isImportedType(a, named)
 		rt.IsAfterScanner = typesutil.ImplementsAfterScanner(named)
 		ftyp = named.Underlying()
@@ -575,6 +581,13 @@ stackloop:
 			// considered to be a "parent" field element whose child
 			// fields need to be analyzed as well.
 			if f.Type.Is(TypeKindStruct) && strings.HasPrefix(sqltag, ">") {
+				// Fail if the struct is nested in itself.
+				for _, loop := range stack {
+					if types.Identical(loop.styp, ftyp) {
+						return a.error(errBadNestedType, fvar, "", ftag, "", "")
+					}
+				}
+
 				loop2 := new(loopstate)
 				loop2.styp = ftyp.(*types.Struct)
 				loop2.typ = &f.Type
@@ -658,10 +671,7 @@ func analyzeTypeInfo(a *analysis, tt types.Type) (typ TypeInfo, base types.Type)
 			typ.PkgName = pkg.Name()
 			typ.PkgLocal = pkg.Name()
 		}
-		for i := 0; i < named.TypeArgs().Len(); i++ {
-			arg, _ := analyzeTypeInfo(a, named.TypeArgs().At(i))
-			typ.TypeArgs = append(typ.TypeArgs, &arg)
-		}
+		typ.TypeArgs = analyzeTypeArgs(a, named)
 		typ.IsImported = isImportedType(a, named)
 		typ.IsScanner = typesutil.ImplementsScanner(named)
 		typ.IsValuer = typesutil.ImplementsValuer(named)
@@ -669,6 +679,16 @@ func analyzeTypeInfo(a *analysis, tt types.Type) (typ TypeInfo, base types.Type)
 		typ.IsJSONUnmarshaler = typesutil.ImplementsJSONUnmarshaler(named)
 		typ.IsXMLMarshaler = typesutil.ImplementsXMLMarshaler(named)
 		typ.IsXMLUnmarshaler = typesutil.ImplementsXMLUnmarshaler(named)
+
+		// A type that consists of itself isn't descended into once more.
+		for _, t := range a.typeStack {
+			if types.Identical(t, named) {
+				return typ, base
+			}
+		}
+		a.typeStack = append(a.typeStack, named)
+		defer func() { a.typeStack = a.typeStack[:len(a.typeStack)-1] }()
+
 		base = named.Underlying()
 	}
 
@@ -706,6 +726,15 @@ func analyzeTypeInfo(a *analysis, tt types.Type) (typ TypeInfo, base types.Type)
 	return typ, base
 }
 
+// analyzeTypeArgs analyzes the arguments of the given type, if it is generic.
+func analyzeTypeArgs(a *analysis, named *types.Named) (args []*TypeInfo) {
+	for i := 0; i < named.TypeArgs().Len(); i++ {
+		arg, _ := analyzeTypeInfo(a, named.TypeArgs().At(i))
+		args = append(args, &arg)
+	}
+	return args
+}
+
 // analyzeIteratorInterface [ ... ]
 func analyzeIteratorInterface(a *analysis, rt *RelType, iface *types.Interface, named *types.Named) (out *types.Named, isValid bool) {
 	if iface.NumExplicitMethods() != 1 {
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index f7162b3..2f088a7 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -203,6 +203,7 @@ const (
 	errBadIterTypeInterface
 	errBadIterTypeFunc
 	errBadRelType
+	errBadNestedType
 	errIllegalQueryField
 	errIllegalStructDirective
 	errIllegalIteratorField
@@ -509,6 +510,12 @@ var error_template_string = `
 	}
 {{ end }}
 
+{{ define "` + errBadNestedType.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Recursive nested struct."}}
+    The type of the {{R .FieldName}} field, which is tagged with {{raw .TagString}}, {{Wu "IS"}} the type of the struct in which it is nested.
+    {{Wb "FIX:"}} change the type of the {{R .FieldName}} field, or exclude it with the {{raw "sql:\"-\""}} tag.
+{{ end }}
+
 {{ define "` + errNoWhereFields.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "No conditions in where struct."}}
     The {{R .FieldName}} field from {{Wb .TargetName}} has no fields that could be used as conditions of the WHERE clause.
-- 
2.43.0


From 8a8acd5621dc17783c65cd66f799ae0a5e690956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 67/90] fix: joins without conditions or relation made the tool
 panic, their left operands are of the joined relation

---
 internal/analysis/analysis.go   |  4 ++++
 internal/analysis/error.go      |  7 +++++++
 internal/generator/generator.go | 19 +++++++++++++++++++
 3 files changed, 30 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 7f0906a..daa5015 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1129,6 +1129,10 @@ func analyzeJoinStruct(a *analysis, f *types.Var, tag string) (err error) {
 
 	}
 
+	if join.Relation == nil && fname != "join" {
+		return a.error(errMissingJoinRelation, f, "", tag, "", "")
+	}
+
 	a.query.Join = join
 	a.info.FieldMap[a.query.Join] = FieldVar{Var: f, Tag: tag}
 	return nil
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index 2f088a7..853c5ce 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -222,6 +222,7 @@ const (
 	errMissingTagColumnList
 	errMissingOnConflictTarget
 	errMissingFilterConstructor
+	errMissingJoinRelation
 	errBadIdentTagValue
 	errBadColIdTagValue
 	errBadRelIdTagValue
@@ -516,6 +517,12 @@ var error_template_string = `
     {{Wb "FIX:"}} change the type of the {{R .FieldName}} field, or exclude it with the {{raw "sql:\"-\""}} tag.
 {{ end }}
 
+{{ define "` + errMissingJoinRelation.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Missing relation directive."}}
+    The {{R .FieldName}} field from {{Wb .TargetName}} {{Wu "HAS NO"}} gosql.Relation directive.
+    {{Wb "FIX:"}} add a field of the {{Ci "gosql.Relation"}} directive, tagged with the name of the relation, to the {{R .FieldName}} struct.
+{{ end }}
+
 {{ define "` + errNoWhereFields.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "No conditions in where struct."}}
     The {{R .FieldName}} field from {{Wb .TargetName}} has no fields that could be used as conditions of the WHERE clause.
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index d14fa64..4720731 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1351,10 +1351,20 @@ func buildSQLTableJoinSlice(g *generator, qs *analysis.QueryStruct) {
 		conds := make([]postgres.WhereConditional, len(g.info.Joins[i]))
 		for j := 0; j < len(g.info.Joins[i]); j++ {
 			conds[j] = g.info.Joins[i][j]
+
+			// the left hand side is a column of the relation that's being joined
+			if cond, ok := conds[j].(*postgres.ColumnConditional); ok && len(cond.LHSColIdent.Qualifier) == 0 {
+				copy := *cond
+				copy.LHSColIdent.Qualifier = dir.RelIdent.Alias
+				conds[j] = &copy
+			}
 		}
 
 		searchCond, _ := makeSQLBoolValueExprList(g, conds, GO.SelectorExpr{}, false)
 		searchCond.ListStyle = false
+		if len(conds) == 0 {
+			searchCond.Initial = sqlTrue{}
+		}
 
 		join := SQL.TableJoin{}
 		join.Type = sqlJoinType[dir.JoinType]
@@ -1364,6 +1374,15 @@ func buildSQLTableJoinSlice(g *generator, qs *analysis.QueryStruct) {
 	}
 }
 
+// sqlTrue is the condition of joins that were given none.
+type sqlTrue struct {
+	SQL.TruthPredicate
+}
+
+func (sqlTrue) Walk(w *ast.Writer) {
+	w.Write("TRUE")
+}
+
 // makeSQLBoolValueExprList builds and returns an SQL.BoolValueExprList.
 func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, sx GO.SelectorExpr, parenthesized bool) (list SQL.BoolValueExprList, count int) {
 	var boolean analysis.Boolean
-- 
2.43.0


From b0b10a88bb9cdb388580bcac435ff58929cef6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 68/90] fix: refuse queries that read no columns and ordering
 by types that have no order

---
 internal/postgres/errors.go   | 13 ++++++++++++
 internal/postgres/postgres.go | 38 ++++++++++++++++++++++++++++++++++-
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index 394e16f..c6d01a7 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -71,6 +71,9 @@ const (
 	// write errors
 	errWriteColumnsMissing
 	errUpdatePrimaryKeyMissing
+	// read errors
+	errReadColumnsMissing
+	errColumnOrderBy
 )
 
 type dbError struct {
@@ -467,6 +470,16 @@ Column error templates
     - an update without a {{Wb "WHERE"}} condition, a filter, or the "{{W "gosql.All"}}" directive MUST have a field for the primary key.
 {{ end }}
 
+{{ define "` + errReadColumnsMissing.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "No columns to read."}}
+    The field "{{R .Field.Name}}" of type "{{R .Field.Type}}" has no columns that can be read from the relation "{{R .Rel.Id.Name}}".
+{{ end }}
+
+{{ define "` + errColumnOrderBy.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Bad column type for ordering."}}
+    The column "{{R .Col.IdRef}}" referenced in "{{R .Field.Definition}}" is of type "{{R .Col.Type.GetNameFmt}}" by which postgres cannot order.
+{{ end }}
+
 {{ define "` + errColumnQualifierUnknown.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Column qualifier relation not found."}}
     The qualifier "{{R .Col.Id.Qualifier}}" matches no relation.
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 10f7162..947d37d 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -263,6 +263,7 @@ func typeCheckQueryStruct(c *checker, qs *analysis.QueryStruct) error {
 		typeCheckQueryRelField,
 
 		typeCheckQueryWriteColumns,
+		typeCheckQueryReadColumns,
 		typeCheckQueryWhereStruct,
 		typeCheckQueryOnConflictStruct,
 	}
@@ -332,15 +333,21 @@ func typeCheckQueryDefaultDirective(c *checker, qs *analysis.QueryStruct) error
 // CHECKLIST:
 //
 //	✅ Each column MUST be present in one of the loaded relations.
+//	✅ Each column MUST be of a type that has an ordering.
 func typeCheckQueryOrderByDirective(c *checker, qs *analysis.QueryStruct) error {
 	if qs.OrderBy == nil {
 		return nil
 	}
 
 	for _, item := range qs.OrderBy.Items {
-		if _, ecode := findColumn(c, item.ColIdent); ecode > 0 {
+		col, ecode := findColumn(c, item.ColIdent)
+		if ecode > 0 {
 			return c.dbError(dbError{Code: ecode, Col: colInfo{Id: item.ColIdent}}, qs.OrderBy)
 		}
+		if !canOrderBy(c, col.Type) {
+			return c.dbError(dbError{Code: errColumnOrderBy,
+				Col: colInfo{Id: item.ColIdent, Column: col}}, qs.OrderBy)
+		}
 	}
 	return nil
 }
@@ -497,6 +504,24 @@ func typeCheckQueryWriteColumns(c *checker, qs *analysis.QueryStruct) error {
 	return nil
 }
 
+// typeCheckQueryReadColumns checks the columns that will be read by the query.
+//
+// CHECKLIST:
+//   - If the query represents a SELECT, or if it has a Return directive or a Result field:
+//     ✅ There MUST be at least one column to read.
+func typeCheckQueryReadColumns(c *checker, qs *analysis.QueryStruct) error {
+	if len(c.res.Reads) > 0 {
+		return nil
+	}
+
+	if qs.Result != nil {
+		return c.dbError(dbError{Code: errReadColumnsMissing, Rel: relInfo{Relation: c.rel}}, qs.Result)
+	} else if qs.Kind == analysis.QueryKindSelect || qs.Return != nil {
+		return c.dbError(dbError{Code: errReadColumnsMissing, Rel: relInfo{Relation: c.rel}}, qs.Rel)
+	}
+	return nil
+}
+
 // typeCheckQueryJoinStruct ...
 func typeCheckQueryJoinStruct(c *checker, qs *analysis.QueryStruct) error {
 	if qs.Join == nil {
@@ -2131,6 +2156,17 @@ func typeOfLiteral(c *checker, expr string) (*Type, dbErrorCode) {
 	return c.db.catalog.Types[typoid], 0
 }
 
+// canOrderBy reports whether or not values of the given type can be ordered.
+func canOrderBy(c *checker, typ *Type) bool {
+	const pgselectordered = `SELECT id FROM (SELECT NULL::%s AS id) AS t ORDER BY id` //`
+
+	rows, err := c.db.Query(fmt.Sprintf(pgselectordered, typ.NameFmt))
+	if err != nil {
+		return false
+	}
+	return rows.Close() == nil
+}
+
 // isLength1Type reports whether or not the given column's type
 // is a "length 1" type, i.e. char(1), varchar(1), or bit(1)[], etc.
 func isLength1Type(c *checker, col *Column) bool {
-- 
2.43.0


From e6f25fa3f3d0a9b174d63d73c3c3876fb314de7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 69/90] fix: don't cache relation types whose analysis failed

---
 internal/analysis/analysis.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index daa5015..745714c 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -510,10 +510,6 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 		rt.Base.IsImported = isImportedType(a, named)
 		rt.IsAfterScanner = typesutil.ImplementsAfterScanner(named)
 		ftyp = named.Underlying()
-
-		relTypeCache.Lock()
-		relTypeCache.m[cacheKey] = rt
-		relTypeCache.Unlock()
 	}
 
 	rt.Base.Kind = analyzeTypeKind(ftyp)
@@ -522,7 +518,17 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 	}
 
 	styp := ftyp.(*types.Struct)
-	return analyzeFieldInfoList(a, rt, styp)
+	if err := analyzeFieldInfoList(a, rt, styp); err != nil {
+		return err
+	}
+
+	// only the types that passed the analysis
+	if named != nil {
+		relTypeCache.Lock()
+		relTypeCache.m[cacheKey] = rt
+		relTypeCache.Unlock()
+	}
+	return nil
 }
 
 // analyzeFieldInfoList
-- 
2.43.0


From c0ad0b78a51771b04cdd9cecfeb49705b20fd0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 70/90] fix: refuse relation aliases that differ in nothing but
 case, and name the types of bad quantified predicates

---
 internal/analysis/analysis.go | 15 +++++++++++++--
 internal/postgres/postgres.go |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 745714c..9507860 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1810,19 +1810,30 @@ func addToRelSpace(a *analysis, id RelIdent) (ecode errorCode, errval string) {
 		a.info.RelSpace = make(map[string]RelIdent)
 	}
 	if len(id.Alias) > 0 {
-		if _, ok := a.info.RelSpace[id.Alias]; ok {
+		if inRelSpace(a, id.Alias) {
 			return errConflictingRelAlias, id.Alias
 		}
 		a.info.RelSpace[id.Alias] = id
 		return 0, ""
 	}
-	if _, ok := a.info.RelSpace[id.Name]; ok {
+	if inRelSpace(a, id.Name) {
 		return errConflictingRelName, id.Name
 	}
 	a.info.RelSpace[id.Name] = id
 	return 0, ""
 }
 
+// inRelSpace reports whether or not the given relation name or alias is already
+// in use, the case of unquoted aliases is not significant to postgres.
+func inRelSpace(a *analysis, name string) bool {
+	for used := range a.info.RelSpace {
+		if strings.EqualFold(used, name) {
+			return true
+		}
+	}
+	return false
+}
+
 ////////////////////////////////////////////////////////////////////////////////
 // Misc. Analysis
 //
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 947d37d..8011adf 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -787,7 +787,7 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 
 	if cond.Quantifier > 0 {
 		if ctyp = arrayTypeOf(c, cond.Column.Type); ctyp == nil {
-			return errPredicateOperandQuantifier
+			return errColumnFieldComparison
 		}
 	}
 
-- 
2.43.0


From 1c6c12dc08cd7dbb14c8e92b5d83582ba2bc6cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:36 +0000
Subject: [PATCH 71/90] fix: assign every column of an ON CONFLICT update just
 once

---
 internal/postgres/postgres.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 8011adf..6e9b9a2 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1230,7 +1230,14 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 
 		} else {
 
+			seen := make(map[string]bool)
 			for _, cid := range qs.OnConflict.Update.Items {
+				// assign each column just once
+				if seen[cid.Name] {
+					continue
+				}
+				seen[cid.Name] = true
+
 				col := findRelColumn(c.rel, cid.Name)
 				if col == nil {
 					return c.dbError(dbError{Code: errColumnUnknown,
-- 
2.43.0


From 07a05de52047d8f3a9624379f56d364c7f559311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:35 +0000
Subject: [PATCH 72/90] fix: refuse the alias excluded in upserts

---
 internal/analysis/analysis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 9507860..d052ff5 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1332,6 +1332,10 @@ func analyzeOnConflictStruct(a *analysis, f *types.Var, tag string) (err error)
 	if onConflict.Update != nil && (onConflict.Column == nil && onConflict.Index == nil && onConflict.Constraint == nil) {
 		return a.error(errMissingOnConflictTarget, f, "", tag, "", "")
 	}
+	// the name "excluded" is that of the row proposed for insertion
+	if onConflict.Update != nil && inRelSpace(a, "excluded") {
+		return a.error(errConflictingRelAlias, f, "", tag, "", "excluded")
+	}
 
 	a.query.OnConflict = onConflict
 	a.info.FieldMap[onConflict] = FieldVar{Var: f, Tag: tag}
-- 
2.43.0


From 5a734394958819bb57e809bb7808bca65adb4078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 73/90] fix: refuse types that can be neither marshaled to JSON
 nor XML

---
 internal/analysis/analysis.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index d052ff5..7d61f3f 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -2434,12 +2434,12 @@ func (t *TypeInfo) ImplementsXMLUnmarshaler() bool {
 
 // Indicates whether or not an instance of the type's Kind is illegal to be used with encoding/json.
 func (t *TypeInfo) IsJSONIllegal() bool {
-	return t.Is(TypeKindChan, TypeKindFunc, TypeKindComplex64, TypeKindComplex128)
+	return t.Is(TypeKindChan, TypeKindFunc, TypeKindComplex64, TypeKindComplex128, TypeKindUnsafePointer)
 }
 
 // Indicates whether or not an instance of the type's Kind is illegal to be used with encoding/xml.
 func (t *TypeInfo) IsXMLIllegal() bool {
-	return t.Is(TypeKindChan, TypeKindFunc, TypeKindMap)
+	return t.Is(TypeKindChan, TypeKindFunc, TypeKindMap, TypeKindComplex64, TypeKindComplex128, TypeKindUnsafePointer)
 }
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 09171c77195d55665579c5e7ca88ddcd53555b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 74/90] fix: initialize every nested pointer, even if the
 paths' names concatenate to the same

---
 internal/generator/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 4720731..68573f5 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -563,7 +563,7 @@ func buildQueryOutputInitFields(g *generator, qs *analysis.QueryStruct) {
 
 		fx := g.outputVar
 		for _, node := range fr.Field.Selector {
-			key += node.Name
+			key += "." + node.Name
 
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
 			if node.IsPointer && !done[key] {
-- 
2.43.0


From 0b7bf97e6a296091f19a556b2834d7f0c083df72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:45 +0000
Subject: [PATCH 75/90] fix: name imports that would clash with one another or
 with the generated code's identifiers

---
 internal/generator/generator.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 68573f5..d57d00f 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1,6 +1,7 @@
 package generator
 
 import (
+	"go/types"
 	"io"
 	"log"
 	"regexp"
@@ -68,9 +69,6 @@ type impspec struct {
 	// If set, it indicates that the Name field should be set
 	// in the generated GO.ImportSpec node.
 	local bool
-	// Number of package's with the same name. This value is used by those
-	// packages to modify their name in order to not cause an import conflict.
-	num int
 }
 
 // The file type holds info about the file for which the code is being generated.
@@ -2226,23 +2224,23 @@ func addimport(f *file, path, name string) *impspec {
 		name = rxNonIdent.ReplaceAllString(name, "_")
 	}
 
-	var namesake *impspec
 	for _, imp := range f.impset {
 		// already added, exit
 		if imp.path == path {
 			return imp
 		}
+	}
 
-		// retain import that has the same name
-		if imp.name == name {
-			namesake = imp
-		}
+	// The name must not be in conflict with the identifiers used by the generated code.
+	if types.Universe.Lookup(name) != nil || rxLocalIdent.MatchString(name) {
+		name += "pkg"
+		local = true
 	}
 
+	// If the name is already taken, modify it to not cause a conflict.
 	imp := &impspec{path: path, name: name, local: local}
-	if namesake != nil {
-		namesake.num += 1
-		imp.name = name + strconv.Itoa(namesake.num)
+	for num := 1; isTaken(f, imp.name); num++ {
+		imp.name = name + strconv.Itoa(num)
 		imp.local = true
 	}
 
@@ -2250,7 +2248,20 @@ func addimport(f *file, path, name string) *impspec {
 	return imp
 }
 
+// isTaken reports whether or not the file already has an import with the given name.
+func isTaken(f *file, name string) bool {
+	for _, imp := range f.impset {
+		if imp.name == name {
+			return true
+		}
+	}
+	return false
+}
+
 var (
+	// rxLocalIdent matches the names of the generated code's receivers, arguments, and variables.
+	rxLocalIdent = regexp.MustCompile(`^(?:c|ctx|err|f|filterString|i|i64|nest|nstatic|op|params|q|queryString|res|row|rows|v|val|(?:len|pos)[0-9]*)$`)
+
 	// rxNonIdent matches what can not be part of an identifier.
 	rxNonIdent = regexp.MustCompile(`^[0-9]|\W`)
 
-- 
2.43.0


From dff3fd245d8e85fd9c125235fc32b25167cc5cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:47 +0000
Subject: [PATCH 76/90] fix: columns of partitioned and foreign tables can be
 NULL

---
 internal/postgres/enums.go | 6 ++++++
 internal/postgres/types.go | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/enums.go b/internal/postgres/enums.go
index d0f763c..b1db050 100644
--- a/internal/postgres/enums.go
+++ b/internal/postgres/enums.go
@@ -20,6 +20,12 @@ const (
 	RelKindPartitionedIndex RelKind = "I"
 )
 
+// isTable reports whether or not the relation is a table, i.e. a relation
+// whose columns can be declared as NOT NULL.
+func (k RelKind) isTable() bool {
+	return k == RelKindOrdinaryTable || k == RelKindPartitionedTable || k == RelKindForeignTable
+}
+
 // postgres type types
 type TypeType string
 
diff --git a/internal/postgres/types.go b/internal/postgres/types.go
index 3def105..a2f4158 100644
--- a/internal/postgres/types.go
+++ b/internal/postgres/types.go
@@ -392,7 +392,7 @@ func (t *Type) GetNameFmt() string {
 }
 
 func (c *Column) IsNULLable() bool {
-	return c.Relation != nil && c.Relation.RelKind == RelKindOrdinaryTable &&
+	return c.Relation != nil && c.Relation.RelKind.isTable() &&
 		c.HasNotNull == false
 }
 
-- 
2.43.0


From 6922825e27a26a4d89e6cbdb8ce751c0e9261773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:39 +0000
Subject: [PATCH 77/90] fix: relation names are looked up as they are written
 in the generated queries

---
 internal/analysis/types.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/analysis/types.go b/internal/analysis/types.go
index f19e640..138cb2e 100644
--- a/internal/analysis/types.go
+++ b/internal/analysis/types.go
@@ -833,11 +833,13 @@ func (t *RelType) HasFieldWithColumn(colName string) bool {
 	return false
 }
 
+// QualifiedName returns the, optionally schema-qualified, name of the relation. The
+// identifiers are quoted, as they are in the generated queries, to preserve their case.
 func (id *RelIdent) QualifiedName() string {
 	if len(id.Qualifier) > 0 {
-		return id.Qualifier + "." + id.Name
+		return `"` + id.Qualifier + `"."` + id.Name + `"`
 	}
-	return id.Name
+	return `"` + id.Name + `"`
 }
 
 // GetRelField (implements TargetStruct) returns the RelField of the QueryStruct.
-- 
2.43.0


From 9842a7caf9f9a4809452affcfa98fcfd5f934b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:58 +0000
Subject: [PATCH 78/90] fix: columns listed in gosql.Default and gosql.Return
 must be those of the target relation

---
 internal/postgres/postgres.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 6e9b9a2..6d16902 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -317,7 +317,7 @@ func typeCheckQueryDefaultDirective(c *checker, qs *analysis.QueryStruct) error
 	}
 
 	for _, cid := range qs.Default.Items {
-		if col := findRelColumn(c.rel, cid.Name); col == nil {
+		if col := findTargetColumn(c, cid); col == nil {
 			return c.dbError(dbError{Code: errColumnUnknown,
 				Rel: relInfo{Relation: c.rel}, Col: colInfo{Id: cid}}, qs.Default)
 		} else if !col.HasDefault {
@@ -384,7 +384,8 @@ func typeCheckQueryReturnDirective(c *checker, qs *analysis.QueryStruct) error {
 		strict = true
 		for _, cid := range qs.Return.Items {
 			if f, ecode := findQueryColumnField(c, qs, cid, strict); ecode > 0 {
-				return c.dbError(dbError{Code: ecode, Col: colInfo{Id: cid}}, qs.Return)
+				return c.dbError(dbError{Code: ecode,
+					Rel: relInfo{Relation: c.rel}, Col: colInfo{Id: cid}}, qs.Return)
 			} else if f != nil {
 				fields = append(fields, f)
 			}
@@ -1654,6 +1655,16 @@ func findRelColumn(rel *Relation, name string) *Column {
 	return nil
 }
 
+// findTargetColumn finds and returns the target relation's *Column identified by the
+// given ColIdent. If there's no such column in the target relation, or if the ColIdent
+// is qualified with a relation other than the target, nil will be returned instead.
+func findTargetColumn(c *checker, id analysis.ColIdent) *Column {
+	if len(id.Qualifier) > 0 && id.Qualifier != relIdentKey(c.rid) {
+		return nil
+	}
+	return findRelColumn(c.rel, id.Name)
+}
+
 // findRelIndex finds and returns the *Index identified by the given name.
 // If no Index is found in the provided Relation, nil will be returned instead.
 func findRelIndex(rel *Relation, name string) *Index {
@@ -1678,7 +1689,8 @@ func findRelConstraint(rel *Relation, name string) *Constraint {
 
 // findQueryColumnField finds and returns the *analysis.FieldInfo of the target data type's
 // field that is tagged with the column identified by the given ColIdent. If strict
-// is true, findQueryColumnField will also check whether or not the column actually exists.
+// is true, findQueryColumnField will also check whether or not the column actually exists
+// in the target relation.
 //
 // NOTE(mkopriva): currently the findQueryColumnField method returns fields matched
 // by just the column's name, i.e. the qualifiers are ignored, this means that
@@ -1688,8 +1700,8 @@ func findQueryColumnField(c *checker, qs *analysis.QueryStruct, cid analysis.Col
 	for _, f := range qs.Rel.Type.Fields {
 		if f.ColIdent.Name == cid.Name {
 			if strict {
-				if _, ecode := findColumn(c, cid); ecode > 0 {
-					return nil, ecode
+				if findTargetColumn(c, cid) == nil {
+					return nil, errColumnUnknown
 				}
 			}
 			return f, 0
-- 
2.43.0


From f5733c122ac60f81b6f3adaeae0bb8fdd839538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:27 +0000
Subject: [PATCH 79/90] fix: conflict targets of indexes with included columns,
 ordering options or quoted names

---
 internal/postgres/postgres.go | 75 ++++++++++++++++-------------------
 internal/postgres/types.go    |  2 +
 2 files changed, 37 insertions(+), 40 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 6d16902..42dbefb 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -7,7 +7,6 @@ import (
 	"database/sql"
 	"fmt"
 	"log"
-	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -1163,7 +1162,7 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 
 		var exists, isunique bool
 		for _, ind := range c.rel.Indexes {
-			if !matchNumbers(ind.Key, attnums) {
+			if !matchNumbers(ind.Key[:ind.NumKeyAtts], attnums) {
 				continue
 			}
 			exists = true
@@ -2052,6 +2051,7 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 		c.oid
 		, c.relname
 		, i.indnatts
+		, i.indnkeyatts
 		, i.indisunique
 		, i.indisprimary
 		, i.indisexclusion
@@ -2077,6 +2077,7 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 			&ind.OID,
 			&ind.Name,
 			&ind.NumAtts,
+			&ind.NumKeyAtts,
 			&ind.IsUnique,
 			&ind.IsPrimary,
 			&ind.IsExclusion,
@@ -2228,54 +2229,48 @@ toploop:
 	return true
 }
 
-var rxUsingMethod = regexp.MustCompile(`(?i:\susing\s)`)
-
 // parseIndexExpr extracts the index_expression from a CREATE INDEX command.
 // e.g. CREATE INDEX index_name ON table_name USING method_name (index_expression);
+//
+// The ordering options of the index's columns are left out of the result since they
+// are not allowed in the conflict_target of an ON CONFLICT clause.
 func parseIndexExpr(s string) (expr string) {
-	loc := rxUsingMethod.FindStringIndex(s)
-	if len(loc) > 1 {
-		s = s[loc[1]:]
-	}
-	if i := strings.Index(s, "("); i < 0 {
-		return
-	} else {
-		s = s[i+1:]
-	}
-
 	var (
-		r        rune
-		nested   int  // number nested parentheses
-		position int  // position in the input
-		quoted   bool // quoted text in the input
-		escaped  bool // escaped quote `''` in quoted text
+		elems  []string // elements of the index_expression
+		start  int      // position of the current element
+		nested int      // number of nested parentheses
+		quote  byte     // the quote of the quoted text or identifier in the input
 	)
-	for position, r = range s {
-		if !quoted {
-			if r == '(' {
-				nested += 1 // nest
-			} else if r == ')' {
-				if nested == 0 {
-					break // done
-				}
-				nested -= 1 // unnest
-			} else if r == '\'' {
-				quoted = true
+
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case quote != 0:
+			if c == quote { // NOTE doubled quotes simply re-open the quoted input
+				quote = 0
 			}
-		} else {
-			if r == '\'' && len(s) > position {
-				if s[position+1] == '\'' {
-					escaped = true
-				} else if escaped {
-					escaped = false
-				} else {
-					quoted = false
+		case c == '\'' || c == '"':
+			quote = c
+		case c == '(':
+			if nested += 1; nested == 1 {
+				start = i + 1
+			}
+		case c == ')' || (c == ',' && nested == 1):
+			if nested == 1 {
+				elem := strings.TrimSpace(s[start:i])
+				elem = strings.TrimSuffix(elem, " NULLS FIRST")
+				elem = strings.TrimSuffix(elem, " NULLS LAST")
+				elem = strings.TrimSuffix(elem, " DESC")
+				elems = append(elems, elem)
+				start = i + 1
+			}
+			if c == ')' {
+				if nested -= 1; nested == 0 {
+					return strings.Join(elems, ", ") // done
 				}
 			}
 		}
 	}
-
-	return s[:position]
+	return ""
 }
 
 type int2vec []int16 // helper type
diff --git a/internal/postgres/types.go b/internal/postgres/types.go
index a2f4158..907ba41 100644
--- a/internal/postgres/types.go
+++ b/internal/postgres/types.go
@@ -265,6 +265,8 @@ type (
 		// The total number of columns in the index; this number includes
 		// both key and included attributes.
 		NumAtts int
+		// The number of key columns in the index, not counting any included columns.
+		NumKeyAtts int
 		// If true, this is a unique index.
 		IsUnique bool
 		// If true, this index represents the primary key of the table.
-- 
2.43.0


From db246fe6583a1784203648441baa74523b9a898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:03 +0000
Subject: [PATCH 80/90] fix: deferrable indexes and constraints cannot be
 conflict targets

---
 internal/postgres/errors.go   | 12 ++++++------
 internal/postgres/postgres.go | 13 ++++++++++---
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index c6d01a7..aef578c 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -595,8 +595,8 @@ On Conflict error templates
 
 {{ define "` + errOnConflictIndexNotUnique.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Index not unique."}}
-    The index "{{R .Field.SqlTagFirst}}" referenced by "{{R .Field.Definition}}" is not unique / primary key.
-    - directive "{{W .Field.TypeShort}}" requires an index of type: "{{W "unique"}}", or "{{W "primary key"}}".
+    The index "{{R .Field.SqlTagFirst}}" referenced by "{{R .Field.Definition}}" is not unique / primary key, or it is deferrable.
+    - directive "{{W .Field.TypeShort}}" requires a non-deferrable index of type: "{{W "unique"}}", or "{{W "primary key"}}".
 {{ end }}
 
 {{ define "` + errOnConflictIndexColumnsUnknown.name() + `" -}}
@@ -607,8 +607,8 @@ On Conflict error templates
 
 {{ define "` + errOnConflictIndexColumnsNotUnique.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Column index not unique."}}
-    The columns "{{R .Field.SqlTag}}" referenced by "{{R .Field.Definition}}" match no unique / primary key index.
-    - directive "{{W .Field.TypeShort}}" requires the column(s) that match those of an index of type: "{{W "unique"}}", or "{{W "primary key"}}".
+    The columns "{{R .Field.SqlTag}}" referenced by "{{R .Field.Definition}}" match no unique / primary key index that is not deferrable.
+    - directive "{{W .Field.TypeShort}}" requires the column(s) that match those of a non-deferrable index of type: "{{W "unique"}}", or "{{W "primary key"}}".
 {{ end }}
 
 {{ define "` + errOnConflictConstraintUnknown.name() + `" -}}
@@ -619,8 +619,8 @@ On Conflict error templates
 
 {{ define "` + errOnConflictConstraintNotUnique.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Constraint not unique."}}
-    The constraint "{{R .Field.SqlTagFirst}}" referenced by "{{R .Field.Definition}}" is not unique / primary key.
-    - directive "{{W .Field.TypeShort}}" requires a constraint of type: "{{W "unique"}}", or "{{W "primary key"}}".
+    The constraint "{{R .Field.SqlTagFirst}}" referenced by "{{R .Field.Definition}}" is not unique / primary key, or it is deferrable.
+    - directive "{{W .Field.TypeShort}}" requires a non-deferrable constraint of type: "{{W "unique"}}", or "{{W "primary key"}}".
 {{ end }}
 
 ` // `
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 42dbefb..5ae2843 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1138,6 +1138,8 @@ func arrayTypeOf(c *checker, typ *Type) *Type {
 //	✅ If a gosql.Constraint directive was used in the OnConflict block, the
 //	   constraint specified in the directive's tag MUST be present on the target
 //	   table and it MUST be a unique constraint.
+//	✅ The index, or the constraint, MUST NOT be deferrable, postgres does not
+//	   support those as conflict targets.
 //	✅ If a gosql.Update directive was used in the OnConflict block, the columns
 //	   listed in the directive's tag MUST be present in the target table.
 func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error {
@@ -1167,7 +1169,7 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 			}
 			exists = true
 
-			if !ind.IsUnique && !ind.IsPrimary {
+			if !canArbitrate(ind) {
 				continue
 			}
 			isunique = true
@@ -1194,7 +1196,7 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 		if ind == nil {
 			return c.dbError(dbError{Code: errOnConflictIndexUnknown,
 				Rel: relInfo{Relation: c.rel}}, qs.OnConflict.Index)
-		} else if !ind.IsUnique && !ind.IsPrimary {
+		} else if !canArbitrate(ind) {
 			return c.dbError(dbError{Code: errOnConflictIndexNotUnique,
 				Rel: relInfo{Relation: c.rel}}, qs.OnConflict.Index)
 		}
@@ -1211,7 +1213,7 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 		if con == nil {
 			return c.dbError(dbError{Code: errOnConflictConstraintUnknown,
 				Rel: relInfo{Relation: c.rel}}, qs.OnConflict.Constraint)
-		} else if con.Type != ConstraintTypePKey && con.Type != ConstraintTypeUnique {
+		} else if (con.Type != ConstraintTypePKey && con.Type != ConstraintTypeUnique) || con.IsDeferrable {
 			return c.dbError(dbError{Code: errOnConflictConstraintNotUnique,
 				Rel: relInfo{Relation: c.rel}}, qs.OnConflict.Constraint)
 		}
@@ -2229,6 +2231,11 @@ toploop:
 	return true
 }
 
+// canArbitrate reports whether or not the given index can be used as a conflict target.
+func canArbitrate(ind *Index) bool {
+	return (ind.IsUnique || ind.IsPrimary) && ind.IsImmediate
+}
+
 // parseIndexExpr extracts the index_expression from a CREATE INDEX command.
 // e.g. CREATE INDEX index_name ON table_name USING method_name (index_expression);
 //
-- 
2.43.0


From b475d3fd71c53ad4e1f097343806c1a7d3d9ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:34 +0000
Subject: [PATCH 81/90] fix: fields tagged with a column of a joined relation
 are not those of the target relation

---
 internal/postgres/postgres.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 5ae2843..0dbcee6 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1281,7 +1281,7 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 //	    ✅ The field's type MUST be a type that, together with the column's type,
 //	    has an entry in the compatibility table.
 func typeCheckFieldRead(c *checker, f *analysis.FieldInfo, strict bool) error {
-	col := findRelColumn(c.rel, f.ColIdent.Name)
+	col := findTargetColumn(c, f.ColIdent)
 	if col == nil && strict {
 		return c.dbError(dbError{Code: errColumnUnknown, Col: colInfo{Id: f.ColIdent},
 			Rel: relInfo{Relation: c.rel}}, f)
@@ -1415,7 +1415,7 @@ func typeCheckFieldRead(c *checker, f *analysis.FieldInfo, strict bool) error {
 //	    ✅ The field's type MUST be a type that, together with the column's type,
 //	    has an entry in the compatibility table.
 func typeCheckFieldWrite(c *checker, f *analysis.FieldInfo) (*FieldWrite, error) {
-	col := findRelColumn(c.rel, f.ColIdent.Name)
+	col := findTargetColumn(c, f.ColIdent)
 	if col == nil {
 		return nil, nil
 	}
@@ -1531,7 +1531,7 @@ func typeCheckFieldFilter(c *checker, f *analysis.FieldInfo, strict bool) error
 		return nil
 	}
 
-	col := findRelColumn(c.rel, f.ColIdent.Name)
+	col := findTargetColumn(c, f.ColIdent)
 	if col == nil && strict {
 		// NOTE(mkopriva): at the moment strict is always false so this
 		// branch will not be executed, nevertheless we leave it here in
-- 
2.43.0


From 27d771d2fe07b86a5231bc7d05f2d6a6fba5d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:36 +0000
Subject: [PATCH 82/90] fix: quote the schemas and aliases that have upper case
 letters

---
 internal/generator/generator.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index d57d00f..d1977dc 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -2461,7 +2461,7 @@ func makeRelTypeNode(reltyp analysis.RelType) GO.TypeNode {
 // makeColRef
 func makeColRef(id analysis.ColIdent) SQL.ColumnReference {
 	return SQL.ColumnReference{
-		Qual: quoteReserved(id.Qualifier),
+		Qual: quoteQualifier(id.Qualifier),
 		Name: SQL.Name(id.Name),
 	}
 }
@@ -2473,7 +2473,10 @@ func makeTargetColRef(qs *analysis.QueryStruct, id analysis.ColIdent) SQL.Column
 	if len(id.Qualifier) == 0 && (qs.Join != nil || qs.IsUpdateSlice()) {
 		id.Qualifier = qs.Rel.Id.Alias
 		if len(id.Qualifier) == 0 {
-			id.Qualifier = `"` + qs.Rel.Id.Name + `"`
+			return SQL.ColumnReference{
+				Qual: `"` + qs.Rel.Id.Name + `"`,
+				Name: SQL.Name(id.Name),
+			}
 		}
 	}
 	return makeColRef(id)
@@ -2493,15 +2496,17 @@ func makeQueryColRef(g *generator, id analysis.ColIdent) SQL.ColumnReference {
 func makeRelIdent(id analysis.RelIdent) SQL.Ident {
 	return SQL.Ident{
 		Name:  SQL.Name(id.Name),
-		Qual:  quoteReserved(id.Qualifier),
-		Alias: quoteReserved(id.Alias),
+		Qual:  quoteQualifier(id.Qualifier),
+		Alias: quoteQualifier(id.Alias),
 	}
 }
 
-// quoteReserved encloses the given identifier, of a schema, a relation, or
-// an alias, in double quotes if it is a word reserved by postgres.
-func quoteReserved(name string) string {
-	if _, ok := sqlReservedWords[strings.ToLower(name)]; ok {
+// quoteQualifier encloses the given identifier, of a schema, a relation, or
+// an alias, in double quotes if it is a word reserved by postgres, or if it has
+// upper case letters.
+func quoteQualifier(name string) string {
+	lower := strings.ToLower(name)
+	if _, ok := sqlReservedWords[lower]; ok || lower != name {
 		return `"` + name + `"`
 	}
 	return name
@@ -2549,7 +2554,7 @@ func makeColIdentFormatter(cfg config.Config) (fn func(analysis.ColIdent) string
 // fmtColIdent returns the string representation of the column identifier.
 func fmtColIdent(id analysis.ColIdent) string {
 	if len(id.Qualifier) > 0 {
-		return quoteReserved(id.Qualifier) + "." + id.Name
+		return quoteQualifier(id.Qualifier) + "." + id.Name
 	}
 	return id.Name
 }
@@ -2558,7 +2563,7 @@ func fmtColIdent(id analysis.ColIdent) string {
 // with the name enclosed in double quotes.
 func fmtColIdentQuoted(id analysis.ColIdent) string {
 	if len(id.Qualifier) > 0 {
-		return quoteReserved(id.Qualifier) + `."` + id.Name + `"`
+		return quoteQualifier(id.Qualifier) + `."` + id.Name + `"`
 	}
 	return `"` + id.Name + `"`
 }
-- 
2.43.0


From 7e26bf573bdec43329e5446003124761110110e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:18 +0000
Subject: [PATCH 83/90] fix: updates by primary key need a field for each of
 its columns

---
 internal/postgres/errors.go   |  4 ++--
 internal/postgres/postgres.go | 19 +++++++++++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index aef578c..b4d0bc8 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -466,8 +466,8 @@ Column error templates
 
 {{ define "` + errUpdatePrimaryKeyMissing.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "No primary key to update by."}}
-    The field "{{R .Field.Name}}" of type "{{R .Field.Type}}" has no column that belongs to the primary key of the relation "{{R .Rel.Id.Name}}".
-    - an update without a {{Wb "WHERE"}} condition, a filter, or the "{{W "gosql.All"}}" directive MUST have a field for the primary key.
+    The field "{{R .Field.Name}}" of type "{{R .Field.Type}}" does not have all the columns of the primary key of the relation "{{R .Rel.Id.Name}}".
+    - an update without a {{Wb "WHERE"}} condition, a filter, or the "{{W "gosql.All"}}" directive MUST have a field for each column of the primary key.
 {{ end }}
 
 {{ define "` + errReadColumnsMissing.name() + `" -}}
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 0dbcee6..ac8580a 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -480,7 +480,7 @@ func typeCheckQueryRelField(c *checker, qs *analysis.QueryStruct) error {
 //     ✅ No column MUST be written by more than one field. (Conversely the columns
 //     that are read do not have to be unique.)
 //   - If the query represents an UPDATE whose rows are matched by the primary key:
-//     ✅ There MUST be a field for the primary key, without it there's no way to
+//     ✅ There MUST be a field for each column of the primary key, without it there's no way to
 //     match the data instances with specific rows in the table.
 func typeCheckQueryWriteColumns(c *checker, qs *analysis.QueryStruct) error {
 	if !qs.IsInsertOrUpdate() {
@@ -498,12 +498,27 @@ func typeCheckQueryWriteColumns(c *checker, qs *analysis.QueryStruct) error {
 	if len(c.res.Writes) == 0 {
 		return c.dbError(dbError{Code: errWriteColumnsMissing, Rel: relInfo{Relation: c.rel}}, qs.Rel)
 	}
-	if qs.IsUpdateWithPKeys() && len(c.res.PKeys) == 0 {
+	if qs.IsUpdateWithPKeys() && !hasPrimaryKey(c) {
 		return c.dbError(dbError{Code: errUpdatePrimaryKeyMissing, Rel: relInfo{Relation: c.rel}}, qs.Rel)
 	}
 	return nil
 }
 
+// hasPrimaryKey reports whether or not the target relation has a primary key
+// and there is a field for each of its columns.
+func hasPrimaryKey(c *checker) bool {
+	fields := make(map[string]bool)
+	for _, w := range c.res.PKeys {
+		fields[w.Column.Name] = true
+	}
+	for _, col := range c.rel.Columns {
+		if col.IsPrimary && !fields[col.Name] {
+			return false
+		}
+	}
+	return len(fields) > 0
+}
+
 // typeCheckQueryReadColumns checks the columns that will be read by the query.
 //
 // CHECKLIST:
-- 
2.43.0


From 69aa4e006f972aa5b9e253ea38c15912668671b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:18 +0000
Subject: [PATCH 84/90] fix: included columns of the primary key's index are
 not part of the key

---
 internal/postgres/postgres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index ac8580a..ed0870d 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1978,7 +1978,7 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 	LEFT JOIN pg_index i ON (
 		i.indisprimary
 		AND i.indrelid = a.attrelid
-		AND a.attnum = ANY(i.indkey)
+		AND a.attnum = ANY((i.indkey::int2[])[0:i.indnkeyatts-1])
 	)
 	WHERE a.attrelid = $1
 	AND a.attnum > 0
-- 
2.43.0


From 7460a7ad64338140e280456e65eef1de322d9099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:58 +0000
Subject: [PATCH 85/90] fix: IS DISTINCT FROM requires the equality operator of
 the operands' types

---
 internal/postgres/enums.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/postgres/enums.go b/internal/postgres/enums.go
index b1db050..e927939 100644
--- a/internal/postgres/enums.go
+++ b/internal/postgres/enums.go
@@ -96,7 +96,7 @@ var predicateToOprname = map[analysis.Predicate]string{
 	analysis.IsMatchi:    "~*",
 	analysis.NotMatch:    "!~",
 	analysis.NotMatchi:   "!~*",
-	analysis.IsDistinct:  "<>",
+	analysis.IsDistinct:  "=", // postgres looks for the equality operator, and negates it
 	analysis.NotDistinct: "=",
 	analysis.IsLike:      "~~",
 	analysis.NotLike:     "!~~",
-- 
2.43.0


From 7c1a2f4c38862f8c796af611f01abe5e12f7ab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:20 +0000
Subject: [PATCH 86/90] fix: refuse updates by a primary key that has several
 fields for a column

---
 internal/postgres/errors.go   |  7 +++++++
 internal/postgres/postgres.go | 16 ++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index b4d0bc8..ad0e643 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -50,6 +50,7 @@ const (
 	errColumnQualifierUnknown
 	errColumnComparison
 	errColumnWriteDuplicate
+	errColumnPrimaryKeyDuplicate
 	// predicate errors
 	errPredicateOperandQuantifier
 	errPredicateOperandArray
@@ -453,6 +454,12 @@ Column error templates
     {{end -}}
 {{ end }}
 
+{{ define "` + errColumnPrimaryKeyDuplicate.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Primary key column has more than one field."}}
+    The column "{{R .Col.IdRef}}" of the field "{{R .Field.Name}}" already has another field.
+    - an update without a {{Wb "WHERE"}} condition, a filter, or the "{{W "gosql.All"}}" directive MUST have one field for each column of the primary key.
+{{ end }}
+
 {{ define "` + errColumnWriteDuplicate.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Column written more than once."}}
     The column "{{R .Col.IdRef}}" of the field "{{R .Field.Name}}" is already written by another field.
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index ed0870d..4552780 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -482,6 +482,7 @@ func typeCheckQueryRelField(c *checker, qs *analysis.QueryStruct) error {
 //   - If the query represents an UPDATE whose rows are matched by the primary key:
 //     ✅ There MUST be a field for each column of the primary key, without it there's no way to
 //     match the data instances with specific rows in the table.
+//     ✅ There MUST NOT be more than one field for a column of the primary key.
 func typeCheckQueryWriteColumns(c *checker, qs *analysis.QueryStruct) error {
 	if !qs.IsInsertOrUpdate() {
 		return nil
@@ -498,8 +499,19 @@ func typeCheckQueryWriteColumns(c *checker, qs *analysis.QueryStruct) error {
 	if len(c.res.Writes) == 0 {
 		return c.dbError(dbError{Code: errWriteColumnsMissing, Rel: relInfo{Relation: c.rel}}, qs.Rel)
 	}
-	if qs.IsUpdateWithPKeys() && !hasPrimaryKey(c) {
-		return c.dbError(dbError{Code: errUpdatePrimaryKeyMissing, Rel: relInfo{Relation: c.rel}}, qs.Rel)
+	if qs.IsUpdateWithPKeys() {
+		if !hasPrimaryKey(c) {
+			return c.dbError(dbError{Code: errUpdatePrimaryKeyMissing, Rel: relInfo{Relation: c.rel}}, qs.Rel)
+		}
+
+		seen := make(map[string]bool)
+		for _, w := range c.res.PKeys {
+			if seen[w.Column.Name] {
+				return c.dbError(dbError{Code: errColumnPrimaryKeyDuplicate, Rel: relInfo{Relation: c.rel},
+					Col: colInfo{Id: w.Field.ColIdent, Column: w.Column}}, w.Field)
+			}
+			seen[w.Column.Name] = true
+		}
 	}
 	return nil
 }
-- 
2.43.0


From a43fae3c8d08e76f2f879fa422cf587f73c2f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:25 +0000
Subject: [PATCH 87/90] fix: give domains the operators, elements and zero
 values of their base types

---
 internal/generator/generator.go |  4 ++++
 internal/postgres/postgres.go   | 28 +++++++++++++++++++++++-----
 internal/postgres/types.go      |  6 ++++++
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index d1977dc..498d495 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -709,9 +709,13 @@ func addCoalesceCallExpr(x SQL.ValueExpr, val string, c *postgres.Column) SQL.Va
 	}
 
 	if lit, ok := c.Type.ZeroValueLiteral(); ok {
+		// the zero value need not be one of the domain
 		cast := SQL.CastExpr{}
 		cast.Expr = SQL.Literal{lit}
 		cast.Type = c.Type.NameFmt
+		if c.Type.Base != nil {
+			cast.Type = c.Type.Base.NameFmt
+		}
 
 		coalesce := SQL.Coalesce{}
 		coalesce.A = x
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 4552780..a5fc83c 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -838,8 +838,9 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 	// make the result deterministic prefer the one with the lowest type OID.
 	var comp *compentry
 	var rights []oid.OID
+	var left = cond.Column.Type.Base.OID
 	for key := range c.db.catalog.Operators {
-		if key.Name == oprname && key.Left == cond.Column.Type.OID && key.Right != key.Left {
+		if key.Name == oprname && key.Left == left && key.Right != key.Left {
 			rights = append(rights, key.Right)
 		}
 	}
@@ -1091,6 +1092,11 @@ func typeCheckComparison(c *checker, ltyp *Type, rtyp *Type, pred analysis.Predi
 // that can be applied to operands of the given types, either directly, or after
 // an implicit cast of the operands.
 func hasOperator(c *checker, name string, ltyp, rtyp *Type) bool {
+	// the operators of a domain are those of its base type,
+	// except that postgres does not look for those of enums
+	isdom := ltyp.Type == TypeTypeDomain || rtyp.Type == TypeTypeDomain
+	ltyp, rtyp = ltyp.Base, rtyp.Base
+
 	if _, ok := c.db.catalog.Operators[OpKey{Left: ltyp.OID, Right: rtyp.OID, Name: name}]; ok {
 		return true
 	}
@@ -1099,10 +1105,7 @@ func hasOperator(c *checker, name string, ltyp, rtyp *Type) bool {
 	if ltyp.OID == rtyp.OID {
 		var any oid.OID
 		switch {
-		case ltyp.Type == TypeTypeDomain:
-			// the operators of a domain are those of its base type
-			return true
-		case ltyp.Type == TypeTypeEnum:
+		case ltyp.Type == TypeTypeEnum && !isdom:
 			any = oid.AnyEnum
 		case ltyp.Type == TypeTypeRange:
 			any = oid.AnyRange
@@ -1766,6 +1769,7 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 		, t.typcategory
 		, t.typispreferred
 		, t.typelem
+		, t.typbasetype
 	FROM pg_type t
 	WHERE pg_catalog.pg_type_is_visible(t.oid)
 	AND t.typcategory <> 'P'` //`
@@ -1775,8 +1779,10 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 	}
 	defer rows.Close()
 
+	bases := make(map[*Type]oid.OID)
 	for rows.Next() {
 		typ := new(Type)
+		var base oid.OID
 		err := rows.Scan(
 			&typ.OID,
 			&typ.Name,
@@ -1786,16 +1792,28 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 			&typ.Category,
 			&typ.IsPreferred,
 			&typ.Elem,
+			&base,
 		)
 		if err != nil {
 			return nil, db.dbError(dbError{Code: errCatalogTypeScan, Err: err})
 		}
 		cat.Types[typ.OID] = typ
+		bases[typ] = base
 	}
 	if err := rows.Err(); err != nil {
 		return nil, db.dbError(dbError{Code: errCatalogTypeGet, Err: err})
 	}
 
+	// find the base types of the domains, the elements of
+	// a domain over an array type are those of the array type
+	for _, typ := range cat.Types {
+		typ.Base = typ
+		for cat.Types[bases[typ.Base]] != nil {
+			typ.Base = cat.Types[bases[typ.Base]]
+		}
+		typ.Elem = typ.Base.Elem
+	}
+
 	const selectOperators = `SELECT
 		o.oid
 		, o.oprname
diff --git a/internal/postgres/types.go b/internal/postgres/types.go
index 907ba41..b26ede0 100644
--- a/internal/postgres/types.go
+++ b/internal/postgres/types.go
@@ -254,6 +254,9 @@ type (
 		// If this is an array type then elem identifies the element type
 		// of that array type.
 		Elem oid.OID
+		// If this is a domain then base is the type that the domain
+		// is ultimately based on, otherwise it is the type itself.
+		Base *Type
 	}
 
 	// Index holds the info of a "pg_index" entry that represents a table's index.
@@ -382,6 +385,9 @@ func (t Type) is(oids ...oid.OID) bool {
 }
 
 func (t Type) ZeroValueLiteral() (lit string, ok bool) {
+	if t.Base != nil {
+		t = *t.Base
+	}
 	lit, ok = oid.TypeToZeroValue[t.OID]
 	return lit, ok
 }
-- 
2.43.0


From d714373f434358108e3a39bb61183b885a2e2602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:25 +0000
Subject: [PATCH 88/90] fix: accept comparisons of multiranges

---
 internal/postgres/enums.go     | 13 +++++++------
 internal/postgres/oid/types.go |  1 +
 internal/postgres/postgres.go  |  2 ++
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/postgres/enums.go b/internal/postgres/enums.go
index e927939..e316cf5 100644
--- a/internal/postgres/enums.go
+++ b/internal/postgres/enums.go
@@ -30,12 +30,13 @@ func (k RelKind) isTable() bool {
 type TypeType string
 
 const (
-	TypeTypeBase      TypeType = "b"
-	TypeTypeComposite TypeType = "c"
-	TypeTypeDomain    TypeType = "d"
-	TypeTypeEnum      TypeType = "e"
-	TypeTypePseudo    TypeType = "p"
-	TypeTypeRange     TypeType = "r"
+	TypeTypeBase       TypeType = "b"
+	TypeTypeComposite  TypeType = "c"
+	TypeTypeDomain     TypeType = "d"
+	TypeTypeEnum       TypeType = "e"
+	TypeTypePseudo     TypeType = "p"
+	TypeTypeRange      TypeType = "r"
+	TypeTypeMultirange TypeType = "m"
 )
 
 // postgres type categories
diff --git a/internal/postgres/oid/types.go b/internal/postgres/oid/types.go
index dcce13b..ab6dd67 100644
--- a/internal/postgres/oid/types.go
+++ b/internal/postgres/oid/types.go
@@ -7,6 +7,7 @@ const (
 	AnyArray       OID = 2277
 	AnyEnum        OID = 3500
 	AnyRange       OID = 3831
+	AnyMultirange  OID = 4537
 	Bit            OID = 1560
 	BitArr         OID = 1561
 	Bool           OID = 16
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index a5fc83c..667d493 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1109,6 +1109,8 @@ func hasOperator(c *checker, name string, ltyp, rtyp *Type) bool {
 			any = oid.AnyEnum
 		case ltyp.Type == TypeTypeRange:
 			any = oid.AnyRange
+		case ltyp.Type == TypeTypeMultirange:
+			any = oid.AnyMultirange
 		case ltyp.Category == TypeCategoryArray:
 			// the elements must be comparable as well
 			elem, ename := c.db.catalog.Types[ltyp.Elem], "<"
-- 
2.43.0


From 76ea8e096314ccb5dbdf0ab0f7b523aeae269745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:58 +0000
Subject: [PATCH 89/90] fix: refuse a second directive of a kind, join struct
 or onconflict struct

The last one took the place of those before it without a word.
---
 internal/analysis/analysis.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 7d61f3f..1bcc46a 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1095,6 +1095,9 @@ func analyzeJoinStruct(a *analysis, f *types.Var, tag string) (err error) {
 	} else if fname == "using" && a.query.Kind != QueryKindDelete {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.Join != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 
 	ns, err := typesutil.GetStruct(f)
 	if err != nil {
@@ -1286,6 +1289,9 @@ func analyzeOnConflictStruct(a *analysis, f *types.Var, tag string) (err error)
 	if a.query.Kind != QueryKindInsert {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.OnConflict != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 	ns, err := typesutil.GetStruct(f)
 	if err != nil {
 		return a.error(errBadFieldTypeStruct, f, "", tag, "", "")
@@ -1613,6 +1619,9 @@ func analyzeOrderByDirective(a *analysis, f *types.Var, tag string) (err error)
 	if !a.query.Kind.isSelect() {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.OrderBy != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 
 	tags := tagutil.New(tag)["sql"]
 	if len(tags) == 0 {
@@ -1662,6 +1671,9 @@ func analyzeOverrideDirective(a *analysis, f *types.Var, tag string) (err error)
 	if a.query.Kind != QueryKindInsert {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.Override != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 
 	var kind OverridingKind
 	switch val := tolower(tagutil.New(tag).First("sql")); val {
@@ -1729,6 +1741,9 @@ func analyzeDefaultDirective(a *analysis, f *types.Var, tag string) error {
 	if a.query.Kind != QueryKindInsert && a.query.Kind != QueryKindUpdate {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.Default != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 
 	t := tagutil.New(tag)
 	list, ecode, eval := parseColIdentList(a, t["sql"])
@@ -1747,6 +1762,9 @@ func analyzeForceDirective(a *analysis, f *types.Var, tag string) error {
 		// TODO test
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.Force != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 
 	t := tagutil.New(tag)
 	list, ecode, eval := parseColIdentList(a, t["sql"])
@@ -1773,6 +1791,9 @@ func analyzeOptionalDirective(a *analysis, f *types.Var, tag string) error {
 	if !a.query.Kind.isSelect() {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.Optional != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 
 	t := tagutil.New(tag)
 	list, ecode, eval := parseColIdentList(a, t["sql"])
@@ -1796,6 +1817,9 @@ func analyzeOptionalDirective(a *analysis, f *types.Var, tag string) error {
 // analyzeTextSearchDirective analyzes the given field and its tag as the gosql.TextSearch
 // directive and sets the result to the given analysis' filter.
 func analyzeTextSearchDirective(a *analysis, f *types.Var, tag string) error {
+	if a.filter.TextSearch != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 	tval := strings.TrimSpace(tagutil.New(tag).First("sql"))
 
 	cid, ecode, eval := parseColIdent(a, tval)
-- 
2.43.0


From edef9bf7a24436f97c81b73a0da2dd47a074e066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:49 +0000
Subject: [PATCH 90/90] fix: refuse directives other than Column in where
 structs

They were skipped after their boolean operator had been added, so that
the generated WHERE clause could end up with an operator too many.
---
 internal/analysis/analysis.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 1bcc46a..e0cbf4d 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -846,6 +846,11 @@ stackloop:
 				continue
 			}
 
+			// The only directive that a WhereStruct supports is Column.
+			if fvar.Name() == "_" && sqltag != ">" && !typesutil.IsDirective("Column", fvar.Type()) {
+				return a.error(errIllegalStructDirective, fvar, f.Name(), ftag, "", "")
+			}
+
 			// Analyze the bool operation for any but the first
 			// item in a WhereStruct. Fail if a value was provided
 			// but it is not "or" nor "and".
@@ -885,10 +890,6 @@ stackloop:
 
 			// Analyze directive where item.
 			if fvar.Name() == "_" {
-				if !typesutil.IsDirective("Column", fvar.Type()) {
-					continue
-				}
-
 				// If the expression in a gosql.Column tag's value
 				// contains a right-hand-side, it is expected to be
 				// either another column or a value-literal to which
-- 
2.43.0

