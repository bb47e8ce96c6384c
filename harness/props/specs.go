package props

import (
	"bytes"
	"database/sql"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"net"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- helpers

func qlit(s string) string {
	if strings.ContainsRune(s, '\\') {
		return "E'" + strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), "'", "''") + "'"
	}
	return "'" + strings.ReplaceAll(s, "'", "''") + "'"
}

// genLen draws the length of a list, short most of the time.
func genLen(t *rapid.T, label string) int {
	return rapid.SampledFrom([]int{0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 13}).Draw(t, label)
}

// genSlice draws a slice of type rt (nil now and then).
func genSlice(t *rapid.T, rt reflect.Type, elem func(t *rapid.T, rt reflect.Type) reflect.Value) reflect.Value {
	if rapid.IntRange(0, 19).Draw(t, "nil") == 19 {
		return reflect.Zero(rt)
	}
	n := genLen(t, "len")
	v := reflect.MakeSlice(rt, n, n)
	for i := 0; i < n; i++ {
		v.Index(i).Set(elem(t, rt.Elem()))
	}
	return v
}

// arrayOf makes the codec of an array type out of that of the element.
func arrayOf(e codec) codec {
	return codec{
		SQL: e.SQL + "[]",
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value { return genSlice(t, rt, e.Gen) },
		Lit: func(v reflect.Value) string {
			if v.IsNil() {
				return "NULL::" + e.SQL + "[]"
			}
			var els []string
			for i := 0; i < v.Len(); i++ {
				l := e.Lit(v.Index(i))
				if l == "" {
					return ""
				}
				els = append(els, "("+l+")::"+e.SQL)
			}
			return "ARRAY[" + strings.Join(els, ",") + "]::" + e.SQL + "[]"
		},
		Eq: func(a, b reflect.Value) bool {
			if a.IsNil() || b.IsNil() {
				return a.IsNil() == b.IsNil()
			}
			if a.Len() != b.Len() {
				return false
			}
			for i := 0; i < a.Len(); i++ {
				if e.Eq != nil {
					if !e.Eq(a.Index(i), b.Index(i)) {
						return false
					}
				} else if !deepEq(a.Index(i), b.Index(i)) {
					return false
				}
			}
			return true
		},
		Cmp: arrCmp(e),
	}
}

func arrCmp(e codec) string {
	switch e.Cmp {
	case "":
		return ""
	case textCmp(e.SQL):
		return textCmp(e.SQL + "[]")
	case jsonbCmp(e.SQL):
		return jsonbCmp(e.SQL)
	}
	panic("no array comparison for " + e.SQL)
}

// textCmp compares through text, for types with no (exact) equality operator.
func textCmp(typ string) string {
	return "($1::" + typ + ")::text IS NOT DISTINCT FROM (%s)::text"
}

func jsonbCmp(typ string) string { return "" }

// ---------------------------------------------------------------- numbers

// numBounds are the integers of a PostgreSQL type.
var numBounds = map[string][2]int64{
	"int2": {math.MinInt16, math.MaxInt16},
	"int4": {math.MinInt32, math.MaxInt32},
	"int8": {math.MinInt64, math.MaxInt64},
}

// genInt64In draws an integer of [lo,hi] with emphasis on the boundaries.
func genInt64In(t *rapid.T, lo, hi int64, label string) int64 {
	switch rapid.IntRange(0, 5).Draw(t, label+"-class") {
	case 0:
		return rapid.Int64Range(lo, hi).Draw(t, label)
	case 1:
		return rapid.SampledFrom([]int64{lo, hi, lo + 1, hi - 1}).Draw(t, label)
	case 2:
		// a power of ten or of two, give or take one
		var p int64 = 1
		if rapid.Bool().Draw(t, label+"-ten") {
			for i := rapid.IntRange(0, 18).Draw(t, label+"-exp"); i > 0; i-- {
				p *= 10
			}
		} else {
			p <<= rapid.IntRange(0, 62).Draw(t, label+"-exp")
		}
		p += int64(rapid.IntRange(-1, 1).Draw(t, label+"-off"))
		if lo < 0 && rapid.Bool().Draw(t, label+"-neg") {
			p = -p
		}
		if p < lo || p > hi {
			return lo
		}
		return p
	}
	a, b := int64(-20), int64(120)
	if a < lo {
		a = lo
	}
	if b > hi {
		b = hi
	}
	return rapid.Int64Range(a, b).Draw(t, label)
}

func kindBounds(rt reflect.Type) (lo, hi int64) {
	switch rt.Kind() {
	case reflect.Int8:
		return math.MinInt8, math.MaxInt8
	case reflect.Int16:
		return math.MinInt16, math.MaxInt16
	case reflect.Int32:
		return math.MinInt32, math.MaxInt32
	case reflect.Uint8:
		return 0, math.MaxUint8
	case reflect.Uint16:
		return 0, math.MaxUint16
	case reflect.Uint32:
		return 0, math.MaxUint32
	case reflect.Uint, reflect.Uint64:
		return 0, math.MaxInt64
	}
	return math.MinInt64, math.MaxInt64
}

// genNum draws a number of Go type rt that the PostgreSQL type pg can hold exactly.
func genNum(t *rapid.T, rt reflect.Type, pg string) reflect.Value {
	v := reflect.New(rt).Elem()
	isFloatGo := rt.Kind() == reflect.Float32 || rt.Kind() == reflect.Float64
	if b, ok := numBounds[pg]; ok {
		lo, hi := kindBounds(rt)
		lo, hi = max(lo, b[0]), min(hi, b[1])
		n := genInt64In(t, lo, hi, "n")
		if isFloatGo {
			f := float64(n)
			if rt.Kind() == reflect.Float32 {
				f = float64(float32(n))
			}
			// rounding up may leave the range of the type
			if f >= 9223372036854775807 || f < float64(lo) || int64(f) > hi {
				f = float64(int64(n) >> 40)
			}
			v.SetFloat(f)
			return v
		}
		if rt.Kind() >= reflect.Uint && rt.Kind() <= reflect.Uint64 {
			v.SetUint(uint64(n))
		} else {
			v.SetInt(n)
		}
		return v
	}
	if isFloatGo {
		v.SetFloat(genFloat(t, rt.Kind() == reflect.Float32 || pg == "float4", true))
		return v
	}
	lo, hi := kindBounds(rt)
	n := genInt64In(t, lo, hi, "n")
	if pg == "numeric" && (rt.Kind() == reflect.Uint || rt.Kind() == reflect.Uint64) && rapid.Bool().Draw(t, "top") {
		v.SetUint(uint64(n) | 1<<63)
		return v
	}
	if rt.Kind() >= reflect.Uint && rt.Kind() <= reflect.Uint64 {
		v.SetUint(uint64(n))
	} else {
		v.SetInt(n)
	}
	return v
}

// genFloat draws a floating point number; the special ones only if asked for.
func genFloat(t *rapid.T, single, special bool) float64 {
	round := func(f float64) float64 {
		if single {
			return float64(float32(f))
		}
		return f
	}
	switch rapid.IntRange(0, 7).Draw(t, "fclass") {
	case 0:
		if special {
			return rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}).Draw(t, "special")
		}
	case 1:
		if single {
			f := math.Float32frombits(rapid.Uint32().Draw(t, "bits"))
			if !math.IsNaN(float64(f)) && !math.IsInf(float64(f), 0) && math.Abs(float64(f)) > 1e-37 {
				return float64(f)
			}
		} else {
			f := math.Float64frombits(rapid.Uint64().Draw(t, "bits"))
			if !math.IsNaN(f) && !math.IsInf(f, 0) && math.Abs(f) > 1e-300 {
				return f
			}
		}
	case 2, 3:
		m := float64(rapid.Int64Range(-99999, 99999).Draw(t, "mant"))
		return round(m * math.Pow(10, float64(rapid.IntRange(-12, 15).Draw(t, "exp"))))
	}
	return round(float64(rapid.IntRange(-400, 400).Draw(t, "small")) / 8)
}

// noLit in a literal tells that there's no single value to compare with.
const noLit = "\x00"

func numLit(v reflect.Value, pg string) string {
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		bits := 64
		if v.Kind() == reflect.Float32 || pg == "float4" {
			bits = 32
		}
		s := strconv.FormatFloat(f, 'e', -1, bits)
		if d, _ := strconv.ParseFloat(s, 64); v.Kind() == reflect.Float32 && pg != "float4" && d != f {
			return noLit // both the exact and the shortest decimal of the float32 are fine
		}
		switch {
		case math.IsNaN(f):
			s = "NaN"
		case math.IsInf(f, 1):
			s = "Infinity"
		case math.IsInf(f, -1):
			s = "-Infinity"
		}
		if _, ok := numBounds[pg]; ok {
			s = strconv.FormatInt(int64(f), 10)
		}
		return "'" + s + "'::" + pg
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return "'" + strconv.FormatInt(v.Int(), 10) + "'::" + pg
	}
	return "'" + strconv.FormatUint(v.Uint(), 10) + "'::" + pg
}

// numEq compares numbers at the precision of the less precise side.
func numEq(pg string) func(a, b reflect.Value) bool {
	return func(a, b reflect.Value) bool {
		if a.Kind() == reflect.Float64 && pg == "float4" {
			x, y := float32(a.Float()), float32(b.Float())
			return x == y || (x != x && y != y)
		}
		return deepEq(a, b)
	}
}

func numElem(pg string) codec {
	return codec{
		SQL: pg,
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value { return genNum(t, rt, pg) },
		Lit: func(v reflect.Value) string { return numLit(v, pg) },
		Eq:  numEq(pg),
	}
}

func boolElem() codec {
	return codec{
		SQL: "bool",
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			return reflect.ValueOf(rapid.Bool().Draw(t, "b"))
		},
		Lit: func(v reflect.Value) string { return strconv.FormatBool(v.Bool()) },
	}
}

func int2vector() codec {
	return codec{
		SQL: "int2vector",
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			return genSlice(t, rt, func(t *rapid.T, rt reflect.Type) reflect.Value { return genNum(t, rt, "int2") })
		},
		Lit: func(v reflect.Value) string {
			if v.IsNil() {
				return "NULL::int2vector"
			}
			var els []string
			for i := 0; i < v.Len(); i++ {
				e := v.Index(i)
				switch {
				case e.CanInt():
					els = append(els, strconv.FormatInt(e.Int(), 10))
				case e.CanUint():
					els = append(els, strconv.FormatUint(e.Uint(), 10))
				default:
					els = append(els, strconv.FormatInt(int64(e.Float()), 10))
				}
			}
			return "'" + strings.Join(els, " ") + "'::int2vector"
		},
	}
}

// ---------------------------------------------------------------- ranges

// rangeOf makes the codec for Go's [2]T of the bounds [lo,hi).
func rangeOf(pg, sub string) codec {
	return codec{
		SQL: pg,
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			v := reflect.New(rt).Elem()
			for try := 0; ; try++ {
				a, b := genRangeNum(t, rt.Elem(), sub), genRangeNum(t, rt.Elem(), sub)
				c := numCompare(a, b)
				if c == 0 {
					if try > 3 {
						z := reflect.New(rt.Elem()).Elem()
						o := reflect.New(rt.Elem()).Elem()
						o.Set(reflect.ValueOf(1).Convert(rt.Elem()))
						a, b, c = z, o, -1
					} else {
						continue
					}
				}
				if c > 0 {
					a, b = b, a
				}
				v.Index(0).Set(a)
				v.Index(1).Set(b)
				return v
			}
		},
		Lit: func(v reflect.Value) string {
			return fmt.Sprintf("%s(%s,%s,'[)')", pg, numLit(v.Index(0), sub), numLit(v.Index(1), sub))
		},
	}
}

func genRangeNum(t *rapid.T, rt reflect.Type, sub string) reflect.Value {
	for {
		v := genNum(t, rt, sub)
		if v.CanFloat() && (math.IsNaN(v.Float()) || math.IsInf(v.Float(), 0)) {
			v.SetFloat(1.5)
		}
		return v
	}
}

func numCompare(a, b reflect.Value) int {
	switch {
	case a.CanInt():
		x, y := a.Int(), b.Int()
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
	case a.CanUint():
		x, y := a.Uint(), b.Uint()
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
	default:
		x, y := a.Float(), b.Float()
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
	}
	return 0
}

// ---------------------------------------------------------------- text

var textRunes = []rune{'a', 'b', 'N', 'U', 'L', 'Z', '0', '9', ' ', ',', '"', '\'', '\\', '{', '}', '(', ')', '[', ']', '=', '>', '<', '&', '|', ':', ';', '.', '-', '_', '%', '$', '\n', '\t', '\r', '\f', '\v', '\a', '\b', 0x1b, 0x7f, 'é', 'ß', '日', '🙂'}

// genText draws text that PostgreSQL can store: valid UTF-8 without NUL.
func genText(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 9).Draw(t, label+"-class") {
	case 0:
		return rapid.SampledFrom([]string{"", "NULL", "null", "Null", "NULLs", "NIL", "N", "{}", `""`, `\`, `\\`, `"`, ",", " ", "  x ", "a,b", `{"a"}`, `a"b`, `a\"b`, "=>", `"=>"`, "''", "t", "empty", `\x41`, `\N`}).Draw(t, label)
	case 1, 2:
		s := rapid.StringN(0, 8, -1).Draw(t, label)
		return strings.ReplaceAll(strings.ToValidUTF8(s, "?"), "\x00", "0")
	case 3, 4:
		return rapid.StringMatching(`[a-zA-Z0-9]{0,8}`).Draw(t, label)
	}
	return rapid.StringOfN(rapid.SampledFrom(textRunes), 0, 8, -1).Draw(t, label)
}

func textElem(sql string) codec {
	return codec{
		SQL: sql,
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			if rt.Kind() == reflect.Slice { // []byte
				if rapid.IntRange(0, 9).Draw(t, "null") == 9 {
					return reflect.Zero(rt)
				}
				return reflect.ValueOf([]byte(genText(t, "s")))
			}
			return reflect.ValueOf(genText(t, "s"))
		},
		Lit: func(v reflect.Value) string {
			if v.Kind() == reflect.Slice {
				if v.IsNil() {
					return "NULL"
				}
				return qlit(string(v.Bytes()))
			}
			return qlit(v.String())
		},
	}
}

var charRunes = []rune("azNUL059 ,\"'\\{}()[]=><&|:;.-_%$\n\t\r\f\v\a\b\x01\x1b\x7f")

func genCharRune(t *rapid.T, ascii bool) rune {
	switch rapid.IntRange(0, 3).Draw(t, "rclass") {
	case 0:
		return rune(rapid.IntRange(1, 127).Draw(t, "ascii"))
	case 1:
		if !ascii {
			r := rapid.Rune().Draw(t, "rune")
			if r == 0 || !utf8.ValidRune(r) {
				r = 'é'
			}
			return r
		}
	}
	return rapid.SampledFrom(charRunes).Draw(t, "r")
}

// charScalar is "char" (ascii only) or char(1), from a byte or a rune.
func charScalar(sqlt string, ascii bool) codec {
	return codec{
		SQL: sqlt,
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			r := genCharRune(t, ascii || rt.Kind() == reflect.Uint8)
			return reflect.ValueOf(r).Convert(rt)
		},
		Lit: func(v reflect.Value) string {
			if v.CanUint() {
				return qlit(string(rune(v.Uint())))
			}
			return qlit(string(rune(v.Int())))
		},
	}
}

func charArray(sqlt string, ascii bool) codec {
	lits := func(rs []string) string {
		var els []string
		for _, r := range rs {
			els = append(els, qlit(r)+"::"+sqlt)
		}
		return "ARRAY[" + strings.Join(els, ",") + "]::" + sqlt + "[]"
	}
	return codec{
		SQL: sqlt + "[]",
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			if rt.Kind() == reflect.Slice && rapid.IntRange(0, 19).Draw(t, "nil") == 19 {
				return reflect.Zero(rt)
			}
			n := genLen(t, "len")
			var rs []rune
			bytesOnly := rt.Kind() == reflect.Slice && rt.Elem().Kind() == reflect.Uint8
			for i := 0; i < n; i++ {
				rs = append(rs, genCharRune(t, ascii || bytesOnly))
			}
			switch {
			case rt.Kind() == reflect.String:
				return reflect.ValueOf(string(rs))
			case bytesOnly:
				return reflect.ValueOf(append([]byte{}, string(rs)...))
			case rt.Elem().Kind() == reflect.Int32:
				return reflect.ValueOf(append([]rune{}, rs...))
			}
			ss := []string{}
			for _, r := range rs {
				if ascii && rapid.IntRange(0, 9).Draw(t, "empty") == 9 {
					ss = append(ss, "")
				}
				ss = append(ss, string(r))
			}
			return reflect.ValueOf(ss)
		},
		Lit: func(v reflect.Value) string {
			var ss []string
			switch x := v.Interface().(type) {
			case string:
				for _, r := range x {
					ss = append(ss, string(r))
				}
			case []byte:
				if x == nil {
					return "NULL"
				}
				for _, r := range x {
					ss = append(ss, string(rune(r)))
				}
			case []rune:
				if x == nil {
					return "NULL"
				}
				for _, r := range x {
					ss = append(ss, string(r))
				}
			case []string:
				if x == nil {
					return "NULL"
				}
				ss = x
			}
			return lits(ss)
		},
	}
}

func byteaElem() codec {
	return codec{
		SQL: "bytea",
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			b := rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t, "bytes")
			if b == nil {
				b = []byte{}
			}
			return reflect.ValueOf(b).Convert(rt)
		},
		Lit: func(v reflect.Value) string {
			b := []byte(nil)
			if v.Kind() == reflect.String {
				b = []byte(v.String())
			} else {
				b = v.Bytes()
			}
			return `'\x` + hex.EncodeToString(b) + `'::bytea`
		},
	}
}

func uuidElem() codec {
	canon := func(b []byte) string {
		return fmt.Sprintf("%x-%x-%x-%x-%x", b[0:4], b[4:6], b[6:8], b[8:10], b[10:16])
	}
	return codec{
		SQL: "uuid",
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			b := rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "uuid")
			switch rt.Kind() {
			case reflect.Array:
				v := reflect.New(rt).Elem()
				reflect.Copy(v, reflect.ValueOf(b))
				return v
			case reflect.String:
				return reflect.ValueOf(canon(b))
			}
			if rapid.IntRange(0, 9).Draw(t, "null") == 9 {
				return reflect.Zero(rt)
			}
			return reflect.ValueOf([]byte(canon(b)))
		},
		Lit: func(v reflect.Value) string {
			switch v.Kind() {
			case reflect.Array:
				b := make([]byte, 16)
				reflect.Copy(reflect.ValueOf(b), v)
				return "'" + canon(b) + "'::uuid"
			case reflect.String:
				return "'" + v.String() + "'::uuid"
			}
			if v.IsNil() {
				return "NULL"
			}
			return "'" + string(v.Bytes()) + "'::uuid"
		},
	}
}

// genJSONValue draws a JSON value (as Go data).
func genJSONValue(t *rapid.T, depth int) any {
	k := rapid.IntRange(0, 6).Draw(t, "jkind")
	if depth == 0 && k > 4 {
		k = 3
	}
	switch k {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(t, "jb")
	case 2:
		return float64(rapid.IntRange(-1000000, 1000000).Draw(t, "jn")) / 16
	case 3, 4:
		return genText(t, "js")
	case 5:
		a := []any{}
		for i := rapid.IntRange(0, 3).Draw(t, "jlen"); i > 0; i-- {
			a = append(a, genJSONValue(t, depth-1))
		}
		return a
	}
	m := map[string]any{}
	for i := rapid.IntRange(0, 3).Draw(t, "jlen"); i > 0; i-- {
		m[genText(t, "jk")] = genJSONValue(t, depth-1)
	}
	return m
}

func jsonElem(sqlt string) codec {
	c := codec{
		SQL: sqlt,
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			if rapid.IntRange(0, 9).Draw(t, "null") == 9 {
				return reflect.Zero(rt)
			}
			b, err := json.Marshal(genJSONValue(t, 2))
			if err != nil {
				panic(err)
			}
			return reflect.ValueOf(b)
		},
		Lit: func(v reflect.Value) string {
			if v.IsNil() {
				return "NULL"
			}
			return qlit(string(v.Bytes()))
		},
	}
	if sqlt == "json" {
		c.Cmp = textCmp("json")
	} else {
		c.Eq = func(a, b reflect.Value) bool {
			if a.IsNil() || b.IsNil() {
				return a.IsNil() == b.IsNil()
			}
			var x, y any
			return json.Unmarshal(a.Bytes(), &x) == nil && json.Unmarshal(b.Bytes(), &y) == nil && reflect.DeepEqual(x, y)
		}
	}
	return c
}

func xmlElem() codec {
	return codec{
		SQL: "xml",
		Cmp: textCmp("xml"),
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			if rapid.IntRange(0, 9).Draw(t, "null") == 9 {
				return reflect.Zero(rt)
			}
			s := rapid.StringOfN(rapid.SampledFrom([]rune{'a', 'N', ' ', ',', '"', '\'', '\\', '{', '}', '\n', '\t', 'é', ';'}), 0, 6, -1).Draw(t, "x")
			attr := rapid.SampledFrom([]string{"", ` k="v"`, ` k="a,b" q='"'`, ` k="\"`}).Draw(t, "attr")
			return reflect.ValueOf([]byte("<foo" + attr + ">" + s + "</foo>"))
		},
		Lit: func(v reflect.Value) string {
			if v.IsNil() {
				return "NULL"
			}
			return qlit(string(v.Bytes()))
		},
	}
}

// ---------------------------------------------------------------- hstore

func hstoreElem() codec {
	return codec{
		SQL: "hstore",
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			if rapid.IntRange(0, 14).Draw(t, "nil") == 14 {
				return reflect.Zero(rt)
			}
			m := reflect.MakeMap(rt)
			for i := genLen(t, "len"); i > 0; i-- {
				k := reflect.ValueOf(genText(t, "k"))
				s := genText(t, "v")
				var v reflect.Value
				null := rapid.IntRange(0, 4).Draw(t, "vnull") == 4
				switch rt.Elem().Kind() {
				case reflect.String:
					v = reflect.ValueOf(s)
				case reflect.Pointer:
					if null {
						v = reflect.Zero(rt.Elem())
					} else {
						v = reflect.ValueOf(&s)
					}
				default:
					if null {
						v = reflect.ValueOf(sql.NullString{})
					} else {
						v = reflect.ValueOf(sql.NullString{String: s, Valid: true})
					}
				}
				m.SetMapIndex(k, v)
			}
			return m
		},
		Lit: func(v reflect.Value) string {
			if v.IsNil() {
				return "NULL::hstore"
			}
			var ks, vs []string
			for _, k := range v.MapKeys() {
				ks = append(ks, qlit(k.String()))
				switch x := v.MapIndex(k).Interface().(type) {
				case string:
					vs = append(vs, qlit(x))
				case *string:
					if x == nil {
						vs = append(vs, "NULL")
					} else {
						vs = append(vs, qlit(*x))
					}
				case sql.NullString:
					if !x.Valid {
						vs = append(vs, "NULL")
					} else {
						vs = append(vs, qlit(x.String))
					}
				}
			}
			return "hstore(ARRAY[" + strings.Join(ks, ",") + "]::text[], ARRAY[" + strings.Join(vs, ",") + "]::text[])"
		},
		NonTrivial: func(v reflect.Value) bool { return v.Len() > 0 },
	}
}

// ---------------------------------------------------------------- tsvector

// genLexeme draws a lexeme; words only, or anything that has to be quoted.
func genLexeme(t *rapid.T, odd bool) string {
	if odd && rapid.IntRange(0, 2).Draw(t, "lclass") == 0 {
		s := rapid.StringOfN(rapid.SampledFrom([]rune{'a', 'b', ' ', ',', '"', '\'', '\\', '{', '}', 'N', 'é', ':', '&', '('}), 1, 5, -1).Draw(t, "lex")
		return s
	}
	return rapid.StringMatching(`[a-z][a-z0-9]{0,6}`).Draw(t, "lex")
}

func lexOut(s string) string {
	return "'" + strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), "'", "''") + "'"
}

// tsvector elements are written in the form in which PostgreSQL prints them.
func tsvectorElem() codec {
	toStrings := func(v reflect.Value) (ss []string) {
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			if e.Kind() == reflect.String {
				ss = append(ss, e.String())
			} else {
				ss = append(ss, string(e.Bytes()))
			}
		}
		return ss
	}
	return codec{
		SQL: "tsvector",
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			if rapid.IntRange(0, 14).Draw(t, "nil") == 14 {
				return reflect.Zero(rt)
			}
			set := map[string]bool{}
			for i := genLen(t, "len"); i > 0; i-- {
				set[genLexeme(t, true)] = true
			}
			var ss []string
			for s := range set {
				ss = append(ss, s)
			}
			sort.Strings(ss)
			withPos := rapid.Bool().Draw(t, "pos")
			v := reflect.MakeSlice(rt, 0, 0)
			for i, s := range ss {
				out := lexOut(s)
				if withPos {
					out += fmt.Sprintf(":%d", i+1)
					if i%3 == 1 {
						out += "A," + fmt.Sprint(i+20)
					}
				}
				v = reflect.Append(v, reflect.ValueOf(out).Convert(rt.Elem()))
			}
			return v
		},
		Lit: func(v reflect.Value) string {
			if v.IsNil() {
				return "NULL::tsvector"
			}
			// each element on its own, concatenated as tsvectors when there are no positions
			ss := toStrings(v)
			if len(ss) == 0 {
				return "''::tsvector"
			}
			var parts []string
			for _, s := range ss {
				if !strings.HasSuffix(s, "'") {
					return "" // with positions || would shift them
				}
				parts = append(parts, qlit(s)+"::tsvector")
			}
			return strings.Join(parts, " || ")
		},
	}
}

func tsqueryElem() codec {
	var gen func(t *rapid.T, depth int) string
	gen = func(t *rapid.T, depth int) string {
		k := rapid.IntRange(0, 4).Draw(t, "qk")
		if depth == 0 || k < 2 {
			s := lexOut(genLexeme(t, true))
			return s + rapid.SampledFrom([]string{"", "", ":*", ":A"}).Draw(t, "w")
		}
		if k == 2 {
			return "!" + lexOut(genLexeme(t, true))
		}
		op := rapid.SampledFrom([]string{" & ", " | ", " <-> "}).Draw(t, "op")
		return gen(t, 0) + op + gen(t, 0)
	}
	return codec{
		SQL: "tsquery",
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			s := gen(t, 1)
			if rt.Kind() == reflect.Slice && rapid.IntRange(0, 9).Draw(t, "null") == 9 {
				return reflect.Zero(rt)
			}
			return reflect.ValueOf(s).Convert(rt)
		},
		Lit: func(v reflect.Value) string {
			if v.Kind() == reflect.Slice {
				if v.IsNil() {
					return "NULL"
				}
				return qlit(string(v.Bytes())) + "::tsquery"
			}
			return qlit(v.String()) + "::tsquery"
		},
	}
}

// ---------------------------------------------------------------- geometry

func flit(f float64) string { return "'" + strconv.FormatFloat(f, 'e', -1, 64) + "'::float8" }

func genCoord(t *rapid.T) float64 { return genFloat(t, false, false) }

func genPoint(t *rapid.T) [2]float64 { return [2]float64{genCoord(t), genCoord(t)} }

func pointStr(p [2]float64) string {
	return "(" + strconv.FormatFloat(p[0], 'e', -1, 64) + "," + strconv.FormatFloat(p[1], 'e', -1, 64) + ")"
}

func pointElem() codec {
	return codec{
		SQL: "point", Cmp: textCmp("point"),
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value { return reflect.ValueOf(genPoint(t)) },
		Lit: func(v reflect.Value) string {
			p := v.Interface().([2]float64)
			return "point(" + flit(p[0]) + "," + flit(p[1]) + ")"
		},
	}
}

func lsegElem() codec {
	return codec{
		SQL: "lseg", Cmp: textCmp("lseg"),
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			return reflect.ValueOf([2][2]float64{genPoint(t), genPoint(t)})
		},
		Lit: func(v reflect.Value) string {
			p := v.Interface().([2][2]float64)
			return "lseg(point '" + pointStr(p[0]) + "', point '" + pointStr(p[1]) + "')"
		},
	}
}

func boxElem() codec {
	return codec{
		SQL: "box", Cmp: textCmp("box"),
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			a, b := genPoint(t), genPoint(t)
			for i := range a { // upper right corner first, as PostgreSQL orders them
				if a[i] < b[i] {
					a[i], b[i] = b[i], a[i]
				}
			}
			return reflect.ValueOf([2][2]float64{a, b})
		},
		Lit: func(v reflect.Value) string {
			p := v.Interface().([2][2]float64)
			return "box(point '" + pointStr(p[0]) + "', point '" + pointStr(p[1]) + "')"
		},
	}
}

func lineElem() codec {
	return codec{
		SQL: "line", Cmp: textCmp("line"),
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			l := [3]float64{genCoord(t), genCoord(t), genCoord(t)}
			if math.Abs(l[0]) < 1e-5 && math.Abs(l[1]) < 1e-5 {
				l[0] = 1
			}
			return reflect.ValueOf(l)
		},
		Lit: func(v reflect.Value) string {
			l := v.Interface().([3]float64)
			var s []string
			for _, f := range l {
				s = append(s, strconv.FormatFloat(f, 'e', -1, 64))
			}
			return "line '{" + strings.Join(s, ",") + "}'"
		},
	}
}

func pointListCodec(name, open, close string) codec {
	return codec{
		SQL: name, Cmp: textCmp(name),
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			if rapid.IntRange(0, 11).Draw(t, "nil") == 11 {
				return reflect.Zero(rt)
			}
			var ps [][2]float64
			for i := rapid.IntRange(1, 5).Draw(t, "len"); i > 0; i-- {
				ps = append(ps, genPoint(t))
			}
			return reflect.ValueOf(ps)
		},
		Lit: func(v reflect.Value) string {
			if v.IsNil() {
				return "NULL::" + name
			}
			var s []string
			for _, p := range v.Interface().([][2]float64) {
				s = append(s, pointStr(p))
			}
			return name + " '" + open + strings.Join(s, ",") + close + "'"
		},
	}
}

// ---------------------------------------------------------------- bits

func bitElem() codec { // bit(1)
	return codec{
		SQL: "bit(1)",
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			b := rapid.Bool().Draw(t, "bit")
			if rt.Kind() == reflect.Bool {
				return reflect.ValueOf(b)
			}
			n := 0
			if b {
				n = 1
			}
			return reflect.ValueOf(n).Convert(rt)
		},
		Lit: func(v reflect.Value) string {
			if (v.Kind() == reflect.Bool && v.Bool()) || (v.CanUint() && v.Uint() == 1) {
				return "B'1'"
			}
			return "B'0'"
		},
	}
}

// varbitElem handles []bool, []uint8, string and int64.
func varbitElem(asElem bool) codec {
	bits := func(v reflect.Value) string {
		switch x := v.Interface().(type) {
		case string:
			return x
		case int64:
			return strconv.FormatInt(x, 2)
		case []bool:
			s := ""
			for _, b := range x {
				if b {
					s += "1"
				} else {
					s += "0"
				}
			}
			return s
		case []uint8:
			s := ""
			for _, b := range x {
				s += strconv.Itoa(int(b))
			}
			return s
		}
		panic("varbit")
	}
	return codec{
		SQL: "varbit",
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			if rt.Kind() == reflect.Int64 {
				return reflect.ValueOf(genInt64In(t, 0, math.MaxInt64, "n"))
			}
			if rt.Kind() == reflect.Slice && rapid.IntRange(0, 9).Draw(t, "nil") == 9 {
				return reflect.Zero(rt)
			}
			n := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 7, 8, 9, 31, 64, 65}).Draw(t, "len")
			s := rapid.StringOfN(rapid.SampledFrom([]rune{'0', '1'}), n, n, -1).Draw(t, "bits")
			switch {
			case rt.Kind() == reflect.String:
				return reflect.ValueOf(s)
			case rt.Elem().Kind() == reflect.Bool:
				out := []bool{}
				for _, c := range s {
					out = append(out, c == '1')
				}
				return reflect.ValueOf(out)
			}
			out := []uint8{}
			for _, c := range s {
				out = append(out, uint8(c-'0'))
			}
			return reflect.ValueOf(out)
		},
		Lit: func(v reflect.Value) string {
			if v.Kind() == reflect.Slice && v.IsNil() {
				return "NULL::varbit"
			}
			return "B'" + bits(v) + "'::varbit"
		},
	}
}

// ---------------------------------------------------------------- network, money

func genIP(t *rapid.T) net.IP {
	if rapid.Bool().Draw(t, "v4") {
		b := rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "ip")
		return net.IPv4(b[0], b[1], b[2], b[3])
	}
	b := rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "ip6")
	if rapid.Bool().Draw(t, "zeros") {
		for i := 4; i < 12; i++ {
			b[i] = 0
		}
	}
	b[0] = 0x20 // not an IPv4-mapped address
	return net.IP(b)
}

// netElem: networks; an inet can also have host bits, and it can be written without
// a netmask, which stands for the longest one.
func netElem(sqlt string) codec {
	c := codec{
		SQL: sqlt,
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			ip := genIP(t)
			bits := 128
			if p := ip.To4(); p != nil {
				ip, bits = p, 32
			}
			ones := rapid.IntRange(0, bits).Draw(t, "ones")
			if rapid.IntRange(0, 3).Draw(t, "full") == 0 {
				ones = bits
			}
			m := net.CIDRMask(ones, bits)
			if sqlt == "cidr" || rapid.Bool().Draw(t, "network") {
				ip = ip.Mask(m)
			}
			if sqlt == "inet" && ones == bits && rapid.Bool().Draw(t, "nomask") {
				m = nil
			}
			return reflect.ValueOf(net.IPNet{IP: ip, Mask: m})
		},
		Lit: func(v reflect.Value) string {
			n := v.Interface().(net.IPNet)
			ones, bits := n.Mask.Size()
			if n.Mask == nil {
				ones, bits = len(n.IP)*8, len(n.IP)*8
			}
			if sqlt == "inet" && ones == bits {
				return fmt.Sprintf("'%s'::inet", n.IP)
			}
			return fmt.Sprintf("'%s/%d'::%s", n.IP, ones, sqlt)
		},
	}
	if sqlt == "inet" {
		c.Eq = inetEq
	}
	return c
}

// inetEq compares networks, the longest netmask being the same as none.
func inetEq(a, b reflect.Value) bool {
	if a.Type() != ipnetType {
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !inetEq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	}
	x, y := a.Interface().(net.IPNet), b.Interface().(net.IPNet)
	full := func(m net.IPMask) bool {
		ones, bits := m.Size()
		return m == nil || ones == bits
	}
	if full(x.Mask) && full(y.Mask) {
		return x.IP.Equal(y.IP)
	}
	return x.IP.Equal(y.IP) && bytes.Equal(x.Mask, y.Mask)
}

func ipElem() codec {
	return codec{
		SQL: "inet",
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			return reflect.ValueOf(genIP(t))
		},
		Lit: func(v reflect.Value) string { return fmt.Sprintf("'%s'::inet", v.Interface().(net.IP)) },
	}
}

func inetFor(rt reflect.Type) codec {
	for rt.Kind() == reflect.Slice && rt != ipType {
		rt = rt.Elem()
	}
	if rt == ipType {
		return ipElem()
	}
	return netElem("inet")
}

func macElem(sqlt string, n int) codec {
	return codec{
		SQL: sqlt,
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			return reflect.ValueOf(net.HardwareAddr(rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "mac")))
		},
		Lit: func(v reflect.Value) string {
			return "'" + hex.EncodeToString(v.Bytes()) + "'::" + sqlt
		},
	}
}

func moneyElem() codec {
	return codec{
		SQL: "money",
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			return reflect.ValueOf(genInt64In(t, math.MinInt64, math.MaxInt64, "cents"))
		},
		Lit: func(v reflect.Value) string {
			n := v.Int()
			neg := n < 0
			u := uint64(n)
			if neg {
				u = -u
			}
			s := fmt.Sprintf("%d.%02d", u/100, u%100)
			if neg {
				s = "-" + s
			}
			return "'" + s + "'::money"
		},
	}
}

// ---------------------------------------------------------------- time

// genInstant draws a time between the years 1 and 9999 at microsecond precision.
func genInstant(t *rapid.T, zones bool) time.Time {
	var y int
	switch rapid.IntRange(0, 5).Draw(t, "yclass") {
	case 0:
		y = rapid.IntRange(2, 9998).Draw(t, "year")
	default:
		y = rapid.IntRange(1900, 2100).Draw(t, "year")
	}
	us := rapid.SampledFrom([]int{0, 0, 1, 10, 100, 1000, 120000, 123456, 999999, 500000, 999000, 100100}).Draw(t, "us")
	if rapid.IntRange(0, 2).Draw(t, "usclass") == 0 {
		us = rapid.IntRange(0, 999999).Draw(t, "us2")
	}
	loc := time.UTC
	if zones {
		loc = genZone(t)
	}
	return time.Date(y, time.Month(rapid.IntRange(1, 12).Draw(t, "month")), rapid.IntRange(1, 28).Draw(t, "day"),
		rapid.IntRange(0, 23).Draw(t, "h"), rapid.IntRange(0, 59).Draw(t, "m"), rapid.IntRange(0, 59).Draw(t, "s"), us*1000, loc)
}

func genZone(t *rapid.T) *time.Location {
	min := rapid.SampledFrom([]int{0, 0, 60, 120, -300, 330, 345, -210, -570, 765, -720}).Draw(t, "zone")
	if min == 0 {
		return time.UTC
	}
	return time.FixedZone("", min*60)
}

const usLayout = "2006-01-02 15:04:05.000000"

// wall renders the wall clock of a time.
func wall(tm time.Time) string { return tm.Format(usLayout) }

func tmOf(v reflect.Value) time.Time { return v.Interface().(time.Time) }

func dateElem() codec {
	return codec{
		SQL: "date",
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value { return reflect.ValueOf(genInstant(t, true)) },
		Lit: func(v reflect.Value) string { return "'" + tmOf(v).Format("2006-01-02") + "'::date" },
		Eq: func(a, b reflect.Value) bool {
			return tmOf(b).Format(usLayout+"-07:00") == tmOf(a).Format("2006-01-02")+" 00:00:00.000000+00:00"
		},
	}
}

func timeElem() codec {
	return codec{
		SQL: "time",
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value { return reflect.ValueOf(genInstant(t, true)) },
		Lit: func(v reflect.Value) string { return "'" + tmOf(v).Format("15:04:05.000000") + "'::time" },
		Eq: func(a, b reflect.Value) bool {
			return tmOf(a).Format("15:04:05.000000") == tmOf(b).Format("15:04:05.000000")
		},
	}
}

func timetzElem() codec {
	return codec{
		SQL: "timetz",
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value { return reflect.ValueOf(genInstant(t, true)) },
		Lit: func(v reflect.Value) string { return "'" + tmOf(v).Format("15:04:05.000000-07:00") + "'::timetz" },
		Eq: func(a, b reflect.Value) bool {
			return tmOf(a).Format("15:04:05.000000-07:00") == tmOf(b).Format("15:04:05.000000-07:00")
		},
	}
}

func timestampElem() codec {
	return codec{
		SQL: "timestamp",
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value { return reflect.ValueOf(genInstant(t, true)) },
		Lit: func(v reflect.Value) string { return "'" + wall(tmOf(v)) + "'::timestamp" },
		Eq:  func(a, b reflect.Value) bool { return wall(tmOf(a)) == wall(tmOf(b)) },
	}
}

func timestamptzElem() codec {
	return codec{
		SQL: "timestamptz",
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			tm := genInstant(t, true)
			if tm.Year() < 1950 { // before standard time zones the server's offsets have seconds
				tm = tm.AddDate(1950-tm.Year(), 0, 0)
			}
			return reflect.ValueOf(tm)
		},
		Lit: func(v reflect.Value) string { return "'" + wall(tmOf(v).UTC()) + "+00'::timestamptz" },
		Eq:  func(a, b reflect.Value) bool { return tmOf(a).Equal(tmOf(b)) },
	}
}

// timeRange: [2]time.Time with the zero time for "no bound" if open is set.
func timeRange(pg string, e codec, trunc func(time.Time) string) codec {
	return codec{
		SQL: pg,
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			a, b := tmOf(e.Gen(t, timeType)), tmOf(e.Gen(t, timeType))
			if trunc(a) > trunc(b) {
				a, b = b, a
			}
			if trunc(a) == trunc(b) {
				b = b.AddDate(0, 0, 1)
				if trunc(a) >= trunc(b) {
					b = b.AddDate(0, 0, 1)
				}
			}
			switch rapid.IntRange(0, 9).Draw(t, "open") {
			case 0:
				a = time.Time{}
			case 1:
				b = time.Time{}
			case 2:
				a, b = time.Time{}, time.Time{}
			}
			return reflect.ValueOf([2]time.Time{a, b})
		},
		Lit: func(v reflect.Value) string {
			p := v.Interface().([2]time.Time)
			f := func(tm time.Time) string {
				if tm.IsZero() {
					return "NULL"
				}
				return e.Lit(reflect.ValueOf(tm))
			}
			return fmt.Sprintf("%s(%s,%s,'[)')", pg, f(p[0]), f(p[1]))
		},
		Eq: func(a, b reflect.Value) bool {
			for i := 0; i < 2; i++ {
				x, y := tmOf(a.Index(i)), tmOf(b.Index(i))
				if x.IsZero() || y.IsZero() {
					if x.IsZero() != y.IsZero() {
						return false
					}
					continue
				}
				if !e.Eq(a.Index(i), b.Index(i)) {
					return false
				}
			}
			return true
		},
	}
}

func dateRange() codec {
	return timeRange("daterange", dateElem(), func(t time.Time) string { return t.Format("2006-01-02") })
}
func tsRange() codec { return timeRange("tsrange", timestampElem(), wall) }
func tstzRange() codec {
	return timeRange("tstzrange", timestamptzElem(), func(t time.Time) string { return wall(t.UTC()) })
}

var _ = bytes.Equal
