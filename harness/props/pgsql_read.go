package props

import (
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/frk/gosql/pgsql"
	"github.com/frk/gosql/vh/fw"

	"pgregory.net/rapid"
)

// nullCase: an array, and the positions of the array at which NULLs are put in.
type nullCase struct {
	Fn    string `json:"fn"`
	Val   any    `json:"val"`
	Nulls []int  `json:"nulls"`
}

// scanQuery scans the only column of the only row into a fresh variable.
func scanQuery(db *sql.DB, to any, rt reflect.Type, q string, args ...any) (v reflect.Value, text sql.NullString, err error) {
	got := reflect.New(rt)
	var dest any = got.Interface()
	if to != nil {
		dest = callTo(to, got)
	}
	if err := db.QueryRow(q, args...).Scan(guard(dest), &text); err != nil {
		return got.Elem(), text, err
	}
	return got.Elem(), text, nil
}

// nullElems checks that NULL elements are refused, or read as zero values that don't affect the rest.
func nullElems(r *fw.Run, db *sql.DB, p pgFuncs, c codec, n int) fw.Sub {
	rt := reflect.TypeOf(p.from).In(0)
	return &fw.Check[nullCase]{
		Name:   "null-elements/" + p.name,
		Checks: n,
		Gen: func(t *rapid.T) nullCase {
			v := c.Gen(t, rt)
			if v.Kind() == reflect.Slice && v.IsNil() {
				v = reflect.MakeSlice(rt, 0, 0)
			}
			return nullCase{Fn: p.name, Val: encv(v), Nulls: rapid.SliceOfN(rapid.IntRange(0, 5), 1, 3).Draw(t, "nulls")}
		},
		Class: func(x nullCase) (bool, []string) {
			v := decv(rejson(x.Val), rt)
			return v.Kind() != reflect.Slice || v.Len() > 0, nil
		},
		Test: func(x nullCase) error {
			v := decv(rejson(x.Val), rt)
			dv, err := callFrom(p.from, v).Value()
			if err != nil {
				return nil // the business of the round trips
			}
			var pos []string
			for _, n := range x.Nulls {
				pos = append(pos, strconv.Itoa(n))
			}
			with := fmt.Sprintf(`SELECT a, a::text FROM (SELECT (SELECT array_agg(e ORDER BY o) FROM (`+
				`SELECT e, o*2 AS o FROM unnest($1::%s) WITH ORDINALITY x(e,o) `+
				`UNION ALL SELECT NULL, p*2+1 FROM unnest('{%s}'::int[]) p) s) a) q`, c.SQL, strings.Join(pos, ","))
			base, btext, err := scanQuery(db, p.to, rt, "SELECT $1::"+c.SQL+", ($1::"+c.SQL+")::text", dv)
			if err != nil {
				return nil
			}
			got, text, err := scanQuery(db, p.to, rt, with, dv)
			if panicked(err) {
				return err
			} else if err != nil {
				return nil // refused
			}
			// where the NULLs ended up
			var isnull []bool
			rows, err := db.Query(fmt.Sprintf(`SELECT o %% 2 = 1 FROM (SELECT e, o*2 AS o FROM unnest($1::%s) WITH ORDINALITY x(e,o) `+
				`UNION ALL SELECT NULL, p*2+1 FROM unnest('{%s}'::int[]) p) s ORDER BY o`, c.SQL, strings.Join(pos, ",")), dv)
			fw.InfraPanic(err)
			for rows.Next() {
				var b bool
				fw.InfraPanic(rows.Scan(&b))
				isnull = append(isnull, b)
			}
			rows.Close()
			if got.Kind() == reflect.String { // one rune per element: a NULL has no rune
				if got.String() != base.String() && len([]rune(got.String())) != len(isnull) {
					return fmt.Errorf("reading %s gave %s, but without the NULLs (%s) it's %s", text.String, show(got), btext.String, show(base))
				}
				return nil
			}
			if got.Len() != len(isnull) {
				return fmt.Errorf("%s has %d elements but it was read as %s, which has %d", text.String, len(isnull), show(got), got.Len())
			}
			eq := deepEq
			k := 0
			for i, null := range isnull {
				e := got.Index(i)
				if null {
					if !e.IsZero() && !(e.Kind() == reflect.Slice && e.Len() == 0) {
						return fmt.Errorf("%s was read as %s: the NULL at %d became %s", text.String, show(got), i, show(e))
					}
					continue
				}
				if !eq(base.Index(k), e) {
					return fmt.Errorf("%s was read as %s, element %d is %s but without the NULLs (%s) it's %s", text.String, show(got), i, show(e), btext.String, show(base.Index(k)))
				}
				k++
			}
			return nil
		},
	}
}

// wholeNull checks the reading of a NULL.
func wholeNull(r *fw.Run, db *sql.DB, p pgFuncs, sqlt string) fw.Sub {
	rt := reflect.TypeOf(p.to).In(0).Elem()
	return &fw.Check[codecCase]{
		Name:  "null/" + p.name,
		Fixed: []codecCase{{Fn: p.name}},
		Test: func(x codecCase) error {
			got, _, err := scanQuery(db, p.to, rt, "SELECT NULL::"+sqlt+", NULL")
			if panicked(err) {
				return err
			}
			if err == nil && !got.IsZero() {
				return fmt.Errorf("a NULL %s was read as %s", sqlt, show(got))
			}
			if rt.Kind() != reflect.Slice && rt.Kind() != reflect.Map || p.from == nil {
				return nil
			}
			// a slice or map can be nil, so that's what NULL has to turn any value into
			dirty := reflect.New(rt)
			dirtyFill(dirty.Elem())
			if err := db.QueryRow("SELECT NULL::" + sqlt).Scan(guard(callTo(p.to, dirty))); err == nil && !dirty.Elem().IsNil() {
				return fmt.Errorf("a NULL %s left the previous value %s in the variable", sqlt, show(dirty.Elem()))
			}
			return nil
		},
	}
}

// numCase: literals of numbers.
type numCase struct {
	Fn   string   `json:"fn"`
	Nums []string `json:"nums"`
	// Form of the ranges: 0 both bounds, 1 no lower, 2 no upper, 3 none, 4 empty
	Forms []int `json:"forms,omitempty"`
}

var numericNames = map[string][2]string{ // registry name -> array type, element type
	"Int2Array": {"int2[]", "int2"}, "Int4Array": {"int4[]", "int4"}, "Int8Array": {"int8[]", "int8"},
	"NumericArray": {"numeric[]", "numeric"}, "Float4Array": {"float4[]", "float4"}, "Float8Array": {"float8[]", "float8"},
	"Int2Vector": {"int2vector", "int2"},
	"Int4Range":  {"int4range", "int4"}, "Int8Range": {"int8range", "int8"}, "NumRange": {"numrange", "numeric"},
	"Int4RangeArray": {"int4range[]", "int4"}, "Int8RangeArray": {"int8range[]", "int8"}, "NumRangeArray": {"numrange[]", "numeric"},
}

func genNumText(t *rapid.T, pg string) string {
	if b, ok := numBounds[pg]; ok {
		hi := b[1]
		if pg != "int2" {
			hi-- // a range's upper bound can be one more
		}
		return strconv.FormatInt(genInt64In(t, b[0], hi, "n"), 10)
	}
	switch rapid.IntRange(0, 4).Draw(t, "nclass") {
	case 0:
		return strconv.FormatInt(genInt64In(t, -1<<63, 1<<63-1, "n"), 10)
	case 1:
		return strconv.FormatUint(rapid.Uint64().Draw(t, "u"), 10)
	case 2:
		if pg == "numeric" {
			return rapid.SampledFrom([]string{"9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1e40", "-1e40", "123456789012345678901234567890", "65536", "-129", "256", "4294967296"}).Draw(t, "big")
		}
		return rapid.SampledFrom([]string{"1e10", "-1e30", "16777217", "0.1"}).Draw(t, "big")
	case 3:
		return fmt.Sprintf("%d.%d", rapid.IntRange(-300, 300).Draw(t, "i"), rapid.SampledFrom([]int{5, 25, 125, 1, 75}).Draw(t, "f"))
	}
	return strconv.Itoa(rapid.IntRange(-300, 300).Draw(t, "small"))
}

// sameNumber tells that the Go number is the number of the text, up to the
// precision of the Go type.
func sameNumber(text string, v reflect.Value) bool {
	want, ok := new(big.Rat).SetString(text)
	if !ok {
		return false
	}
	switch {
	case v.CanInt():
		return want.Cmp(new(big.Rat).SetInt64(v.Int())) == 0
	case v.CanUint():
		return want.Cmp(new(big.Rat).SetFrac(new(big.Int).SetUint64(v.Uint()), big.NewInt(1))) == 0
	}
	if v.Kind() == reflect.Float32 {
		f, _ := want.Float32()
		return f == float32(v.Float())
	}
	f, _ := want.Float64()
	return f == v.Float()
}

func overflow(r *fw.Run, db *sql.DB, p pgFuncs, n int) fw.Sub {
	rt := reflect.TypeOf(p.to).In(0).Elem()
	sqlt, elem := numericNames[p.pg][0], numericNames[p.pg][1]
	isRange := strings.Contains(p.pg, "Range")
	rng := strings.TrimSuffix(sqlt, "[]")
	return &fw.Check[numCase]{
		Name:   "numbers/" + p.name,
		Checks: n,
		Gen: func(t *rapid.T) numCase {
			c := numCase{Fn: p.name}
			k := rapid.IntRange(1, 4).Draw(t, "len")
			if isRange && rng == sqlt {
				k = 1
			}
			if isRange {
				k *= 2
			}
			for i := 0; i < k; i++ {
				c.Nums = append(c.Nums, genNumText(t, elem))
			}
			if isRange {
				for i := 0; i < k; i += 2 {
					x, _ := new(big.Rat).SetString(c.Nums[i])
					y, _ := new(big.Rat).SetString(c.Nums[i+1])
					if x.Cmp(y) > 0 {
						c.Nums[i], c.Nums[i+1] = c.Nums[i+1], c.Nums[i]
					} else if x.Cmp(y) == 0 {
						c.Nums[i] = strings.Repeat("-", 1) + "100"
						c.Nums[i+1] = "100"
					}
					c.Forms = append(c.Forms, rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4}).Draw(t, "form"))
				}
			}
			return c
		},
		Test: func(x numCase) error {
			type expect struct {
				lo, hi string // "" is infinite
			}
			var els []string
			var want []expect
			if isRange {
				for i, f := range x.Forms {
					lo, hi := x.Nums[2*i], x.Nums[2*i+1]
					switch f {
					case 1:
						lo = ""
					case 2:
						hi = ""
					case 3:
						lo, hi = "", ""
					case 4:
						els = append(els, "'empty'")
						want = append(want, expect{})
						continue
					}
					els = append(els, fmt.Sprintf("'[%s,%s)'", lo, hi))
					want = append(want, expect{lo, hi})
				}
			} else {
				for _, n := range x.Nums {
					els = append(els, "'"+n+"'")
					want = append(want, expect{n, n})
				}
			}
			var expr string
			switch {
			case p.pg == "Int2Vector":
				expr = "'" + strings.Join(x.Nums, " ") + "'::int2vector"
			case isRange && rng == sqlt:
				expr = els[0] + "::" + rng
			default:
				expr = "ARRAY[" + strings.Join(els, ",") + "]::" + sqlt
			}
			got, text, err := scanQuery(db, p.to, rt, "SELECT "+expr+", ("+expr+")::text")
			if err != nil {
				if strings.HasPrefix(err.Error(), "pq:") {
					panic(fw.Infra{Err: fmt.Errorf("%s: %v", expr, err)})
				}
				if panicked(err) {
					return fmt.Errorf("%s: %w", text.String, err)
				}
				return nil // refused
			}
			bad := func(i int, what string) error {
				return fmt.Errorf("%s was read as %s: element %d should be %s", text.String, show(got), i, what)
			}
			checkRange := func(i int, w expect, v reflect.Value) error {
				for k, b := range []string{w.lo, w.hi} {
					if b == "" {
						if !v.Index(k).IsZero() {
							return bad(i, "zero at its infinite bound")
						}
					} else if !sameNumber(b, v.Index(k)) {
						return bad(i, fmt.Sprintf("[%s,%s)", w.lo, w.hi))
					}
				}
				return nil
			}
			if isRange && rng == sqlt {
				return checkRange(0, want[0], got)
			}
			if got.Len() != len(want) {
				return fmt.Errorf("%s was read as %s, which has %d elements", text.String, show(got), got.Len())
			}
			for i, w := range want {
				if isRange {
					if err := checkRange(i, w, got.Index(i)); err != nil {
						return err
					}
					continue
				}
				num := w.lo
				if elem == "float4" { // what the server made of it
					f, _ := strconv.ParseFloat(num, 32)
					if got.Index(i).CanFloat() && float32(got.Index(i).Float()) == float32(f) {
						continue
					}
					num = strconv.FormatFloat(f, 'g', -1, 32)
				} else if elem == "float8" {
					f, _ := strconv.ParseFloat(num, 64)
					num = strconv.FormatFloat(f, 'g', -1, 64)
				}
				if !sameNumber(num, got.Index(i)) {
					return bad(i, w.lo)
				}
			}
			return nil
		},
	}
}

// timeRangeForms: ranges of times with infinite bounds, empty ones.
func timeRangeForms(r *fw.Run, db *sql.DB, p pgFuncs, sqlt string, n int) fw.Sub {
	rt := reflect.TypeOf(p.to).In(0).Elem()
	isArr := strings.HasSuffix(sqlt, "[]")
	rng := strings.TrimSuffix(sqlt, "[]")
	return &fw.Check[numCase]{
		Name:   "time-ranges/" + p.name,
		Checks: n,
		Gen: func(t *rapid.T) numCase {
			c := numCase{Fn: p.name}
			k := 1
			if isArr {
				k = rapid.IntRange(1, 4).Draw(t, "len")
			}
			for i := 0; i < k; i++ {
				lo := genInstant(t, false)
				hi := lo.Add(time.Duration(1+rapid.IntRange(0, 36500).Draw(t, "days")) * 24 * time.Hour)
				if hi.Year() > 9000 {
					hi = lo.Add(24 * time.Hour)
				}
				layout := usLayout
				if rng == "daterange" {
					layout = "2006-01-02"
				} else if rng == "tstzrange" {
					layout += "-07:00"
				}
				c.Nums = append(c.Nums, lo.Format(layout), hi.Format(layout))
				c.Forms = append(c.Forms, rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5}).Draw(t, "form"))
			}
			return c
		},
		Test: func(x numCase) error {
			var els []string
			for i, f := range x.Forms {
				lo, hi := `"`+x.Nums[2*i]+`"`, `"`+x.Nums[2*i+1]+`"`
				switch f {
				case 1:
					lo = ""
				case 2:
					hi = ""
				case 3:
					lo, hi = "", ""
				case 4:
					els = append(els, "'empty'")
					continue
				case 5:
					if isArr {
						els = append(els, "NULL")
						continue
					}
				}
				els = append(els, fmt.Sprintf("'[%s,%s)'", lo, hi))
			}
			expr := els[0] + "::" + rng
			if isArr {
				expr = "ARRAY[" + strings.Join(els, ",") + "]::" + sqlt
			}
			got, text, err := scanQuery(db, p.to, rt, "SELECT "+expr+", ("+expr+")::text")
			if err != nil {
				if strings.HasPrefix(err.Error(), "pq:") {
					panic(fw.Infra{Err: fmt.Errorf("%s: %v", expr, err)})
				}
				return fmt.Errorf("reading %s failed: %v", text.String, err)
			}
			if !isArr {
				v := reflect.MakeSlice(reflect.SliceOf(rt), 1, 1)
				v.Index(0).Set(got)
				got = v
			}
			if got.Len() != len(x.Forms) {
				return fmt.Errorf("%s has %d elements but it was read as %s", text.String, len(x.Forms), show(got))
			}
			layout := usLayout
			if rng == "daterange" {
				layout = "2006-01-02"
			} else if rng == "tstzrange" {
				layout += "-07:00"
			}
			for i, f := range x.Forms {
				for k := 0; k < 2; k++ {
					want, err := time.Parse(layout, x.Nums[2*i+k])
					fw.InfraPanic(err)
					if f == 3 || f == 4 || f == 5 && isArr || f == 1 && k == 0 || f == 2 && k == 1 {
						want = time.Time{}
					}
					if g := tmOf(got.Index(i).Index(k)); !g.Equal(want) {
						return fmt.Errorf("%s was read as %s: bound %d of range %d should be %s", text.String, show(got), k, i, want)
					}
				}
			}
			return nil
		},
	}
}

// ---------------------------------------------------------------- json, xml, any

type jsonRec struct {
	S string            `json:"s" xml:"s"`
	N int64             `json:"n" xml:"n,attr"`
	F float64           `json:"f" xml:"f"`
	B bool              `json:"b" xml:"b"`
	L []string          `json:"l" xml:"l>e"`
	P *int              `json:"p" xml:"p"`
	M map[string]string `json:"m" xml:"-"`
}

func genRec(t *rapid.T, forXML bool) jsonRec {
	text := func(l string) string {
		s := genText(t, l)
		if forXML { // XML has no control characters, and normalises line ends
			s = strings.Map(func(r rune) rune {
				if r < ' ' || r == 0x7f || r > 0xfffd && r < 0x10000 {
					return '.'
				}
				return r
			}, s)
		}
		return s
	}
	x := jsonRec{S: text("s"), N: genInt64In(t, -1<<63, 1<<63-1, "n"), F: genFloat(t, false, false), B: rapid.Bool().Draw(t, "b")}
	for i := rapid.IntRange(0, 3).Draw(t, "len"); i > 0; i-- {
		x.L = append(x.L, text("e"))
	}
	if rapid.Bool().Draw(t, "p") {
		n := rapid.IntRange(-5, 5).Draw(t, "pn")
		x.P = &n
	}
	if !forXML {
		for i := rapid.IntRange(0, 2).Draw(t, "mlen"); i > 0; i-- {
			if x.M == nil {
				x.M = map[string]string{}
			}
			x.M[text("k")] = text("v")
		}
	}
	return x
}

func docCheck(db *sql.DB, sqlt string, forXML bool, n int) fw.Sub {
	wrap := func(v any) interface {
		driver.Valuer
		sql.Scanner
	} {
		if forXML {
			return pgsql.XML(v)
		}
		return pgsql.JSON(v)
	}
	return &fw.Check[jsonRec]{
		Name:   "document/" + sqlt,
		Checks: n,
		Gen:    func(t *rapid.T) jsonRec { return genRec(t, forXML) },
		Test: func(x jsonRec) error {
			dv, err := wrap(x).Value()
			if err != nil {
				return fmt.Errorf("Value() failed: %v", err)
			}
			var got, got2 jsonRec
			if err := db.QueryRow("SELECT $1::"+sqlt, dv).Scan(guard(wrap(&got))); err != nil {
				return fmt.Errorf("%s: %v", dv, err)
			}
			// as text, which the driver hands over as a string
			if err := db.QueryRow("SELECT ($1::"+sqlt+")::text", dv).Scan(guard(wrap(&got2))); err != nil {
				return fmt.Errorf("%s: %v", dv, err)
			}
			var txt string
			fw.InfraPanic(db.QueryRow("SELECT ($1::"+sqlt+")::text", dv).Scan(&txt))
			var want jsonRec
			if forXML {
				fw.InfraPanic(xml.Unmarshal([]byte(txt), &want))
			} else {
				fw.InfraPanic(json.Unmarshal([]byte(txt), &want))
			}
			norm := func(x jsonRec) string {
				if len(x.L) == 0 {
					x.L = nil
				}
				b, _ := json.Marshal(x)
				return string(b)
			}
			if norm(got) != norm(x) {
				return fmt.Errorf("%s was written as %s and read back as %s", norm(x), dv, norm(got))
			}
			if norm(got2) != norm(want) {
				return fmt.Errorf("%s was read from a string as %s", norm(want), norm(got2))
			}
			// NULL leaves the variable alone or resets it, but doesn't fail
			var nul jsonRec
			if err := db.QueryRow("SELECT NULL::" + sqlt).Scan(guard(wrap(&nul))); err != nil || norm(nul) != norm(jsonRec{}) {
				return fmt.Errorf("NULL was read as %s, %v", norm(nul), err)
			}
			return nil
		},
	}
}

type anyCase struct {
	Expr string `json:"expr"`
	Kind string `json:"kind"`
}

// anyCheck: the value that an interface gets is the driver's, and stays as it is.
func anyCheck(db *sql.DB, n int) fw.Sub {
	return &fw.Check[anyCase]{
		Name:   "any",
		Checks: n,
		Gen: func(t *rapid.T) anyCase {
			switch rapid.IntRange(0, 5).Draw(t, "kind") {
			case 0:
				return anyCase{strconv.Itoa(rapid.IntRange(-1e6, 1e6).Draw(t, "n")) + "::int8", "int"}
			case 1:
				return anyCase{qlit(genText(t, "s")) + "::text", "text"}
			case 2:
				return anyCase{"'" + strings.Repeat("7", rapid.IntRange(1, 20).Draw(t, "n")) + "'::numeric", "numeric"}
			case 3:
				return anyCase{fmt.Sprintf("'{%d,%d}'::int4[]", rapid.IntRange(-9, 99).Draw(t, "a"), rapid.IntRange(-9, 99).Draw(t, "b")), "array"}
			case 4:
				return anyCase{rapid.SampledFrom([]string{"true", "false", "NULL"}).Draw(t, "b") + "::bool", "bool"}
			}
			return anyCase{fmt.Sprintf("'{\"k\":%d}'::jsonb", rapid.IntRange(0, 1e6).Draw(t, "j")), "jsonb"}
		},
		Test: func(x anyCase) error {
			var got, want any
			if err := db.QueryRow("SELECT " + x.Expr).Scan(&want); err != nil {
				return fw.Infra{Err: err}
			}
			if err := db.QueryRow("SELECT " + x.Expr).Scan(guard(pgsql.AnyToEmptyInterface(&got))); err != nil {
				return fmt.Errorf("%s: %v", x.Expr, err)
			}
			if !reflect.DeepEqual(got, want) {
				return fmt.Errorf("%s was read as %T %v instead of %T %v", x.Expr, got, got, want, want)
			}
			return nil
		},
	}
}

// ---------------------------------------------------------------- times as text

type timeTextCase struct {
	Fn   string `json:"fn"`
	Text string `json:"text"`
	// Src is what the driver hands over: 0 what lib/pq does, 1 a string, 2 bytes
	Src int `json:"src"`
}

func timeText(db *sql.DB, p pgFuncs, sqlt string, n int) fw.Sub {
	rt := reflect.TypeOf(p.to).In(0).Elem()
	return &fw.Check[timeTextCase]{
		Name:   "time-text/" + p.name,
		Checks: n,
		Gen: func(t *rapid.T) timeTextCase {
			tm := genInstant(t, sqlt == "timetz")
			c := timeTextCase{Fn: p.name, Text: tm.Format("2006-01-02")}
			if sqlt != "date" {
				c.Text = tm.Format("15:04:05.000000")
				c.Src = rapid.IntRange(0, 2).Draw(t, "src")
			}
			if sqlt == "timetz" {
				c.Text = tm.Format("15:04:05.000000-07:00")
			}
			return c
		},
		Test: func(x timeTextCase) error {
			q := "SELECT '" + x.Text + "'::" + sqlt
			if x.Src > 0 {
				q += "::text"
			}
			if x.Src == 2 {
				q = "SELECT convert_to('" + x.Text + "'::" + sqlt + "::text, 'utf8')"
			}
			got := reflect.New(rt)
			if err := db.QueryRow(q).Scan(guard(callTo(p.to, got))); err != nil {
				return fmt.Errorf("%s: %v", q, err)
			}
			if rt == timeType {
				if g := tmOf(got.Elem()); g.Format("2006-01-02 15:04:05.999999999 -0700") != x.Text+" 00:00:00 +0000" {
					return fmt.Errorf("%s was read as %s", q, g)
				}
				return nil
			}
			s := fmt.Sprintf("%s", got.Elem().Interface())
			var same bool
			if err := db.QueryRow("SELECT $1::"+sqlt+" = '"+x.Text+"'::"+sqlt, s).Scan(&same); err != nil || !same {
				return fmt.Errorf("%s was read as %q (%v)", q, s, err)
			}
			return nil
		},
	}
}

func readSubs(r *fw.Run, db *sql.DB) (subs []fw.Sub) {
	for _, p := range pgRegistry {
		c, ok := codecFor(p)
		if p.from != nil && p.to != nil && ok {
			if strings.HasSuffix(c.SQL, "[]") || strings.HasSuffix(p.pg, "Array") {
				subs = append(subs, nullElems(r, db, p, c, r.N(60, 800)))
			}
			if p.to != nil {
				subs = append(subs, wholeNull(r, db, p, c.SQL))
			}
		}
		if _, ok := numericNames[p.pg]; ok && p.to != nil {
			subs = append(subs, overflow(r, db, p, r.N(80, 1500)))
		}
		switch p.pg {
		case "DateRange", "DateRangeArray", "TsRange", "TsRangeArray", "TstzRange", "TstzRangeArray":
			subs = append(subs, timeRangeForms(r, db, p, c.SQL, r.N(200, 3000)))
		}
	}
	subs = append(subs, anyCheck(db, r.N(300, 3000)))
	return subs
}

func init() {
	fw.Register(&fw.Property{
		ID:   "P08",
		Rule: "an array counts as non-trivial if it has an element besides the NULLs; numbers and ranges always; distinct cases are counted by hash",
		Subs: func(r *fw.Run) []fw.Sub {
			db := r.DB("codec", "CREATE EXTENSION IF NOT EXISTS hstore;")
			db.SetMaxOpenConns(8)
			return readSubs(r, db)
		},
	})
}
