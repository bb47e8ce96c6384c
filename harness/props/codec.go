package props

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/frk/gosql/vh/fw"

	"pgregory.net/rapid"
)

// codec describes how values of one PostgreSQL type are generated as values of
// a Go type, and how they are written as SQL expressions independently of the
// code under test.
type codec struct {
	// SQL is the name of the PostgreSQL type.
	SQL string
	// Gen draws a value of type rt that the PostgreSQL type can represent.
	Gen func(t *rapid.T, rt reflect.Type) reflect.Value
	// Lit is an SQL expression for the value; "" if there is none to compare with.
	Lit func(v reflect.Value) string
	// Eq compares what was written with what was read back; nil is deep equality.
	Eq func(want, got reflect.Value) bool
	// Cmp is the SQL comparison of the parameter's ($1) with the literal (%s).
	Cmp string
	// Rule returns whether the value is non-trivial.
	NonTrivial func(v reflect.Value) bool
}

// codecCase is a case of a round trip.
type codecCase struct {
	Fn  string `json:"fn"`
	Val any    `json:"val"`
}

var (
	timeType    = reflect.TypeOf(time.Time{})
	ipnetType   = reflect.TypeOf(net.IPNet{})
	ipType      = reflect.TypeOf(net.IP{})
	hwType      = reflect.TypeOf(net.HardwareAddr{})
	nullStrType = reflect.TypeOf(sql.NullString{})
)

// encv renders a Go value as JSON-serialisable data from which decv restores it.
func encv(v reflect.Value) any {
	switch v.Type() {
	case timeType:
		tm := v.Interface().(time.Time)
		return tm.Format(time.RFC3339Nano)
	case nullStrType:
		ns := v.Interface().(sql.NullString)
		return []any{ns.Valid, ns.String}
	case ipnetType:
		n := v.Interface().(net.IPNet)
		return []any{encv(reflect.ValueOf([]byte(n.IP))), encv(reflect.ValueOf([]byte(n.Mask)))}
	}
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.String:
		return v.String()
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		return []any{encv(v.Elem())}
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return "x" + hex.EncodeToString(v.Bytes())
		}
		fallthrough
	case reflect.Array:
		out := []any{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, encv(v.Index(i)))
		}
		return out
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		out := []any{}
		for _, k := range keys {
			out = append(out, []any{encv(k), encv(v.MapIndex(k))})
		}
		return out
	}
	panic("encv: " + v.Type().String())
}

func decv(x any, rt reflect.Type) reflect.Value {
	v := reflect.New(rt).Elem()
	switch rt {
	case timeType:
		tm, err := time.Parse(time.RFC3339Nano, x.(string))
		fw.InfraPanic(err)
		if strings.HasSuffix(x.(string), "Z") {
			tm = tm.UTC()
		}
		v.Set(reflect.ValueOf(tm))
		return v
	case nullStrType:
		a := x.([]any)
		v.Set(reflect.ValueOf(sql.NullString{Valid: a[0].(bool), String: a[1].(string)}))
		return v
	case ipnetType:
		a := x.([]any)
		b := reflect.TypeOf([]byte(nil))
		v.Set(reflect.ValueOf(net.IPNet{IP: decv(a[0], b).Bytes(), Mask: decv(a[1], b).Bytes()}))
		return v
	}
	if x == nil {
		return v
	}
	switch rt.Kind() {
	case reflect.Bool:
		v.SetBool(x.(bool))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(x.(string), 10, 64)
		fw.InfraPanic(err)
		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(x.(string), 10, 64)
		fw.InfraPanic(err)
		v.SetUint(n)
	case reflect.Float32, reflect.Float64:
		n, err := strconv.ParseFloat(x.(string), 64)
		fw.InfraPanic(err)
		v.SetFloat(n)
	case reflect.String:
		v.SetString(x.(string))
	case reflect.Pointer:
		v.Set(reflect.New(rt.Elem()))
		v.Elem().Set(decv(x.([]any)[0], rt.Elem()))
	case reflect.Slice:
		if rt.Elem().Kind() == reflect.Uint8 {
			b, err := hex.DecodeString(x.(string)[1:])
			fw.InfraPanic(err)
			v.Set(reflect.ValueOf(b).Convert(rt))
			return v
		}
		a := x.([]any)
		v.Set(reflect.MakeSlice(rt, len(a), len(a)))
		for i, e := range a {
			v.Index(i).Set(decv(e, rt.Elem()))
		}
	case reflect.Array:
		for i, e := range x.([]any) {
			v.Index(i).Set(decv(e, rt.Elem()))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(rt))
		for _, e := range x.([]any) {
			p := e.([]any)
			v.SetMapIndex(decv(p[0], rt.Key()), decv(p[1], rt.Elem()))
		}
	default:
		panic("decv: " + rt.String())
	}
	return v
}

// rejson passes a value through JSON, so that fresh and replayed cases look the same.
func rejson(x any) any {
	b, err := json.Marshal(x)
	fw.InfraPanic(err)
	var y any
	fw.InfraPanic(json.Unmarshal(b, &y))
	return y
}

// deepEq is deep equality with NaN == NaN, -0 == 0, times by instant,
// and nil and empty slices told apart.
func deepEq(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Type() {
	case timeType:
		return a.Interface().(time.Time).Equal(b.Interface().(time.Time))
	case ipnetType:
		x, y := a.Interface().(net.IPNet), b.Interface().(net.IPNet)
		return x.IP.Equal(y.IP) && bytes.Equal(x.Mask, y.Mask)
	case ipType:
		x, y := a.Interface().(net.IP), b.Interface().(net.IP)
		return (x == nil) == (y == nil) && x.Equal(y)
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		return x == y || (math.IsNaN(x) && math.IsNaN(y))
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return deepEq(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.IsNil() != b.IsNil() {
			return false
		}
		fallthrough
	case reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !deepEq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() || !deepEq(a.MapIndex(k), y) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// fromFn calls a ...From... function.
func callFrom(f any, v reflect.Value) driver.Valuer {
	out := reflect.ValueOf(f).Call([]reflect.Value{v})
	return out[0].Interface().(driver.Valuer)
}

// callTo calls a ...To... function on a pointer.
func callTo(f any, p reflect.Value) any {
	return reflect.ValueOf(f).Call([]reflect.Value{p})[0].Interface()
}

func show(v reflect.Value) string {
	b, _ := json.Marshal(encv(v))
	s := string(b)
	if len(s) > 800 {
		s = s[:800] + "..."
	}
	return s
}

// codecCheck is the round-trip check of one pair.
func codecCheck(r *fw.Run, db *sql.DB, p pgFuncs, c codec, n int) fw.Sub {
	rt := reflect.TypeOf(p.from).In(0)
	eq := c.Eq
	if eq == nil {
		eq = deepEq
	}
	cmp := c.Cmp
	if cmp == "" {
		cmp = "($1::" + c.SQL + ") IS NOT DISTINCT FROM (%s)"
	}
	return &fw.Check[codecCase]{
		Name:   p.name,
		Checks: n,
		Gen: func(t *rapid.T) codecCase {
			return codecCase{Fn: p.name, Val: encv(c.Gen(t, rt))}
		},
		Class: func(x codecCase) (bool, []string) {
			v := decv(rejson(x.Val), rt)
			if c.NonTrivial != nil {
				return c.NonTrivial(v), nil
			}
			return !v.IsZero() && !(v.Kind() == reflect.Slice && v.Len() == 0), nil
		},
		Test: func(x codecCase) error {
			v := decv(rejson(x.Val), rt)
			lit := ""
			if c.Lit != nil {
				if lit = c.Lit(v); strings.Contains(lit, noLit) {
					lit = ""
				}
			}
			valuer := callFrom(p.from, v)
			dv, err := valuer.Value()
			if err != nil {
				return fmt.Errorf("writing %s as %s: Value() failed: %v", show(v), c.SQL, err)
			}
			if !driver.IsValue(dv) {
				return fmt.Errorf("writing %s as %s: Value() gave a %T, which is not a driver.Value", show(v), c.SQL, dv)
			}
			before := encodeAny(dv)
			if !reflect.DeepEqual(encv(v), encv(decv(rejson(x.Val), rt))) {
				return fmt.Errorf("writing changed the value %s into %s", show(decv(rejson(x.Val), rt)), show(v))
			}
			got := reflect.New(rt)
			var same bool
			q := "SELECT $1::" + c.SQL
			if lit != "" {
				q += ", " + fmt.Sprintf(cmp, lit)
			} else {
				q += ", true"
			}
			var dest any = got.Interface()
			if p.to != nil {
				dest = callTo(p.to, got)
			}
			if err := db.QueryRow(q, dv).Scan(guard(dest), &same); err != nil {
				return fmt.Errorf("writing %s as %s (sent as %s) and reading it back failed: %v\nquery: %s", show(v), c.SQL, before, err, q)
			}
			if !same {
				return fmt.Errorf("the %s that %s was written as (%s) is not the value %s", c.SQL, show(v), before, lit)
			}
			if !eq(v, got.Elem()) {
				var txt sql.NullString
				db.QueryRow("SELECT ($1::"+c.SQL+")::text", dv).Scan(&txt)
				return fmt.Errorf("%s was written to a %s as %s (stored as %q) and read back as %s", show(v), c.SQL, before, txt.String, show(got.Elem()))
			}
			// The same value read into a variable that already holds another value.
			dirty := reflect.New(rt)
			dirtyFill(dirty.Elem())
			dest = dirty.Interface()
			if p.to != nil {
				dest = callTo(p.to, dirty)
			}
			// as an argument of a query without parameters, for the simple protocol
			if err := db.QueryRow("SELECT $1::"+c.SQL, dv).Scan(guard(dest)); err != nil {
				return fmt.Errorf("reading %s into a used variable failed: %v", show(v), err)
			}
			if !isNilable(v) && !eq(v, dirty.Elem()) {
				return fmt.Errorf("%s was read back as %s when the destination had a value before", show(v), show(dirty.Elem()))
			}
			return nil
		},
	}
}

// scanGuard hands the scanner memory that is overwritten after the scan, the way
// the memory of a driver is, so that a scanner has to copy what it keeps.
type scanGuard struct{ sql.Scanner }

// scanPanic is a panic in a scanner.
type scanPanic struct{ msg string }

func (e scanPanic) Error() string { return e.msg }

func panicked(err error) bool {
	var p scanPanic
	return errors.As(err, &p)
}

func (g scanGuard) Scan(src any) (err error) {
	// database/sql blocks forever if a scanner panics
	defer func() {
		if p := recover(); p != nil {
			err = scanPanic{fmt.Sprintf("panic: %v\n%s", p, debug.Stack())}
		}
	}()
	b, ok := src.([]byte)
	if !ok {
		return g.Scanner.Scan(src)
	}
	buf := make([]byte, len(b), len(b)+8)
	copy(buf, b)
	if b == nil {
		buf = nil
	}
	err = g.Scanner.Scan(buf)
	for i := range buf {
		buf[i] = '#'
	}
	return err
}

func guard(dest any) any {
	if s, ok := dest.(sql.Scanner); ok {
		return scanGuard{s}
	}
	return dest
}

// isNilable tells that the value is stored as NULL, so that the scan may leave the destination alone.
func isNilable(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.Pointer:
		return v.IsNil()
	}
	return false
}

func dirtyFill(v reflect.Value) {
	switch v.Type() {
	case timeType, ipnetType, nullStrType:
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 3, 7))
		for i := 0; i < 3; i++ {
			dirtyFill(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			dirtyFill(v.Index(i))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		e := reflect.New(v.Type().Elem()).Elem()
		v.SetMapIndex(reflect.ValueOf("dirty"), e)
	case reflect.String:
		v.SetString("dirty")
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(99)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(99)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(99.5)
	}
}

func encodeAny(v any) string {
	switch v := v.(type) {
	case []byte:
		if v == nil {
			return "nil []byte"
		}
		return fmt.Sprintf("%q", v)
	case string:
		return fmt.Sprintf("%q", v)
	}
	return fmt.Sprintf("%v", v)
}
