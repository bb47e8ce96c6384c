package props

import (
	"database/sql"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"regexp"

	"strings"

	"github.com/frk/gosql/vh/fw"
)

// P40: whatever query or filter type the tool is given, it either refuses it with a
// message that says where, or writes code that compiles, does not panic, and whose
// statements PostgreSQL accepts. Types are put together from fields at random, with
// little regard for what goes with what.

const wildSchema = `
CREATE EXTENSION IF NOT EXISTS hstore;
CREATE TYPE wl_enum AS ENUM ('a', 'b');
CREATE DOMAIN wl_dom AS text;
CREATE TYPE wl_comp AS (a int, b text);
CREATE SCHEMA other;
CREATE TABLE wl_a (
	id serial PRIMARY KEY, n int4, m int4 NOT NULL DEFAULT 0, big int8, t text, u text NOT NULL DEFAULT 'x', v varchar(10), c char(3),
	ts timestamptz, d date, arr text[], ia int4[] NOT NULL DEFAULT '{}', j jsonb, jj json NOT NULL DEFAULT '{}', xx xml, fts tsvector,
	e wl_enum, dom wl_dom, comp wl_comp, num numeric, f8 float8, flag bool NOT NULL DEFAULT false, uid uuid, ip inet, p point, bx box, hs hstore, b bytea, bt bit(1), b3 bit(3), rng int4range, tr tsrange,
	gen int4 GENERATED ALWAYS AS (m * 2) STORED, ida int4 GENERATED ALWAYS AS IDENTITY, "Mixed" text, "select" text,
	CONSTRAINT wl_a_nm UNIQUE (n, m), CONSTRAINT wl_a_uid UNIQUE (uid), CONSTRAINT wl_a_def UNIQUE (num) DEFERRABLE, CONSTRAINT wl_a_chk CHECK (m > -1000),
	CONSTRAINT wl_a_excl EXCLUDE USING gist (rng WITH &&)
);
CREATE UNIQUE INDEX wl_a_lower ON wl_a (lower(t));
CREATE UNIQUE INDEX wl_a_part ON wl_a (u) WHERE n > 0;
CREATE UNIQUE INDEX wl_a_incl ON wl_a (big) INCLUDE (f8);
CREATE INDEX wl_a_plain ON wl_a (d);
CREATE TABLE wl_b (id int4 PRIMARY KEY, a_id int4 REFERENCES wl_a (id), t text, ts timestamptz, flag bool);
CREATE TABLE other.wl_o (id int4 PRIMARY KEY, t text, n int4);
CREATE TABLE other.wl_b (id int4 PRIMARY KEY, z text);
CREATE DOMAIN wl_dint AS int4 CHECK (VALUE > -1000);
CREATE DOMAIN wl_dtxt AS wl_dom CHECK (VALUE <> '');
CREATE DOMAIN wl_darr AS text[];
CREATE DOMAIN wl_djson AS jsonb;
CREATE TYPE other.wl_mood AS ENUM ('x', 'y');
CREATE TABLE wl_t (
	id wl_dint PRIMARY KEY, dtxt wl_dtxt, darr wl_darr, djson wl_djson, dnn wl_dom NOT NULL, comps wl_comp[], es wl_enum[], dints wl_dint[], mr int4multirange, iv interval, nm name, oo oid, cc "char", m2 int4[][], mny money, bits bit(3)[], vb varbit, rngs int4range[], lq tsquery, t text COLLATE "C",
	UNIQUE NULLS NOT DISTINCT (dtxt, iv)
);
CREATE TABLE wl_x (id int4 PRIMARY KEY, mood other.wl_mood, t text);
CREATE TABLE wl_kid (extra text) INHERITS (other.wl_o);
CREATE TABLE "Upper" (id int4 PRIMARY KEY, "T" text);
CREATE TABLE "user" (id int4 PRIMARY KEY, name text);
CREATE TABLE wl_nopk (id int4, t text, n int4);
CREATE TABLE wl_pk2 (a int4, b text, c text, n int4, PRIMARY KEY (a, b));
CREATE TABLE wl_part (id int4, t text) PARTITION BY RANGE (id);
CREATE TABLE wl_part1 PARTITION OF wl_part FOR VALUES FROM (0) TO (10);
CREATE TABLE wl_empty ();
CREATE VIEW wl_v AS SELECT id, n, t FROM wl_a;
CREATE VIEW wl_agg AS SELECT n, count(*) AS cnt, max(t) AS t FROM wl_a GROUP BY n;
CREATE MATERIALIZED VIEW wl_m AS SELECT id, n, t FROM wl_a;
CREATE SEQUENCE wl_seq;
CREATE FUNCTION wl_fn(int4) RETURNS int4 LANGUAGE sql IMMUTABLE AS 'SELECT $1';
`

// wildQ are the declarations the query types refer to.
const wildQ = `
import (
	"context"
	"database/sql/driver"
	"errors"
	"time"

	"github.com/frk/gosql"
	"github.com/frk/gosql/filter"
)

type Rec struct {
	Id int ` + "`sql:\"id\"`" + `
	T  *string ` + "`sql:\"t\"`" + `
}
type RecN struct {
	Id int ` + "`sql:\"id\"`" + `
	N  *int ` + "`sql:\"n\"`" + `
	T  string ` + "`sql:\"t\"`" + `
	x  string
}
type RecT struct {
	T string ` + "`sql:\"t\"`" + `
}
type RecFull struct {
	Id   int ` + "`sql:\"id,ro\"`" + `
	N    int ` + "`sql:\"n\"`" + `
	M    int ` + "`sql:\"m,default\"`" + `
	T    *string ` + "`sql:\"t\"`" + `
	U    string ` + "`sql:\"u\"`" + `
	Ts   time.Time ` + "`sql:\"ts\"`" + `
	Arr  []string ` + "`sql:\"arr\"`" + `
	Gen  int ` + "`sql:\"gen,ro\"`" + `
	Flag bool ` + "`sql:\"flag\"`" + `
}
type RecPk2 struct {
	A int ` + "`sql:\"a\"`" + `
	B string ` + "`sql:\"b\"`" + `
	C *string ` + "`sql:\"c\"`" + `
}
type RecQual struct {
	Id int ` + "`sql:\"a.id\"`" + `
	BT *string ` + "`sql:\"b.t\"`" + `
}
type RecEmpty struct{}
type RecNoTags struct{ A, B int }
type RecNest struct {
	Id  int ` + "`sql:\"id\"`" + `
	Sub Sub ` + "`sql:\">\"`" + `
	Ptr *SubP ` + "`sql:\">\"`" + `
}
type Sub struct {
	T *string ` + "`sql:\"t\"`" + `
}
type SubP struct {
	N *int ` + "`sql:\"n\"`" + `
}
type RecEmb struct {
	Rec ` + "`sql:\">\"`" + `
	N   int ` + "`sql:\"n\"`" + `
}
type RecScan struct {
	Id int ` + "`sql:\"id\"`" + `
}

func (*RecScan) AfterScan() {}

type Alias = Rec
type RecDef Rec
type Recs []*Rec
type RecPtr *Rec
type Gen[T any] struct {
	Id T ` + "`sql:\"id\"`" + `
}
type Gen2[T, U any] struct {
	Id int ` + "`sql:\"id\"`" + `
	X  T   ` + "`sql:\"t\"`" + `
	Y  U   ` + "`sql:\"u\"`" + `
}
type Node struct {
	Id   int   ` + "`sql:\"id\"`" + `
	Next *Node ` + "`sql:\">\"`" + `
}
type Lst []Lst
type Mp map[string]*Mp
type Rcv struct {
	Id   int ` + "`sql:\"id\"`" + `
	Self *Rcv
}
type Iter interface{ Do(*Rec) error }
type Iter2 interface{ do(Rec) error }
type IterBad interface {
	A(*Rec) error
	B(*Rec) error
}
type IterFn func(*Rec) error

type EH struct{}

func (EH) HandleError(err error) error { return err }

type EHP struct{}

func (*EHP) HandleError(err error) error { return err }

type EIH struct{}

func (EIH) HandleErrorInfo(i *gosql.ErrorInfo) error { return i.Error }

type MyInt int
type MyStr string
type MyBytes []byte
type MyTime time.Time
type MyStrs []string
type MyBool bool
type Ctx = context.Context
type Lower struct{ T string ` + "`sql:\"t\"`" + ` }
type Wh struct {
	Id int ` + "`sql:\"id\"`" + `
	t  string ` + "`sql:\"t\"`" + `
}
type On struct {
	_ gosql.Ignore
}
type JSONer struct{ A int }

func (JSONer) MarshalJSON() ([]byte, error) { return []byte("1"), nil }

type Val struct{ S string }

func (v Val) Value() (driver.Value, error) { return v.S, nil }

type Scn struct{ S string }

func (*Scn) Scan(x any) error { return nil }

type Stringer interface{ String() string }

var _ = errors.New
var _ filter.Constructor
`

// wildCase is a type in pieces.
type wildCase struct {
	Name   string   // its prefix: Select, Insert, ...
	Decls  []string // declarations of its own; R_@ is a name of its own
	Rel    string   // the rel field
	Fields []string // the other fields
}

func (c *wildCase) filter() bool { return strings.HasPrefix(strings.ToLower(c.Name), "filter") }

func (c *wildCase) typeName(id int) string { return fmt.Sprintf("%sQ%d", c.Name, id) }

var wildImports = []struct{ use, path string }{
	{"gosql.", "github.com/frk/gosql"}, {"filter.", "github.com/frk/gosql/filter"}, {"time.", "time"}, {"sql.", "database/sql"}, {"context.", "context"}, {"net.", "net"},
	{"json.", "encoding/json"}, {"big.", "math/big"}, {"url.", "net/url"}, {"oth.", "vhgen/oth"}, {"inner.", "vhgen/oth/inner-pkg"}, {"unsafe.", "unsafe"}, {"sync.", "sync"}, {"driver.", "database/sql/driver"},
}

var rxTagPart = regexp.MustCompile("`[^`]*`")

func (c *wildCase) QSource(id int) string {
	var b strings.Builder
	for _, d := range c.Decls {
		b.WriteString(wildNum(d, id) + "\n")
	}
	fmt.Fprintf(&b, "type %s struct {\n", c.typeName(id))
	for _, f := range append([]string{c.Rel}, c.Fields...) {
		if f != "" {
			b.WriteString("\t" + wildNum(f, id) + "\n")
		}
	}
	fmt.Fprintf(&b, "}\n\ntype WQ%d = %s\n", id, c.typeName(id))
	body := b.String()
	plain := rxTagPart.ReplaceAllString(body, "")
	var h strings.Builder
	h.WriteString("package q\n\nimport (\n")
	for _, x := range wildImports {
		if regexp.MustCompile(`(^|[^\w.])` + regexp.QuoteMeta(x.use)).MatchString(plain) {
			if x.use == "inner." {
				h.WriteString("\tinner ")
			}
			fmt.Fprintf(&h, "\t%q\n", x.path)
		}
	}
	return h.String() + ")\n\n" + body
}

func wildNum(s string, id int) string { return strings.ReplaceAll(s, "R_@", fmt.Sprintf("R_%d", id)) }

func (c *wildCase) Inputs() int { return 1 }

func (c *wildCase) RunSource(id int) string {
	if c.filter() {
		return fmt.Sprintf("package main\n\nimport \"vhgen/q\"\n\nfunc init() {\n\treg(%d, 0, func(t *T) { _ = new(q.WQ%d) })\n}\n", id, id)
	}
	return fmt.Sprintf("package main\n\nimport \"vhgen/q\"\n\nfunc init() {\n\treg(%d, 0, func(t *T) { wild(t, new(q.WQ%d)) })\n}\n", id, id)
}

var wildFiles = map[string]string{
	"oth/oth.go": `package oth

type Rec struct {
	Id int    ` + "`sql:\"id\"`" + `
	T  string ` + "`sql:\"t\"`" + `
	x  int    ` + "`sql:\"n\"`" + `
}

type Str string
type Where struct {
	Id int    ` + "`sql:\"id\"`" + `
	t  string ` + "`sql:\"t\"`" + `
}
type Iter interface{ Do(*Rec) error }
type EH struct{}

func (EH) HandleError(err error) error { return err }
`,
	"oth/inner-pkg/x.go": `package inner

type Rec struct {
	Id int    ` + "`sql:\"id\"`" + `
	T  string ` + "`sql:\"t\"`" + `
}
type Time struct{ A int }
`,
}

// wildExtra is part of the runner.
const wildExtra = `package main

import (
	"context"
	"database/sql"
	"encoding/json"
	"reflect"
	"strings"
	"unsafe"

	"github.com/frk/gosql"
	"github.com/frk/gosql/filter"
	"github.com/lib/pq"
	"vhgen/oth"
	"vhgen/q"
)

type eh struct{}

func (eh) HandleError(err error) error { return err }

type eih struct{}

func (eih) HandleErrorInfo(i *gosql.ErrorInfo) error { return i.Error }

type iter struct{}

func (iter) Do(*q.Rec) error { return nil }

type oiter struct{}

func (oiter) Do(*oth.Rec) error { return nil }



// unfilled is set when a value could not be made.
var unfilled string

func wildFill(v reflect.Value, depth int) {
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	switch v.Type() {
	case reflect.TypeOf((*context.Context)(nil)).Elem():
		v.Set(reflect.ValueOf(context.Background()))
		return
	case reflect.TypeOf(json.RawMessage(nil)):
		v.SetBytes([]byte("1"))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(1)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(1)
	case reflect.String:
		v.SetString("1")
	case reflect.Ptr:
		if depth > 6 {
			return
		}
		x := reflect.New(v.Type().Elem())
		if v.Type().Elem().PkgPath() == "" || v.Type().Elem().Kind() != reflect.Struct || strings.HasPrefix(v.Type().Elem().PkgPath(), "vhgen") {
			wildFill(x.Elem(), depth+1)
		}
		v.Set(x)
	case reflect.Slice:
		x := reflect.MakeSlice(v.Type(), 2, 2)
		for i := 0; i < 2 && depth < 6; i++ {
			wildFill(x.Index(i), depth+1)
		}
		v.Set(x)
	case reflect.Array:
		for i := 0; i < v.Len() && i < 100 && depth < 6; i++ {
			wildFill(v.Index(i), depth+1)
		}
	case reflect.Map:
		k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
		if depth < 6 {
			wildFill(e, depth+1)
		}
		x := reflect.MakeMap(v.Type())
		if k.Comparable() {
			x.SetMapIndex(k, e)
		}
		v.Set(x)
	case reflect.Func:
		t := v.Type()
		v.Set(reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value {
			var out []reflect.Value
			for i := 0; i < t.NumOut(); i++ {
				out = append(out, reflect.Zero(t.Out(i)))
			}
			return out
		}))
	case reflect.Interface:
		for _, x := range []any{new(fltr), eh{}, eih{}, iter{}, oiter{}, 1} {
			if reflect.TypeOf(x).AssignableTo(v.Type()) {
				v.Set(reflect.ValueOf(x))
				return
			}
		}
		unfilled = v.Type().String()
	case reflect.Struct:
		if p := v.Type().PkgPath(); p != "" && !strings.HasPrefix(p, "vhgen") {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name != "_" {
				wildFill(v.Field(i), depth+1)
			}
		}
	}
}

type fltr struct{ filter.Constructor }

func wild(t *T, x interface {
	Exec(gosql.Conn) error
}) {
	unfilled = ""
	wildFill(reflect.ValueOf(x).Elem(), 0)
	// a zero value of an interface type can't be used
	t.Out.Vals["unfilled"] = unfilled
	c := &wildConn{Tx: t.Tx}
	err := x.Exec(c)
	t.Out.Vals["stmt"] = c.stmt
	if e, ok := err.(*pq.Error); ok {
		t.Out.Vals["code"] = string(e.Code)
	}
	t.Err(err)
}

type wildConn struct {
	*sql.Tx
	stmt string
}

func (c *wildConn) Exec(q string, a ...any) (sql.Result, error) {
	c.stmt = q
	return c.Tx.Exec(q, a...)
}
func (c *wildConn) Query(q string, a ...any) (*sql.Rows, error) {
	c.stmt = q
	return c.Tx.Query(q, a...)
}
func (c *wildConn) QueryRow(q string, a ...any) *sql.Row {
	c.stmt = q
	return c.Tx.QueryRow(q, a...)
}
func (c *wildConn) ExecContext(x context.Context, q string, a ...any) (sql.Result, error) {
	c.stmt = q
	return c.Tx.ExecContext(x, q, a...)
}
func (c *wildConn) QueryContext(x context.Context, q string, a ...any) (*sql.Rows, error) {
	c.stmt = q
	return c.Tx.QueryContext(x, q, a...)
}
func (c *wildConn) QueryRowContext(x context.Context, q string, a ...any) *sql.Row {
	c.stmt = q
	return c.Tx.QueryRowContext(x, q, a...)
}
`

type wildCol struct {
	name string
	gos  []string
}

var wildCols = []wildCol{
	{"id", []string{"int", "int64", "*int", "MyInt"}}, {"n", []string{"int", "*int", "int32"}}, {"m", []string{"int", "uint8"}}, {"big", []string{"int64", "uint"}},
	{"t", []string{"string", "*string", "MyStr", "[]byte", "sql.NullString", "sql.Null[string]", "Val", "MyBytes", "oth.Str"}}, {"u", []string{"string", "MyStr"}}, {"v", []string{"string"}}, {"c", []string{"string"}},
	{"ts", []string{"time.Time", "*time.Time", "sql.NullTime"}}, {"d", []string{"time.Time"}}, {"arr", []string{"[]string", "MyStrs", "[]*string"}}, {"ia", []string{"[]int", "[2]int"}},
	{"j", []string{"any", "map[string]any", "JSONer", "struct{ A int }", "json.RawMessage", "[]byte", "Rec", "*Rec", "Lst", "Mp", "*Node"}}, {"jj", []string{"any", "json.RawMessage"}}, {"xx", []string{"any", "[]byte"}}, {"fts", []string{"[]string", "string"}},
	{"e", []string{"string", "MyStr"}}, {"dom", []string{"string"}}, {"comp", []string{"string", "struct{ A int }"}}, {"num", []string{"float64", "string", "big.Int", "*big.Float"}}, {"f8", []string{"float64"}}, {"flag", []string{"bool", "MyBool"}},
	{"uid", []string{"string", "[16]byte"}}, {"ip", []string{"net.IP", "net.IPNet", "string"}}, {"p", []string{"[2]float64"}}, {"bx", []string{"[2][2]float64"}}, {"hs", []string{"map[string]string", "map[string]*string"}}, {"b", []string{"[]byte", "string"}}, {"bt", []string{"bool", "int"}}, {"b3", []string{"string", "[]bool"}},
	{"rng", []string{"[2]int", "[2]*int"}}, {"tr", []string{"[2]time.Time"}}, {"gen", []string{"int"}}, {"ida", []string{"int"}}, {"Mixed", []string{"string"}}, {"select", []string{"string"}}, {"nosuch", []string{"string"}},
	{"a", []string{"int"}}, {"z", []string{"string"}}, {"cnt", []string{"int"}}, {"T", []string{"string"}}, {"name", []string{"string"}}, {"ctid", []string{"string"}}, {"xmin", []string{"string", "uint32"}},
	{"dtxt", []string{"string", "*string", "MyStr", "[]byte"}}, {"darr", []string{"[]string", "MyStrs", "string", "[]*string"}}, {"djson", []string{"any", "json.RawMessage", "JSONer", "[]byte", "string"}}, {"dnn", []string{"string", "*string", "oth.Str"}}, {"comps", []string{"string", "[]string"}}, {"es", []string{"[]string", "string", "MyStrs"}}, {"dints", []string{"[]int", "string"}},
	{"mr", []string{"string", "[][2]int", "*string"}}, {"iv", []string{"string", "time.Duration", "int64"}}, {"nm", []string{"string", "*string"}}, {"oo", []string{"uint32", "int64", "string"}}, {"cc", []string{"string", "byte", "rune", "[]byte"}}, {"m2", []string{"[][]int", "[]int", "string"}}, {"mny", []string{"int64", "string", "float64"}},
	{"bits", []string{"[]string", "[][]bool", "[]int"}}, {"vb", []string{"string", "[]bool", "[]byte", "int64"}}, {"rngs", []string{"[][2]int", "string"}}, {"lq", []string{"string", "[]byte"}}, {"mood", []string{"string", "MyStr"}}, {"extra", []string{"string", "*string"}},
}

// columns of the other relations
var wildRelCols = map[string][]string{
	"wl_t": {"id", "dtxt", "darr", "djson", "dnn", "comps", "es", "dints", "mr", "iv", "nm", "oo", "cc", "m2", "mny", "bits", "vb", "rngs", "lq", "t"}, "wl_x": {"id", "t", "mood"}, "wl_kid": {"id", "t", "n", "extra"},
	"wl_b": {"id", "t", "ts", "flag", "a_id"}, "other.wl_o": {"id", "t", "n"}, "other.wl_b": {"id", "z"}, `Upper`: {"id", "T"}, "upper": {"id", "T"}, "WL_B": {"id", "t"}, "Other.wl_o": {"id", "t"}, "user": {"id", "name"}, "wl_nopk": {"id", "t", "n"}, "wl_pk2": {"a", "b", "c", "n"},
	"wl_part": {"id", "t"}, "wl_part1": {"id", "t"}, "wl_empty": {"id"}, "wl_v": {"id", "n", "t"}, "wl_agg": {"n", "cnt", "t"}, "wl_m": {"id", "n", "t"}, "wl_seq": {"last_value"}, "pg_class": {"relname"}, "nosuch": {"id"},
}

// wildReadOnly are relations that PostgreSQL does not write to.
var wildReadOnly = map[string]bool{"wl_seq": true, "wl_m": true, "wl_agg": true, "pg_class": true}

var wildTypes = []string{
	"int", "string", "*string", "**string", "bool", "[]int", "[]string", "[3]int", "float64", "any", "interface{}", "map[string]string", "chan int", "func()", "func() error", "complex128", "uintptr", "unsafe.Pointer", "struct{ A int }", "struct{}", "[]struct{ A int }",
	"time.Time", "*time.Time", "context.Context", "*context.Context", "Ctx", "gosql.ErrorHandler", "gosql.ErrorInfoHandler", "*gosql.ErrorHandler", "EH", "*EH", "EHP", "*EHP", "EIH", "*EIH", "oth.EH", "gosql.Filter", "*gosql.Filter", "gosql.FilterConstructor", "filter.Constructor", "*filter.Constructor", "filter.Constructor",
	"error", "Stringer", "MyInt", "MyBytes", "MyTime", "Gen[int]", "*Gen[string]", "sql.NullString", "json.RawMessage", "sync.Mutex", "url.URL", "big.Int", "gosql.Conn", "gosql.ErrorInfo", "inner.Time", "Wh", "*Wh", "oth.Where", "On", "Rec", "*Rec", "[]Rec", "[]*Rec", "driver.Value", "Lst", "Mp", "*Node",
}

var wildRelTypes = []string{
	"*Rec", "*Rec", "[]*Rec", "[]*Rec", "Rec", "[]Rec", "*RecN", "[]*RecN", "RecN", "*RecT", "[]RecT", "*RecFull", "[]*RecFull", "*RecPk2", "[]*RecPk2", "*RecQual", "[]RecQual", "*RecEmpty", "RecEmpty", "*RecNoTags", "*RecNest", "[]*RecNest", "RecNest", "*RecEmb", "[]RecEmb", "*RecScan", "[]*RecScan", "func(*RecScan) error",
	"Alias", "*Alias", "[]Alias", "RecDef", "*RecDef", "Recs", "*Recs", "RecPtr", "[]RecPtr", "Gen[int]", "*Gen[int]", "[]Gen[int64]", "*Rcv", "*Node", "[]Node", "Lst", "[]error", "**Rec", "[]**Rec", "*[]Rec", "[][]Rec", "map[string]Rec", "chan Rec", "*oth.Rec", "[]*oth.Rec", "oth.Rec", "*inner.Rec", "[]inner.Rec",
	"func(*Rec) error", "func(Rec) error", "func(*Rec)", "func(Rec, int) error", "func(...*Rec) error", "Iter", "Iter2", "IterBad", "IterFn", "*Iter", "oth.Iter", "interface{ Do(*Rec) error }", "interface{}", "int", "string", "bool", "error", "time.Time", "*time.Time", "struct{}",
	"struct {\n\t\tId int `sql:\"id\"`\n\t\tT string `sql:\"t\"`\n\t}", "*struct {\n\t\tId int `sql:\"id\"`\n\t}", "[]struct {\n\t\tId int `sql:\"id\"`\n\t}", "gosql.Relation", "gosql.Column", "*R_@", "[]*R_@", "R_@", "[]R_@", "*R_@", "[]*R_@", "R_@", "[]R_@", "func(*R_@) error", "*R_@", "[]*R_@",
}

// wildRand draws evenly; rapid favours small numbers, which makes the rare things common.
type wildRand struct{ *rand.Rand }

func (t wildRand) rng(a, b int) int { return a + t.Intn(b-a+1) }

func wpick(t wildRand, l ...string) string { return l[t.Intn(len(l))] }

func chance(t wildRand, percent int) bool { return t.rng(1, 100) <= percent }

// wildGen draws a case.
func wildGen(t wildRand) *wildCase {
	c := new(wildCase)
	c.Name = wpick(t, "Select", "Select", "Select", "Insert", "Insert", "Update", "Update", "Delete", "Delete", "Filter", "select", "insert", "SELECT", "filter", "DeleteSome")
	kind := strings.ToLower(c.Name[:6])
	rel := "wl_a"
	if chance(t, 12) {
		rel = "wl_t"
	} else if chance(t, 30) {
		rel = wpick(t, sortedKeys(wildRelCols)...)
		for kind != "select" && kind != "filter" && wildReadOnly[rel] {
			rel = wpick(t, sortedKeys(wildRelCols)...)
		}
	}
	cols := wildRelCols[rel]
	if cols == nil {
		for _, x := range wildCols[:36] {
			cols = append(cols, x.name)
		}
	}
	alias := ""
	if chance(t, 70) {
		alias = wpick(t, "a", "a", "a", "a", "a", "a", "a", "a", "x", "b", "A", "user", "wl_b", "rel", "Excluded")
	}
	q := []string{"", "", "", rel[strings.LastIndexByte(rel, '.')+1:]}
	if alias != "" {
		q = []string{"", alias, alias, alias, alias, alias}
	}
	joined := false
	col := func() string {
		x := wpick(t, cols...)
		if chance(t, 4) {
			x = wpick(t, "nosuch", "t t", "", "*", "ctid", "true", "1", "T", "current_date", "a.b.c", "\\\"t\\\"", "t'", "é", "tableoid")
		}
		if joined && chance(t, 25) {
			return "b." + wpick(t, wildRelCols["wl_b"]...)
		}
		if y := wpick(t, q...); y != "" {
			return y + "." + x
		}
		return x
	}
	bare := func() string {
		if chance(t, 12) {
			return col()
		}
		return wpick(t, cols...)
	}
	colList := func() string {
		var l []string
		for i := t.rng(1, 3); i > 0; i-- {
			l = append(l, bare())
		}
		return strings.Join(l, ",")
	}
	goFor := func(col string) string {
		if chance(t, 15) {
			return wpick(t, wildTypes...)
		}
		col = col[strings.LastIndexByte(col, '.')+1:]
		for _, x := range wildCols {
			if x.name == col {
				return wpick(t, x.gos...)
			}
		}
		return "string"
	}
	relTag := rel
	if alias != "" {
		relTag += ":" + alias
	}
	if chance(t, 3) {
		relTag = wpick(t, "", "-", "wl_a:", ":a", "wl_a a", "wl_a:a:b", "a.b.c:d", "wl_a,x", "pg_catalog.pg_class:c", "public.wl_a:a")
	}
	name := wpick(t, "Rel", "Rel", "Rel", "Rel", "Records", "rel", "Count", "Exists", "NotExists", "_", "Where", "Result", "Limit", "err", "c", "i", "queryString")
	typ := wpick(t, wildRelTypes...)
	switch {
	case name == "Count" && chance(t, 90):
		typ = wpick(t, "int", "int64", "uint8", "*int", "MyInt")
	case strings.HasSuffix(name, "xists") && chance(t, 90):
		typ = wpick(t, "bool", "bool", "MyBool")
	case name == "_":
		typ = "gosql.Relation"
	case kind == "delete" && chance(t, 50):
		name, typ = "_", "gosql.Relation"
	case chance(t, 70):
		typ = wpick(t, "*R_@", "[]*R_@", "R_@", "[]R_@", "*R_@", "[]*R_@", "*Rec", "[]*Rec", "*RecN")
	}
	c.Rel = fmt.Sprintf("%s %s `rel:\"%s\"`", name, typ, relTag)
	if chance(t, 1) {
		c.Rel = ""
	}

	// a record type
	record := func(nm string) string {
		var b strings.Builder
		gen := ""
		if chance(t, 2) {
			gen = "[T any]"
		}
		fmt.Fprintf(&b, "type %s%s struct {\n", nm, gen)
		n := t.rng(1, 5)
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			x := bare()
			if seen[x] && chance(t, 90) {
				continue
			}
			seen[x] = true
			g := goFor(x)
			opts := ""
			for chance(t, 25) {
				opts += "," + wpick(t, "ro", "wo", "xf", "nn", "nullempty", "add", "default", "coalesce", "coalesce(", "coalesce()", "-r", "-w", "+i", "-u", "-N", "+N", "json", "bogus", "", "ro,wo", "-rwsfiu")
			}
			fn := fmt.Sprintf("F%d", i)
			if chance(t, 5) {
				fn = wpick(t, "_", "f", "x", "v", "err", "String", "Error", "i", "q", "queryString", "nn", "pos")
				fn += fmt.Sprint(i)
			}
			fmt.Fprintf(&b, "\t%s %s `sql:\"%s%s\"`\n", fn, g, x, opts)
		}
		if chance(t, 10) {
			fmt.Fprintf(&b, "\t%s\n", wpick(t, "Sub `sql:\">\"`", "*SubP `sql:\">\"`", "S struct {\n\t\tT string `sql:\"t\"`\n\t} `sql:\">\"`", "S *Sub `sql:\">x_\"`", "S []Sub `sql:\">\"`", "S Gen[int] `sql:\">\"`", "S Alias `sql:\">\"`", "S RecPtr `sql:\">\"`", "S oth.Rec `sql:\">\"`", "S time.Time `sql:\">\"`", "S map[string]Sub `sql:\">\"`", "S **Sub `sql:\">\"`", "S *Node `sql:\">\"`", "S *Gen[int] `sql:\">\"`", "S Gen2[*Rec, oth.Str] `sql:\">\"`", "S *Gen2[string, oth.Str] `sql:\">\"`"))
		}
		b.WriteString("}\n")
		return b.String()
	}
	if strings.Contains(typ, "R_@") {
		c.Decls = append(c.Decls, record("R_@"))
	}

	op := func() string {
		return wpick(t, " =", " =", " <>", " <", " >=", " ~", " !~*", " isin", " notin", " isdistinct", " islike", " notsimilar", " isnull", " notnull", " istrue", " isbetween", " notbetweensym", " = any", " <> all", " > some", " =any", " is", " not", " isnot", " == ", " isnulls")
	}
	literal := func() string {
		return wpick(t, "1", "'x'", "true", "NULL", "now()", "lower('x')", "1;", "'x", "ARRAY[1]", "(SELECT 1)", "b.t", "--", "current_date", "$1", "$2", "'a''b'", "1 + 1", "%s", "E'\\\\n'")
	}
	var whereItem func(depth int) string
	bfield := func(xy string) string {
		if chance(t, 40) {
			return fmt.Sprintf("_ gosql.Column `sql:\"%s,%s\"`", col(), xy)
		}
		return fmt.Sprintf("%s %s `sql:\"%s\"`", strings.ToUpper(xy), wpick(t, "int", "string", "time.Time", "*int", "any"), xy)
	}
	whereItem = func(depth int) string {
		bl := ""
		if chance(t, 40) {
			bl = " bool:\"" + wpick(t, "or", "and", "OR", "xor", " or ", "") + "\""
		}
		fn := "W" + fmt.Sprint(t.rng(0, 999))
		switch t.rng(0, 11) {
		case 0, 1, 2, 3:
			x := col()
			o := ""
			if chance(t, 50) {
				o = op()
			}
			g := goFor(x)
			if strings.Contains(o, "in") || strings.Contains(o, " a") || strings.Contains(o, "some") {
				g = "[]" + g
			}
			fnc := ""
			if chance(t, 15) {
				fnc = "," + wpick(t, "@lower", "@upper", "@abs", "@wl_fn", "@nosuch", "@", "lower", "@LOWER", "@to_tsvector")
			}
			return fmt.Sprintf("%s %s `sql:\"%s%s%s\"%s`", fn, g, x, o, fnc, bl)
		case 4, 5:
			return fmt.Sprintf("_ gosql.Column `sql:\"%s%s %s\"%s`", col(), op(), wpick(t, col(), literal()), bl)
		case 6, 7:
			return fmt.Sprintf("_ gosql.Column `sql:\"%s%s\"%s`", col(), wpick(t, "", " isnull", " notnull", " istrue", " isunknown", " notfalse", " ="), bl)
		case 8, 9:
			return fmt.Sprintf("%s struct {\n\t\t%s\n\t\t%s\n\t} `sql:\"%s %s\"%s`", fn, bfield("x"), bfield("y"), col(), wpick(t, "isbetween", "notbetween", "isbetweensym", "notbetweenasym", "between"), bl)
		case 10:
			if depth > 2 {
				return fn + " int"
			}
			s := fn + " struct {\n"
			for i := t.rng(0, 3); i > 0; i-- {
				s += "\t\t" + whereItem(depth+1) + "\n"
			}
			return s + "\t} `sql:\">\"" + bl + "`"
		default:
			return wpick(t, "X int", "x string `sql:\"-\"`", "_ gosql.Relation `sql:\"wl_b:b\"`", "_ int `sql:\"t\"`", "Wh `sql:\">\"`", "*Wh `sql:\">\"`", "Q *Wh `sql:\">\"`", "oth.Where `sql:\">\"`", "O oth.Where `sql:\">\"`", "_ gosql.OrderBy `sql:\"t\"`", "_ gosql.Column", "Id int `sql:\"id\"`", "N int `sql:\"n isnull\"`", "id int `sql:\"id\"`", "_ gosql.Column `sql:\"t isnull,x\"`")
		}
	}
	joinItem := func() string {
		on := ""
		for i := t.rng(0, 2); i > 0; i-- {
			on += wpick(t, ",", ",", ";") + wpick(t, "b.id = a.id", "b.a_id = a.id", "b.id = "+col(), "b.t notnull", "b.flag", "id = a.id", "b.t = 'x'", "a.id = b.id", "b.id = any a.ia", "b.id isnull", "b.nosuch = 1", "b.id = 1", "b.ts < now()", "b.id = c.id")
		}
		return fmt.Sprintf("_ gosql.%s `sql:\"%s%s\"`", wpick(t, "LeftJoin", "RightJoin", "FullJoin", "CrossJoin", "InnerJoin", "Relation"), wpick(t, "wl_b:b", "wl_b:b", "wl_b:b", "other.wl_b:b", "wl_b", "wl_a:b", "nosuch:b", "wl_b:a", "other.wl_o:c", "wl_v:b", "wl_b:B"), on)
	}
	ocItem := func() string {
		return wpick(t, "_ gosql.Column `sql:\""+colList()+"\"`", "_ gosql.Column `sql:\"id\"`", "_ gosql.Column `sql:\"n,m\"`", "_ gosql.Column `sql:\"m,n\"`", "_ gosql.Column `sql:\"uid\"`", "_ gosql.Index `sql:\""+wpick(t, "wl_a_lower", "wl_a_part", "wl_a_incl", "wl_a_plain", "wl_a_pkey", "wl_a_nm", "wl_b_pkey", "nosuch", "")+"\"`",
			"_ gosql.Constraint `sql:\""+wpick(t, "wl_a_nm", "wl_a_uid", "wl_a_pkey", "wl_a_def", "wl_a_chk", "wl_a_excl", "wl_b_pkey", "nosuch")+"\"`", "_ gosql.Column `sql:\"big,f8\"`", "_ gosql.Column `sql:\"num\"`", "X int")
	}
	ocAction := func() string {
		return wpick(t, "_ gosql.Ignore", "_ gosql.Ignore", "_ gosql.Update `sql:\"*\"`", "_ gosql.Update `sql:\"t\"`", "_ gosql.Update `sql:\""+colList()+"\"`", "_ gosql.Update")
	}
	block := func(name string, n int, f func() string) string {
		s := name + " struct {\n"
		for ; n > 0; n-- {
			s += "\t\t" + f() + "\n"
		}
		return s + "\t}"
	}
	fields := map[string]func() string{
		"where": func() string {
			return block(wpick(t, "Where", "Where", "where"), t.rng(0, 4), func() string { return whereItem(0) })
		},
		"join": func() string {
			return block(wpick(t, "Join", "Join", "From", "Using"), t.rng(1, 2), joinItem)
		},
		"from":  func() string { return block("From", 1, func() string { return "_ gosql.Relation `sql:\"wl_b:b\"`" }) },
		"using": func() string { return block("Using", 1, func() string { return "_ gosql.Relation `sql:\"wl_b:b\"`" }) },
		"where2": func() string {
			return wpick(t, "Where Wh", "Where *Wh", "Where oth.Where", "Where []Wh", "Where int", "Where Gen[int]", "Where struct{}", "Where Rec")
		},
		"orderby": func() string {
			return "_ gosql.OrderBy `sql:\"" + wpick(t, col(), "-"+col(), col()+":nullsfirst", "-"+col()+":nullslast,"+col(), "", ",", col()+":nulls", "--id", "-") + "\"`"
		},
		"limit": func() string {
			return wpick(t, "Limit int", "Limit uint `sql:\"5\"`", "Limit int64", "_ gosql.Limit `sql:\"3\"`", "_ gosql.Limit", "Limit string", "Limit *int", "Limit MyInt", "_ gosql.Limit `sql:\"-1\"`", "_ gosql.Limit `sql:\"99999999999999999999\"`", "_ gosql.Limit `sql:\"18446744073709551615\"`", "limit int8")
		},
		"offset": func() string {
			return wpick(t, "Offset int", "Offset uint16 `sql:\"1\"`", "_ gosql.Offset `sql:\"3\"`", "_ gosql.Offset `sql:\"0\"`", "Offset float64", "offset int")
		},
		"rows": func() string {
			return wpick(t, "RowsAffected int", "RowsAffected int64", "RowsAffected uint8", "rowsaffected int", "RowsAffected string", "RowsAffected MyInt")
		},
		"result": func() string {
			return "Result " + wpick(t, append([]string{"*Rec", "[]*Rec", "Rec", "[]Rec", "[]RecT", "*RecT", "func(*Rec) error", "Iter"}, wildRelTypes[:60]...)...)
		},
		"return":   func() string { return "_ gosql.Return `sql:\"" + wpick(t, "*", "*", colList(), "id", "t", "") + "\"`" },
		"all":      func() string { return wpick(t, "_ gosql.All", "_ gosql.All `sql:\"x\"`", "All int") },
		"default":  func() string { return "_ gosql.Default `sql:\"" + wpick(t, "*", colList(), "m", "u") + "\"`" },
		"force":    func() string { return "_ gosql.Force `sql:\"" + wpick(t, "*", colList(), "t", "gen") + "\"`" },
		"optional": func() string { return "_ gosql.Optional `sql:\"" + wpick(t, "*", colList(), "t") + "\"`" },
		"override": func() string {
			return "_ gosql.Override `sql:\"" + wpick(t, "user", "system", "SYSTEM", "x", "") + "\"`"
		},
		"oc": func() string {
			n := 0
			return block("OnConflict", t.rng(1, 2), func() string {
				if n++; n == 1 && chance(t, 70) {
					return ocItem()
				}
				return ocAction()
			})
		},
		"oc2": func() string {
			return block("OnConflict", 1, func() string { return ocItem() + "\n\t\t" + ocAction() })
		},
		"ctx": func() string {
			return wpick(t, "Ctx", "ctx", "c", "err") + " " + wpick(t, "context.Context", "Ctx", "*context.Context")
		},
		"eh": func() string {
			return wpick(t, "EH", "eh", "err", "c") + " " + wpick(t, "gosql.ErrorHandler", "gosql.ErrorInfoHandler", "EH", "*EH", "EHP", "*EHP", "EIH", "*EIH", "oth.EH", "*oth.EH")
		},
		"embed": func() string {
			return wpick(t, "Rec", "*Rec", "EH", "gosql.ErrorHandler", "context.Context", "gosql.Filter", "Wh", "Gen[int]", "oth.EH", "*EHP", "Where struct{ Id int `sql:\"id\"` }")
		},
		"filter": func() string {
			return wpick(t, "Filter", "F", "filter", "f") + " " + wpick(t, "gosql.Filter", "gosql.Filter", "gosql.Filter", "*gosql.Filter", "filter.Constructor")
		},
		"any": func() string {
			return wpick(t, "X", "Y", "x", "Rel2", "Count", "Where", "Join", "Result", "Limit", "OnConflict", "_", "From") + " " + wpick(t, wildTypes...) + wpick(t, "", " `sql:\"t\"`", " `rel:\"wl_b\"`", " `json:\"x\"`", " `sql:\">\"`")
		},
		"dir": func() string {
			return "_ gosql." + wpick(t, "All", "Column", "Constraint", "CrossJoin", "Default", "Force", "Ignore", "Index", "Limit", "Offset", "Optional", "OrderBy", "Override", "Relation", "Return", "TextSearch", "Update", "LeftJoin") + wpick(t, "", " `sql:\"t\"`", " `sql:\"*\"`", " `sql:\"id\"`", " `sql:\"wl_b:b\"`")
		},
		"text": func() string {
			return "_ gosql.TextSearch `sql:\"" + wpick(t, "fts", "a.fts", "t", "nosuch", "", " fts ", "T") + "\"`"
		},
		"ctor": func() string {
			return wpick(t, "", "", "FC ", "fc ") + wpick(t, "gosql.FilterConstructor", "gosql.FilterConstructor", "filter.Constructor", "*filter.Constructor") + wpick(t, "", "", " `filter:\"v2\"`")
		},
	}
	plan := map[string][]string{
		"select": {"where", "where", "where", "join", "orderby", "limit", "offset", "optional", "filter", "ctx", "eh", "where2"},
		"insert": {"oc2", "oc2", "oc", "return", "result", "rows", "default", "force", "override", "ctx", "eh"},
		"update": {"where", "where", "all", "from", "join", "return", "result", "rows", "default", "force", "filter", "ctx", "eh", "where2"},
		"delete": {"where", "where", "where", "all", "using", "join", "return", "result", "rows", "filter", "ctx", "eh", "where2"},
		"filter": {"ctor", "ctor", "ctor", "text"},
	}[kind]
	n := t.rng(0, 4)
	if kind == "update" && chance(t, 60) && !strings.HasPrefix(typ, "[]") {
		n++
	}
	used := map[string]bool{}
	if kind == "filter" && chance(t, 92) {
		c.Fields = append(c.Fields, wpick(t, "gosql.FilterConstructor", "filter.Constructor", "FC gosql.FilterConstructor"))
		used["ctor"] = true
	}
	if alias != "" && alias != "b" && chance(t, 25) {
		k := map[string]string{"select": "join", "update": "from", "delete": "using"}[kind]
		if k == "join" {
			c.Fields = append(c.Fields, "Join struct {\n\t\t_ gosql.LeftJoin `sql:\"wl_b:b,b.a_id = "+alias+"."+wpick(t, cols...)+"\"`\n\t}")
		} else if k != "" {
			c.Fields = append(c.Fields, fields[k]())
		}
		joined = true
		used["join"], used["from"], used["using"] = true, true, true
	}
	for i := 0; i < n; i++ {
		k := wpick(t, plan...)
		if chance(t, 12) {
			k = wpick(t, sortedKeys(fields)...)
		}
		if used[k] && !chance(t, 8) {
			continue
		}
		used[k] = true
		c.Fields = append(c.Fields, fields[k]())
	}
	return c
}

var rxWildRefusal = regexp.MustCompile(`%!|0x[0-9a-f]{6,}|<nil>|internal/(analysis|generator|postgres)|<no value>`)

type wildRes struct {
	err  error
	msg  string // the refusal
	bad  bool   // not well-typed Go
	stmt string
}

// wildSays reports whether a refusal says what is refused.
func wildSays(m string, c *wildCase, id int) bool {
	m = rxANSI.ReplaceAllString(m, "")
	return (strings.Contains(m, c.typeName(id)) || rxWildPlace.MatchString(m)) && !rxWildRefusal.MatchString(m)
}

// a place in one of the case's files, or in those of the types it is made of
var rxWildPlace = regexp.MustCompile(`/(q/(q\d+|base)|oth/oth|oth/inner-pkg/x)\.go:[1-9]\d*`)

var rxANSI = regexp.MustCompile("\x1b\\[[0-9;]*m")

// wildDecide judges cases.
func wildDecide(e *e2eEngine, all []*wildCase) []wildRes {
	out := make([]wildRes, len(all))
	ec := make([]e2eCase, len(all))
	for i := range all {
		ec[i] = all[i]
	}
	var idx []int
	var cs []e2eCase
	for i, ok := range e.wellTyped(ec) {
		if !ok {
			out[i].bad = true
			continue
		}
		idx = append(idx, i)
		cs = append(cs, ec[i])
	}
	if len(cs) == 0 {
		return out
	}
	var ridx []int
	var run []e2eCase
	for k, m := range e.verdicts(cs) {
		i := idx[k]
		out[i].msg = m
		switch {
		case strings.Contains(m, "goroutine ") || strings.Contains(m, "panic:"):
			// the CLI itself has the last word
			if m = e.verdict(e.r.TempDir()+"/v", all[i]); strings.Contains(m, "goroutine ") || strings.Contains(m, "panic:") {
				out[i].err = fmt.Errorf("the tool panics: %s", head(m, 2500))
			}
		case m != "" && !wildSays(m, all[i], k):
			if m = e.verdict(e.r.TempDir()+"/v", all[i]); m != "" && !wildSays(m, all[i], 0) {
				out[i].err = fmt.Errorf("the refusal does not say what is refused: %s", head(m, 1500))
			}
		case m == "":
			ridx = append(ridx, i)
			run = append(run, all[i])
		}
	}
	for len(run) > 0 {
		k := min(150, len(run))
		for j, res := range e.run(run[:k]) {
			i := ridx[j]
			switch {
			case res.Rejected != "":
				out[i].msg = res.Rejected
			case res.Compile != "":
				out[i].err = fmt.Errorf("the type is accepted, but the code does not compile: %s\n%s", tail(res.Compile, 600), res.Gen)
			case res.Out[0].Panic != "":
				if u, _ := res.Out[0].Vals["unfilled"].(string); u == "" {
					out[i].err = fmt.Errorf("the generated method panics: %s\n%s", res.Out[0].Panic, res.Gen)
				}
			default:
				o := res.Out[0]
				code, _ := o.Vals["code"].(string)
				out[i].stmt, _ = o.Vals["stmt"].(string)
				if o.Err != "" && code != "428C9" && !strings.Contains(o.Err, "FULL JOIN is only supported with") && (strings.HasPrefix(code, "42") || strings.HasPrefix(code, "0A") || strings.HasPrefix(code, "XX") || code == "" && rxTypeError.MatchString(o.Err)) {
					out[i].err = fmt.Errorf("the type is accepted, but its execution fails: %s %s\n%s", code, o.Err, res.Gen)
				}
			}
		}
		run, ridx = run[k:], ridx[k:]
	}
	return out
}

// wildFindings are the cases of the known findings; wildGen leaves them out.
var wildFindings = []struct {
	key string
	c   wildCase
}{
	{"array-records", wildCase{Name: "Select", Rel: "Rel [2]Rec `rel:\"wl_a:a\"`"}},
	{"array-records", wildCase{Name: "Insert", Rel: "Rel [2]*Rec `rel:\"wl_a:a\"`"}},
	{"pointer-to-unnamed-struct", wildCase{Name: "Select", Rel: "Rel []*R_@ `rel:\"wl_a:a\"`",
		Decls: []string{"type R_@ struct {\n\tId int `sql:\"id\"`\n\tS *struct {\n\tT string `sql:\"t\"`\n\t} `sql:\">\"`\n}\n"}}},
	{"record-named-like-a-variable", wildCase{Name: "Select", Rel: "Rel *row `rel:\"wl_a:a\"`",
		Decls: []string{"type row struct {\n\tId int `sql:\"id\"`\n}\n"}}},
}

// wildParts lists the case with one piece less.
func wildParts(c *wildCase) (out []*wildCase) {
	for i := range c.Fields {
		d := *c
		d.Fields = append(append([]string{}, c.Fields[:i]...), c.Fields[i+1:]...)
		out = append(out, &d)
	}
	lines := func(s string, set func(*wildCase, string)) {
		l := strings.Split(s, "\n")
		for i := 1; i < len(l)-1; i++ {
			if strings.Contains(l[i], "{") || strings.HasPrefix(strings.TrimSpace(l[i]), "}") {
				continue
			}
			d := *c
			d.Fields = append([]string{}, c.Fields...)
			d.Decls = append([]string{}, c.Decls...)
			set(&d, strings.Join(append(append([]string{}, l[:i]...), l[i+1:]...), "\n"))
			out = append(out, &d)
		}
	}
	for i, f := range c.Fields {
		lines(f, func(d *wildCase, s string) { d.Fields[i] = s })
	}
	for i, f := range c.Decls {
		lines(f, func(d *wildCase, s string) { d.Decls[i] = s })
	}
	return out
}

var rxWildNum = regexp.MustCompile(`(Q|_|q|\bF|\bW)\d+|\d+`)

func wildShape(err error) string {
	return rxWildNum.ReplaceAllString(head(strings.SplitN(err.Error(), "\n", 2)[0], 90), "#")
}

// wildShrink removes what isn't needed for a failure.
func wildShrink(e *e2eEngine, c *wildCase, err error) (*wildCase, error) {
	for round := 0; round < 12; round++ {
		cand := wildParts(c)
		if len(cand) == 0 {
			break
		}
		found := false
		for i, res := range wildDecide(e, cand) {
			if res.err != nil && wildShape(res.err) == wildShape(err) {
				c, err, found = cand[i], res.err, true
				break
			}
		}
		if !found {
			break
		}
	}
	return c, err
}

// wildSurvey writes a failure to a file by its shape, to look into many at once.
func wildSurvey(c *wildCase, err error) {
	h := fnv.New32a()
	h.Write([]byte(wildShape(err)))
	f, e := os.OpenFile(fmt.Sprintf("%s/%08x", os.Getenv("VH_SURVEY"), h.Sum32()), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	fw.InfraPanic(e)
	defer f.Close()
	fmt.Fprintf(f, "=== %s\n%s\n%s\n", wildShape(err), head(err.Error(), 1800), c.QSource(0))
}

func wildSub(r *fw.Run) fw.Sub {
	var e *e2eEngine
	open := func() {
		if e == nil {
			var db *sql.DB = r.DB("e2e_wild", wildSchema)
			_ = db
			e = newE2E(r, "e2e_wild")
			e.QExtra, e.Extra, e.Files = wildQ, wildExtra, wildFiles
		}
	}
	return &fw.Custom{
		Name: "types",
		Do: func(rep *fw.Reporter) {
			open()
			var fc []*wildCase
			for i := range wildFindings {
				fc = append(fc, &wildFindings[i].c)
			}
			for i, res := range wildDecide(e, fc) {
				if rep.Case(fc[i], res.msg == "", "known finding's case"); res.err != nil {
					rep.Finding(wildFindings[i].key, fc[i], res.err)
				}
			}
			n := r.N(6000, 60000)
			for k := 0; n > 0 && !rep.Failed(); k++ {
				m := min(n, 1000)
				n -= m
				var cs []*wildCase
				for i := 0; i < m; i++ {
					cs = append(cs, wildGen(wildRand{rand.New(rand.NewSource(int64(r.Seed*1000003) + int64(k*1000+i)))}))
				}
				res := wildDecide(e, cs)
				for i, c := range cs {
					if res[i].bad {
						rep.Label("not Go", 1)
						continue
					}
					l := []string{"kind " + strings.ToLower(c.Name[:6])}
					if res[i].msg != "" {
						l = append(l, "refused")
					} else {
						l = append(l, "accepted "+strings.ToLower(c.Name[:6]))
						for _, x := range []string{"WHERE", "JOIN", "ON CONFLICT", "RETURNING", "ORDER BY", "LIMIT", "OFFSET", "OVERRIDING", "BETWEEN", "USING", " FROM"} {
							if strings.Contains(res[i].stmt, x) {
								l = append(l, "statement with "+strings.TrimSpace(x))
							}
						}
					}
					rep.Case(c, res[i].msg == "", l...)
					if d := os.Getenv("VH_SURVEY"); d != "" && res[i].msg != "" {
						f, _ := os.OpenFile(d+"/refused", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
						fmt.Fprintf(f, "%s %s\n", c.Name, strings.SplitN(rxANSI.ReplaceAllString(res[i].msg, "")+"\n\n\n", "\n", 4)[:3])
						f.Close()
					}
					if res[i].err != nil && os.Getenv("VH_SURVEY") != "" {
						wildSurvey(c, res[i].err)
						continue
					}
					if res[i].err != nil && !rep.Failed() {
						c, err := wildShrink(e, c, res[i].err)
						rep.Fail(c, err)
					}
				}
			}
		},
		ReplayCase: func(raw json.RawMessage) error {
			open()
			c := new(wildCase)
			fw.InfraPanic(json.Unmarshal(raw, c))
			return wildDecide(e, []*wildCase{c})[0].err
		},
	}
}

func init() {
	fw.Register(&fw.Property{
		ID:   "P40",
		Rule: "a type counts as non-trivial when the tool accepts it, so that its code was compiled and its statement given to PostgreSQL",
		Subs: func(r *fw.Run) []fw.Sub { return []fw.Sub{wildSub(r)} },
	})
}
