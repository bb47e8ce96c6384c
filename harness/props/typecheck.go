package props

import (
	"database/sql"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/frk/gosql/vh/fw"

	"pgregory.net/rapid"
)

// P30: a condition that the generator accepts is one that PostgreSQL accepts: the
// code it makes of it compiles, and the statement passes PostgreSQL's parser and
// type checker, its arguments database/sql's. Documented combinations are accepted.

// tType is a column type of the tables.
type tType struct {
	Pg  string
	Lit string // a value
}

// the tables have a nullable column c_<type> and a not-null column n_<type> of each.
var tTypes = []tType{
	{"int2", "1"}, {"int4", "1"}, {"int8", "1"}, {"float4", "1"}, {"float8", "1"}, {"numeric", "1"}, {"money", "1"},
	{"bool", "t"}, {"text", "x"}, {"varchar", "x"}, {"varchar(1)", "x"}, {"char(1)", "x"}, {"char(3)", "x"}, {"bytea", "x"},
	{"date", "2001-02-03"}, {"time", "01:02:03"}, {"timetz", "01:02:03+00"}, {"timestamp", "2001-02-03"}, {"timestamptz", "2001-02-03"}, {"interval", "1 day"},
	{"uuid", "0e37df36-f698-11e6-8dd4-cb9ced3df976"}, {"json", "{}"}, {"jsonb", "{}"}, {"xml", "<a/>"}, {"inet", "1.2.3.4"}, {"cidr", "1.2.3.0/24"},
	{"macaddr", "08:00:2b:01:02:03"}, {"macaddr8", "08:00:2b:01:02:03:04:05"}, {"bit(1)", "1"}, {"bit(3)", "101"}, {"varbit", "101"},
	{"box", "(1,1),(0,0)"}, {"circle", "<(0,0),1>"}, {"line", "{1,2,3}"}, {"lseg", "[(0,0),(1,1)]"}, {"path", "[(0,0),(1,1)]"}, {"point", "(1,2)"}, {"polygon", "((0,0),(1,1))"},
	{"int4range", "[1,2)"}, {"int8range", "[1,2)"}, {"numrange", "[1,2)"}, {"daterange", "[2001-01-01,2001-01-02)"}, {"tsrange", "[2001-01-01,2001-01-02)"}, {"tstzrange", "[2001-01-01,2001-01-02)"},
	{"tsvector", "a b"}, {"tsquery", "a"}, {"t_enum", "red"},
	{"int2[]", "{1}"}, {"int4[]", "{1}"}, {"int8[]", "{1}"}, {"float4[]", "{1}"}, {"float8[]", "{1}"}, {"numeric[]", "{1}"}, {"bool[]", "{t}"}, {"text[]", "{x}"}, {"varchar[]", "{x}"}, {"uuid[]", "{}"}, {"date[]", "{}"}, {"timestamptz[]", "{}"},
	{"t_dtext", "x"}, {"t_dint", "1"}, {"t_djson", "{}"}, {"t_dpoint", "(1,2)"}, {"t_denum", "red"}, {"t_darr", "{1}"}, {"t_ddint", "1"}, {"t_dbool", "t"}, {"t_comp", "(1,x)"}, {"t_compj", "({})"}, {"name", "x"}, {"oid", "1"}, {"\"char\"", "x"},
	{"t_dint[]", "{1}"}, {"t_comp[]", "{}"}, {"interval[]", "{}"}, {"int4range[]", "{}"}, {"int4multirange", "{}"}, {"jsonb[]", "{}"}, {"xml[]", "{}"}, {"name[]", "{}"}, {"varchar(1)[]", "{x}"}, {"bit(1)[]", "{1}"},
	{"t_enum[]", "{red}"}, {"json[]", "{}"}, {"point[]", "{}"}, {"bytea[]", "{}"}, {"inet[]", "{}"},
}

func tName(pg string) string {
	return strings.NewReplacer("[]", "_arr", "(", "_", ")", "", "\"", "_").Replace(pg)
}

// tSchema creates the tables.
func tSchema() string {
	var b strings.Builder
	b.WriteString("CREATE TYPE t_enum AS ENUM ('red', 'blue');\nCREATE SCHEMA hidden;\n" +
		"CREATE DOMAIN t_dtext AS text;\nCREATE DOMAIN t_dint AS int4 CHECK (VALUE >= 0);\nCREATE DOMAIN t_djson AS json;\nCREATE DOMAIN t_dpoint AS point;\n" +
		"CREATE DOMAIN t_denum AS t_enum;\nCREATE DOMAIN t_darr AS int4[];\nCREATE DOMAIN t_ddint AS t_dint;\nCREATE DOMAIN t_dbool AS bool;\n" +
		"CREATE TYPE t_comp AS (a int4, b text);\nCREATE TYPE t_compj AS (a json);\n" +
		"CREATE FUNCTION hidden.tfn_hidden(int4) RETURNS int4 LANGUAGE sql IMMUTABLE AS 'SELECT $1';\n" +
		"CREATE FUNCTION hidden.tfn_visible(text) RETURNS text LANGUAGE sql IMMUTABLE AS 'SELECT $1';\n" +
		"CREATE FUNCTION tfn_visible(int4) RETURNS int4 LANGUAGE sql IMMUTABLE AS 'SELECT $1';\n")
	for _, t := range []string{"tca", "tcb"} {
		fmt.Fprintf(&b, "CREATE TABLE %s (id int4 PRIMARY KEY, val text", t)
		for _, x := range tTypes {
			fmt.Fprintf(&b, ", c_%s %s, n_%s %s NOT NULL", tName(x.Pg), x.Pg, tName(x.Pg), x.Pg)
		}
		b.WriteString(");\n")
		var vals []string
		for _, x := range tTypes {
			vals = append(vals, fmt.Sprintf("%s, %s", qlit(x.Lit), qlit(x.Lit)))
		}
		fmt.Fprintf(&b, "INSERT INTO %s VALUES (1, 'x', %s);\n", t, strings.Join(vals, ", "))
	}
	return b.String()
}

// tBound is a bound of a between condition.
type tBound struct {
	Col string `json:",omitempty"`
	Go  string `json:",omitempty"`
}

// tCase is a query with one condition.
type tCase struct {
	Kind   string // select, delete, update
	Place  string // where, join
	Form   string // field, column, literal, unary, between
	L      string // the column, with qualifier
	LT     string // its type
	Op     string
	Quant  string     `json:",omitempty"`
	Func   string     `json:",omitempty"`
	R      string     `json:",omitempty"` // column or literal
	RT     string     `json:",omitempty"` // the column's type
	Go     string     `json:",omitempty"`
	Bounds *[2]tBound `json:",omitempty"`
	Empty  bool       `json:",omitempty"` // the field's slice is empty
	Expect string     `json:",omitempty"` // "accept": part of the documented set, "refuse": names what doesn't exist
}

// tag is the condition as it's written in the tag.
func (c *tCase) tag() string {
	e := c.L
	if c.Op != "" {
		e += " " + c.Op
	}
	if c.Quant != "" {
		e += " " + c.Quant
	}
	if c.R != "" {
		e += " " + c.R
	}
	if c.Func != "" {
		e += ",@" + c.Func
	}
	return e
}

func (c *tCase) QSource(id int) string {
	var w strings.Builder
	switch {
	case c.Place == "join":
	case c.Form == "field":
		fmt.Fprintf(&w, "\t\tF %s `sql:\"%s\"`\n", c.Go, c.tag())
	case c.Form == "between":
		fmt.Fprintf(&w, "\t\tB struct {\n")
		for i, b := range c.Bounds {
			if b.Col != "" {
				fmt.Fprintf(&w, "\t\t\t_ gosql.Column `sql:\"%s,%s\"`\n", b.Col, "xy"[i:i+1])
			} else {
				fmt.Fprintf(&w, "\t\t\t%s %s `sql:\"%s\"`\n", "XY"[i:i+1], b.Go, "xy"[i:i+1])
			}
		}
		fmt.Fprintf(&w, "\t\t} `sql:\"%s\"`\n", c.tag())
	default:
		fmt.Fprintf(&w, "\t\t_ gosql.Column `sql:\"%s\"`\n", c.tag())
	}
	where := w.String()
	join := "tcb:b,b.id = a.id"
	if c.Place == "join" {
		join = "tcb:b," + c.tag()
	}
	var b strings.Builder
	name := fmt.Sprintf("%sQ%d", strings.ToUpper(c.Kind[:1])+c.Kind[1:], id)
	fmt.Fprintf(&b, "type %s struct {\n", name)
	switch c.Kind {
	case "select":
		fmt.Fprintf(&b, "\tRel []*TRec `rel:\"tca:a\"`\n\tJoin struct {\n\t\t_ gosql.LeftJoin `sql:\"%s\"`\n\t}\n", join)
	case "update":
		b.WriteString("\tRel *TRec `rel:\"tca:a\"`\n\tFrom struct {\n\t\t_ gosql.Relation `sql:\"tcb:b\"`\n\t}\n")
	case "delete":
		b.WriteString("\t_ gosql.Relation `rel:\"tca:a\"`\n\tUsing struct {\n\t\t_ gosql.Relation `sql:\"tcb:b\"`\n\t}\n")
	}
	if where != "" {
		fmt.Fprintf(&b, "\tWhere struct {\n%s\t}\n", where)
	}
	b.WriteString("}\n")
	src := b.String()
	var h strings.Builder
	h.WriteString("package q\n\nimport (\n")
	for _, x := range []struct{ use, path string }{{"gosql.", "github.com/frk/gosql"}, {"net.", "net"}, {"time.", "time"}, {" sql.", "database/sql"}} {
		if strings.Contains(strings.ReplaceAll(src, "]", " "), x.use) {
			fmt.Fprintf(&h, "\t%q\n", x.path)
		}
	}
	return h.String() + ")\n\n" + src
}

const tQExtra = `
type TRec struct {
	Val string ` + "`sql:\"val\"`" + `
}
`

func (c *tCase) Inputs() int { return 1 }

func (c *tCase) RunSource(id int) string {
	name := fmt.Sprintf("%sQ%d", strings.ToUpper(c.Kind[:1])+c.Kind[1:], id)
	rel, noFill := "", ""
	if c.Empty {
		noFill = "// "
	}
	if c.Kind == "update" {
		rel = "Rel: new(q.TRec)"
	}
	return fmt.Sprintf("package main\n\nimport (\n\t\"github.com/lib/pq\"\n\n\t\"vhgen/q\"\n)\n\nfunc init() {\n\treg(%d, 0, func(t *T) {\n\t\tx := &q.%s{%s}\n\t\t%sfill(x)\n\t\terr := x.Exec(t.Tx)\n\t\tif e, ok := err.(*pq.Error); ok {\n\t\t\tt.Out.Vals[\"code\"] = string(e.Code)\n\t\t}\n\t\tt.Err(err)\n\t})\n}\n", id, name, rel, noFill)
}

// tExtra is part of the runner.
const tExtra = `package main

import "reflect"

// fill gives slices two elements.
func fill(x any) {
	w := reflect.ValueOf(x).Elem().FieldByName("Where")
	if w.IsValid() {
		fillValue(w)
	}
}

func fillValue(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		if v.CanSet() {
			v.Set(reflect.MakeSlice(v.Type(), 2, 2))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.Name != "_" && f.PkgPath == "" {
				fillValue(v.Field(i))
			}
		}
	}
}
`

// ops of the conditions
var (
	tCmpOps  = []string{"=", "<>", "!=", "<", ">", "<=", ">="}
	tDistOps = []string{"isdistinct", "notdistinct"}
	tLikeOps = []string{"islike", "notlike", "isilike", "notilike", "issimilar", "notsimilar", "~", "~*", "!~", "!~*"}
	tInOps   = []string{"isin", "notin"}
	tBtwOps  = []string{"isbetween", "notbetween", "isbetweensym", "notbetweensym", "isbetweenasym", "notbetweenasym"}
	tUnary   = []string{"isnull", "notnull", "istrue", "nottrue", "isfalse", "notfalse", "isunknown", "notunknown"}
	tFuncs   = []string{"lower", "upper", "length", "abs", "md5", "trim", "to_json", "host", "area", "nosuchfunc", "max", "count", "unnest", "ntile", "lag", "masklen", "center", "npoints", "isfinite", "octet_length", "tfn_hidden", "tfn_visible", "tsvector_to_array", "json_typeof", "cardinality", "array_ndims", "isempty"}
	// functions that are documented to work: the column's type and those of the field
	tFuncFor = map[string][]string{
		"text": {"lower", "upper", "length", "md5", "btrim", "reverse", "ascii", "octet_length", "quote_literal"}, "varchar": {"lower", "upper", "md5", "length"},
		"int2": {"abs", "tfn_visible"}, "int4": {"abs", "tfn_visible"}, "int8": {"abs"}, "numeric": {"abs", "round", "floor", "sign"}, "float8": {"abs", "round", "sqrt"},
		"bytea": {"length", "octet_length", "md5"}, "inet": {"host", "masklen", "family"}, "point": {}, "box": {"area", "width", "center"}, "circle": {"area", "radius"}, "polygon": {"npoints"},
		"date": {"isfinite"}, "timestamptz": {"isfinite"}, "json": {"json_typeof"}, "jsonb": {"jsonb_typeof"},
	}
	tGos = []string{"int", "int8", "int64", "uint16", "float32", "float64", "string", "bool", "[]byte", "byte", "rune", "time.Time", "*int", "*string", "*time.Time", "**string",
		"[]int", "[]int32", "[]string", "[]float64", "[]bool", "[]time.Time", "[][]byte", "[]*string", "[][]string", "[3]int", "[2]float64", "[2][2]float64", "map[string]string", "map[string]*string",
		"net.IP", "net.IPNet", "[]net.IPNet", "interface{}", "sql.NullString", "[]sql.NullString", "complex64", "struct{ A int }", "func()", "chan int", "[16]byte", "[][16]byte", "net.HardwareAddr", "[2]int", "[2]time.Time"}
	tLits = []string{"1", "'x'", "'1'", "1.5", "true", "NULL", "'{}'", "'{}'::json", "'red'", "'red'::t_enum", "'1'::int4", "ARRAY[1,2]", "'{1}'::int4[]", "ARRAY['x']", "now()", "'2001-01-01'::date", "'(1,2)'::point", "1 + 1", "'x' || 'y'", "1::float8", "'x'::varchar", "'\\\\x00'::bytea", "current_date", "ROW(1,2)", "NULL::record", "nosuch", "(1", "1; SELECT 1", "'x'::hidden.nosuch", "count(*)", "ARRAY[NULL]", "'{}'::text[]", "a.c_text || 'x'"}
)

// tRefOp is an operator in SQL.
func tRefOp(op string) string {
	switch op {
	case "isin":
		return "IN"
	case "notin":
		return "NOT IN"
	}
	return refOp(op)
}

// ref is the condition in hand-written SQL, if the case is one that the
// documentation says is supported.
func (c *tCase) ref() string {
	switch c.Form {
	case "unary":
		return c.L + " " + tRefOp(c.Op)
	case "column", "literal":
		if c.Quant != "" {
			return c.L + " " + tRefOp(c.Op) + " " + strings.ToUpper(c.Quant) + " (" + c.R + ")"
		}
		return c.L + " " + tRefOp(c.Op) + " " + c.R
	case "field":
		if c.Quant != "" {
			return c.L + " " + tRefOp(c.Op) + " " + strings.ToUpper(c.Quant) + " ($1)"
		}
		if c.Op == "isin" || c.Op == "notin" {
			return c.L + " " + tRefOp(c.Op) + " ($1, $2)"
		}
		if c.Func != "" {
			return fmt.Sprintf("%s(%s) %s %s($1::%s)", c.Func, c.L, tRefOp(c.Op), c.Func, c.LT)
		}
		return c.L + " " + tRefOp(c.Op) + " $1"
	case "between":
		var s [2]string
		for i, b := range c.Bounds {
			s[i] = b.Col
			if s[i] == "" {
				s[i] = fmt.Sprintf("$%d", i+1)
			}
		}
		return c.L + " " + tRefOp(c.Op) + " " + s[0] + " AND " + s[1]
	}
	return ""
}

// tGen draws a case; natural lists the Go types that go with a column type.
func tGen(t *rapid.T, natural map[string][]string) *tCase {
	pick := func(l []string, what string) string { return rapid.SampledFrom(l).Draw(t, what) }
	pct := func(n int, what string) bool { return rapid.IntRange(0, 99).Draw(t, what) < n }
	typ := func(what string) string { return rapid.SampledFrom(tTypes).Draw(t, what).Pg }
	c := &tCase{Kind: pick([]string{"select", "select", "select", "delete", "update"}, "kind"), Place: "where"}
	c.Form = pick([]string{"field", "field", "field", "column", "column", "literal", "unary", "between"}, "form")
	if c.Kind == "select" && pct(20, "join") && c.Form != "field" && c.Form != "between" {
		c.Place = "join"
	}
	col := func(pg, qual, what string) string {
		return qual + "." + rapid.SampledFrom([]string{"c_", "n_"}).Draw(t, what) + tName(pg)
	}
	qual := "a"
	if c.Place == "join" || pct(20, "joined column") {
		qual = "b"
	}
	c.LT = typ("type")
	if pct(25, "text column") {
		c.LT = pick([]string{"text", "varchar", "char(3)", "varchar(1)"}, "text type")
	}
	if c.Form == "unary" && pct(50, "bool column") {
		c.LT = "bool"
	}
	c.L = col(c.LT, qual, "null")
	text := c.LT == "text" || strings.HasPrefix(c.LT, "varchar") || strings.HasPrefix(c.LT, "char(")
	op := func() string {
		switch {
		case pct(50, "cmp"):
			return pick(tCmpOps, "op")
		case text && pct(60, "like"):
			return pick(tLikeOps, "op")
		case pct(30, "distinct"):
			return pick(tDistOps, "op")
		case pct(50, "any like"):
			return pick(tLikeOps, "op")
		}
		return pick(tInOps, "op")
	}
	nat := natural[c.LT]
	goType := func(nats []string) string {
		if len(nats) > 0 && pct(65, "natural") {
			return pick(nats, "go")
		}
		return pick(tGos, "any go")
	}
	c.Empty = pct(10, "empty slices")
	switch c.Form {
	case "unary":
		c.Op = pick(tUnary, "op")
		if pct(10, "no op") {
			c.Op = ""
		}
		if (c.Op == "isnull" || c.Op == "notnull") && strings.Contains(c.L, ".c_") || c.Op != "isnull" && c.Op != "notnull" && c.LT == "bool" {
			c.Expect = "accept"
		}
	case "field":
		c.Op = op()
		if c.Op == "isin" || c.Op == "notin" {
			if len(nat) > 0 && pct(70, "natural") {
				c.Go = "[]" + pick(nat, "go")
			} else {
				c.Go = goType(natural[c.LT+"[]"])
			}
			break
		}
		if pct(15, "quantified") {
			c.Quant = pick([]string{"any", "some", "all"}, "quantifier")
			c.Go = goType(natural[c.LT+"[]"])
		} else {
			c.Go = goType(nat)
		}
		if fs := tFuncFor[c.LT]; len(fs) > 0 && pct(30, "func of the type") {
			c.Func = pick(fs, "func")
			if pct(70, "comparison") {
				c.Op = pick(tCmpOps, "op")
			}
		} else if pct(10, "func") {
			c.Func = pick(tFuncs, "func")
		}
		if c.Func == "" && contains(nat, c.Go) && c.Quant == "" && tDocumented(c) || c.Func != "" && contains(tFuncFor[c.LT], c.Func) && contains(nat, c.Go) && c.Quant == "" && contains(tCmpOps, c.Op) && c.Go != "[]byte" {
			c.Expect = "accept"
		}
	case "column":
		c.Op = op()
		c.RT = typ("right type")
		if pct(60, "same type") {
			c.RT = c.LT
		}
		if pct(15, "quantified") {
			c.Quant = pick([]string{"any", "some", "all"}, "quantifier")
			if pct(60, "array") && c.RT == c.LT {
				c.RT += "[]"
				if !tHas(c.RT) {
					c.RT = "int4[]"
				}
			}
		}
		c.R = col(c.RT, pick([]string{"a", "b"}, "right qualifier"), "right null")
		if c.Quant == "" && c.LT == c.RT && tDocumented(c) {
			c.Expect = "accept"
		}
		if pct(7, "unknown") {
			switch rapid.IntRange(0, 3).Draw(t, "unknown what") {
			case 0:
				c.R = "a.nosuch"
			case 1:
				c.R = "z.c_int4"
			case 2:
				if c.Place == "where" {
					c.L = "z.c_int4"
				} else {
					c.L = "b.nosuch"
				}
			case 3:
				c.L = qual + ".nosuch"
			}
			c.Expect = "refuse"
		}
	case "literal":
		c.Op = op()
		c.R = pick(tLits, "literal")
		for _, x := range tTypes {
			if x.Pg == c.LT && !strings.Contains(x.Pg, `"`) && pct(50, "typed") {
				c.R = "'" + x.Lit + "'::" + x.Pg
				if strings.ContainsAny(c.R, ",;") && c.Place == "join" {
					c.R = "1"
					break
				}
				if tDocumented(c) && !strings.ContainsAny(c.R, ",") {
					c.Expect = "accept"
				}
			}
		}
		if c.Expect == "" && pct(15, "quantified") {
			c.Quant = pick([]string{"any", "some", "all"}, "quantifier")
			c.R = pick([]string{"ARRAY[1,2]", "'{1}'::int4[]", "ARRAY['x']", "'{x}'::text[]", "'{}'::json[]", "1"}, "array literal")
		}
		if strings.ContainsAny(c.R, ",;") && c.Place == "join" {
			c.R, c.Quant = "1", ""
		}
	case "between":
		c.Op = pick(tBtwOps, "op")
		c.Bounds = &[2]tBound{}
		exp := true
		for i := range c.Bounds {
			if pct(50, "column bound") {
				pg := c.LT
				if !pct(70, "same type") {
					pg = typ("bound type")
					exp = false
				}
				c.Bounds[i].Col = col(pg, pick([]string{"a", "b"}, "bound qualifier"), "bound null")
			} else {
				c.Bounds[i].Go = goType(nat)
				exp = exp && contains(nat, c.Bounds[i].Go)
			}
		}
		if exp {
			c.Expect = "accept"
		}
	}
	return c
}

func tHas(pg string) bool {
	for _, x := range tTypes {
		if x.Pg == pg {
			return true
		}
	}
	return false
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// tDocumented reports whether an operator is one of those documented for the type.
func tDocumented(c *tCase) bool {
	return !contains(tInOps, c.Op) && (!contains(tLikeOps, c.Op) || c.LT == "text" || c.LT == "varchar")
}

// tNatural lists the Go types that go with the column types.
func tNatural() map[string][]string {
	out := map[string][]string{}
	for _, p := range wPairs() {
		if !p.Expect || p.Decl != "" {
			continue
		}
		pg := p.Pg
		if pg == "w_enum" {
			pg = "t_enum"
		}
		out[pg] = append(out[pg], p.Go)
	}
	for _, x := range tTypes {
		sort.Strings(out[x.Pg])
	}
	return out
}

var rxTypeError = regexp.MustCompile(`sql: converting argument|unsupported type|cannot convert`)

// refWorks reports whether PostgreSQL accepts the condition, and whether it can
// compare values of the type at all.
func (c *tCase) refWorks(db *sql.DB) bool {
	if strings.HasPrefix(c.LT, "t_comp") { // comparisons of rows depend on their values
		return false
	}
	const from = "SELECT 1 FROM tca AS a LEFT JOIN tcb AS b ON b.id = a.id WHERE "
	st, err := db.Prepare(from + c.ref())
	if err != nil {
		return false
	}
	st.Close()
	if c.Form != "unary" {
		op := tRefOp(c.Op)
		if c.Form == "between" {
			op = "<"
		}
		l := c.L
		if c.Func != "" {
			l = c.Func + "(" + l + ")"
		}
		if _, err := db.Exec(from + l + " " + op + " " + l); err != nil {
			return false
		}
	}
	return true
}

// tEmptyIn is the known finding empty-in-list.
var tEmptyIn = &tCase{Kind: "select", Place: "where", Form: "field", L: "a.n_int4", LT: "int4", Op: "isin", Go: "[]int", Empty: true}

// tSub is the sub-check.
func tSub(r *fw.Run) fw.Sub {
	var e *e2eEngine
	var db *sql.DB
	natural := tNatural()
	open := func() {
		if e == nil {
			db = r.DB("e2e_typecheck", tSchema())
			e = newE2E(r, "e2e_typecheck")
			e.QExtra = tQExtra
			e.Extra = tExtra
		}
	}
	// decide judges cases, refused ones included.
	decide := func(cs []*tCase) (errs []error, msgs []string) {
		errs = make([]error, len(cs))
		ec := make([]e2eCase, len(cs))
		for i := range cs {
			ec[i] = cs[i]
		}
		msgs = e.verdicts(ec)
		confirm := func(i int, err error) {
			// the CLI itself has the last word
			if m := e.verdict(e.r.TempDir()+"/v", cs[i]); (m == "") == (msgs[i] == "") {
				errs[i] = err
			}
		}
		var idx []int
		var run []e2eCase
		for i, m := range msgs {
			c := cs[i]
			switch {
			case strings.Contains(m, "goroutine ") || strings.Contains(m, "panic:"):
				confirm(i, fmt.Errorf("the generator panics: %s", head(m, 1500)))
			case m != "" && c.Expect == "accept":
				if c.refWorks(db) {
					confirm(i, fmt.Errorf("a condition that PostgreSQL accepts (%s) is refused: %s", c.ref(), m))
				}
			case m == "" && c.Expect == "refuse":
				confirm(i, fmt.Errorf("a condition on a relation or column that doesn't exist is accepted"))
			case m == "":
				idx = append(idx, i)
				run = append(run, c)
			}
		}
		for len(run) > 0 {
			k := min(150, len(run))
			for j, res := range e.run(run[:k]) {
				i := idx[j]
				switch {
				case res.Rejected != "":
					msgs[i] = res.Rejected
				case res.Compile != "":
					errs[i] = fmt.Errorf("the condition is accepted, but the code does not compile: %s\n%s", tail(res.Compile, 500), res.Gen)
				case res.Out[0].Panic != "":
					errs[i] = fmt.Errorf("the generated method panics: %s\n%s", res.Out[0].Panic, res.Gen)
				default:
					o := res.Out[0]
					code, _ := o.Vals["code"].(string)
					if o.Err != "" && (strings.HasPrefix(code, "42") || code == "" && rxTypeError.MatchString(o.Err)) {
						errs[i] = fmt.Errorf("the condition is accepted, but its execution fails: %s %s\n%s", code, o.Err, res.Gen)
					}
				}
			}
			run, idx = run[k:], idx[k:]
		}
		return errs, msgs
	}
	return &fw.Custom{
		Name: "conditions",
		Do: func(rep *fw.Reporter) {
			open()
			n := r.N(4000, 30000)
			for k := 0; n > 0 && !rep.Failed(); k++ {
				m := min(n, 400)
				n -= m
				cs := fw.Draws(r.Seed*31+uint64(k), m, func(t *rapid.T) *tCase { return tGen(t, natural) })
				if k == 0 {
					cs = append(cs, tEmptyIn)
				}
				errs, msgs := decide(cs)
				for i, c := range cs {
					labels := []string{"form " + c.Form, "kind " + c.Kind}
					if msgs[i] != "" {
						labels = append(labels, "refused")
					} else {
						labels = append(labels, "accepted "+c.Form)
					}
					rep.Case(c, msgs[i] == "" || c.Expect == "refuse", labels...)
					if errs[i] != nil && c.Empty && contains(tInOps, c.Op) && strings.Contains(errs[i].Error(), `42601 pq: syntax error at or near ")"`) {
						rep.Finding("empty-in-list", c, errs[i])
					} else if errs[i] != nil {
						rep.Fail(c, errs[i])
					}
				}
			}
		},
		ReplayCase: func(raw json.RawMessage) error {
			open()
			c := new(tCase)
			fw.InfraPanic(json.Unmarshal(raw, c))
			errs, _ := decide([]*tCase{c})
			return errs[0]
		},
	}
}

func init() {
	fw.Register(&fw.Property{
		ID:   "P30",
		Rule: "a query counts as non-trivial when the generator accepts it, so that its statement was given to PostgreSQL, or when it names a column or relation that doesn't exist",
		Subs: func(r *fw.Run) []fw.Sub { return []fw.Sub{tSub(r)} },
	})
}
