package props

import (
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/frk/gosql/vh/fw"

	"pgregory.net/rapid"
)

// P25: a column of any type that the generator accepts together with the type of
// a field is written and read by code that compiles and keeps the value. A value
// is stored by hand-written SQL, read by a generated select into a record, and
// stored by a generated insert or update into another table, where it has to be
// the same.

// wPair is a column type together with a Go type.
type wPair struct {
	Pg     string // column type
	Go     string // type of the field
	Decl   string `json:",omitempty"` // declaration the type needs, {T} stands for its name
	Expect bool   // the pair is part of the documented set
	rt     reflect.Type
	c      codec
}

// wCase is a pair with values.
type wCase struct {
	wPair
	Form string   // insert1, insertN, update1, updateN
	Vals []string // SQL expressions
}

// wNatives are the Go types that are written and read without a converter.
var wNatives = []struct {
	pg string
	c  func() codec
	gs []any
}{
	{"int2", func() codec { return numElem("int2") }, wNums},
	{"int4", func() codec { return numElem("int4") }, wNums},
	{"int8", func() codec { return numElem("int8") }, wNums},
	{"numeric", func() codec { return numElem("numeric") }, wNums},
	{"float4", func() codec { return numElem("float4") }, []any{float32(0), float64(0)}},
	{"float8", func() codec { return numElem("float8") }, []any{float32(0), float64(0)}},
	{"bool", boolElem, []any{false}},
	{"text", func() codec { return textElem("text") }, []any{"", []byte{}}},
	{"varchar", func() codec { return textElem("varchar") }, []any{"", []byte{}}},
	{"bytea", byteaElem, []any{[]byte{}}},
	{"date", dateElem, []any{tZero}},
	{"time", timeElem, []any{tZero}},
	{"timetz", timetzElem, []any{tZero}},
	{"timestamp", timestampElem, []any{tZero}},
	{"timestamptz", timestamptzElem, []any{tZero}},
	{"json", func() codec { return jsonElem("json") }, []any{[]byte{}}},
	{"jsonb", func() codec { return jsonElem("jsonb") }, []any{[]byte{}}},
	{"xml", xmlElem, []any{[]byte{}}},
}

// wTexts are column types whose values are read and written as text.
var wTexts = map[string][]string{
	"w_enum":     {"red", "dark green", "it's, \"blue\""},
	"w_dtext":    {"", "a", "it's, \"x\""},
	"w_dfull":    {"a", "it's", "{,}\\"},
	"w_dshort":   {"", "ab", "\\'"},
	"w_dtexts":   {"{a,b}", "{}", "{\"it's, \\\"x\\\"\",NULL}"},
	"varchar(1)": {"a", "é", "'", "\\", ","},
	"char(3)":    {"abc", "a b", "'\"{"},
	"varchar(5)": {"", "a", "it's ", "{,}\\"},
	"circle":     {"<(1,2),3>", "<(-0.5,1e+20),0.25>", "<(0,0),0>"},
	"circle[]":   {"{\"<(1,2),3>\"}", "{}", "{\"<(1,2),3>\",NULL}"},
	"interval":   {"1 day 02:03:04", "-1 years -2 mons +3 days", "00:00:00.000001"},
	"interval[]": {"{\"1 day 02:03:04\",00:00:01}", "{}"},
}

// listElem is a codec that draws texts from a list.
func listElem(sql string, texts []string) codec {
	return codec{
		SQL: sql,
		Gen: func(t *rapid.T, rt reflect.Type) reflect.Value {
			return reflect.ValueOf(rapid.SampledFrom(texts).Draw(t, "text"))
		},
		Lit: func(v reflect.Value) string { return qlit(v.String()) + "::" + sql },
	}
}

var tZero = reflect.Zero(timeType).Interface()

var wNums = []any{int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), float32(0), float64(0)}

// wPairs lists the documented pairs: those for which package pgsql has functions
// to write and to read, and those that need none.
func wPairs() (out []wPair) {
	seen := map[string]bool{}
	add := func(p wPair) {
		if k := p.Pg + "/" + p.Go; !seen[k] {
			seen[k] = true
			out = append(out, p)
		}
	}
	text := map[string]wPair{} // a codec of every column type
	for _, n := range wNatives {
		for _, g := range n.gs {
			rt := reflect.TypeOf(g)
			p := wPair{Pg: n.pg, Go: goTypeName(rt, "Uint8"), Expect: true, rt: rt, c: n.c()}
			if rt.Kind() != reflect.Uint8 {
				p.Go = goTypeName(rt, "")
			}
			add(p)
			if _, ok := text[n.pg]; !ok {
				text[n.pg] = p
			}
		}
	}
	var lists []string
	for n := range wTexts {
		lists = append(lists, n)
	}
	sort.Strings(lists)
	for _, n := range lists {
		p := wPair{Pg: n, Go: "string", Expect: true, rt: reflect.TypeOf(""), c: listElem(n, wTexts[n])}
		add(p)
		text[n] = p
	}
	for _, f := range pgRegistry {
		if f.from == nil || strings.HasPrefix(f.pg, "HStore") {
			continue // hstore isn't enabled
		}
		c, ok := codecFor(f)
		if !ok || strings.HasPrefix(c.SQL, `"char"`) {
			continue // see DESIGN.md
		}
		rt := reflect.TypeOf(f.from).In(0)
		p := wPair{Pg: c.SQL, Go: goTypeName(rt, f.name), Expect: true, rt: rt, c: c}
		if f.name == "Line:Float64Array3" || f.to == nil && f.pg != "Bit" {
			p.Expect = f.to != nil
		}
		add(p)
		if _, ok := text[c.SQL]; !ok {
			text[c.SQL] = p
		}
	}
	var names []string
	for n := range text {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, g := range []string{"string", "[]byte"} {
			if n == "bytea" && g == "string" {
				continue // the driver's text format
			}
			p := text[n]
			p.Go = g
			add(p)
		}
	}
	return out
}

// goTypeName is a type as it is written in source code, the generator
// tells uint8 from byte and int32 from rune.
func goTypeName(rt reflect.Type, name string) string {
	s := rt.String()
	if !strings.Contains(name, "Uint8") {
		s = strings.ReplaceAll(s, "uint8", "byte")
	}
	if strings.Contains(name, "Rune") {
		s = strings.ReplaceAll(s, "int32", "rune")
	}
	return s
}

// wVariants are variants of pairs that may be refused, but have to work if not.
func wVariants(ps []wPair) (out []wPair) {
	for _, p := range ps {
		q := p
		q.Expect = false
		if !strings.HasPrefix(p.Go, "*") {
			q.Go = "*" + p.Go
			typed := strings.Contains(" bool int2 int4 int8 float4 float8 date time timetz timestamp timestamptz ", " "+p.Pg+" ")
			if strings.HasPrefix(p.Pg, "json") && p.Go == "[]byte" || p.Pg == "xml" && p.Go == "[]byte" {
				continue // those are taken for values that are to be encoded
			}
			q.Expect = p.Expect && (p.Go == "bool" || p.Go == "string" || strings.Contains(" int int8 int16 int32 int64 uint uint16 uint32 uint64 float32 float64 time.Time ", " "+p.Go+" ")) && wNative(p)
			out = append(out, q)
			q.Expect = false
			if typed && (p.Go == "string" || p.Go == "[]byte") {
				continue // database/sql can't scan the driver's value
			}
			q.Decl, q.Go = "type {T} "+p.Go, "{T}"
			out = append(out, q)
			q.Go = "*{T}"
			out = append(out, q)
		}
	}
	return out
}

// wNative reports whether the pair is one that needs no converter.
func wNative(p wPair) bool {
	for _, n := range wNatives {
		if n.pg == p.Pg && p.Pg != "date" && p.Pg != "time" && p.Pg != "timetz" {
			for _, g := range n.gs {
				if reflect.TypeOf(g) == p.rt {
					return true
				}
			}
		}
	}
	return false
}

// values draws values of the pair's column type that its field type can hold.
func (p *wPair) values(t *rapid.T, n int) (out []string) {
	for try := 0; len(out) < n && try < 30; try++ {
		v := p.c.Gen(t, p.rt)
		if isNilable(v) && v.IsNil() {
			continue
		}
		if v.CanFloat() && p.Pg != "float4" && p.Pg != "float8" && math.Abs(v.Float()) > 1<<24 && p.rt.Kind() == reflect.Float32 {
			continue // not exact
		}
		if v.CanFloat() && p.Pg != "float4" && p.Pg != "float8" && math.Abs(v.Float()) > 1<<53 || v.CanUint() && v.Uint() > math.MaxInt64 {
			continue // not exact, and not supported by database/sql
		}
		l := p.c.Lit(v)
		if l == "" || strings.Contains(l, noLit) {
			continue
		}
		out = append(out, l)
	}
	return out
}

var wForms = []string{"insert1", "insertN", "update1", "updateN"}

// wTable is the name of the column type's tables.
func wTable(pg string) string {
	return "w_" + strings.NewReplacer("[]", "_arr", "(", "_", ")", "", `"`, "", " ", "_").Replace(pg)
}

func (c *wCase) typ(id int) (goType, decl string) {
	name := fmt.Sprintf("FQ%d", id)
	return strings.ReplaceAll(c.Go, "{T}", name), strings.ReplaceAll(c.Decl, "{T}", name)
}

func (c *wCase) QSource(id int) string {
	var b strings.Builder
	g, decl := c.typ(id)
	b.WriteString("package q\n\nimport (\n\t\"github.com/frk/gosql\"\n")
	for _, x := range []struct{ use, path string }{{"net.", "net"}, {"time.", "time"}, {"sql.", "database/sql"}} {
		if strings.Contains(g+" "+decl, x.use) {
			fmt.Fprintf(&b, "\t%q\n", x.path)
		}
	}
	fmt.Fprintf(&b, ")\n\n%s\n\ntype RecQ%d struct {\n\tId int `sql:\"id\"`\n\tN %s `sql:\"n\"`\n\tX %s `sql:\"x\"`\n}\n\n", decl, id, g, g)
	fmt.Fprintf(&b, "type SelectQ%d struct {\n\tRel []*RecQ%d `rel:\"%s_src:s\"`\n\t_ gosql.OrderBy `sql:\"id\"`\n}\n\n", id, id, wTable(c.Pg))
	kind, rel := "Insert", "*"
	if strings.HasPrefix(c.Form, "update") {
		kind = "Update"
	}
	if strings.HasSuffix(c.Form, "N") {
		rel = "[]*"
	}
	fmt.Fprintf(&b, "type %sQ%d struct {\n\tRel %sRecQ%d `rel:\"%s_dst:d\"`\n}\n", kind, id, rel, id, wTable(c.Pg))
	return b.String()
}

func (c *wCase) Inputs() int { return 1 }

func (c *wCase) RunSource(id int) string {
	var b strings.Builder
	tab := wTable(c.Pg)
	kind := "Insert"
	b.WriteString("package main\n\nimport \"vhgen/q\"\n\n")
	fmt.Fprintf(&b, "func init() {\n\treg(%d, 0, func(t *T) {\n\t\tstmts := []string{\n", id)
	n := 0
	null := "NULL"
	if (c.Pg == "line" || c.Pg == "w_enum") && !strings.Contains(c.Go, "[3]") {
		null = "" // has no value that stands in for NULL
	}
	for i, v := range c.Vals {
		w := c.Vals[(i+1)%len(c.Vals)]
		for _, row := range [][2]string{{v, w}, {null, v}} {
			if row[0] == "" {
				row[0] = v
			}
			n++
			fmt.Fprintf(&b, "\t\t\t%q,\n", fmt.Sprintf("INSERT INTO %s_src VALUES (%d, %s, %s)", tab, n, row[0], row[1]))
			if strings.HasPrefix(c.Form, "update") {
				kind = "Update"
				fmt.Fprintf(&b, "\t\t\t%q,\n", fmt.Sprintf("INSERT INTO %s_dst VALUES (%d, %s, %s)", tab, n, w, w))
			}
		}
	}
	b.WriteString("\t\t}\n\t\tfor _, s := range stmts {\n\t\t\tif _, err := t.Tx.Exec(s); err != nil {\n\t\t\t\tt.Out.Vals[\"bad\"] = s\n\t\t\t\tt.Err(err)\n\t\t\t\treturn\n\t\t\t}\n\t\t}\n")
	fmt.Fprintf(&b, "\t\tsel := &q.SelectQ%d{}\n\t\tif err := sel.Exec(t.Tx); err != nil {\n\t\t\tt.Out.Vals[\"step\"] = \"select\"\n\t\t\tt.Err(err)\n\t\t\treturn\n\t\t}\n", id)
	b.WriteString("\t\tfor _, r := range sel.Rel {\n\t\t\tt.Out.Rows[\"go\"] = append(t.Out.Rows[\"go\"], []string{gostr(r.N), gostr(r.X), zero(r.N), zero(r.X)})\n\t\t}\n")
	if !strings.HasPrefix(c.Go, "*") {
		// what NULL is read as is not necessarily written as NULL
		b.WriteString("\t\tfor i := range sel.Rel {\n\t\t\tif i%2 == 1 {\n\t\t\t\tsel.Rel[i].N = sel.Rel[i-1].N\n\t\t\t}\n\t\t}\n")
	}
	if strings.HasSuffix(c.Form, "N") {
		fmt.Fprintf(&b, "\t\tw := &q.%sQ%d{Rel: sel.Rel}\n\t\tif err := w.Exec(t.Tx); err != nil {\n\t\t\tt.Out.Vals[\"step\"] = \"write\"\n\t\t\tt.Err(err)\n\t\t\treturn\n\t\t}\n", kind, id)
	} else {
		fmt.Fprintf(&b, "\t\tfor _, r := range sel.Rel {\n\t\t\tw := &q.%sQ%d{Rel: r}\n\t\t\tif err := w.Exec(t.Tx); err != nil {\n\t\t\t\tt.Out.Vals[\"step\"] = \"write\"\n\t\t\t\tt.Out.Vals[\"row\"] = gostr(r.N) + \" \" + gostr(r.X)\n\t\t\t\tt.Err(err)\n\t\t\t\treturn\n\t\t\t}\n\t\t}\n", kind, id)
	}
	fmt.Fprintf(&b, "\t\tcompare(t, %q)\n\t})\n}\n", tab)
	return b.String()
}

// wExtra is part of the runner.
const wExtra = `package main

import (
	"encoding/json"
	"fmt"
	"reflect"
)

func gostr(v any) string {
	rv := reflect.ValueOf(v)
	for rv.IsValid() && rv.Kind() == reflect.Ptr && !rv.IsNil() {
		rv = rv.Elem()
	}
	if b, err := json.Marshal(v); err == nil && len(b) < 300 {
		return fmt.Sprintf("%T(%s)", v, b)
	}
	return fmt.Sprintf("%#v", v)
}

// zero reports whether a value is a zero or empty one.
func zero(v any) string {
	rv := reflect.ValueOf(v)
	if !rv.IsValid() || rv.IsZero() || rv.Kind() == reflect.Slice && rv.Len() == 0 {
		return "zero"
	}
	if x, ok := v.(interface{ IsZero() bool }); ok && x.IsZero() {
		return "zero"
	}
	return ""
}

func compare(t *T, tab string) {
	rows, err := t.Tx.Query("SELECT s.id, COALESCE(s.n::text, '<null>'), COALESCE(d.n::text, '<null>'), s.x::text, COALESCE(d.x::text, '<null>'), d.id IS NULL FROM " + tab + "_src s LEFT JOIN " + tab + "_dst d USING (id) ORDER BY s.id")
	if err != nil {
		t.Err(err)
		return
	}
	defer rows.Close()
	for rows.Next() {
		r := make([]string, 6)
		if err := rows.Scan(&r[0], &r[1], &r[2], &r[3], &r[4], &r[5]); err != nil {
			t.Err(err)
			return
		}
		t.Out.Rows["db"] = append(t.Out.Rows["db"], r)
	}
}
`

// wSchema creates the tables.
func wSchema(ps []wPair) string {
	var b strings.Builder
	var labels []string
	for _, l := range wTexts["w_enum"] {
		labels = append(labels, qlit(l))
	}
	fmt.Fprintf(&b, "CREATE TYPE w_enum AS ENUM (%s);\nCREATE DOMAIN w_dtext AS text;\nCREATE DOMAIN w_dfull AS w_dtext CHECK (VALUE <> '');\n"+
		"CREATE DOMAIN w_dshort AS varchar(5);\nCREATE DOMAIN w_dtexts AS text[];\n", strings.Join(labels, ", "))
	seen := map[string]bool{}
	for _, p := range ps {
		if seen[p.Pg] {
			continue
		}
		seen[p.Pg] = true
		for _, s := range []string{"src", "dst"} {
			fmt.Fprintf(&b, "CREATE TABLE %s_%s (id int4 PRIMARY KEY, n %s, x %s NOT NULL);\n", wTable(p.Pg), s, p.Pg, p.Pg)
		}
	}
	return b.String()
}

// wZeros are the values that may be stored as NULL, if the field isn't a pointer.
var wZeros = map[string]bool{"": true, "{}": true, "(,)": true, "0": true, "false": true, "null": true, "(0,0),(0,0)": true, "<(0,0),0>": true,
	"[(0,0),(0,0)]": true, "((0,0))": true, "(0,0)": true, "$0.00": true, "00:00:00": true, "00:00:00+00": true,
	"00000000-0000-0000-0000-000000000000": true, "0.0.0.0/0": true, "0.0.0.0": true, "00:00:00:00:00:00": true,
	"00:00:00:00:00:00:00:00": true, "0001-01-01": true, "0001-01-01 00:00:00": true}

// judge judges a case that ran.
func (c *wCase) judge(o *e2eOut) error {
	if o.Panic != "" {
		return fmt.Errorf("the generated method panics: %s", o.Panic)
	}
	if s, ok := o.Vals["bad"]; ok {
		return fmt.Errorf("INFRA %v: %s", s, o.Err)
	}
	if o.Err != "" && o.Vals["step"] == "write" && c.knownNULLIF() && strings.Contains(o.Err, "type integer") {
		return errNULLIF
	}
	if o.Err != "" {
		return fmt.Errorf("step %v fails: %s (row %v; read %v)", o.Vals["step"], o.Err, o.Vals["row"], o.Rows["go"])
	}
	if len(o.Rows["db"]) != 2*len(c.Vals) || len(o.Rows["go"]) != 2*len(c.Vals) {
		return fmt.Errorf("%d rows were read, %d written, want %d", len(o.Rows["go"]), len(o.Rows["db"]), 2*len(c.Vals))
	}
	for i, r := range o.Rows["db"] {
		g := o.Rows["go"][i]
		if r[5] == "true" {
			return fmt.Errorf("row %s was not written", r[0])
		}
		if r[3] != r[4] {
			return fmt.Errorf("the value %q was stored as %q (Go value %s)", r[3], r[4], g[1])
		}
		if !strings.HasPrefix(c.Go, "*") && i%2 == 1 {
			r[1] = o.Rows["db"][i-1][1] // see RunSource
		}
		if r[2] == "<null>" && !strings.HasPrefix(c.Go, "*") && wZeros[r[1]] {
			continue
		}
		if r[1] != r[2] && !(g[2] == "zero" && (r[1] == "<null>" || r[2] == "<null>")) {
			return fmt.Errorf("the value %q of a nullable column was stored as %q (Go value %s)", r[1], r[2], g[0])
		}
		if strings.HasPrefix(c.Go, "*") && r[1] != r[2] {
			return fmt.Errorf("the value %q of a nullable column was stored as %q by a pointer field (Go value %s)", r[1], r[2], g[0])
		}
	}
	return nil
}

// errNULLIF is the known finding nullif-int4-param.
var errNULLIF = errors.New("NULLIF($n, 0) makes PostgreSQL take the parameter for an integer")

// knownNULLIF reports whether the case is one of the finding.
func (c *wCase) knownNULLIF() bool {
	return !strings.HasPrefix(c.Go, "*") && strings.Contains(" float8 ", " "+c.Pg+" ")
}

// wSub is the sub-check.
func wSub(r *fw.Run) fw.Sub {
	var e *e2eEngine
	pairs := wPairs()
	byName := map[string]wPair{}
	for _, p := range append(pairs, wVariants(pairs)...) {
		byName[p.Pg+"/"+p.Go+"/"+p.Decl] = p
	}
	open := func() {
		if e == nil {
			r.DB("e2e_wiring", wSchema(pairs))
			e = newE2E(r, "e2e_wiring")
			e.Extra = wExtra
		}
	}
	draw := func(p wPair, k int) *wCase {
		return fw.Draws(r.Seed*7919+uint64(k), 1, func(t *rapid.T) *wCase {
			return &wCase{wPair: p, Form: rapid.SampledFrom(wForms).Draw(t, "form"), Vals: p.values(t, 3)}
		})[0]
	}
	decide := func(cs []*wCase) (out []error, rejected []bool) {
		out, rejected = make([]error, len(cs)), make([]bool, len(cs))
		ec := make([]e2eCase, len(cs))
		for i := range cs {
			ec[i] = cs[i]
		}
		for i, res := range e.run(ec) {
			switch {
			case res.Rejected != "":
				rejected[i] = true
				if cs[i].Expect {
					out[i] = fmt.Errorf("a %s field for a %s column is refused: %s", cs[i].Go, cs[i].Pg, tail(res.Rejected, 600))
				}
			case res.Compile != "":
				out[i] = fmt.Errorf("a %s field (%s) for a %s column is accepted, but the code does not compile: %s", cs[i].Go, cs[i].Decl, cs[i].Pg, tail(res.Compile, 500))
			default:
				if err := cs[i].judge(res.Out[0]); err != nil {
					out[i] = fmt.Errorf("a %s field (%s), %s column, %s: %w\n%s", cs[i].Go, cs[i].Decl, cs[i].Pg, cs[i].Form, err, res.Gen)
				}
			}
		}
		return out, rejected
	}
	return &fw.Custom{
		Name: "columns",
		Do: func(rep *fw.Reporter) {
			open()
			var cs []*wCase
			for round := 0; round < r.N(1, 4); round++ {
				for i, p := range pairs {
					if c := draw(p, round*1000003+i); len(c.Vals) > 0 {
						cs = append(cs, c)
					}
				}
			}
			// the variants that are accepted
			vs := wVariants(pairs)
			if r.Tier == "quick" {
				var some []wPair
				for i, v := range vs {
					if (uint64(i)+r.Seed)%5 == 0 || v.Expect {
						some = append(some, v)
					}
				}
				vs = some
			}
			var vc []*wCase
			for i, p := range vs {
				if c := draw(p, 77777777+i); len(c.Vals) > 0 {
					vc = append(vc, c)
				}
			}
			ok := e.accepted(vc)
			for i, c := range vc {
				if ok[i] || c.Expect {
					cs = append(cs, c)
				} else {
					rep.Case(c, false, "refused")
				}
			}
			for len(cs) > 0 {
				k := min(160, len(cs))
				part := cs[:k]
				cs = cs[k:]
				errs, rej := decide(part)
				for i, c := range part {
					rep.Case(c, !rej[i], "column "+c.Pg, "form "+c.Form)
					if errors.Is(errs[i], errNULLIF) {
						rep.Finding("nullif-int4-param", c, errs[i])
					} else if errs[i] != nil {
						rep.Fail(c, errs[i])
					}
				}
			}
		},
		ReplayCase: func(raw json.RawMessage) error {
			open()
			c := new(wCase)
			fw.InfraPanic(json.Unmarshal(raw, c))
			c.wPair = byName[c.Pg+"/"+c.Go+"/"+c.Decl]
			errs, _ := decide([]*wCase{c})
			return errs[0]
		},
	}
}

// accepted reports which cases are accepted on their own.
func (e *e2eEngine) accepted(cases []*wCase) []bool {
	out := make([]bool, len(cases))
	ec := make([]e2eCase, len(cases))
	for i, c := range cases {
		ec[i] = c
	}
	for i, m := range e.verdicts(ec) {
		out[i] = m == ""
	}
	return out
}

var _ = sql.ErrNoRows

func init() {
	fw.Register(&fw.Property{
		ID:   "P25",
		Rule: "a pair of a column type and a field type counts as non-trivial when the generator accepts it, so that values were read and written by the generated code",
		Subs: func(r *fw.Run) []fw.Sub { return []fw.Sub{wSub(r)} },
	})
}
