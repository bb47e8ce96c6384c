package props

import (
	"crypto/sha1"
	"database/sql"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/frk/gosql/vh/fw"
	"pgregory.net/rapid"
)

// Filter types: the generated map of column keys, and the generated methods, are
// those that the record declares, and each is bound to its own column.

// gsNode is a field of a record.
type gsNode struct {
	Name string
	Json string   `json:",omitempty"` // tags, "~" means none
	Alt  string   `json:",omitempty"`
	Fck  string   `json:",omitempty"`
	Sql  string   // the column, or the prefix of the nested ones
	Opts []string `json:",omitempty"`
	Typ  int      `json:",omitempty"` // leaf: index into gsTypes
	Null bool     `json:",omitempty"` // leaf: the column is nullable
	Gone bool     `json:",omitempty"` // leaf: there is no such column
	Kind int      `json:",omitempty"` // 0 leaf, 1 named struct, 2 pointer, 3 embedded, 4 embedded pointer, 5 anonymous
	Sub  []gsNode `json:",omitempty"`
}

// gsOp is a step of building a filter.
type gsOp struct {
	Do   string // pred, and, or, nestand, nestor
	Leaf int    `json:",omitempty"`
	Op   string `json:",omitempty"`
	Sub  []gsOp `json:",omitempty"`
}

// GSCase is a filter type.
type GSCase struct {
	Conf  int // index into gsConfs
	Nodes []gsNode
	Alias string
	Rel   int // 0 *R, 1 R, 2 []*R, 3 []R
	Ctor  int // index into gsCtors
	V2    bool
	Text  int // 0 none, 1 plain, 2 qualified by the alias
	Ops   []gsOp
	Raw   bool `json:",omitempty"` // run the methods of the fields that need a converter
}

// gsTypes are the types of fields: go, column type, go literals of a value, and
// SQL literals of it and of another one.
var gsTypes = []struct {
	go_, pg, lit, a, b string
	fql                string // the value in FQL
	conv               string // what the converter makes of 7
	base               string // type of the argument
	raw                bool   // the driver doesn't take it without a converter
}{
	{"int", "int4", "1", "1", "2", "1", "", "", false},
	{"*int", "int4", "1", "1", "2", "1", "", "int", false},
	{"int64", "int8", "int64(5)", "5", "6", "5", "", "", false},
	{"MyInt", "int4", "q.MyInt(3)", "3", "4", "", "own 7", "", false},
	{"string", "text", `"x y"`, "'x y'", "'z'", `"x y"`, "", "", false},
	{"*string", "text", `"it's"`, "'it''s'", "'z'", `"it's"`, "", "string", false},
	{"MyStr", "text", `q.MyStr("m")`, "'m'", "'n'", "", "other 7", "", false},
	{"bool", "bool", "true", "true", "false", "true", "", "", false},
	{"*bool", "bool", "false", "false", "true", "false", "", "bool", false},
	{"float64", "float8", "1.5", "1.5", "2.5", "1.5", "", "", false},
	{"time.Time", "timestamptz", "time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)", "'2020-01-02 03:04:05Z'", "'2021-01-02 03:04:05Z'", "", "v2 7", "", false},
	{"*time.Time", "timestamptz", "time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)", "'2020-01-02 03:04:05Z'", "'2021-01-02 03:04:05Z'", "", "?", "time.Time", false},
	{"[]byte", "bytea", `[]byte("b\x00")`, `'\x6200'`, `'\x61'`, "", "", "", false},
	{"[]string", "text[]", `[]string{"a", "b"}`, "'{a,b}'", "'{b}'", "", "", "", true},
	{"[]int", "int4[]", "[]int{1, 2}", "'{1,2}'", "'{2}'", "", "", "", true},
	{"map[string]int", "jsonb", `map[string]int{"a": 1}`, `'{"a":1}'`, `'{"a":2}'`, "", "", "", true},
	{"[16]byte", "uuid", `[16]byte{15: 9}`, "'00000000-0000-0000-0000-000000000009'", "'10000000-0000-0000-0000-000000000009'", "", "", "", true},
	{"VStr", "text", `q.VStr{"v"}`, "'<v>'", "'v'", "", "", "", false},
}

// gsConfs are the configurations of the tool.
var gsConfs = []struct {
	json  string
	quote bool
	tag   string
	base  bool
	sep   string
}{
	{`{}`, false, "json", false, "."},
	{`{"quote_identifiers": true, "filter_column_key_tag": "alt", "filter_column_key_separator": "_"}`, true, "alt", false, "_"},
	{`{"quote_identifiers": true, "filter_column_key_base": true}`, true, "json", true, "."},
}

const gsConvJSON = `"filter_value_converters": [
	{"type": "vhgen/q.MyInt", "func": "vhgen/q.ConvMyInt"},
	{"type": "vhgen/q.MyStr", "func": "vhgen/conv.Other"},
	{"type": "time.Time", "func": "vhgen/some-conv/v2.Time"}
]`

// gsCtors are the forms of the constructor's field.
var gsCtors = []struct {
	decl, sel string
}{
	{"gosql.FilterConstructor", "FilterConstructor"},
	{"*GSRec", "GSRec"},
	{"GSRec", "GSRec"},
	{"Make *GSRec", "Make"},
	{"make GSRec", "make"},
	{"Ctor GSEmb", "Ctor"},
}

const gsQExtra = `
import (
	"database/sql/driver"
	"fmt"

	"github.com/frk/gosql/filter"
)

type MyInt int
type MyStr string

// VStr is stored in another form.
type VStr struct{ S string }

func (v VStr) Value() (driver.Value, error) { return "<" + v.S + ">", nil }

func ConvMyInt(v any) (any, error) { return fmt.Sprint("own ", v), nil }

// GSRec records what a filter type does.
type GSRec struct {
	Map  map[string]string
	Map2 map[string]filter.Column
	TS   string
	Inits int
	Log  [][]string
	Args []any
}

// GSRecs holds the recorders of filter types whose field is not exported.
var GSRecs []*GSRec

func (c *GSRec) Init(m map[string]string, ts string) { c.Map, c.TS = m, ts; c.Inits++ }
func (c *GSRec) InitV2(m map[string]filter.Column, ts string) { c.Map2, c.TS = m, ts; c.Inits++ }
func (c *GSRec) Col(col, op string, v any) { c.Log = append(c.Log, []string{"col", col, op}); c.Args = append(c.Args, v) }
func (c *GSRec) And(nest func()) { c.nest("and", nest) }
func (c *GSRec) Or(nest func()) { c.nest("or", nest) }

func (c *GSRec) nest(s string, nest func()) {
	if nest == nil {
		c.Log = append(c.Log, []string{s})
		return
	}
	c.Log = append(c.Log, []string{s + "("})
	nest()
	c.Log = append(c.Log, []string{")"})
}

// GSEmb embeds a recorder.
type GSEmb struct{ *GSRec }
`

const gsRunExtra = `package main

import (
	"database/sql/driver"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/frk/gosql"

	"vhgen/q"
)

// recorded writes down what the recorder got.
func (t *T) recorded(c *q.GSRec, want []any) {
	keys := []string{}
	for k := range c.Map {
		keys = append(keys, k)
	}
	for k := range c.Map2 {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	rows := [][]string{}
	for _, k := range keys {
		row := []string{k, c.Map[k], "", ""}
		if col, ok := c.Map2[k]; ok {
			row[1] = col.Name
			row[2] = fmt.Sprint(col.IsNULLable)
			if col.ConvertValue != nil {
				v, err := col.ConvertValue(7)
				row[3] = fmt.Sprint(v)
				if err != nil {
					row[3] = "error " + err.Error()
				}
			}
		}
		rows = append(rows, row)
	}
	t.Out.Rows["map"] = rows
	t.Out.Rows["log"] = c.Log
	t.Out.Vals["ts"] = c.TS
	t.Out.Vals["inits"] = fmt.Sprint(c.Inits)
	bad := ""
	for i, v := range c.Args {
		if i < len(want) && !reflect.DeepEqual(v, want[i]) {
			_, ok := v.(driver.Valuer)
			if _, was := want[i].(driver.Valuer); !ok || was {
				bad += fmt.Sprintf("%#v instead of %#v; ", v, want[i])
			}
		}
	}
	t.Out.Vals["args"] = bad
}

// methods writes down the methods of a type.
func (t *T) methods(v any) {
	rt := reflect.TypeOf(v)
	row := []string{}
	for i := 0; i < rt.NumMethod(); i++ {
		m := rt.Method(i)
		s := m.Name
		if m.Type.NumIn() == 3 && m.Type.In(1).Kind() == reflect.String {
			s += " " + m.Type.In(2).String()
		}
		row = append(row, s)
	}
	t.Out.Rows["methods"] = [][]string{row}
}

// selects runs a filter.
func (t *T) selects(name, from string, f gosql.Filter) {
	s, params := f.ToSQL(0)
	t.Exec("SAVEPOINT s")
	defer t.Exec("ROLLBACK TO SAVEPOINT s")
	var out *string
	err := t.QueryRow("SELECT string_agg(rid_::text, ' ' ORDER BY rid_) FROM " + from + strings.TrimPrefix(s, ";"), params...).Scan(&out)
	res := ""
	if err != nil {
		res = "error " + err.Error() + " in" + s
	} else if out != nil {
		res = *out
	}
	t.Out.Rows[name] = [][]string{{res}}
}
`

var gsFiles = map[string]string{
	"conv/conv.go":       "package conv\n\nimport \"fmt\"\n\nfunc Other(v any) (any, error) { return fmt.Sprint(\"other \", v), nil }\n",
	"some-conv/v2/tm.go": "package conv\n\nimport \"fmt\"\n\nfunc Time(v any) (any, error) { return fmt.Sprint(\"v2 \", v), nil }\n",
}

// gsLeaf is a leaf with what leads to it.
type gsLeaf struct {
	*gsNode
	path []*gsNode
	col  string
	no   int
}

// leaves lists the fields with columns, in order.
func (c *GSCase) leaves() (out []gsLeaf) {
	var walk func(ns []gsNode, path []*gsNode, pfx string)
	walk = func(ns []gsNode, path []*gsNode, pfx string) {
		for i := range ns {
			n := &ns[i]
			if n.Kind > 0 {
				walk(n.Sub, append(path[:len(path):len(path)], n), pfx+n.Sql)
				continue
			}
			out = append(out, gsLeaf{n, path, pfx + n.Sql, len(out)})
		}
	}
	walk(c.Nodes, nil, "")
	return out
}

// table is the name of the case's table.
func (c *GSCase) table() string {
	b, _ := json.Marshal(c.Nodes)
	return fmt.Sprintf("fs_%x", sha1.Sum(b))[:20]
}

// columns lists the columns of the case's table, and their types.
func (c *GSCase) schema() string {
	var cols, a, b, null []string
	seen := map[string]bool{}
	for _, l := range c.leaves() {
		if l.Gone || seen[l.col] {
			continue
		}
		seen[l.col] = true
		t := gsTypes[l.Typ]
		col := `"` + l.col + `" ` + t.pg
		if l.Null {
			null = append(null, "NULL")
		} else {
			col += " NOT NULL"
			null = append(null, t.b)
		}
		cols, a, b = append(cols, col), append(a, t.a), append(b, t.b)
	}
	row := func(n int, v []string) string {
		return fmt.Sprintf("(%s)", strings.Join(append([]string{strconv.Itoa(n), "''", "''"}, v...), ", "))
	}
	return fmt.Sprintf("CREATE TABLE IF NOT EXISTS %s (rid_ int, ts_doc tsvector, \"Ts_Doc\" tsvector, %s);\nINSERT INTO %[1]s VALUES %[3]s, %s, %s, %s;\n",
		c.table(), strings.Join(cols, ", "), row(1, a), row(2, b), row(3, a), row(4, null))
}

func (n *gsNode) tag(pfx string) string {
	s := n.Sql
	if n.Kind > 0 {
		s = ">" + s
	}
	s = `sql:"` + strings.Join(append([]string{s}, n.Opts...), ",") + `"`
	for _, t := range []struct{ k, v string }{{"json", n.Json}, {"alt", n.Alt}, {"fck", n.Fck}} {
		if t.v != "~" && (t.v != "" || t.k != "fck") {
			s += " " + t.k + `:"` + t.v + `"`
		}
	}
	return "`" + s + "`"
}

// name is the name of the field.
func (n *gsNode) name(id int) string {
	if n.Kind == 3 || n.Kind == 4 {
		return n.Name + "_" + strconv.Itoa(id) // the type is the case's own
	}
	return n.Name
}

func (c *GSCase) QSource(id int) string {
	var b strings.Builder
	imps := map[string]string{}
	types := 0
	var body func(ns []gsNode, ind string) string
	body = func(ns []gsNode, ind string) string {
		var f strings.Builder
		for i := range ns {
			n := &ns[i]
			ty := ""
			switch n.Kind {
			case 0:
				ty = gsTypes[n.Typ].go_
				if strings.Contains(ty, "time.") {
					imps["time"] = ""
				}
			case 5:
				ty = "struct {\n" + body(n.Sub, ind+"\t") + ind + "}"
			default:
				name := n.name(id)
				if n.Kind < 3 {
					types++
					name = fmt.Sprintf("GsSub%d_%d", types, id)
				}
				fmt.Fprintf(&b, "type %s struct {\n%s}\n\n", name, body(n.Sub, "\t"))
				ty = name
				if n.Kind == 2 || n.Kind == 4 {
					ty = "*" + ty
				}
			}
			if n.Kind == 3 || n.Kind == 4 {
				fmt.Fprintf(&f, "%s%s %s\n", ind, ty, n.tag(""))
			} else {
				fmt.Fprintf(&f, "%s%s %s %s\n", ind, n.Name, ty, n.tag(""))
			}
		}
		return f.String()
	}
	top := body(c.Nodes, "\t")
	fmt.Fprintf(&b, "type GsRec_%d struct {\n%s}\n\n", id, top)
	rel := []string{"*", "", "[]*", "[]"}[c.Rel]
	alias, ts := "", ""
	if c.Alias != "" {
		alias = ":" + c.Alias
	}
	switch c.Text {
	case 1:
		ts = "\t_ gosql.TextSearch `sql:\"ts_doc\"`\n"
	case 2:
		q := c.Alias
		if q == "" {
			q = c.table()
		}
		ts = "\t_ gosql.TextSearch `sql:\"" + q + ".ts_doc\"`\n"
	case 3:
		ts = "\t_ gosql.TextSearch `sql:\"Ts_Doc\"`\n"
	}
	v2 := ""
	if c.V2 {
		v2 = " `filter:\"v2\"`"
	}
	decl := gsCtors[c.Ctor].decl
	if c.V2 && c.Ctor == 0 {
		decl = "*GSRec"
	}
	sid := strconv.Itoa(id)
	for _, x := range []struct{ name, ctor string }{{"FilterQ" + sid, decl}, {"FilterReal_" + sid, "*filter.Constructor"}} {
		b.WriteString("type " + x.name + " struct {\n\t_ " + rel + "GsRec_" + sid + " `rel:\"" + c.table() + alias + "\"`\n" + ts + "\t" + x.ctor + v2 + "\n}\n\n")
	}
	imps["github.com/frk/gosql/filter"] = ""
	if strings.Contains(b.String(), "gosql.") {
		imps["github.com/frk/gosql"] = ""
	}
	if gsCtors[c.Ctor].sel == "make" {
		fmt.Fprintf(&b, "func (f *FilterQ%d) Rec() *GSRec { return &f.make }\n", id)
	}
	return "package q\n\n" + importDecl(imps) + b.String()
}

// mode is whether the options let the field be used by filters, and whether it is
// taken for one that is never null.
func (n *gsNode) mode() (filter, notnull bool) {
	filter = true
	for _, o := range n.Opts {
		switch {
		case o == "wo" || o == "xf":
			filter = false
		case o == "nn":
			notnull = true
		case strings.HasPrefix(o, "-"):
			filter = filter && !strings.ContainsAny(o, "rf")
			notnull = notnull || strings.Contains(o, "N")
		case strings.HasPrefix(o, "+"):
			filter = filter || strings.ContainsAny(o, "rf")
			notnull = notnull && !strings.Contains(o, "N")
		}
	}
	return filter, notnull
}

// excluded tells if the field is excluded from filters.
func (l gsLeaf) excluded() bool {
	for _, n := range append(l.path[:len(l.path):len(l.path)], l.gsNode) {
		if f, _ := n.mode(); !f {
			return true
		}
	}
	return l.Gone
}

// method is the name of the field's method.
func (l gsLeaf) method(id int) string {
	s := ""
	for _, n := range l.path {
		s += n.name(id)
	}
	return s + l.Name
}

func gsFirst(v string) string {
	if v == "~" {
		return ""
	}
	return strings.Split(v, ",")[0]
}

func (n *gsNode) tagOf(name string) string {
	switch name {
	case "json":
		return gsFirst(n.Json)
	case "alt":
		return gsFirst(n.Alt)
	}
	return ""
}

// key is the field's key, or none.
func (c *GSCase) key(id int, l gsLeaf) string {
	conf := gsConfs[c.Conf]
	tag, base, sep := conf.tag, conf.base, conf.sep
	path := l.path
	fck := l.Fck
	for i := 0; fck == "" && i < len(l.path); i++ {
		if l.path[i].Fck != "" {
			fck, path = l.path[i].Fck, l.path[i:]
		}
	}
	if fck != "" {
		for _, o := range strings.Split(fck, ",") {
			k, v, _ := strings.Cut(o, ":")
			switch k {
			case "tag":
				tag = v
			case "sep":
				sep = v
			case "base":
				base = v == "true" || v == "1"
			}
		}
	}
	if base {
		path = nil
	}
	var parts []string
	for _, n := range append(path[:len(path):len(path)], l.gsNode) {
		switch {
		case tag == "":
			parts = append(parts, n.name(id))
		case n.tagOf(tag) == "-":
			return ""
		case n.tagOf(tag) != "":
			parts = append(parts, n.tagOf(tag))
		}
	}
	return strings.Join(parts, sep)
}

var gsReserved = map[string]bool{"UnmarshalFQL": true, "UnmarshalSort": true, "TextSearch": true, "AND": true, "OR": true, "And": true, "Or": true, "Init": true}

// byMethod are the fields that have methods, by the names of those.
func (c *GSCase) byMethod(id int, field string) map[string]gsLeaf {
	m := map[string]gsLeaf{}
	for _, l := range c.leaves() {
		name := l.method(id)
		if l.excluded() || gsReserved[name] || name == field {
			continue
		}
		if _, ok := m[name]; !ok {
			m[name] = l
		}
	}
	return m
}

func (c *GSCase) field() string {
	if c.V2 && c.Ctor == 0 {
		return "GSRec"
	}
	return gsCtors[c.Ctor].sel
}

// from is the source of rows.
func (c *GSCase) from() string {
	if c.Alias != "" {
		return c.table() + " AS " + c.Alias
	}
	return c.table()
}

var rxFQLKey = regexp.MustCompile(`^[A-Za-z_]\w*(\.[A-Za-z_]\w*)*$`)

// byKey are the fields that have keys.
func (c *GSCase) byKey(id int) map[string]gsLeaf {
	m := map[string]gsLeaf{}
	for _, l := range c.leaves() {
		if k := c.key(id, l); k != "" && !l.excluded() {
			if _, ok := m[k]; !ok {
				m[k] = l
			}
		}
	}
	return m
}

func (c *GSCase) RunSource(id int) string {
	var b strings.Builder
	imps := map[string]string{"vhgen/q": "", "github.com/frk/gosql/filter": ""}
	fmt.Fprintf(&b, "\treg(%d, 0, func(t *T) {\n\t\tf := new(q.FilterQ%[1]d)\n", id)
	switch sel := c.field(); sel {
	case "FilterConstructor", "Make":
		fmt.Fprintf(&b, "\t\tr := new(q.GSRec)\n\t\tf.%s = r\n", sel)
	case "make":
		b.WriteString("\t\tr := f.Rec()\n")
	case "Ctor":
		b.WriteString("\t\tr := new(q.GSRec)\n\t\tf.Ctor.GSRec = r\n")
	default:
		if c.V2 && c.Ctor == 0 || gsCtors[c.Ctor].decl[0] == '*' {
			b.WriteString("\t\tr := new(q.GSRec)\n\t\tf.GSRec = r\n")
		} else {
			b.WriteString("\t\tr := &f.GSRec\n")
		}
	}
	b.WriteString("\t\tf.Init()\n\t\tvar want []any\n\t\tsame := true\n")
	byM := c.byMethod(id, c.field())
	leaves := c.leaves()
	var ops func(os []gsOp, ind string)
	ops = func(os []gsOp, ind string) {
		for _, o := range os {
			switch o.Do {
			case "pred":
				l := leaves[o.Leaf%len(leaves)]
				m := l.method(id)
				if own, ok := byM[m]; !ok || own.no != l.no {
					continue
				}
				fmt.Fprintf(&b, "%swant = append(want, any(%s))\n%[1]ssame = f.%[3]s(%[4]q, %[2]s) == f && same\n", ind, gsTypes[l.Typ].lit, m, o.Op)
			case "and", "or":
				fmt.Fprintf(&b, "%ssame = f.%s(nil) == f && same\n", ind, map[string]string{"and": "And", "or": "Or"}[o.Do])
			default:
				fmt.Fprintf(&b, "%[1]ssame = f.%[2]s(func(g *q.FilterQ%[3]d) {\n%[1]s\tsame = g == f && same\n", ind, map[string]string{"nestand": "And", "nestor": "Or"}[o.Do], id)
				ops(o.Sub, ind+"\t")
				fmt.Fprintf(&b, "%s}) == f && same\n", ind)
			}
		}
	}
	ops(c.Ops, "\t\t")
	b.WriteString("\t\tt.recorded(r, want)\n\t\tt.methods(f)\n\t\tt.Out.Vals[\"same\"] = same\n")
	real := func(name, stmt string) {
		fmt.Fprintf(&b, "\t\t{\n\t\t\tg := new(q.FilterReal_%d)\n\t\t\tg.Constructor = new(filter.Constructor)\n\t\t\tg.Init()\n\t\t\t%s\n\t\t\tt.selects(%q, %q, g.Constructor.Filter())\n\t\t}\n", id, stmt, name, c.from())
	}
	byR := c.byMethod(id, "Constructor")
	for _, m := range sortedKeys(byR) {
		if gsTypes[byR[m].Typ].raw && !c.Raw {
			continue // see the known findings
		}
		real("method "+m, fmt.Sprintf("g.%s(\"=\", %s)", m, gsTypes[byR[m].Typ].lit))
	}
	byK := c.byKey(id)
	for _, k := range sortedKeys(byK) {
		if v := gsTypes[byK[k].Typ].fql; v != "" && rxFQLKey.MatchString(k) {
			real("key "+k, fmt.Sprintf("if err := g.Constructor.UnmarshalFQL(%q); err != nil {\n\t\t\t\tpanic(err)\n\t\t\t}", k+":"+v))
		}
	}
	b.WriteString("\t})\n")
	src := "func init() {\n" + b.String() + "}\n"
	if strings.Contains(src, "time.") {
		imps["time"] = ""
	}
	if !strings.Contains(src, "filter.") {
		delete(imps, "github.com/frk/gosql/filter")
	}
	return "package main\n\n" + importDecl(imps) + src
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (c *GSCase) Inputs() int { return 1 }

// judge compares what the filter type did with what it has to do.
func (c *GSCase) judge(db *sql.DB, id int, o *e2eOut) error {
	if o.Panic != "" {
		return fmt.Errorf("a method panicked: %s", o.Panic)
	}
	if o.Vals["inits"] != "1" {
		return fmt.Errorf("the constructor was initialized %v times", o.Vals["inits"])
	}
	if o.Vals["same"] != true {
		return fmt.Errorf("a method returned or passed another filter")
	}
	// an identifier stands for the column that it selects
	resolve := func(ident string) string {
		rows, err := db.Query("SELECT " + ident + " FROM " + c.from() + " LIMIT 0")
		if err != nil {
			return "error " + err.Error()
		}
		defer rows.Close()
		cols, _ := rows.Columns()
		return strings.Join(cols, " ")
	}
	// keys
	want := [][]string{}
	byK := c.byKey(id)
	got := o.Rows["map"]
	for i, k := range sortedKeys(byK) {
		l := byK[k]
		row := []string{k, l.col, "", ""}
		if c.V2 {
			_, nn := l.mode()
			row[2] = fmt.Sprint(l.Null && !nn)
			row[3] = gsTypes[l.Typ].conv
			if row[3] == "?" && i < len(got) {
				row[3] = got[i][3]
			}
		}
		want = append(want, row)
	}
	for _, g := range got {
		g[1] = resolve(g[1])
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("the column map differs:\n want %v\n  got %v", want, got)
	}
	// text search
	ts, _ := o.Vals["ts"].(string)
	wantTS := ""
	switch c.Text {
	case 1, 2:
		wantTS = "ts_doc"
	case 3:
		wantTS = "Ts_Doc"
	}
	if ts != "" {
		ts = resolve(ts)
	}
	if ts != wantTS {
		return fmt.Errorf("the text search column is %q instead of %q", ts, wantTS)
	}
	// methods
	byM := c.byMethod(id, c.field())
	has := map[string]bool{}
	for _, m := range o.Rows["methods"][0] {
		has[m] = true
		name, ty, pred := strings.Cut(m, " ")
		if l, ok := byM[name]; ok {
			t := gsTypes[l.Typ]
			w := t.base
			if w == "" {
				w = t.go_
			}
			if ty = strings.ReplaceAll(strings.ReplaceAll(ty, "uint8", "byte"), "q.", ""); ty != w {
				return fmt.Errorf("the method %s takes a %s instead of a %s", name, ty, w)
			}
			has[name] = true
		} else if pred && name != "Rec" {
			return fmt.Errorf("there is a method %s", m)
		}
	}
	for _, m := range append(sortedKeys(byM), "Init", "And", "Or") {
		if !has[m] {
			return fmt.Errorf("there is no method %s (there are %v)", m, o.Rows["methods"][0])
		}
	}
	// calls
	leaves := c.leaves()
	log := [][]string{}
	var ops func(os []gsOp)
	ops = func(os []gsOp) {
		for _, o := range os {
			switch o.Do {
			case "pred":
				l := leaves[o.Leaf%len(leaves)]
				if own, ok := byM[l.method(id)]; ok && own.no == l.no {
					log = append(log, []string{"col", l.col, o.Op})
				}
			case "and", "or":
				log = append(log, []string{o.Do})
			default:
				log = append(log, []string{strings.TrimPrefix(o.Do, "nest") + "("})
				ops(o.Sub)
				log = append(log, []string{")"})
			}
		}
	}
	ops(c.Ops)
	glog := o.Rows["log"]
	for _, g := range glog {
		if g[0] == "col" {
			g[1] = resolve(g[1])
		}
	}
	if fmt.Sprint(glog) != fmt.Sprint(log) {
		return fmt.Errorf("the calls of the constructor differ:\n want %v\n  got %v", log, glog)
	}
	if o.Vals["args"] != "" {
		return fmt.Errorf("the constructor got %v", o.Vals["args"])
	}
	// rows
	rows := func(l gsLeaf) string { return "1 3" }
	for _, k := range sortedKeys(o.Rows) {
		m, isM := strings.CutPrefix(k, "method ")
		key, isK := strings.CutPrefix(k, "key ")
		var l gsLeaf
		switch {
		case isM:
			l = c.byMethod(id, "Constructor")[m]
		case isK:
			l = byK[key]
		default:
			continue
		}
		if g := o.Rows[k][0][0]; g != rows(l) {
			return fmt.Errorf("filtering by the %s selects %q instead of %q", k, g, rows(l))
		}
	}
	return nil
}

func (c *GSCase) labels() []string {
	l := []string{"conf:" + strconv.Itoa(c.Conf), "ctor:" + gsCtors[c.Ctor].decl, "v2:" + fmt.Sprint(c.V2), "text:" + strconv.Itoa(c.Text), "rel:" + strconv.Itoa(c.Rel)}
	seen := map[string]bool{}
	for _, x := range c.leaves() {
		seen["type:"+gsTypes[x.Typ].go_] = true
		seen["depth:"+strconv.Itoa(len(x.path))] = true
		if x.Fck != "" {
			seen["fck"] = true
		}
		for _, p := range x.path {
			seen["nested:"+strconv.Itoa(p.Kind)] = true
			if p.Fck != "" {
				seen["nested fck"] = true
			}
		}
		if x.excluded() {
			seen["excluded"] = true
		}
	}
	return append(l, sortedKeys(seen)...)
}

var gsNames = []string{"Id", "Name", "A", "B", "C", "AB", "BC", "Val", "Code", "X1", "And", "Or", "Init", "Col", "TextSearch", "UnmarshalFQL", "UnmarshalSort", "AND", "OR", "Filter", "Constructor", "Ctor", "Make", "FilterConstructor", "F", "Nest", "GSRec"}

func genGSNodes(t *rapid.T, depth int, quote bool, cols *int, embs *int) []gsNode {
	n := rapid.IntRange(1, 5).Draw(t, "fields")
	used := map[string]bool{}
	var out []gsNode
	for range n {
		var x gsNode
		x.Name = rapid.SampledFrom(gsNames).Draw(t, "name")
		if rapid.Bool().Draw(t, "plain") {
			x.Name = gsNames[rapid.IntRange(0, 9).Draw(t, "plainname")]
		}
		if used[x.Name] {
			continue
		}
		used[x.Name] = true
		tag := func(l string) string {
			return rapid.SampledFrom([]string{"~", "~", "a", "b", "c", "name", "-", "", "x,omitempty", "y.z", "B2", ",omitempty"}).Draw(t, l)
		}
		x.Json, x.Alt = tag("json"), tag("alt")
		if rapid.IntRange(0, 5).Draw(t, "fck?") == 0 {
			var o []string
			for _, k := range []string{"tag:json", "tag:alt", "tag:", "sep:/", "sep:", "sep:__", "sep:::", "sep:-:", "base:true", "base:false", "base:1", "other:x"} {
				if rapid.IntRange(0, 4).Draw(t, k) == 0 {
					o = append(o, k)
				}
			}
			x.Fck = strings.Join(o, ",")
		}
		if depth > 0 && rapid.IntRange(0, 2).Draw(t, "nested") == 0 {
			x.Kind = rapid.IntRange(1, 5).Draw(t, "kind")
			if x.Kind == 3 || x.Kind == 4 {
				*embs++
				x.Name = "E" + strconv.Itoa(*embs)
			}
			x.Sql = rapid.SampledFrom([]string{"", "p_", "q_", "sub_"}).Draw(t, "prefix")
			if quote && rapid.Bool().Draw(t, "mixed") {
				x.Sql += "Px_"
			}
			x.Sub = genGSNodes(t, depth-1, quote, cols, embs)
		} else {
			*cols++
			x.Typ = rapid.IntRange(0, len(gsTypes)-1).Draw(t, "type")
			x.Null = rapid.Bool().Draw(t, "nullable")
			x.Gone = rapid.IntRange(0, 11).Draw(t, "gone") == 0
			x.Sql = "c" + strconv.Itoa(*cols)
			if quote {
				switch rapid.IntRange(0, 3).Draw(t, "col") {
				case 0:
					x.Sql = "Col" + strconv.Itoa(*cols)
				case 1:
					x.Sql = rapid.SampledFrom([]string{"order", "Select", "user", "null", "limit"}).Draw(t, "word")
				}
			}
		}
		opts := 0
		switch rapid.IntRange(0, 7).Draw(t, "opts") {
		case 0, 1:
			opts = 1
		case 2:
			opts = 3
		}
		for range opts {
			o := rapid.SampledFrom([]string{"xf", "nn", "ro", "wo", "-f", "+f", "-r", "+r", "-N", "+N", "-s", "+s", "-wN", "-fw", "+rw", "pk", "nullempty", "", "-", "+", "-x"}).Draw(t, "opt")
			if o == "pk" && x.Kind > 0 {
				continue
			}
			x.Opts = append(x.Opts, o)
		}
		out = append(out, x)
	}
	return out
}

func genGSCase(t *rapid.T) *GSCase {
	c := &GSCase{}
	c.Conf = rapid.IntRange(0, len(gsConfs)-1).Draw(t, "conf")
	cols, embs := 0, 0
	c.Nodes = genGSNodes(t, 3, gsConfs[c.Conf].quote, &cols, &embs)
	c.Alias = rapid.SampledFrom([]string{"", "a", "tbl"}).Draw(t, "alias")
	c.Rel = rapid.IntRange(0, 3).Draw(t, "rel")
	c.Ctor = rapid.IntRange(0, len(gsCtors)-1).Draw(t, "ctor")
	c.V2 = rapid.Bool().Draw(t, "v2")
	c.Text = rapid.IntRange(0, 3).Draw(t, "text")
	if c.Text == 3 && !gsConfs[c.Conf].quote {
		c.Text = 1
	}
	var ops func(depth int) []gsOp
	ops = func(depth int) (out []gsOp) {
		for range rapid.IntRange(0, 5).Draw(t, "ops") {
			o := gsOp{Do: "pred"}
			switch rapid.IntRange(0, 6).Draw(t, "op") {
			case 0:
				o.Do = "and"
			case 1:
				o.Do = "or"
			case 2, 3:
				if depth > 0 {
					o.Do = rapid.SampledFrom([]string{"nestand", "nestor"}).Draw(t, "nest")
					o.Sub = ops(depth - 1)
				}
			}
			if o.Do == "pred" {
				o.Leaf = rapid.IntRange(0, 19).Draw(t, "leaf")
				o.Op = rapid.SampledFrom([]string{"=", "<>", "<", "like", "", "`\"'"}).Draw(t, "operator")
			}
			out = append(out, o)
		}
		return out
	}
	c.Ops = ops(2)
	// the same column twice in a record: keep the first
	seen := map[string]bool{}
	var drop func(ns []gsNode, pfx string) []gsNode
	drop = func(ns []gsNode, pfx string) (out []gsNode) {
		for _, n := range ns {
			if n.Kind > 0 {
				if n.Sub = drop(n.Sub, pfx+n.Sql); len(n.Sub) > 0 {
					out = append(out, n)
				}
			} else if !seen[pfx+n.Sql] {
				seen[pfx+n.Sql] = true
				out = append(out, n)
			}
		}
		return out
	}
	c.Nodes = drop(c.Nodes, "")
	if c.allGone() {
		c.Nodes[0].Kind, c.Nodes[0].Sub, c.Nodes[0].Gone, c.Nodes[0].Opts, c.Nodes[0].Sql, c.Nodes[0].Name = 0, nil, false, nil, "sole", "Only"
	}
	return c
}

func (c *GSCase) allGone() bool {
	for _, l := range c.leaves() {
		if !l.excluded() {
			return false
		}
	}
	return true
}

// shrink lists smaller cases.
func (c *GSCase) shrinks() (out []*GSCase) {
	raw, _ := json.Marshal(c)
	add := func(f func(x *GSCase)) {
		x := new(GSCase)
		fw.InfraPanic(json.Unmarshal(raw, x))
		f(x)
		if !reflect.DeepEqual(x, c) && len(x.Nodes) > 0 && !x.allGone() {
			out = append(out, x)
		}
	}
	for i := range c.Nodes {
		add(func(x *GSCase) { x.Nodes = append(x.Nodes[:i:i], x.Nodes[i+1:]...); x.Ops = nil })
		add(func(x *GSCase) { x.Nodes[i].Fck = "" })
		add(func(x *GSCase) { x.Nodes[i].Opts = nil })
		if c.Nodes[i].Kind > 0 {
			for j := range c.Nodes[i].Sub {
				add(func(x *GSCase) {
					s := x.Nodes[i].Sub
					x.Nodes[i].Sub = append(s[:j:j], s[j+1:]...)
					if len(x.Nodes[i].Sub) == 0 {
						x.Nodes = nil
					}
				})
				add(func(x *GSCase) { x.Nodes[i].Sub[j].Opts = nil })
				add(func(x *GSCase) { x.Nodes[i].Sub[j].Fck = "" })
			}
		}
	}
	add(func(x *GSCase) { x.Ops = nil })
	add(func(x *GSCase) { x.V2 = false })
	add(func(x *GSCase) { x.Ctor = 1 })
	add(func(x *GSCase) { x.Alias = "" })
	add(func(x *GSCase) { x.Text = 0 })
	add(func(x *GSCase) { x.Rel = 0 })
	return out
}

func init() {
	fw.Register(&fw.Property{ID: "P26", Rule: "the record has nested fields, excluded ones, overridden keys, or fields that share a key or the name of a method", Subs: func(r *fw.Run) []fw.Sub {
		engines := make([]*e2eEngine, len(gsConfs))
		var db *sql.DB
		open := func() {
			if db != nil {
				return
			}
			db = r.DB("filterstructs", "")
			for i, conf := range gsConfs {
				e := newE2E(r, "filterstructs")
				e.QExtra, e.Extra, e.Files = gsQExtra, gsRunExtra, gsFiles
				path := filepath.Join(e.dir, "conf.json")
				s := "{" + gsConvJSON
				if conf.json != "{}" {
					s += ", " + conf.json[1:]
				} else {
					s += "}"
				}
				fw.InfraPanic(os.WriteFile(path, []byte(s), 0o644))
				e.cliArgs = []string{"-config", path}
				engines[i] = e
			}
		}
		decide := func(all []*GSCase) []error {
			out := make([]error, len(all))
			for k, e := range engines {
				var cs []*GSCase
				var at []int
				var cases []e2eCase
				for i, c := range all {
					if c.Conf == k {
						cs, at, cases = append(cs, c), append(at, i), append(cases, c)
						var have bool
						fw.InfraPanic(db.QueryRow("SELECT to_regclass($1) IS NOT NULL", c.table()).Scan(&have))
						if !have {
							if _, err := db.Exec(c.schema()); err != nil {
								fw.InfraPanic(fmt.Errorf("%w in %s", err, c.schema()))
							}
						}
					}
				}
				if len(cs) == 0 {
					continue
				}
				for i, res := range e.run(cases) {
					switch {
					case res.Rejected != "":
						out[at[i]] = fmt.Errorf("the filter type is rejected: %s", tail(res.Rejected, 1500))
					case res.Compile != "":
						out[at[i]] = fmt.Errorf("the generated code does not compile: %s\n%s", tail(res.Compile, 1500), res.Gen)
					}
					for _, o := range res.Out {
						if err := cs[i].judge(db, i, o); err != nil {
							out[at[i]] = fmt.Errorf("%w\n%s", err, res.Gen)
							break
						}
					}
				}
			}
			return out
		}
		return []fw.Sub{&fw.Custom{
			Name: "filters",
			Do: func(rep *fw.Reporter) {
				open()
				// the fields that need a converter, one by one
				var raw []*GSCase
				for i, t := range gsTypes {
					if t.raw {
						raw = append(raw, &GSCase{Nodes: []gsNode{{Name: "Val", Sql: "val", Typ: i}}, Ctor: 1, Raw: true})
					}
				}
				for i, err := range decide(raw) {
					rep.Case(raw[i], true, "converter:"+gsTypes[raw[i].Nodes[0].Typ].go_)
					if err != nil && strings.Contains(err.Error(), "sql: converting argument $1 type: unsupported type") {
						rep.Finding("filter-method-raw-value", raw[i], err)
					} else if err != nil {
						rep.Fail(raw[i], err)
					}
				}
				cs := fw.Draws(r.Seed*29+7, r.N(300, 6000), genGSCase)
				for len(cs) > 0 && !rep.Failed() {
					k := min(300, len(cs))
					part := cs[:k]
					cs = cs[k:]
					seen := map[string]bool{}
					for i, err := range decide(part) {
						rep.Case(part[i], part[i].rich(), part[i].labels()...)
						if err == nil {
							continue
						}
						sig := errShape(err.Error())
						if seen[sig] || len(seen) >= 4 {
							continue
						}
						seen[sig] = true
						c := part[i]
						for range 12 {
							vs := c.shrinks()
							found := false
							for j, e1 := range decide(vs) {
								if e1 != nil && errShape(e1.Error()) == sig {
									c, err, found = vs[j], e1, true
									break
								}
							}
							if !found {
								break
							}
						}
						rep.Fail(c, fmt.Errorf("%w\n%s", err, c.QSource(0)))
					}
				}
			},
			ReplayCase: func(raw json.RawMessage) error {
				open()
				c := new(GSCase)
				fw.InfraPanic(json.Unmarshal(raw, c))
				return decide([]*GSCase{c})[0]
			},
		}}
	}})
}

func (c *GSCase) rich() bool {
	keys, names := map[string]bool{}, map[string]bool{}
	for _, l := range c.leaves() {
		k, m := c.key(0, l), l.method(0)
		if len(l.path) > 0 || l.excluded() || l.Fck != "" || k != "" && keys[k] || names[m] {
			return true
		}
		keys[k], names[m] = true, true
	}
	return false
}
