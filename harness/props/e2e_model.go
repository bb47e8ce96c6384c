package props

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// The abstract syntax of a query struct, its rendering as Go source, and its
// meaning as plain SQL with the input values written in as literals (the
// reference that the generated code is compared with).

// pgCol describes a column of the schema.
type pgCol struct {
	Name    string
	Typ     string // int4, int8, text, bool, float8, timestamptz
	NotNull bool
	Def     string // default expression
	PK      bool
}

type pgTable struct {
	Name string
	Cols []pgCol
}

func (t *pgTable) col(name string) *pgCol {
	for i := range t.Cols {
		if t.Cols[i].Name == name {
			return &t.Cols[i]
		}
	}
	return nil
}

func (t *pgTable) ddl() string {
	var cols, pk []string
	for _, c := range t.Cols {
		s := `"` + c.Name + `" ` + c.Typ
		if c.NotNull {
			s += " NOT NULL"
		}
		if c.Def != "" {
			s += " DEFAULT " + c.Def
		}
		if c.PK {
			pk = append(pk, c.Name)
		}
		cols = append(cols, s)
	}
	if len(pk) > 0 {
		cols = append(cols, "PRIMARY KEY ("+strings.Join(pk, ", ")+")")
	}
	ddl := "CREATE TABLE " + qi(t.Name) + " (\n\t" + strings.Join(cols, ",\n\t") + "\n)"
	if t.Name == "gb" {
		// a partitioned table
		ddl += " PARTITION BY RANGE (id)"
		for i, b := range []string{"(MINVALUE) TO (2)", "(2) TO (5)", "(5) TO (9)", "(9) TO (1004)", "(1004) TO (MAXVALUE)"} {
			ddl += fmt.Sprintf(";\nCREATE TABLE gb_%d PARTITION OF gb FOR VALUES FROM %s", i, b)
		}
	}
	return ddl + ";\n"
}

var (
	tabA = &pgTable{"ga", []pgCol{
		{"id", "int4", true, "nextval('ga_seq')", true},
		{"k", "int4", true, "7", false},
		{"big", "int8", false, "", false},
		{"name", "text", true, "'dn'", false},
		{"note", "text", false, "", false},
		{"flag", "bool", true, "true", false},
		{"ok", "bool", false, "", false},
		{"score", "float8", false, "0.5", false},
		{"ts", "timestamptz", true, "'2001-02-03 04:05:06Z'", false},
		{"ts2", "timestamptz", false, "", false},
		{"n_a", "int4", true, "1", false},
		{"n_b", "text", false, "'nb'", false},
		{"n_x_c", "text", true, "'nxc'", false},
		{"n_x_d", "int4", false, "", false},
		{"Order", "int4", true, "4", false},
		{"group", "text", false, "'gr'", false},
	}}
	tabB = &pgTable{"gb", []pgCol{
		{"id", "int4", true, "nextval('gb_seq')", true},
		{"a_id", "int4", false, "", false},
		{"title", "text", true, "'tt'", false},
		{"spam", "bool", false, "", false},
		{"n", "int4", true, "3", false},
		{"at", "timestamptz", true, "'2002-02-03 04:05:06Z'", false},
	}}
	tabC = &pgTable{"Gc", []pgCol{
		{"x", "int4", true, "", true},
		{"y", "text", true, "'yy'", true},
		{"v", "text", false, "", false},
		{"n", "int4", true, "9", false},
		{"at", "timestamptz", false, "", false},
	}}
	tabU = &pgTable{"gu", []pgCol{
		{"id", "int4", true, "nextval('gu_seq')", true},
		{"u1", "int4", false, "", false},
		{"u2", "text", false, "'u2'", false},
		{"u3", "int4", false, "", false},
		{"val", "text", true, "'vv'", false},
		{"cnt", "int8", true, "1", false},
	}}
	e2eTables = map[string]*pgTable{"ga": tabA, "gb": tabB, "Gc": tabC, "gu": tabU}
	tabOrder  = map[string]string{"ga": "id", "gb": "id", "Gc": "x, y", "gu": "id"}
)

// e2eSchema is the schema and the data of the end-to-end checks.
var e2eSchema = "CREATE SEQUENCE ga_seq START 1000; CREATE SEQUENCE gb_seq START 1000; CREATE SEQUENCE gu_seq START 1000;\n" +
	tabA.ddl() + tabB.ddl() + tabC.ddl() + tabU.ddl() + `
CREATE UNIQUE INDEX gu_u1 ON gu (u1);
ALTER TABLE gu ADD CONSTRAINT gu_u2_u3 UNIQUE (u2, u3);
CREATE UNIQUE INDEX gu_expr ON gu (lower(val), (cnt % 100)) WHERE (cnt > 5);
INSERT INTO ga VALUES
 (1, 1, 10,   'ann',  'x',   true,  true,  1.5,  '2001-01-01 00:00:00Z', '2001-01-01 00:00:00Z', 1, 'p', 'q', 1, 1, 'g1'),
 (2, 2, NULL, 'Bob',  NULL,  false, NULL,  NULL, '2001-01-02 00:00:00Z', NULL,                   2, NULL, '', NULL, 2, NULL),
 (3, 3, 30,   'cat',  'Xyz', true,  false, -2.5, '2001-01-03 12:30:00Z', '2001-01-04 00:00:00Z', 3, 'P', 'r', 3, 3, 'g1'),
 (4, 2, 10,   'ann',  '',    false, true,  0,    '2001-01-02 00:00:00Z', NULL,                   0, '',  'q', 0, 4, ''),
 (5, 5, -7,   'a_c',  'a%',  true,  NULL,  1e10, '2000-12-31 23:59:59Z', '2002-01-01 00:00:00Z', 1, 'nb','Q', 7, 4, 'order'),
 (6, 0, 0,    '',     'note',true,  false, 0.5,  '2001-01-05 00:00:00Z', '2001-01-05 00:00:00Z', -1,'p', 'z', NULL, 0, NULL),
 (7, 7, 70,   'zoë',  'it''s',false,true,  7,    '2001-01-06 00:00:00Z', NULL,                   7, NULL,'q', 2, -1, 'x'),
 (8, -1,9000000000,'BOB','x', true,  NULL, NULL, '2001-01-02 00:00:00Z', '2001-01-03 00:00:00Z', 2, 'p', 'r', -3, 3, 'Gr'),
 (9, 3, NULL, 'dn',   NULL,  false, NULL, 1.5,   '2001-01-03 12:30:00Z', NULL,                   1, 'q', 'nxc', 1, 1, 'gr'),
 (10,10,33,   'x',    'cat', true,  true,  3.25, '2001-01-07 00:00:00Z', '2001-01-06 00:00:00Z', 5, 'x', 'x', 5, 9, 'g1');
INSERT INTO gb VALUES
 (1, 1, 'one', false, 1, '2001-01-01 00:00:00Z'), (2, 1, 'two', true, 2, '2001-01-02 00:00:00Z'),
 (3, 2, 'tt', NULL, 3, '2001-01-02 00:00:00Z'), (4, 3, 'four', false, 4, '2001-01-03 00:00:00Z'),
 (5, 99, 'orphan', true, 5, '2001-01-05 00:00:00Z'), (6, NULL, 'none', false, 0, '2001-01-06 00:00:00Z'),
 (7, 5, 'one', false, 1, '2000-01-01 00:00:00Z'), (8, 7, 'x', NULL, 7, '2001-01-08 00:00:00Z');
INSERT INTO "Gc" VALUES
 (1, 'a', 'v1', 1, NULL), (1, 'b', NULL, 2, '2001-01-01 00:00:00Z'), (2, 'a', 'v3', 3, '2001-01-02 00:00:00Z'),
 (3, 'c', 'v4', 4, NULL), (5, 'yy', '', 5, '2001-01-03 00:00:00Z'), (0, '', 'zero', 0, NULL);
INSERT INTO gu VALUES
 (1, 1, 'a', 1, 'One', 1), (2, 2, 'a', 2, 'two', 10), (3, NULL, NULL, 3, 'three', 20), (4, 4, 'd', NULL, 'Four', 6), (5, 5, 'e', 5, 'five', 3);
`

var e2ePrelude = []string{"SELECT setval('ga_seq', 1000, false), setval('gb_seq', 1000, false), setval('gu_seq', 1000, false)"}

// GField is a field of a record type.
type GField struct {
	Col  string   // column name
	Go   string   // Go type
	Opts []string // tag options
	In   int      `json:",omitempty"` // 0: top level, n: in Nodes[n-1]

	Up [][]string `json:",omitempty"` // tag options of the nodes that hold it
}

// GNode is a struct nested in a record type.
type GNode struct {
	In     int      `json:",omitempty"` // 0: top level, n: in Nodes[n-1]
	Name   string   // of the field
	Prefix string   `json:",omitempty"` // of the columns
	Ptr    bool     `json:",omitempty"`
	Emb    bool     `json:",omitempty"` // embedded
	Anon   bool     `json:",omitempty"` // an unnamed struct type
	Opts   []string `json:",omitempty"` // tag options
}

// GRec is a record type.
type GRec struct {
	Fields []GField
	Nodes  []GNode `json:",omitempty"`
	After  bool    // implements AfterScan
}

// Item is an item of a where struct.
type Item struct {
	Or    bool   `json:",omitempty"`
	Kind  string // field, between, col, nest
	Col   string `json:",omitempty"` // alias.col
	Typ   string `json:",omitempty"` // the column's type
	Op    string `json:",omitempty"`
	Quant string `json:",omitempty"`
	Func  string `json:",omitempty"`
	Go    string `json:",omitempty"`
	Vals  []LitV `json:",omitempty"` // value per input
	RCol  string `json:",omitempty"`
	RLit  string `json:",omitempty"` // SQL literal
	Low   *Item  `json:",omitempty"`
	High  *Item  `json:",omitempty"`
	Swap  bool   `json:",omitempty"` // the struct declares the upper bound first
	Items []Item `json:",omitempty"`
}

// LitV is a value: NULL, a scalar, or a list.
type LitV struct {
	Null bool     `json:",omitempty"`
	V    string   `json:",omitempty"`
	List []string `json:",omitempty"`
}

// JoinD is a join directive.
type JoinD struct {
	Typ   string // Left, Right, Inner, Full, Cross
	Table string
	Alias string
	Conds []JoinC
	Or    bool
}

// JoinC is a join condition.
type JoinC struct {
	L, Op, R string
}

// Ord is an order-by item.
type Ord struct {
	Col   string
	Desc  bool
	Nulls string
}

// Lim is a limit or an offset.
type Lim struct {
	Field bool
	Go    string
	Def   int   // tag value, -1: none
	Vals  []int // per input
}

// FCall is a call to a filter's Col method.
type FCall struct {
	Or     bool `json:",omitempty"`
	Col    string
	Typ    string
	Op     string
	Vals   []LitV
	Nested []FCall `json:",omitempty"`
}

// FSpec is the filter of a query.
type FSpec struct {
	Embedded bool
	Calls    []FCall
	// for select slices
	Order  []Ord `json:",omitempty"`
	Limit  []int `json:",omitempty"` // per input; 0: none
	Offset []int `json:",omitempty"`
}

// GQuery is a query struct with its inputs.
type GQuery struct {
	Kind    string // select, count, exists, notexists, insert, update, delete
	Table   string
	Alias   string
	N       int // inputs
	Rec     *GRec
	Form    string // ptr, val, slice, sliceptr, func, funcptr, iface, dir (delete's Relation directive)
	Where   []Item
	Filter  *FSpec
	All     bool
	Joins   []JoinD
	JoinRel *JoinD // the Relation directive of From and Using
	Order   []Ord
	Limit   *Lim
	Offset  *Lim
	Swap    bool // declares Limit/Offset/OrderBy before Where

	// writes
	Data     [][][]LitV // per input, per record, per field
	Default  []string
	Force    []string
	Return   []string
	Result   *GRec
	ResForm  string
	Affected string // Go type of RowsAffected
	Conflict *GConflict
	Override string
	CountGo  string
}

// GConflict is an on conflict struct.
type GConflict struct {
	Cols       []string
	Index      string
	Constraint string
	Ignore     bool
	Update     []string
}

func isSliceGo(g string) bool { return strings.HasPrefix(g, "[]") && g != "[]byte" }

func goScalar(goType, v string) string {
	switch goType {
	case "string":
		return strconv.Quote(v)
	case "[]byte":
		return "[]byte(" + strconv.Quote(v) + ")"
	case "bool":
		return v
	case "time.Time":
		t, err := time.Parse(time.RFC3339Nano, v)
		if err != nil {
			panic(err)
		}
		return fmt.Sprintf("time.Unix(%d, %d).UTC()", t.Unix(), t.Nanosecond())
	}
	return goType + "(" + v + ")"
}

func goLit(goType string, v LitV) string {
	if isSliceGo(goType) {
		if v.Null {
			return goType + "(nil)"
		}
		el := goType[2:]
		s := make([]string, len(v.List))
		for i, x := range v.List {
			s[i] = goLit(el, LitV{V: x})
		}
		return goType + "{" + strings.Join(s, ", ") + "}"
	}
	if strings.HasPrefix(goType, "*") {
		if v.Null {
			return "nil"
		}
		return "P(" + goScalar(goType[1:], v.V) + ")"
	}
	return goScalar(goType, v.V)
}

func sqlStr(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func sqlScalar(typ, v string) string {
	switch typ {
	case "text":
		if strings.Contains(v, `\`) {
			return "E'" + strings.ReplaceAll(strings.ReplaceAll(v, `\`, `\\`), "'", "''") + "'::text"
		}
		return sqlStr(v) + "::text"
	case "timestamptz":
		return sqlStr(v) + "::timestamptz"
	case "bool":
		return v + "::bool"
	}
	return "(" + v + ")::" + typ
}

func sqlLit(typ string, v LitV) string {
	if v.Null {
		return "NULL::" + typ
	}
	return sqlScalar(typ, v.V)
}

var opSQL = map[string]string{
	"isdistinct": "IS DISTINCT FROM", "notdistinct": "IS NOT DISTINCT FROM",
	"islike": "LIKE", "notlike": "NOT LIKE", "isilike": "ILIKE", "notilike": "NOT ILIKE",
	"issimilar": "SIMILAR TO", "notsimilar": "NOT SIMILAR TO",
	"isbetween": "BETWEEN", "notbetween": "NOT BETWEEN",
	"isbetweensym": "BETWEEN SYMMETRIC", "notbetweensym": "NOT BETWEEN SYMMETRIC",
	"isbetweenasym": "BETWEEN ASYMMETRIC", "notbetweenasym": "NOT BETWEEN ASYMMETRIC",
	"isnull": "IS NULL", "notnull": "IS NOT NULL", "istrue": "IS TRUE", "nottrue": "IS NOT TRUE",
	"isfalse": "IS FALSE", "notfalse": "IS NOT FALSE", "isunknown": "IS UNKNOWN", "notunknown": "IS NOT UNKNOWN",
}

func refOp(op string) string {
	if s, ok := opSQL[op]; ok {
		return s
	}
	if op == "" {
		return "="
	}
	return op
}

// unary predicates
func isUnaryOp(op string) bool {
	switch op {
	case "isnull", "notnull", "istrue", "nottrue", "isfalse", "notfalse", "isunknown", "notunknown":
		return true
	}
	return false
}

// ---- rendering as Go ----

func exported(col string) string {
	parts := strings.Split(col, "_")
	for i, p := range parts {
		if p != "" {
			parts[i] = strings.ToUpper(p[:1]) + p[1:]
		}
	}
	return strings.Join(parts, "")
}

// prefix is what the columns' names of the node's fields begin with.
func (g *GRec) prefix(node int) string {
	if node == 0 {
		return ""
	}
	return g.prefix(g.Nodes[node-1].In) + g.Nodes[node-1].Prefix
}

// path lists the nodes from the top level to the given one.
func (g *GRec) path(node int) []int {
	if node == 0 {
		return nil
	}
	return append(g.path(g.Nodes[node-1].In), node)
}

// sync sets what the fields know about the nodes they are in.
func (g *GRec) sync() {
	for i := range g.Fields {
		f := &g.Fields[i]
		f.Up = nil
		some := false
		for _, n := range g.path(f.In) {
			f.Up = append(f.Up, g.Nodes[n-1].Opts)
			some = some || len(g.Nodes[n-1].Opts) > 0
		}
		if !some {
			f.Up = nil
		}
	}
}

// recTree is a node with what it holds in the order of declaration.
type recTree struct {
	node  int
	items []recItem
}

type recItem struct {
	field int
	sub   *recTree // nil: a field
}

// tree arranges the fields; nodes without fields are left out.
func (g *GRec) tree() *recTree {
	all := map[int]*recTree{0: {}}
	var get func(n int) *recTree
	get = func(n int) *recTree {
		if all[n] == nil {
			all[n] = &recTree{node: n}
			up := get(g.Nodes[n-1].In)
			up.items = append(up.items, recItem{sub: all[n]})
		}
		return all[n]
	}
	for i, f := range g.Fields {
		t := get(f.In)
		t.items = append(t.items, recItem{field: i})
	}
	return all[0]
}

// nodeType is the name of the type of a node.
func nodeType(n int, rec string) string { return fmt.Sprintf("N%d_%s", n, rec) }

// nodeName is the name of the field of a node.
func (g *GRec) nodeName(n int, rec string) string {
	if g.Nodes[n-1].Emb {
		return nodeType(n, rec)
	}
	return g.Nodes[n-1].Name
}

func tagOf(name string, opts []string) string {
	if len(opts) > 0 {
		name += "," + strings.Join(opts, ",")
	}
	return "`sql:\"" + name + "\"`"
}

// source declares the record type.
func (g *GRec) source(name string) string {
	var types []string
	var body func(t *recTree, ind string) string
	body = func(t *recTree, ind string) string {
		var b strings.Builder
		for _, it := range t.items {
			if it.sub == nil {
				f := g.Fields[it.field]
				fmt.Fprintf(&b, "%s%s %s %s\n", ind, exported(f.Col), f.Go, tagOf(strings.TrimPrefix(f.Col, g.prefix(f.In)), f.Opts))
				continue
			}
			n := g.Nodes[it.sub.node-1]
			ptr, typ := "", nodeType(it.sub.node, name)
			if n.Ptr {
				ptr = "*"
			}
			if n.Anon {
				typ = "struct {\n" + body(it.sub, ind+"\t") + ind + "}"
			} else {
				types = append(types, "type "+typ+" struct {\n"+body(it.sub, "\t")+"}\n\n")
			}
			if !n.Emb {
				ptr = n.Name + " " + ptr
			}
			fmt.Fprintf(&b, "%s%s%s %s\n", ind, ptr, typ, tagOf(">"+n.Prefix, n.Opts))
		}
		return b.String()
	}
	s := "type " + name + " struct {\n" + body(g.tree(), "\t")
	if g.After {
		s += "\tScanned int `sql:\"-\"`\n"
	}
	s += "}\n\n"
	if g.After {
		s += fmt.Sprintf("func (r *%s) AfterScan() { r.Scanned++ }\n\n", name)
	}
	return s + strings.Join(types, "")
}

// literal is an expression for the record.
func (g *GRec) literal(name string, vals []LitV) string {
	var set []string
	nested := false
	var walk func(t *recTree, x string)
	walk = func(t *recTree, x string) {
		for _, it := range t.items {
			if it.sub == nil {
				f := g.Fields[it.field]
				set = append(set, x+exported(f.Col)+" = "+goLit(f.Go, vals[it.field]))
				continue
			}
			nested = true
			sx := x + g.nodeName(it.sub.node, name)
			if g.Nodes[it.sub.node-1].Ptr {
				set = append(set, sx+" = new(q."+nodeType(it.sub.node, name)+")")
			}
			walk(it.sub, sx+".")
		}
	}
	walk(g.tree(), "r.")
	if nested {
		return "func() (r q." + name + ") { " + strings.Join(set, "; ") + "; return r }()"
	}
	for i, x := range set {
		set[i] = strings.Replace(strings.TrimPrefix(x, "r."), " = ", ": ", 1)
	}
	return "q." + name + "{" + strings.Join(set, ", ") + "}"
}

// whereSource renders the fields of a where struct.
func whereSource(b *strings.Builder, items []Item, ind string) {
	for i, it := range items {
		bt := ""
		if i > 0 && it.Or {
			bt = ` bool:"or"`
		} else if i > 0 && it.Swap {
			bt = ` bool:"and"`
		}
		switch it.Kind {
		case "nest":
			fmt.Fprintf(b, "%sW%d struct {\n", ind, i)
			whereSource(b, it.Items, ind+"\t")
			fmt.Fprintf(b, "%s} `sql:\">\"%s`\n", ind, bt)
		case "col":
			e := it.Col
			if it.Op != "" {
				if isWordOp(it.Op) {
					e += " " + it.Op
				} else {
					e += it.Op
				}
			}
			if it.Quant != "" {
				e += " " + it.Quant
			}
			if r := it.RCol + it.RLit; r != "" {
				e += " " + r
			}
			fmt.Fprintf(b, "%s_ gosql.Column `sql:\"%s\"%s`\n", ind, e, bt)
		case "between":
			fmt.Fprintf(b, "%sW%d struct {\n", ind, i)
			lines := [2]string{}
			for k, bound := range []*Item{it.Low, it.High} {
				mark := "xy"[k : k+1]
				if it.Func == "long" {
					mark = []string{"lower", "upper"}[k]
				}
				if bound.Kind == "col" {
					lines[k] = fmt.Sprintf("%s\t_ gosql.Column `sql:\"%s,%s\"`\n", ind, bound.RCol, mark)
				} else {
					lines[k] = fmt.Sprintf("%s\tB%d %s `sql:\"%s\"`\n", ind, k, bound.Go, mark)
				}
			}
			if it.Swap {
				lines[0], lines[1] = lines[1], lines[0]
			}
			b.WriteString(lines[0] + lines[1])
			fmt.Fprintf(b, "%s} `sql:\"%s %s\"%s`\n", ind, it.Col, it.Op, bt)
		case "field":
			e := it.Col
			if it.Op != "" {
				e += " " + it.Op
			}
			if it.Quant != "" {
				e += " " + it.Quant
			}
			if it.Func != "" {
				e += ",@" + it.Func
			}
			fmt.Fprintf(b, "%sW%d %s `sql:\"%s\"%s`\n", ind, i, it.Go, e, bt)
		}
	}
}

func isWordOp(op string) bool { return op[0] >= 'a' && op[0] <= 'z' }

// whereInit renders the assignments of an input.
func whereInit(b *strings.Builder, items []Item, path string, in int) {
	for i, it := range items {
		p := fmt.Sprintf("%s.W%d", path, i)
		switch it.Kind {
		case "nest":
			whereInit(b, it.Items, p, in)
		case "between":
			for k, bound := range []*Item{it.Low, it.High} {
				if bound.Kind == "field" {
					fmt.Fprintf(b, "\t\t%s.B%d = %s\n", p, k, goLit(bound.Go, bound.Vals[in]))
				}
			}
		case "field":
			fmt.Fprintf(b, "\t\t%s = %s\n", p, goLit(it.Go, it.Vals[in]))
		}
	}
}

// whereRef is the reference SQL of a where struct.
func whereRef(items []Item, in int) string {
	var b strings.Builder
	for i, it := range items {
		if i > 0 {
			if it.Or {
				b.WriteString(" OR ")
			} else {
				b.WriteString(" AND ")
			}
		}
		b.WriteString("(" + itemRef(it, in) + ")")
	}
	return b.String()
}

func itemRef(it Item, in int) string {
	switch it.Kind {
	case "nest":
		return whereRef(it.Items, in)
	case "between":
		bound := func(x *Item) string {
			if x.Kind == "col" {
				return rc(x.RCol)
			}
			return sqlLit(it.Typ, x.Vals[in])
		}
		return fmt.Sprintf("%s %s %s AND %s", rc(it.Col), refOp(it.Op), bound(it.Low), bound(it.High))
	case "col":
		op := it.Op
		if it.RCol+it.RLit == "" {
			if op == "" {
				op = "istrue"
			}
			return rc(it.Col) + " " + refOp(op)
		}
		r := it.RLit
		if it.RCol != "" {
			r = rc(it.RCol)
		}
		if it.Quant != "" {
			r = it.Quant + "(" + r + ")"
		}
		return rc(it.Col) + " " + refOp(op) + " " + r
	}
	l := rc(it.Col)
	v := it.Vals[in]
	if it.Op == "isin" || it.Op == "notin" || it.Quant != "" {
		return listRef(it, l, v)
	}
	r := sqlLit(it.Typ, v)
	if it.Func != "" {
		l, r = it.Func+"("+l+")", it.Func+"("+r+")"
	}
	return l + " " + refOp(it.Op) + " " + r
}

// listRef spells out list predicates element by element.
func listRef(it Item, l string, v LitV) string {
	if v.Null && it.Quant != "" {
		return "NULL::bool"
	}
	if it.Func != "" {
		l = it.Func + "(" + l + ")"
	}
	op, sep, empty := it.Op, " OR ", "FALSE"
	switch {
	case it.Op == "isin":
		op = "="
	case it.Op == "notin":
		op, sep, empty = "<>", " AND ", "TRUE"
	case it.Quant == "all":
		sep, empty = " AND ", "TRUE"
	}
	if len(v.List) == 0 {
		return empty
	}
	var parts []string
	for _, x := range v.List {
		r := sqlScalar(it.Typ, x)
		if it.Func != "" && it.Op != "isin" && it.Op != "notin" {
			r = it.Func + "(" + r + ")"
		}
		parts = append(parts, "("+l+" "+refOp(op)+" "+r+")")
	}
	return strings.Join(parts, sep)
}

func joinTag(j JoinD) string {
	s := j.Table
	if j.Alias != "" {
		s += ":" + j.Alias
	}
	sep := ","
	for i, c := range j.Conds {
		if i > 0 && j.Or {
			sep = ";"
		}
		e := c.L
		if c.Op != "" {
			if isWordOp(c.Op) {
				e += " " + c.Op
			} else {
				e += " " + c.Op + " " + c.R
			}
		}
		if isWordOpS(c.Op) && c.R != "" {
			e += " " + c.R
		}
		s += sep + e
	}
	return s
}

func isWordOpS(op string) bool { return op != "" && isWordOp(op) }

func joinRef(j JoinD) string {
	s := " " + strings.ToUpper(j.Typ) + " JOIN " + qi(j.Table)
	if j.Alias != "" {
		s += " AS " + j.Alias
	}
	if j.Typ == "Cross" {
		return s
	}
	var parts []string
	for _, c := range j.Conds {
		op := c.Op
		if op == "" && c.R == "" {
			op = "istrue"
		}
		e := rc(c.L) + " " + refOp(op)
		if rxColRef.MatchString(c.R) {
			e += " " + rc(c.R)
		} else if c.R != "" {
			e += " " + c.R
		}
		parts = append(parts, "("+e+")")
	}
	sep := " AND "
	if j.Or {
		sep = " OR "
	}
	return s + " ON " + strings.Join(parts, sep)
}

func orderTag(ords []Ord) string {
	var s []string
	for _, o := range ords {
		e := o.Col
		if o.Desc {
			e = "-" + e
		}
		if o.Nulls != "" {
			e += ":nulls" + o.Nulls
		}
		s = append(s, e)
	}
	return strings.Join(s, ",")
}

var rxColRef = regexp.MustCompile(`^[A-Za-z_]\w*\.[A-Za-z_]\w*$`)

func orderRef(ords []Ord) string {
	var s []string
	for _, o := range ords {
		e := rc(o.Col)
		if o.Desc {
			e += " DESC"
		}
		// without an option NULLs come last, in both directions
		if o.Nulls == "first" {
			e += " NULLS FIRST"
		} else {
			e += " NULLS LAST"
		}
		s = append(s, e)
	}
	return strings.Join(s, ", ")
}

// filterInit builds the filter value of an input.
func filterInit(b *strings.Builder, f *FSpec, in int) {
	b.WriteString("\t\tvar f filter.Constructor\n")
	filterCalls(b, f.Calls, in)
	for _, o := range f.Order {
		fmt.Fprintf(b, "\t\tf.OrderBy(%q, %v, %v)\n", rc(o.Col), o.Desc, o.Nulls == "first")
	}
	if f.Limit != nil && f.Limit[in] > 0 {
		fmt.Fprintf(b, "\t\tf.Limit(%d)\n", f.Limit[in])
	}
	if f.Offset != nil && f.Offset[in] > 0 {
		fmt.Fprintf(b, "\t\tf.Offset(%d)\n", f.Offset[in])
	}
	b.WriteString("\t\tx.Filter = f.Filter()\n")
}

func goAny(typ string, v LitV) string {
	if v.Null {
		return "nil"
	}
	return goScalar(map[string]string{"int4": "int", "int8": "int64", "text": "string", "bool": "bool", "float8": "float64", "timestamptz": "time.Time"}[typ], v.V)
}

func filterCalls(b *strings.Builder, calls []FCall, in int) {
	for i, c := range calls {
		op := "And"
		if c.Or {
			op = "Or"
		}
		if len(c.Nested) > 0 {
			fmt.Fprintf(b, "\t\tf.%s(func() {\n", op)
			filterCalls(b, c.Nested, in)
			b.WriteString("\t\t})\n")
			continue
		}
		if i > 0 && c.Or {
			b.WriteString("\t\tf.Or(nil)\n")
		} else if i > 0 {
			b.WriteString("\t\tf.And(nil)\n")
		}
		fmt.Fprintf(b, "\t\tf.Col(%q, %q, %s)\n", rc(c.Col), c.Op, goAny(c.Typ, c.Vals[in]))
	}
}

func filterRef(calls []FCall, in int) string {
	var b strings.Builder
	for i, c := range calls {
		if i > 0 {
			if c.Or {
				b.WriteString(" OR ")
			} else {
				b.WriteString(" AND ")
			}
		}
		if len(c.Nested) > 0 {
			b.WriteString("(" + filterRef(c.Nested, in) + ")")
			continue
		}
		op := c.Op
		v := c.Vals[in]
		if v.Null {
			if op == "=" {
				fmt.Fprintf(&b, "(%s IS NULL)", rc(c.Col))
			} else {
				fmt.Fprintf(&b, "(%s IS NOT NULL)", rc(c.Col))
			}
			continue
		}
		if c.Typ == "bool" {
			is := " IS "
			if op != "=" {
				is = " IS NOT "
			}
			fmt.Fprintf(&b, "(%s%s%s)", rc(c.Col), is, strings.ToUpper(v.V))
			continue
		}
		fmt.Fprintf(&b, "(%s %s %s)", rc(c.Col), op, sqlLit(c.Typ, v))
	}
	return b.String()
}
