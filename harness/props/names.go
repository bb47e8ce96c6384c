package props

import (
	"database/sql"
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"

	"github.com/frk/gosql/vh/fw"
)

// P31: names in directives and tags are accepted exactly if what they name exists
// and fits. The schemas are random, the verdict is that of the documented rules.

// nCol is a column of a random table.
type nCol struct {
	Name, Typ, Go string
	Def           bool
	Gen           bool // generated or identity column
	Odd           bool `json:",omitempty"` // a name that no tag can have
}

// nIndex is an index, or the index of a constraint.
type nIndex struct {
	Name    string
	Con     bool // of a constraint
	Unique  bool
	Primary bool
	Defer   bool
	Excl    bool
	Check   bool     // a check constraint, no index at all
	Cols    []string // key columns
	Opts    []string // their collations, operator classes and orderings
	Expr    bool     // some of them expressions
	Incl    []string
	Pred    bool
}

type nTable struct {
	Schema string `json:",omitempty"`
	Name   string
	Cols   []nCol
	Inds   []nIndex
	Gone   []string `json:",omitempty"` // the column it follows, of each column that was dropped
	Twin   *nTable  `json:",omitempty"` // a table of the same name in another schema
}

// rel is the table's name in a tag.
func (t *nTable) rel() string {
	if t.Schema != "" {
		return t.Schema + "." + t.Name
	}
	return t.Name
}

// sql is the table's name in a statement.
func (t *nTable) sql() string {
	if t.Schema != "" {
		return qid(t.Schema) + "." + qid(t.Name)
	}
	return qid(t.Name)
}

func (t *nTable) primary() []string {
	for _, x := range t.Inds {
		if x.Primary {
			return x.Cols
		}
	}
	return nil
}

func (t *nTable) col(name string) *nCol {
	for i := range t.Cols {
		if t.Cols[i].Name == name {
			return &t.Cols[i]
		}
	}
	return nil
}

// nPool are the columns tables have, or have not.
var nPool = []nCol{
	{Name: "id", Typ: "int4", Go: "int"}, {Name: "n", Typ: "int4", Go: "int"}, {Name: "m", Typ: "int8", Go: "int64"}, {Name: "t", Typ: "text", Go: "string"},
	{Name: "u", Typ: "varchar", Go: "string"}, {Name: "Mixed", Typ: "int4", Go: "int"}, {Name: "mixed", Typ: "text", Go: "string"}, {Name: "fts", Typ: "tsvector", Go: "[]string"},
	{Name: "j", Typ: "json", Go: "[]byte"}, {Name: "pt", Typ: "point", Go: "[2]float64"}, {Name: "xx", Typ: "xml", Go: "[]byte"}, {Name: "f", Typ: "float8", Go: "float64"},
	{Name: "select", Typ: "int4", Go: "int"}, {Name: "ts", Typ: "timestamptz", Go: "string"}, {Name: "jb", Typ: "jsonb", Go: "[]byte"}, {Name: "arr", Typ: "int4[]", Go: "[]int"},
}

var nDefaults = map[string]string{"int4": "7", "int8": "7", "text": "'d'", "varchar": "'d'", "tsvector": "'d'", "json": "'{}'", "jsonb": "'{}'", "point": "'(1,2)'", "xml": "'<a/>'", "float8": "0.5", "timestamptz": "now()", "int4[]": "'{}'"}

var (
	nNoOrder = map[string]bool{"json": true, "xml": true, "point": true}
	nNoBtree = map[string]bool{"json": true, "xml": true, "point": true}
)

// nGenTable draws a table.
func nGenTable(r *rand.Rand, i int) *nTable {
	t := nGenTable1(r, fmt.Sprintf("nt_%d", i))
	schemas := []string{"", "", "ns", "Ns"}
	t.Schema = schemas[r.Intn(4)]
	if r.Intn(3) == 0 {
		t.Twin = nGenTable1(r, t.Name)
		for t.Twin.Schema = t.Schema; t.Twin.Schema == t.Schema; {
			t.Twin.Schema = schemas[r.Intn(4)]
		}
	}
	return t
}

func nGenTable1(r *rand.Rand, name string) *nTable {
	t := &nTable{Name: name}
	t.Cols = append(t.Cols, nCol{Name: "x", Typ: "int4", Go: "int"})
	for _, c := range nPool {
		if r.Intn(5) < 3 {
			c.Def = r.Intn(2) == 0
			if c.Typ == "int4" && r.Intn(12) == 0 {
				c.Gen, c.Def = true, false
			}
			t.Cols = append(t.Cols, c)
		}
	}
	if r.Intn(3) == 0 {
		t.Cols = append(t.Cols, nCol{Name: []string{`it's (a, b`, `say "x", )`, "x DESC", "a b"}[r.Intn(4)], Typ: "int4", Odd: true})
	}
	r.Shuffle(len(t.Cols), func(a, b int) { t.Cols[a], t.Cols[b] = t.Cols[b], t.Cols[a] })
	for r.Intn(3) == 0 {
		t.Gone = append(t.Gone, t.Cols[r.Intn(len(t.Cols))].Name)
	}
	var keys []string
	for _, c := range t.Cols {
		if !nNoBtree[c.Typ] {
			keys = append(keys, c.Name)
		}
	}
	pick := func(n int) []string {
		r.Shuffle(len(keys), func(a, b int) { keys[a], keys[b] = keys[b], keys[a] })
		return append([]string{}, keys[:min(n, len(keys))]...)
	}
	pk := false
	for k := r.Intn(6); k > 0; k-- {
		x := nIndex{Name: fmt.Sprintf("%s_i%d", t.Name, len(t.Inds)), Cols: pick(1 + r.Intn(3))}
		if r.Intn(6) == 0 {
			x.Name = strings.ToUpper(x.Name[:1]) + x.Name[1:]
		}
		switch r.Intn(10) {
		case 0, 1:
			x.Con, x.Unique = true, true
		case 2:
			x.Con, x.Unique, x.Primary = true, !pk, !pk
			if !pk && r.Intn(2) == 0 {
				for _, c := range pick(2) {
					if !contains(x.Cols, c) {
						x.Incl = append(x.Incl, c)
					}
				}
			}
			if pk {
				x.Check = true
			}
			pk = true
		case 3:
			x.Con, x.Unique, x.Defer = true, true, true
		case 4:
			x.Con, x.Excl, x.Cols = true, true, x.Cols[:1]
		case 5:
			x.Con, x.Check = true, true
		case 6:
		default:
			x.Unique = true
			switch r.Intn(5) {
			case 0:
				x.Expr = true
			case 1:
				x.Pred = true
			case 2:
				for _, c := range pick(2) {
					if !contains(x.Cols, c) {
						x.Incl = append(x.Incl, c)
					}
				}
			}
		}
		if !x.Con {
			for _, n := range x.Cols {
				o := ""
				if typ := t.col(n).Typ; typ == "text" || typ == "varchar" {
					if r.Intn(4) == 0 {
						o += ` COLLATE "C"`
					}
					if r.Intn(4) == 0 {
						o += " " + typ + "_pattern_ops"
					}
				}
				o += []string{"", "", "", " DESC", " NULLS FIRST", " DESC NULLS LAST"}[r.Intn(6)]
				x.Opts = append(x.Opts, o)
			}
			if r.Intn(8) == 0 {
				x.Name = fmt.Sprintf(`%s (i's" using %d`, t.Name, len(t.Inds))
			}
		}
		t.Inds = append(t.Inds, x)
	}
	return t
}

func qid(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }

func qids(l []string) string {
	var out []string
	for _, s := range l {
		out = append(out, qid(s))
	}
	return strings.Join(out, ", ")
}

func (t *nTable) ddl() string {
	var b strings.Builder
	if t.Twin != nil && len(t.Cols)%2 == 0 {
		b.WriteString(t.Twin.ddl())
	}
	fmt.Fprintf(&b, "CREATE TABLE %s (\n", t.sql())
	for i, c := range t.Cols {
		if i > 0 {
			b.WriteString(",\n")
		}
		fmt.Fprintf(&b, "\t%s %s", qid(c.Name), c.Typ)
		if c.Def {
			b.WriteString(" DEFAULT " + nDefaults[c.Typ])
		}
		if c.Gen {
			b.WriteString(" GENERATED BY DEFAULT AS IDENTITY")
		}
		for k, g := range t.Gone {
			if g == c.Name {
				fmt.Fprintf(&b, ",\n\tgone%d int4 NOT NULL DEFAULT 7", k)
			}
		}
	}
	b.WriteString("\n);\n")
	for k := range t.Gone {
		fmt.Fprintf(&b, "ALTER TABLE %s DROP COLUMN gone%d;\n", t.sql(), k)
	}
	for _, x := range t.Inds {
		incl := ""
		if len(x.Incl) > 0 {
			incl = " INCLUDE (" + qids(x.Incl) + ")"
		}
		switch {
		case x.Check:
			fmt.Fprintf(&b, "ALTER TABLE %s ADD CONSTRAINT %s CHECK (%s IS NOT NULL OR true);\n", t.sql(), qid(x.Name), qid(x.Cols[0]))
		case x.Excl:
			fmt.Fprintf(&b, "ALTER TABLE %s ADD CONSTRAINT %s EXCLUDE (%s WITH =);\n", t.sql(), qid(x.Name), qids(x.Cols))
		case x.Primary:
			fmt.Fprintf(&b, "ALTER TABLE %s ADD CONSTRAINT %s PRIMARY KEY (%s)%s;\n", t.sql(), qid(x.Name), qids(x.Cols), incl)
		case x.Con:
			d := ""
			if x.Defer {
				d = " DEFERRABLE"
			}
			fmt.Fprintf(&b, "ALTER TABLE %s ADD CONSTRAINT %s UNIQUE (%s)%s;\n", t.sql(), qid(x.Name), qids(x.Cols), d)
		default:
			u, tail := "", incl
			var keys []string
			for i, c := range x.Cols {
				k := qid(c)
				if x.Expr && i == 0 {
					k = "(" + k + " IS NULL)"
				} else if i < len(x.Opts) {
					k += x.Opts[i]
				}
				keys = append(keys, k)
			}
			cols := strings.Join(keys, ", ")
			if x.Unique {
				u = "UNIQUE "
			}
			if x.Pred {
				tail += " WHERE " + qid(x.Cols[0]) + " IS NOT NULL"
			}
			fmt.Fprintf(&b, "CREATE %sINDEX %s ON %s (%s)%s;\n", u, qid(x.Name), t.sql(), cols, tail)
		}
	}
	if t.Twin != nil && len(t.Cols)%2 == 1 {
		b.WriteString(t.Twin.ddl())
	}
	return b.String()
}

// nCase is a query or filter type.
type nCase struct {
	Kind   string // Select, Insert, Update, Delete, Filter
	T      *nTable
	J      *nTable `json:",omitempty"` // the joined table, as b
	Alias  string
	Fields []string // tags of the record's fields
	Dir    string   // the directive
	Tag    string
	Update string   `json:",omitempty"` // the tag of the Update directive
	First  bool     `json:",omitempty"` // the join is declared before the relation
	Result []string `json:",omitempty"`
	Where  []string `json:",omitempty"` // the lines of the Where struct
	On     string   `json:",omitempty"` // the conditions of the join
	Want   string   // accept, refuse
	Why    string   // what is wrong
}

func (c *nCase) name(id int) string { return fmt.Sprintf("%sQ%d", c.Kind, id) }

func (c *nCase) Inputs() int { return 1 }

var rxNIdent = regexp.MustCompile(`^(?:[A-Za-z_]\w*\.)?[A-Za-z_]\w*$`)

func (c *nCase) recSource(name string, tags []string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "type %s struct {\n", name)
	for i, tag := range tags {
		col := strings.SplitN(tag, ",", 2)[0]
		if k := strings.IndexByte(col, '.'); k >= 0 {
			col = col[k+1:]
		}
		typ := "int"
		for _, p := range append([]nCol{{Name: "x", Go: "int"}}, nPool...) {
			if p.Name == col {
				typ = p.Go
			}
		}
		fmt.Fprintf(&b, "\tF%d %s `sql:%q`\n", i, typ, tag)
	}
	b.WriteString("}\n")
	return b.String()
}

func (c *nCase) QSource(id int) string {
	var b strings.Builder
	rel := c.T.rel()
	if c.Alias != "" {
		rel += ":" + c.Alias
	}
	rec := fmt.Sprintf("NRec%d", id)
	fmt.Fprintf(&b, "package q\n\nimport (\n\t\"github.com/frk/gosql\"\n")
	if c.Kind == "Filter" {
		b.WriteString("\t\"github.com/frk/gosql/filter\"\n")
	}
	fmt.Fprintf(&b, ")\n\nvar _ gosql.Relation\n\ntype %s struct {\n", c.name(id))
	join := ""
	if c.J != nil {
		switch c.Kind {
		case "Select":
			join = fmt.Sprintf("\tJoin struct {\n\t\t_ gosql.CrossJoin `sql:\"%s:b\"`\n\t}\n", c.J.rel())
			if c.On != "" {
				join = fmt.Sprintf("\tJoin struct {\n\t\t_ gosql.LeftJoin `sql:\"%s:b,%s\"`\n\t}\n", c.J.rel(), c.On)
			}
		case "Update":
			join = fmt.Sprintf("\tFrom struct {\n\t\t_ gosql.Relation `sql:\"%s:b\"`\n\t}\n", c.J.rel())
		case "Delete":
			join = fmt.Sprintf("\tUsing struct {\n\t\t_ gosql.Relation `sql:\"%s:b\"`\n\t}\n", c.J.rel())
		}
	}
	if c.First {
		b.WriteString(join)
	}
	switch c.Kind {
	case "Select":
		fmt.Fprintf(&b, "\tRel []*%s `rel:%q`\n", rec, rel)
	case "Filter":
		fmt.Fprintf(&b, "\t_ %s `rel:%q`\n\tfilter.Constructor\n", rec, rel)
	default:
		fmt.Fprintf(&b, "\tRel *%s `rel:%q`\n", rec, rel)
	}
	if !c.First {
		b.WriteString(join)
	}
	if len(c.Where) > 0 {
		fmt.Fprintf(&b, "\tWhere struct {\n\t\t%s\n\t}\n", strings.Join(c.Where, "\n\t\t"))
	} else if c.Dir == "Key" {
	} else if c.Kind == "Update" || c.Kind == "Delete" {
		b.WriteString("\t_ gosql.All\n")
	}
	switch c.Dir {
	case "", "Result", "Where", "Join", "Key":
	case "Column", "Index", "Constraint":
		fmt.Fprintf(&b, "\tOnConflict struct {\n\t\t_ gosql.%s `sql:%q`\n", c.Dir, c.Tag)
		if c.Update != "" {
			fmt.Fprintf(&b, "\t\t_ gosql.Update `sql:%q`\n", c.Update)
		} else {
			b.WriteString("\t\t_ gosql.Ignore\n")
		}
		b.WriteString("\t}\n")
	default:
		fmt.Fprintf(&b, "\t_ gosql.%s `sql:%q`\n", c.Dir, c.Tag)
	}
	if len(c.Result) > 0 {
		fmt.Fprintf(&b, "\tResult []*NRes%d\n", id)
	}
	b.WriteString("}\n\n")
	b.WriteString(c.recSource(rec, c.Fields))
	if len(c.Result) > 0 {
		b.WriteString("\n" + c.recSource(fmt.Sprintf("NRes%d", id), c.Result))
	}
	return b.String()
}

func (c *nCase) RunSource(id int) string {
	if c.Kind == "Filter" {
		return fmt.Sprintf("package main\n\nimport \"vhgen/q\"\n\nfunc init() {\n\treg(%d, 0, func(t *T) { _ = new(q.%s) })\n}\n", id, c.name(id))
	}
	rel := ""
	if c.Kind != "Select" {
		rel = fmt.Sprintf("Rel: new(q.NRec%d)", id)
	}
	return fmt.Sprintf("package main\n\nimport (\n\t\"github.com/lib/pq\"\n\n\t\"vhgen/q\"\n)\n\nfunc init() {\n\treg(%d, 0, func(t *T) {\n\t\tx := &q.%s{%s}\n\t\terr := x.Exec(t.Tx)\n\t\tif e, ok := err.(*pq.Error); ok {\n\t\t\tt.Out.Vals[\"code\"] = string(e.Code)\n\t\t}\n\t\tt.Err(err)\n\t})\n}\n", id, c.name(id), rel)
}

// nGen draws a case.
func nGen(r *rand.Rand, tabs []*nTable) *nCase {
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	c := new(nCase)
	c.T = tabs[r.Intn(len(tabs))]
	dirs := map[string][]string{
		"Select": {"OrderBy", "OrderBy", "Optional", "", "Where", "Where", "Join", "Join"}, "Insert": {"Return", "Force", "Default", "Column", "Column", "Column", "Index", "Index", "Constraint", "Constraint", "", "Result"},
		"Update": {"Return", "Force", "Default", "", "Result", "Where", "Key", "Key"}, "Delete": {"Return", "Result", "Where"}, "Filter": {"TextSearch", ""},
	}
	c.Kind = pick("Select", "Select", "Insert", "Insert", "Insert", "Update", "Update", "Delete", "Filter")
	c.Dir = dirs[c.Kind][r.Intn(len(dirs[c.Kind]))]
	for k := 0; c.Dir == "Key" && k < 20 && c.T.primary() == nil; k++ {
		c.T = tabs[r.Intn(len(tabs))]
	}
	if r.Intn(4) > 0 {
		c.Alias = "a"
	}
	target := c.Alias
	if target == "" {
		target = c.T.Name
	}
	if c.Kind != "Insert" && c.Kind != "Filter" && (c.Dir == "Join" || r.Intn(2) == 0) {
		c.J = tabs[r.Intn(len(tabs))]
		for c.J == c.T {
			c.J = tabs[r.Intn(len(tabs))]
		}
	}
	refuse := func(format string, args ...any) {
		if c.Want == "" {
			c.Want, c.Why = "refuse", fmt.Sprintf(format, args...)
		}
	}
	// the record
	bad := r.Intn(2) == 0 // whether to draw something wrong on purpose
	names := func(t *nTable) (out []string) {
		for _, x := range t.Cols {
			if !x.Odd {
				out = append(out, x.Name)
			}
		}
		return out
	}
	inRec := map[string]bool{}
	addField := func(col, opts string) {
		inRec[col] = true
		q := ""
		if r.Intn(6) == 0 {
			q = target + "."
		}
		c.Fields = append(c.Fields, q+col+opts)
	}
	c.First = c.J != nil && r.Intn(3) == 0
	var opts []string
	if c.Kind == "Insert" || c.Kind == "Update" {
		opts = []string{"", "", "", ",ro"}
	} else {
		opts = []string{""}
	}
	addField("x", "")
	for _, n := range names(c.T) {
		if n != "x" && r.Intn(3) > 0 {
			addField(n, pick(opts...))
		}
	}
	// fields are those of columns of the target relation only
	if c.Dir == "" && bad && r.Intn(3) == 0 {
		q, what := "zz.", "an unknown qualifier"
		if c.J != nil && r.Intn(3) > 0 {
			q, what = "b.", "the qualifier of another relation"
		}
		k := r.Intn(len(c.Fields))
		if l := strings.Split(c.Fields[k], "."); len(l) == 1 && !strings.HasSuffix(l[0], ",ro") && c.Kind != "Delete" {
			c.Fields[k] = q + l[0]
			refuse("the record's field %q has %s", c.Fields[k], what)
		}
	}
	unknown := pick("nosuch", "gone0", "ID", "idx", "X", "nosuch_x", "n_", "T")
	// columns of the record's that don't exist
	var optional []string
	if missing := missingCols(c.T); bad && c.Dir == "" || c.Kind == "Select" && c.Dir == "Optional" && r.Intn(2) == 0 {
		col := unknown
		if len(missing) > 0 && r.Intn(2) == 0 {
			col = missing[r.Intn(len(missing))]
		}
		if !inRec[col] {
			o := ""
			if c.Kind == "Insert" || c.Kind == "Update" {
				o = pick("", ",ro")
			}
			inRec[col] = true
			c.Fields = append(c.Fields, col+o)
			switch {
			case c.Kind == "Select" && c.Dir == "Optional" && r.Intn(2) == 0:
				optional = append(optional, col)
			case c.Kind == "Filter" || o == ",ro":
			default:
				refuse("the record's column %q does not exist", col)
			}
		}
	}
	r.Shuffle(len(c.Fields), func(a, b int) { c.Fields[a], c.Fields[b] = c.Fields[b], c.Fields[a] })
	inT := func(n string) bool { return c.T.col(n) != nil }
	// ident draws a column identifier: its text, qualifier ("": unqualified or the target, "b", "?": not one of the query) and name.
	ident := func(faulty bool, pool []string) (text, qual, name string) {
		if !faulty {
			name = pool[r.Intn(len(pool))]
			return pick("", "", target+".") + name, "", name
		}
		switch r.Intn(8) {
		case 0:
			return pick("", target+".") + unknown, "", unknown
		case 1:
			name = pool[r.Intn(len(pool))]
			q := "zz"
			if c.Alias != "" {
				q = pick("zz", c.T.Name)
			}
			return q + "." + name, "?", name
		case 2:
			if c.J != nil {
				l := names(c.J)
				name = l[r.Intn(len(l))]
				return "b." + name, "b", name
			}
		case 3:
			if c.J != nil {
				l := names(c.J)
				name = l[r.Intn(len(l))]
				return name, "", name
			}
		case 4:
			if c.J != nil {
				name = pool[r.Intn(len(pool))]
				return "b." + name, "b", name
			}
		case 5:
			return pick("1x", "a.b.c", "x y", "x-", "x;", ".x", "a.", "x\\\"", "é", "x()"), "!", ""
		case 6:
			if m := missingCols(c.T); len(m) > 0 {
				name = m[r.Intn(len(m))]
				return pick("", target+".") + name, "", name
			}
		}
		name = pool[r.Intn(len(pool))]
		return pick("", target+".") + name, "", name
	}
	// found reports whether the identifier is that of a column of one of the relations.
	found := func(qual, name string) bool {
		switch qual {
		case "":
			return inT(name)
		case "b":
			return c.J != nil && c.J.col(name) != nil
		}
		return false
	}
	list := func(n int, pool []string, check func(text, qual, name string)) string {
		var l []string
		at := -1
		if bad {
			at = r.Intn(n)
		}
		for i := 0; i < n; i++ {
			text, qual, name := ident(i == at, pool)
			l = append(l, text)
			if qual == "!" || !rxNIdent.MatchString(text) {
				refuse("%q is not an identifier", text)
			} else if qual == "?" {
				refuse("%q has an unknown qualifier", text)
			} else {
				check(text, qual, name)
			}
		}
		return strings.Join(l, ",")
	}
	hasField := func(text, name string) {
		if !inRec[name] {
			refuse("the record has no field for %q", text)
		}
	}
	// nullable refuses the column in a NULL predicate if it has no NULLs.
	nullable := func(t *nTable, text string) {
		if x := t.col(text[strings.LastIndexByte(text, '.')+1:]); x != nil {
			nn := x.Gen
			for _, i := range t.Inds {
				nn = nn || i.Primary && contains(i.Cols, x.Name)
			}
			if nn {
				refuse("%q is NOT NULL", text)
			}
		}
	}
	var recCols []string
	for n := range inRec {
		recCols = append(recCols, n)
	}
	sort.Strings(recCols)
	n := 1 + r.Intn(3)
	switch c.Dir {
	case "Return":
		if r.Intn(8) == 0 {
			c.Tag = "*"
			break
		}
		c.Tag = list(n, recCols, func(text, qual, name string) {
			hasField(text, name)
			if qual == "b" {
				refuse("%q is not a column of the target relation", text)
			} else if !inT(name) {
				refuse("%q does not exist", text)
			}
		})
	case "Force":
		if r.Intn(8) == 0 {
			c.Tag = "*"
			break
		}
		c.Tag = list(n, recCols, func(text, qual, name string) {
			hasField(text, name)
			if !found(qual, name) {
				refuse("%q does not exist", text)
			}
		})
	case "Default":
		if r.Intn(8) == 0 {
			c.Tag = "*"
			break
		}
		var pool []string
		for _, x := range c.T.Cols {
			if x.Def && !x.Odd {
				pool = append(pool, x.Name)
			}
		}
		if bad && r.Intn(3) == 0 || len(pool) == 0 {
			pool = nil
			for _, x := range c.T.Cols {
				if !x.Gen && !x.Odd {
					pool = append(pool, x.Name)
				}
			}
		}
		c.Tag = list(n, pool, func(text, qual, name string) {
			x := c.T.col(name)
			if qual == "b" {
				refuse("%q is not a column of the target relation", text)
			} else if x == nil {
				refuse("%q does not exist", text)
			} else if x.Gen {
				c.Want = "skip"
			} else if !x.Def {
				refuse("%q has no default", text)
			}
		})
	case "Optional":
		c.Tag = list(n, recCols, func(text, qual, name string) { hasField(text, name) })
		l := strings.Split(c.Tag, ",")
		if len(optional) > 0 {
			l = append(l, optional...)
		}
		c.Tag = strings.Join(l, ",")
		if c.Why != "" && strings.Contains(c.Why, "record's column") {
			for _, x := range l {
				if strings.HasSuffix("."+x, `.`+strings.Split(c.Why, `"`)[1]) {
					c.Want = "skip" // is optional after all
				}
			}
		}
	case "OrderBy":
		var pool []string
		for _, x := range c.T.Cols {
			if !x.Odd && !nNoOrder[x.Typ] || !x.Odd && bad && r.Intn(3) == 0 {
				pool = append(pool, x.Name)
			}
		}
		c.Tag = list(n, pool, func(text, qual, name string) {
			t := c.T
			if qual == "b" {
				t = c.J
			}
			if !found(qual, name) {
				refuse("%q does not exist", text)
			} else if nNoOrder[t.col(name).Typ] {
				refuse("%q cannot be ordered by", text)
			}
		})
		l := strings.Split(c.Tag, ",")
		for i := range l {
			l[i] = pick("", "-") + l[i] + pick("", ":nullsfirst", ":nullslast")
		}
		c.Tag = strings.Join(l, ",")
	case "TextSearch":
		pool := names(c.T)
		if !bad && inT("fts") {
			pool = []string{"fts"}
		}
		c.Tag = list(1, pool, func(text, qual, name string) {
			if x := c.T.col(name); x == nil {
				refuse("%q does not exist", text)
			} else if x.Typ != "tsvector" {
				refuse("%q is not a tsvector", text)
			}
		})
	case "Column":
		var cols []string
		if len(c.T.Inds) > 0 && r.Intn(5) > 0 {
			x := c.T.Inds[r.Intn(len(c.T.Inds))]
			cols = append(cols, x.Cols...)
			if bad && r.Intn(3) == 0 {
				cols = append(cols, x.Incl...)
			}
			r.Shuffle(len(cols), func(a, b int) { cols[a], cols[b] = cols[b], cols[a] })
			if bad && r.Intn(2) == 0 {
				if r.Intn(2) == 0 && len(cols) > 1 {
					cols = cols[1:]
				} else if l := names(c.T); true {
					cols = append(cols, l[r.Intn(len(l))])
				}
			}
		} else {
			for range n {
				l := names(c.T)
				cols = append(cols, l[r.Intn(len(l))])
			}
		}
		var l []string
		for _, x := range cols {
			l = append(l, pick("", "", target+".")+x)
			if !rxNIdent.MatchString(x) {
				refuse("%q is not an identifier", x)
			}
		}
		if bad && r.Intn(3) == 0 {
			text, qual, name := ident(true, names(c.T))
			l = append(l, text)
			if qual == "!" || !rxNIdent.MatchString(text) {
				refuse("%q is not an identifier", text)
			} else if qual == "?" {
				refuse("%q has an unknown qualifier", text)
			} else if !inT(name) {
				refuse("%q does not exist", text)
			}
			cols = append(cols, name)
		}
		c.Tag = strings.Join(l, ",")
		ok, defers := false, false
		for _, x := range c.T.Inds {
			if x.Unique && !x.Expr && sameSet(x.Cols, cols) {
				ok, defers = ok || !x.Defer, defers || x.Defer
			}
		}
		if ok && defers {
			c.Want = "skip" // postgres would infer both
		}
		if !ok {
			refuse("no unique index is on the columns %q", c.Tag)
		}
		if hasDup(cols) {
			c.Want = "skip"
		}
	case "Index", "Constraint":
		var pool []string
		if bad {
			for _, t := range tabs[:min(3, len(tabs))] {
				for _, x := range t.Inds {
					pool = append(pool, x.Name)
				}
			}
			pool = append(pool, "nosuch", "x", strings.ToUpper(c.T.Name)+"_I0")
		}
		for _, x := range c.T.Inds {
			pool = append(pool, x.Name)
			if bad {
				pool = append(pool, x.Name)
			} else if c.Dir == "Index" && x.Unique && !x.Defer || c.Dir == "Constraint" && x.Unique && x.Con && !x.Defer {
				pool = append(pool, x.Name, x.Name, x.Name)
			}
		}
		if len(pool) == 0 {
			pool = []string{"nosuch"}
		}
		c.Tag = pool[r.Intn(len(pool))]
		if strings.Contains(c.Tag, `"`) || bad && r.Intn(8) == 0 {
			c.Tag = pick("1x", "a b", "a.x", "x;", "")
		}
		ok := false
		for _, x := range c.T.Inds {
			if x.Name == c.Tag && x.Unique && !x.Defer {
				ok = (c.Dir == "Index" || x.Con) && rxNIdent.MatchString(x.Name)
				for _, y := range c.T.Inds {
					if ok && c.Dir == "Index" && y.Defer && sameSet(x.Cols, y.Cols) {
						c.Want = "skip"
					}
				}
			}
		}
		if !ok {
			refuse("%q is not a unique %s of %s", c.Tag, strings.ToLower(c.Dir), c.T.Name)
		}
	case "Key":
		// without conditions an update is that of the rows with the record's primary key
		key := c.T.primary()
		if !bad {
			for _, k := range key {
				if !inRec[k] && rxNIdent.MatchString(k) {
					addField(k, pick(opts...))
				}
			}
		}
		if len(key) == 0 {
			refuse("%s has no primary key", c.T.Name)
		}
		for _, k := range key {
			hasField(k, k)
		}
		if len(key) > 0 && inRec[key[0]] && r.Intn(5) == 0 {
			addField(key[0], ",ro")
			refuse("%q has two fields", key[0])
		}
	case "Where":
		plain := map[string]bool{"int4": true, "int8": true, "text": true, "varchar": true}
		for i := range n {
			text := list(1, names(c.T), func(text, qual, name string) {
				if !found(qual, name) {
					refuse("%q does not exist", text)
				}
			})
			typ := ""
			t, name := c.T, text[strings.LastIndexByte(text, '.')+1:]
			if strings.HasPrefix(text, "b.") && c.J != nil {
				t = c.J
			}
			if x := t.col(name); x != nil && plain[x.Typ] {
				typ = x.Go
			} else if x == nil && r.Intn(2) == 0 {
				typ = "int"
			}
			if typ != "" && r.Intn(3) > 0 {
				c.Where = append(c.Where, fmt.Sprintf("W%d %s `sql:%q`", i, typ, text))
			} else {
				c.Where = append(c.Where, fmt.Sprintf("_ gosql.Column `sql:%q`", text+pick(" isnull", " notnull")))
				if t == c.T {
					nullable(t, text) // those of joined relations can be NULL all the same
				}
			}
			if strings.ContainsAny(text, ` -;()\"`) {
				c.Want = "skip" // not one identifier but an expression
			}
			bad = bad && c.Want == ""
		}
	case "Join":
		// columns of the joined relation, on the left, with ones of either
		ints := func(t *nTable) (out []string) {
			for _, x := range t.Cols {
				if x.Typ == "int4" && !x.Odd {
					out = append(out, x.Name)
				}
			}
			return out
		}
		var l []string
		for range n {
			pool := ints(c.J)
			name := pool[r.Intn(len(pool))]
			text := "b." + name
			if bad && r.Intn(3) == 0 {
				switch m := missingCols(c.J); r.Intn(4) {
				case 0:
					text = "b." + unknown
					refuse("%q does not exist", text)
				case 1:
					text = target + "." + name
					refuse("%q is not a column of the joined relation", text)
				case 2:
					text = "zz." + name
					refuse("%q has an unknown qualifier", text)
				default:
					if len(m) > 0 {
						text = "b." + m[r.Intn(len(m))]
						refuse("%q does not exist", text)
					}
				}
			}
			if r.Intn(3) == 0 {
				l = append(l, text+pick(" isnull", " notnull"))
				nullable(c.J, text)
				continue
			}
			pool = ints(c.T)
			name = pool[r.Intn(len(pool))]
			rhs := target + "." + name
			if r.Intn(3) == 0 {
				pool = ints(c.J)
				rhs = "b." + pool[r.Intn(len(pool))]
			}
			if bad && r.Intn(3) == 0 {
				switch m := missingCols(c.T); r.Intn(3) {
				case 0:
					rhs = target + "." + unknown
					refuse("%q does not exist", rhs)
				case 1:
					rhs = "zz." + name
					refuse("%q has an unknown qualifier", rhs)
				default:
					if len(m) > 0 {
						rhs = target + "." + m[r.Intn(len(m))]
						refuse("%q does not exist", rhs)
					}
				}
			}
			l = append(l, text+pick(" = ", " <> ", " > ")+rhs)
		}
		c.On = strings.Join(l, pick(",", ";"))
	case "Result":
		if c.J == nil || r.Intn(2) == 0 {
			c.Result = strings.Split(list(n, names(c.T), func(text, qual, name string) {
				if qual == "b" {
					refuse("%q is not a column of the target relation", text)
				} else if !found(qual, name) {
					refuse("%q does not exist", text)
				}
			}), ",")
		} else {
			c.Result = []string{"x"}
		}
		for _, s := range c.Result {
			if !rxNIdent.MatchString(s) {
				c.Want = "skip"
			}
		}
	}
	if c.Dir == "Column" || c.Dir == "Index" || c.Dir == "Constraint" {
		switch r.Intn(4) {
		case 0:
			c.Update = "*"
		case 1:
			c.Update = list(n, names(c.T), func(text, qual, name string) {
				if !inT(name) {
					refuse("%q does not exist", text)
				}
			})
		}
	}
	if c.Want == "" {
		c.Want = "accept"
	}
	return c
}

func missingCols(t *nTable) (out []string) {
	for _, p := range nPool {
		if t.col(p.Name) == nil {
			out = append(out, p.Name)
		}
	}
	return out
}

func hasDup(l []string) bool {
	seen := map[string]bool{}
	for _, s := range l {
		if seen[s] {
			return true
		}
		seen[s] = true
	}
	return false
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		if !contains(b, x) {
			return false
		}
	}
	return true
}

// nShrink drops what has nothing to do with the verdict for as long as the case fails.
func nShrink(c *nCase, fails func(*nCase) bool) *nCase {
	text := func(c *nCase) string {
		return strings.Join(append(append([]string{c.Tag, c.Update, c.On, c.Why}, c.Result...), c.Where...), " ")
	}
	named := func(c *nCase, name string) bool {
		return regexp.MustCompile(`\b` + regexp.QuoteMeta(name) + `\b`).MatchString(text(c))
	}
	clone := func(c *nCase) *nCase {
		b, err := json.Marshal(c)
		fw.InfraPanic(err)
		x := new(nCase)
		fw.InfraPanic(json.Unmarshal(b, x))
		return x
	}
	var steps []func(*nCase) bool
	steps = append(steps, func(c *nCase) bool {
		if c.J == nil || c.Dir == "Join" || strings.Contains(text(c)+strings.Join(c.Fields, " "), "b.") {
			return false
		}
		c.J, c.First = nil, false
		return true
	})
	for i := len(c.T.Inds) - 1; i >= 0; i-- {
		steps = append(steps, func(c *nCase) bool {
			if x := c.T.Inds[i]; x.Primary || named(c, x.Name) || c.Want == "accept" && c.Dir == "Column" {
				return false
			}
			c.T.Inds = append(c.T.Inds[:i], c.T.Inds[i+1:]...)
			return true
		})
	}
	for i := len(c.Fields) - 1; i >= 0; i-- {
		steps = append(steps, func(c *nCase) bool {
			f := strings.SplitN(c.Fields[i], ",", 2)[0]
			if f = f[strings.IndexByte(f, '.')+1:]; f == "x" || named(c, f) {
				return false
			}
			c.Fields = append(c.Fields[:i], c.Fields[i+1:]...)
			return true
		})
	}
	for i := len(c.T.Cols) - 1; i >= 0; i-- {
		steps = append(steps, func(c *nCase) bool {
			n := c.T.Cols[i].Name
			for _, f := range c.Fields {
				f = strings.SplitN(f, ",", 2)[0]
				if f[strings.IndexByte(f, '.')+1:] == n {
					return false
				}
			}
			for _, x := range c.T.Inds {
				if contains(x.Cols, n) || contains(x.Incl, n) {
					return false
				}
			}
			if n == "x" || named(c, n) {
				return false
			}
			c.T.Cols = append(c.T.Cols[:i], c.T.Cols[i+1:]...)
			return true
		})
	}
	for _, step := range steps {
		if x := clone(c); step(x) && fails(x) {
			c = x
		}
	}
	return c
}

func nSub(r *fw.Run) fw.Sub {
	// decide judges cases on the tables in the engine's database.
	decide := func(e *e2eEngine, cs []*nCase) (errs []error, msgs []string) {
		errs = make([]error, len(cs))
		ec := make([]e2eCase, len(cs))
		for i := range cs {
			ec[i] = cs[i]
		}
		msgs = e.verdicts(ec)
		confirm := func(i int, err error) {
			// the CLI itself has the last word
			if m := e.verdict(e.r.TempDir()+"/v", cs[i]); (m == "") == (msgs[i] == "") {
				errs[i] = err
			}
		}
		var idx []int
		var run []e2eCase
		for i, m := range msgs {
			c := cs[i]
			plain := rxANSI.ReplaceAllString(m, "")
			switch {
			case strings.Contains(m, "goroutine ") || strings.Contains(m, "panic:"):
				confirm(i, fmt.Errorf("the generator panics: %s", head(m, 1500)))
			case m != "" && c.Want == "accept":
				confirm(i, fmt.Errorf("all that the type names exists and fits, but it is refused: %s", plain))
			case m == "" && c.Want == "refuse":
				confirm(i, fmt.Errorf("%s, but the type is accepted", c.Why))
			case m != "" && !rxCaseFile.MatchString(plain):
				confirm(i, fmt.Errorf("the refusal doesn't name the file: %s", plain))
			case m == "":
				idx = append(idx, i)
				run = append(run, c)
			}
		}
		for len(run) > 0 {
			k := min(150, len(run))
			for j, res := range e.run(run[:k]) {
				i := idx[j]
				switch {
				case res.Rejected != "":
					errs[i] = fmt.Errorf("the type is refused, but not on its own: %s", res.Rejected)
				case res.Compile != "":
					errs[i] = fmt.Errorf("the type is accepted, but the code does not compile: %s\n%s", tail(res.Compile, 500), res.Gen)
				case res.Out[0].Panic != "":
					errs[i] = fmt.Errorf("the generated method panics: %s\n%s", res.Out[0].Panic, res.Gen)
				default:
					o := res.Out[0]
					code, _ := o.Vals["code"].(string)
					// classes: syntax, names and types; prerequisites of the statement
					if o.Err != "" && (strings.HasPrefix(code, "42") || strings.HasPrefix(code, "55") || strings.HasPrefix(code, "0A")) {
						errs[i] = fmt.Errorf("the type is accepted, but its execution fails: %s %s\n%s", code, o.Err, res.Gen)
					}
				}
			}
			run, idx = run[k:], idx[k:]
		}
		return errs, msgs
	}
	open := func(tabs []*nTable, key string) (*e2eEngine, *sql.DB) {
		var b strings.Builder
		b.WriteString("CREATE SCHEMA ns;\nCREATE SCHEMA \"Ns\";\n")
		for _, t := range tabs {
			b.WriteString(t.ddl())
		}
		db := r.DB(key, b.String())
		return newE2E(r, key), db
	}
	tries := 0
	try := func(c *nCase) error {
		tabs := []*nTable{c.T}
		if c.J != nil {
			tabs = append(tabs, c.J)
		}
		tries++
		e, db := open(tabs, fmt.Sprintf("e2e_names_try%d", tries))
		defer db.Close()
		errs, _ := decide(e, []*nCase{c})
		return errs[0]
	}
	return &fw.Custom{
		Name: "names",
		Do: func(rep *fw.Reporter) {
			var cs []*nCase
			var tabs []*nTable
			n, per := r.N(1500, 12000), 1500
			for k := 0; n > 0 && !rep.Failed(); k++ {
				rng := rand.New(rand.NewSource(int64(r.Seed*7919) + int64(k)))
				tabs, cs = nil, nil
				for i := range 60 {
					tabs = append(tabs, nGenTable(rng, i))
				}
				e, db := open(tabs, fmt.Sprintf("e2e_names%d", k))
				for range min(n, per) {
					c := nGen(rng, tabs)
					if c.Want != "skip" {
						cs = append(cs, c)
					}
				}
				n -= per
				errs, msgs := decide(e, cs)
				for i, c := range cs {
					dir := c.Dir
					if dir == "" {
						dir = "record"
					}
					rep.Case(c, true, c.Want+" "+dir, "kind "+c.Kind)
					if errs[i] != nil {
						if small := nShrink(c, func(c *nCase) bool { return try(c) != nil }); small != c {
							c, errs[i] = small, try(small)
						}
						rep.Fail(c, fmt.Errorf("%w\n%s\n%s (refused: %v)", errs[i], c.T.ddl(), c.QSource(0), msgs[i] != ""))
						break
					}
				}
				db.Close()
			}
		},
		ReplayCase: func(raw json.RawMessage) error {
			c := new(nCase)
			fw.InfraPanic(json.Unmarshal(raw, c))
			return try(c)
		},
	}
}

func init() {
	fw.Register(&fw.Property{
		ID:   "P31",
		Rule: "every query or filter type counts: it is either one whose names all exist and fit, which has to be accepted and its statement to run, or one with a name that doesn't, which has to be refused",
		Subs: func(r *fw.Run) []fw.Sub { return []fw.Sub{nSub(r)} },
	})
}
