package props

import (
	"database/sql"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	_ "github.com/lib/pq"

	"github.com/frk/gosql/vh/fw"
)

// Rendering of query structs as Go source, and their reference outcome.

func (q *GQuery) typeName(id int) string {
	p := map[string]string{"insert": "Insert", "update": "Update", "delete": "Delete"}[q.Kind]
	if p == "" {
		p = "Select"
	}
	return p + "Q" + strconv.Itoa(id)
}

func (q *GQuery) relName() string {
	switch q.Kind {
	case "count":
		return "Count"
	case "exists":
		return "Exists"
	case "notexists":
		return "NotExists"
	}
	return "Rel"
}

// hasOut reports whether the query returns rows.
func (q *GQuery) hasOut() bool { return q.Return != nil || q.Result != nil }

// formType is the Go type of a field that holds records in the given form.
func formType(form, rec, iter string) string {
	switch form {
	case "ptr":
		return "*" + rec
	case "val":
		return rec
	case "slice":
		return "[]" + rec
	case "sliceptr":
		return "[]*" + rec
	case "func":
		return "func(" + rec + ") error"
	case "funcptr":
		return "func(*" + rec + ") error"
	case "iface", "ifaceval":
		return iter
	}
	panic("unknown form " + form)
}

func isSliceForm(f string) bool  { return f == "slice" || f == "sliceptr" }
func isSingleForm(f string) bool { return f == "ptr" || f == "val" }
func isIterForm(f string) bool   { return !isSliceForm(f) && !isSingleForm(f) }
func isPtrForm(f string) bool {
	return f == "ptr" || f == "sliceptr" || f == "funcptr" || f == "iface"
}

func iterSource(b *strings.Builder, form, iter, rec string) {
	if form == "iface" {
		fmt.Fprintf(b, "type %s interface {\n\tNext(*%s) error\n}\n\n", iter, rec)
	} else if form == "ifaceval" {
		fmt.Fprintf(b, "type %s interface {\n\tNext(%s) error\n}\n\n", iter, rec)
	}
}

func (l *Lim) source(name string) string {
	tag := ""
	if l.Def >= 0 {
		tag = fmt.Sprintf(" `sql:\"%d\"`", l.Def)
	}
	if l.Field {
		return fmt.Sprintf("\t%s %s%s\n", name, l.Go, tag)
	}
	return fmt.Sprintf("\t_ gosql.%s%s\n", name, tag)
}

func joinSource(name string, rel *JoinD, joins []JoinD) string {
	var b strings.Builder
	fmt.Fprintf(&b, "\t%s struct {\n", name)
	if rel != nil {
		fmt.Fprintf(&b, "\t\t_ gosql.Relation `sql:\"%s\"`\n", joinTag(*rel))
	}
	for _, j := range joins {
		fmt.Fprintf(&b, "\t\t_ gosql.%sJoin `sql:\"%s\"`\n", j.Typ, joinTag(j))
	}
	b.WriteString("\t}\n")
	return b.String()
}

// structSource renders the query struct alone.
func (q *GQuery) structSource(id int) string {
	sid := strconv.Itoa(id)
	var b strings.Builder
	rel := q.Table
	if q.Alias != "" {
		rel += ":" + q.Alias
	}
	fmt.Fprintf(&b, "type %s struct {\n", q.typeName(id))
	switch q.Kind {
	case "count":
		fmt.Fprintf(&b, "\tCount %s `rel:\"%s\"`\n", q.CountGo, rel)
	case "exists", "notexists":
		fmt.Fprintf(&b, "\t%s bool `rel:\"%s\"`\n", q.relName(), rel)
	default:
		if q.Form == "dir" {
			fmt.Fprintf(&b, "\t_ gosql.Relation `rel:\"%s\"`\n", rel)
		} else {
			fmt.Fprintf(&b, "\tRel %s `rel:\"%s\"`\n", formType(q.Form, "RecQ"+sid, "IterQ"+sid), rel)
		}
	}
	// the relations come before the directives that refer to them
	switch q.Kind {
	case "update":
		if q.JoinRel != nil {
			b.WriteString(joinSource("From", q.JoinRel, q.Joins))
		}
	case "delete":
		if q.JoinRel != nil {
			b.WriteString(joinSource("Using", q.JoinRel, q.Joins))
		}
	default:
		if len(q.Joins) > 0 {
			b.WriteString(joinSource("Join", nil, q.Joins))
		}
	}
	var parts []string
	if q.Default != nil {
		parts = append(parts, fmt.Sprintf("\t_ gosql.Default `sql:\"%s\"`\n", strings.Join(q.Default, ",")))
	}
	if q.Force != nil {
		parts = append(parts, fmt.Sprintf("\t_ gosql.Force `sql:\"%s\"`\n", strings.Join(q.Force, ",")))
	}
	if q.Override != "" {
		parts = append(parts, fmt.Sprintf("\t_ gosql.Override `sql:\"%s\"`\n", q.Override))
	}
	if q.Where != nil {
		var w strings.Builder
		w.WriteString("\tWhere struct {\n")
		whereSource(&w, q.Where, "\t\t")
		w.WriteString("\t}\n")
		parts = append(parts, w.String())
	}
	if q.All {
		parts = append(parts, "\t_ gosql.All\n")
	}
	if q.Filter != nil {
		if q.Filter.Embedded {
			parts = append(parts, "\tgosql.Filter\n")
		} else {
			parts = append(parts, "\tFilter gosql.Filter\n")
		}
	}
	if q.Order != nil {
		parts = append(parts, fmt.Sprintf("\t_ gosql.OrderBy `sql:\"%s\"`\n", orderTag(q.Order)))
	}
	if q.Limit != nil {
		parts = append(parts, q.Limit.source("Limit"))
	}
	if q.Offset != nil {
		parts = append(parts, q.Offset.source("Offset"))
	}
	if c := q.Conflict; c != nil {
		var w strings.Builder
		w.WriteString("\tOnConflict struct {\n")
		if c.Cols != nil {
			fmt.Fprintf(&w, "\t\t_ gosql.Column `sql:\"%s\"`\n", strings.Join(c.Cols, ","))
		}
		if c.Index != "" {
			fmt.Fprintf(&w, "\t\t_ gosql.Index `sql:\"%s\"`\n", c.Index)
		}
		if c.Constraint != "" {
			fmt.Fprintf(&w, "\t\t_ gosql.Constraint `sql:\"%s\"`\n", c.Constraint)
		}
		if c.Ignore {
			w.WriteString("\t\t_ gosql.Ignore\n")
		}
		if c.Update != nil {
			fmt.Fprintf(&w, "\t\t_ gosql.Update `sql:\"%s\"`\n", strings.Join(c.Update, ","))
		}
		w.WriteString("\t}\n")
		parts = append(parts, w.String())
	}
	if q.Return != nil {
		parts = append(parts, fmt.Sprintf("\t_ gosql.Return `sql:\"%s\"`\n", strings.Join(q.Return, ",")))
	}
	if q.Result != nil {
		parts = append(parts, fmt.Sprintf("\tResult %s\n", formType(q.ResForm, "ResQ"+sid, "RitQ"+sid)))
	}
	if q.Affected != "" {
		parts = append(parts, fmt.Sprintf("\tRowsAffected %s\n", q.Affected))
	}
	if q.Swap {
		for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
			parts[i], parts[j] = parts[j], parts[i]
		}
	}
	b.WriteString(strings.Join(parts, ""))
	b.WriteString("}\n\n")
	return b.String()
}

// QSource implements e2eCase.
func (q *GQuery) QSource(id int) string {
	sid := strconv.Itoa(id)
	var b strings.Builder
	b.WriteString(q.structSource(id))
	if q.Rec != nil {
		b.WriteString(q.Rec.source("RecQ" + sid))
		iterSource(&b, q.Form, "IterQ"+sid, "RecQ"+sid)
	}
	if q.Result != nil {
		b.WriteString(q.Result.source("ResQ" + sid))
		iterSource(&b, q.ResForm, "RitQ"+sid, "ResQ"+sid)
	}
	return withImports("q", b.String())
}

// withImports adds the import declaration that the source needs.
func withImports(pkg, src string) string {
	imps := ""
	for _, i := range [][2]string{{"gosql.", "github.com/frk/gosql"}, {"time.", "time"}, {"q.", "vhgen/q"}, {"filter.", "github.com/frk/gosql/filter"}, {"json.", "encoding/json"}, {"context.", "context"}, {"sql.", "database/sql"}, {"net.", "net"}, {"big.", "math/big"}} {
		if usesPkg(src, i[0]) {
			imps += "\t" + strconv.Quote(i[1]) + "\n"
		}
	}
	if imps != "" {
		imps = "import (\n" + imps + ")\n\n"
	}
	return "package " + pkg + "\n\n" + imps + src
}

func usesPkg(src, p string) bool {
	for i := 0; ; {
		k := strings.Index(src[i:], p)
		if k < 0 {
			return false
		}
		k += i
		i = k + len(p)
		if i >= len(src) || src[i] < 'A' || src[i] > 'Z' {
			continue
		}
		if k > 0 {
			c := src[k-1]
			if c == '.' || c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
				continue
			}
		}
		return true
	}
}

// Inputs implements e2eCase.
func (q *GQuery) Inputs() int { return q.N }

// RunSource implements e2eCase.
func (q *GQuery) RunSource(id int) string {
	sid := strconv.Itoa(id)
	var b strings.Builder
	itype := func(form, name, rec, sink string) {
		if form == "iface" {
			fmt.Fprintf(&b, "type %s struct{ out *[]q.%s }\n\nfunc (i %s) Next(r *q.%s) error { *i.out = append(*i.out, *r); return nil }\n\n", name, rec, name, rec)
		} else if form == "ifaceval" {
			fmt.Fprintf(&b, "type %s struct{ out *[]q.%s }\n\nfunc (i %s) Next(r q.%s) error { *i.out = append(*i.out, r); return nil }\n\n", name, rec, name, rec)
		}
	}
	if q.Rec != nil {
		itype(q.Form, "it"+sid, "RecQ"+sid, "rel")
	}
	if q.Result != nil {
		itype(q.ResForm, "rit"+sid, "ResQ"+sid, "res")
	}
	sink := func(form, field, name, rec, it string) {
		if !isIterForm(form) || form == "dir" || form == "" {
			return
		}
		fmt.Fprintf(&b, "\t\tvar %s []q.%s\n", name, rec)
		switch form {
		case "func":
			fmt.Fprintf(&b, "\t\tx.%s = func(r q.%s) error { %s = append(%s, r); return nil }\n", field, rec, name, name)
		case "funcptr":
			fmt.Fprintf(&b, "\t\tx.%s = func(r *q.%s) error { %s = append(%s, *r); return nil }\n", field, rec, name, name)
		default:
			fmt.Fprintf(&b, "\t\tx.%s = %s{&%s}\n", field, it, name)
		}
	}
	b.WriteString("func init() {\n")
	for in := 0; in < q.N; in++ {
		fmt.Fprintf(&b, "\treg(%d, %d, func(t *T) {\n\t\tx := new(q.%s)\n", id, in, q.typeName(id))
		if q.Rec != nil {
			sink(q.Form, "Rel", "rel", "RecQ"+sid, "it"+sid)
		}
		if q.Result != nil {
			sink(q.ResForm, "Result", "res", "ResQ"+sid, "rit"+sid)
		}
		if q.Data != nil {
			var lits []string
			for _, rec := range q.Data[in] {
				l := q.Rec.literal("RecQ"+sid, rec)
				if isPtrForm(q.Form) {
					l = "P(" + l + ")"
				}
				lits = append(lits, l)
			}
			if isSliceForm(q.Form) {
				fmt.Fprintf(&b, "\t\tx.Rel = %s{%s}\n", formType(q.Form, "q.RecQ"+sid, ""), strings.Join(lits, ", "))
			} else {
				fmt.Fprintf(&b, "\t\tx.Rel = %s\n", lits[0])
			}
		}
		whereInit(&b, q.Where, "x.Where", in)
		if q.Limit != nil && q.Limit.Field {
			fmt.Fprintf(&b, "\t\tx.Limit = %d\n", q.Limit.Vals[in])
		}
		if q.Offset != nil && q.Offset.Field {
			fmt.Fprintf(&b, "\t\tx.Offset = %d\n", q.Offset.Vals[in])
		}
		if q.Filter != nil {
			filterInit(&b, q.Filter, in)
		}
		b.WriteString("\t\tt.Err(x.Exec(t))\n")
		switch {
		case q.Kind == "count" || q.Kind == "exists" || q.Kind == "notexists":
			fmt.Fprintf(&b, "\t\tt.Val(\"val\", x.%s)\n", q.relName())
		case q.Form == "dir":
		case isIterForm(q.Form):
			b.WriteString("\t\tt.Recs(\"rel\", rel)\n")
		default:
			b.WriteString("\t\tt.Recs(\"rel\", x.Rel)\n")
		}
		if q.Result != nil {
			if isIterForm(q.ResForm) {
				b.WriteString("\t\tt.Recs(\"res\", res)\n")
			} else {
				b.WriteString("\t\tt.Recs(\"res\", x.Result)\n")
			}
		}
		if q.Affected != "" {
			b.WriteString("\t\tt.Val(\"affected\", x.RowsAffected)\n")
		}
		if q.Kind == "insert" || q.Kind == "update" || q.Kind == "delete" {
			fmt.Fprintf(&b, "\t\tt.Dump(%q, %q)\n", q.Table, tabOrder[q.Table])
		}
		b.WriteString("\t})\n")
	}
	b.WriteString("}\n")
	return withImports("main", b.String())
}

// ---- the reference ----

// canonDB is the canonical form of a value returned by the driver.
func canonDB(typ string, v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case time.Time:
		return "t:" + x.UTC().Format(time.RFC3339Nano)
	case int64:
		return "i:" + strconv.FormatInt(x, 10)
	case float64:
		return "f:" + strconv.FormatFloat(x, 'g', -1, 64)
	case bool:
		return "b:" + strconv.FormatBool(x)
	case []byte:
		return "s:" + string(x)
	case string:
		return "s:" + x
	}
	return fmt.Sprintf("?:%v", v)
}

// zeroCanon is the canonical form of the zero value of a Go type.
func zeroCanon(g string) string {
	switch {
	case strings.HasPrefix(g, "*"):
		return "null"
	case g == "string" || g == "[]byte":
		return "s:"
	case g == "bool":
		return "b:false"
	case strings.HasPrefix(g, "float"):
		return "f:0"
	case g == "time.Time":
		return "t:" + time.Time{}.UTC().Format(time.RFC3339Nano)
	}
	return "i:0"
}

func hasOpt(f GField, opt string) bool {
	for _, o := range f.Opts {
		if o == opt {
			return true
		}
	}
	return false
}

// canonLit is the canonical form of a field's value.
func canonLit(f GField, v LitV) string {
	if v.Null {
		return "null"
	}
	switch strings.TrimPrefix(f.Go, "*") {
	case "string", "[]byte":
		return "s:" + v.V
	case "bool":
		return "b:" + v.V
	case "float64", "float32":
		x, _ := strconv.ParseFloat(v.V, 64)
		return "f:" + strconv.FormatFloat(x, 'g', -1, 64)
	case "time.Time":
		t, _ := time.Parse(time.RFC3339Nano, v.V)
		return "t:" + t.UTC().Format(time.RFC3339Nano)
	}
	return "i:" + v.V
}

// readExpect is the canonical value of a field after its column was scanned.
func readExpect(f GField, typ, v string) string {
	if v == "null" && !strings.HasPrefix(f.Go, "*") {
		for _, o := range f.Opts {
			if strings.HasPrefix(o, "coalesce(") {
				s := strings.TrimSuffix(strings.TrimPrefix(o, "coalesce("), ")")
				s = strings.Trim(s, "'")
				return canonLit(f, LitV{V: s})
			}
		}
		return zeroCanon(f.Go)
	}
	return v
}

// expectRow is the flattened form of a record whose columns were read; col
// returns the canonical value of a column and whether it was read.
func (g *GRec) expectRow(col func(f GField) (string, bool)) []string {
	var row []string
	var emit func(t *recTree) bool
	emit = func(t *recTree) (some bool) {
		for _, it := range t.items {
			if it.sub != nil {
				read := emit(it.sub)
				if g.Nodes[it.sub.node-1].Ptr && !read {
					row = append(row, "(nil)")
				}
				some = some || read
				continue
			}
			f := g.Fields[it.field]
			if v, ok := col(f); ok {
				row = append(row, v)
				some = true
			} else {
				row = append(row, zeroCanon(f.Go))
			}
		}
		return some
	}
	emit(g.tree())
	if g.After {
		row = append(row, "i:1")
	}
	return row
}

// refOut is the reference outcome of one execution.
type refOut struct {
	Err  string
	SQL  string
	Rows [][]string // all rows, in order when Ordered
	All  [][]string // without LIMIT
	Val  string
	// writes
	Table    [][]string
	Affected int64
	Ret      []map[string]string // returned rows
	Kept     []int               // inserted records of an insert that ignores conflicts
}

func (q *GQuery) relRef() string {
	if q.Alias != "" {
		return qi(q.Table) + " AS " + q.Alias
	}
	return qi(q.Table)
}

func (q *GQuery) fromRef() string {
	s := q.relRef()
	for _, j := range q.Joins {
		s += joinRef(j)
	}
	return s
}

func (q *GQuery) colRef(name string) string {
	if q.Alias != "" {
		return rc(q.Alias + "." + name)
	}
	if len(q.Joins) > 0 || q.JoinRel != nil {
		return rc(q.Table + "." + name)
	}
	return rc(name)
}

// rc quotes the name in a column reference.
func rc(s string) string {
	if i := strings.IndexByte(s, '.'); i >= 0 {
		return qi(s[:i]) + `."` + s[i+1:] + `"`
	}
	return `"` + s + `"`
}

// qi is the identifier as it is written in SQL: those with upper case letters need to be quoted.
func qi(s string) string {
	if strings.ToLower(s) != s {
		return `"` + s + `"`
	}
	return s
}

// limRef is the value of a limit or an offset: -1 if there is none.
func limVal(l *Lim, in int) int {
	if l == nil {
		return -1
	}
	if !l.Field {
		if l.Def <= 0 {
			return -1
		}
		return l.Def
	}
	v := l.Vals[in]
	if v == 0 && l.Def > 0 {
		return l.Def
	}
	return v
}

// tailRef is what follows the FROM clause.
func (q *GQuery) tailRef(in int) (where, order, limit string) {
	if len(q.Where) > 0 {
		where = " WHERE " + whereRef(q.Where, in)
	}
	lim, off := limVal(q.Limit, in), limVal(q.Offset, in)
	ord := q.Order
	if f := q.Filter; f != nil {
		if len(f.Calls) > 0 {
			where = " WHERE " + filterRef(f.Calls, in)
		}
		if len(f.Order) > 0 {
			ord = f.Order
		}
		if f.Limit != nil && f.Limit[in] > 0 {
			lim = f.Limit[in]
		}
		if f.Offset != nil && f.Offset[in] > 0 {
			off = f.Offset[in]
		}
	}
	if len(ord) > 0 {
		order = " ORDER BY " + orderRef(ord)
	}
	if lim >= 0 {
		limit = fmt.Sprintf(" LIMIT %d", lim)
	}
	if off >= 0 {
		limit += fmt.Sprintf(" OFFSET %d", off)
	}
	return where, order, limit
}

// ordered reports whether the order of the result is determined.
func (q *GQuery) ordered() bool {
	return len(q.Order) > 0 || q.Filter != nil && len(q.Filter.Order) > 0
}

// queryRows runs a query and returns its rows as records of rec.
func queryRecs(tx *sql.Tx, query string, rec *GRec, tab *pgTable, read func(f GField) bool) ([][]string, error) {
	rows, err := tx.Query(query)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	var out [][]string
	for rows.Next() {
		vals := make([]any, len(tab.Cols))
		ptrs := make([]any, len(vals))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		if err := rows.Scan(ptrs...); err != nil {
			return nil, err
		}
		m := map[string]string{}
		for i, c := range tab.Cols {
			m[c.Name] = canonDB(c.Typ, vals[i])
		}
		out = append(out, rec.expectRow(func(f GField) (string, bool) {
			if !read(f) {
				return "", false
			}
			return readExpect(f, tab.col(f.Col).Typ, m[f.Col]), true
		}))
	}
	return out, rows.Err()
}

// allCols lists all the columns of the relation.
func (q *GQuery) allCols() string {
	var s []string
	for _, c := range e2eTables[q.Table].Cols {
		s = append(s, q.colRef(c.Name))
	}
	return strings.Join(s, ", ")
}

// refSelect computes the reference outcome of a select.
func (q *GQuery) refSelect(db *sql.DB, in int) *refOut {
	tx, err := db.Begin()
	fw.InfraPanic(err)
	defer tx.Rollback()
	out := new(refOut)
	where, order, limit := q.tailRef(in)
	switch q.Kind {
	case "count":
		out.SQL = "SELECT COUNT(*) FROM " + q.fromRef() + where
		var n int64
		if err := tx.QueryRow(out.SQL).Scan(&n); err != nil {
			out.Err = err.Error()
		}
		out.Val = "i:" + strconv.FormatInt(n, 10)
	case "exists", "notexists":
		out.SQL = "SELECT 1 FROM " + q.fromRef() + where + order + limit
		var n int64
		err := tx.QueryRow("SELECT count(*) FROM (" + out.SQL + ") x").Scan(&n)
		if err != nil {
			out.Err = err.Error()
		}
		out.Val = "b:" + strconv.FormatBool((n > 0) == (q.Kind == "exists"))
	default:
		forced := q.forcedAll()
		read := func(f GField) bool { return readable(f) || forced }
		out.SQL = "SELECT " + q.allCols() + " FROM " + q.fromRef() + where + order + limit
		tab := e2eTables[q.Table]
		out.Rows, err = queryRecs(tx, out.SQL, q.Rec, tab, read)
		if err != nil {
			out.Err = err.Error()
			return out
		}
		if limit != "" && !q.ordered() {
			out.All, err = queryRecs(tx, "SELECT "+q.allCols()+" FROM "+q.fromRef()+where, q.Rec, tab, read)
			if err != nil {
				out.Err = err.Error()
			}
		} else {
			out.All = out.Rows
		}
	}
	return out
}

func (q *GQuery) forcedAll() bool { return len(q.Force) == 1 && q.Force[0] == "*" }

// judgeSelect compares an execution of a select with the reference.
func (q *GQuery) judgeSelect(o *e2eOut, ref *refOut) error {
	ctx := func(format string, args ...any) error {
		return fmt.Errorf("input %d: %s\nreference: %s", o.Input, fmt.Sprintf(format, args...), ref.SQL)
	}
	if o.Panic != "" {
		return ctx("the generated method panics: %s", o.Panic)
	}
	gotErr := o.Err
	if gotErr == "norows" && ref.Err == "" && (q.Kind == "select" && isSingleForm(q.Form)) {
		if len(ref.Rows) == 0 {
			return nil
		}
		return ctx("sql.ErrNoRows, want %s", showRows(ref.Rows))
	}
	if (gotErr != "") != (ref.Err != "") {
		return ctx("error %q, want %q", gotErr, ref.Err)
	}
	if gotErr != "" {
		return nil
	}
	if q.Kind != "select" {
		if v := o.Vals["val"]; v != ref.Val {
			return ctx("%s is %v, want %s", q.relName(), v, ref.Val)
		}
		return nil
	}
	got := o.Rows["rel"]
	if isSingleForm(q.Form) {
		if len(ref.Rows) == 0 {
			return ctx("a record %s, want sql.ErrNoRows", showRows(got))
		}
		if q.ordered() {
			if !sameRow(got[0], ref.Rows[0]) {
				return ctx("record %s, want %s", showRows(got), showRows(ref.Rows[:1]))
			}
			return nil
		}
		for _, r := range ref.All {
			if sameRow(got[0], r) {
				return nil
			}
		}
		return ctx("record %s, want one of %s", showRows(got), showRows(ref.All))
	}
	if len(got) != len(ref.Rows) {
		return ctx("%d records %s, want %d: %s", len(got), showRows(got), len(ref.Rows), showRows(ref.Rows))
	}
	if q.ordered() {
		for i := range got {
			if !sameRow(got[i], ref.Rows[i]) {
				return ctx("record %d is %s, want %s", i, showRows(got[i:i+1]), showRows(ref.Rows[i:i+1]))
			}
		}
		return nil
	}
	if extra := subsetRows(got, ref.All); extra != nil {
		return ctx("unexpected record %s among %s, want %s", showRows([][]string{extra}), showRows(got), showRows(ref.All))
	}
	return nil
}

func showRows(rows [][]string) string {
	var s []string
	for i, r := range rows {
		if i == 12 {
			s = append(s, fmt.Sprintf("… (%d)", len(rows)))
			break
		}
		s = append(s, "["+strings.Join(r, " ")+"]")
	}
	return strings.Join(s, " ")
}

// sameRow compares rows.
func sameRow(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// subsetRows returns a row of got (as a multiset) that is not in want.
func subsetRows(got, want [][]string) []string {
	m := map[string]int{}
	k := func(r []string) string { return strings.Join(r, "\x00") }
	for _, r := range want {
		m[k(r)]++
	}
	for _, r := range got {
		m[k(r)]--
		if m[k(r)] < 0 {
			return r
		}
	}
	return nil
}

func sortRows(rows [][]string) [][]string {
	out := append([][]string(nil), rows...)
	sort.Slice(out, func(i, j int) bool {
		return strings.Join(out[i], "\x00") < strings.Join(out[j], "\x00")
	})
	return out
}

// clone copies a query.
func (q *GQuery) clone() *GQuery {
	b, err := json.Marshal(q)
	fw.InfraPanic(err)
	c := new(GQuery)
	fw.InfraPanic(json.Unmarshal(b, c))
	return c
}
