package props

import (
	"database/sql"
	"fmt"
	"strconv"
	"strings"

	"github.com/frk/gosql/vh/fw"
)

// The reference of the queries that write: inserts, updates and deletes.

// fmode is what the tag options of a field allow.
type fmode struct{ sel, ins, upd, filt, nn bool }

// modeOf is what the options of the field, and of the records that it is nested
// in, allow.
func modeOf(f GField) fmode {
	m := optsMode(f.Opts)
	for _, up := range f.Up {
		p := optsMode(up)
		m.sel, m.ins, m.upd = m.sel && p.sel, m.ins && p.ins, m.upd && p.upd
	}
	return m
}

// optsMode follows the options from left to right.
func optsMode(opts []string) fmode {
	m := fmode{true, true, true, true, false}
	for _, o := range opts {
		switch o {
		case "ro":
			m.ins, m.upd = false, false
		case "wo":
			m.sel, m.filt = false, false
		case "xf":
			m.filt = false
		case "nn":
			m.nn = true
		}
		if o == "" || o[0] != '-' && o[0] != '+' {
			continue
		}
		on := o[0] == '+'
		for _, c := range o[1:] {
			switch c {
			case 'r':
				m.sel, m.filt = on, on
			case 'w':
				m.ins, m.upd = on, on
			case 's':
				m.sel = on
			case 'f':
				m.filt = on
			case 'i':
				m.ins = on
			case 'u':
				m.upd = on
			case 'N':
				m.nn = !on
			}
		}
	}
	return m
}

// readable reports whether a field is read from the database.
func readable(f GField) bool { return modeOf(f).sel }

func listed(l []string, col string) bool {
	if len(l) == 1 && l[0] == "*" {
		return true
	}
	for _, c := range l {
		if c == col {
			return true
		}
	}
	return false
}

// written reports whether the column of a field is a target of the query.
func (q *GQuery) written(f GField) bool {
	m := modeOf(f)
	if q.Kind == "insert" && m.ins || q.Kind == "update" && m.upd {
		return true
	}
	return listed(q.Force, f.Col)
}

func (q *GQuery) read(f GField) bool { return readable(f) || listed(q.Force, f.Col) }

// defaulted reports whether the column is set to its default.
func (q *GQuery) defaulted(f GField) bool { return hasOpt(f, "default") || listed(q.Default, f.Col) }

// returned reports whether a field of the relation is read back.
func (q *GQuery) returned(f GField) bool { return listed(q.Return, f.Col) && q.read(f) }

// nulls reports whether the field's zero value stands for NULL.
func nulls(f GField, c *pgCol) bool { return !c.NotNull && !strings.HasPrefix(f.Go, "*") }

// wlit is the SQL literal that a field's value is written as.
func wlit(f GField, c *pgCol, v LitV) string {
	if nulls(f, c) && canonLit(f, v) == zeroCanon(f.Go) {
		v = LitV{Null: true}
	}
	return sqlLit(c.Typ, v)
}

// intParam reports whether writing the value makes PostgreSQL take a parameter
// that isn't an int4 for one: NULLIF($1, 0) gives $1 the type of the literal.
func (q *GQuery) intParam(f GField, c *pgCol, v LitV) bool {
	if !q.written(f) || q.defaulted(f) || !nulls(f, c) || c.Typ != "float8" {
		return false
	}
	s := canonLit(f, v)[2:]
	_, err := strconv.ParseInt(s, 10, 32)
	return err != nil
}

// knownErr is a failure that is on record.
type knownErr struct {
	key string
	err error
}

func (e *knownErr) Error() string { return e.err.Error() }

// pkOf lists the fields of the primary key.
func (q *GQuery) pkOf() (out []int) {
	for i, f := range q.Rec.Fields {
		if e2eTables[q.Table].col(f.Col).PK {
			out = append(out, i)
		}
	}
	return out
}

// byPK reports whether an update finds its rows by their primary keys.
func (q *GQuery) byPK() bool {
	return q.Kind == "update" && q.Where == nil && q.Filter == nil && !q.All
}

// target is the name by which the columns of the relation are qualified.
func (q *GQuery) target() string {
	if q.Alias != "" {
		return q.Alias
	}
	return qi(q.Table)
}

// writeSQL is the reference statement, without the RETURNING clause.
func (q *GQuery) writeSQL(in int) string {
	tab := e2eTables[q.Table]
	var b strings.Builder
	var fields []int
	if q.Rec != nil {
		for i, f := range q.Rec.Fields {
			if q.written(f) {
				fields = append(fields, i)
			}
		}
	}
	val := func(rec []LitV, i int) string {
		f := q.Rec.Fields[i]
		if q.defaulted(f) {
			return "DEFAULT"
		}
		return wlit(f, tab.col(f.Col), rec[i])
	}
	where, _, _ := q.tailRef(in)
	from := ""
	if q.JoinRel != nil {
		from = qi(q.JoinRel.Table) + " AS " + q.JoinRel.Alias
		for _, j := range q.Joins {
			from += joinRef(j)
		}
	}
	switch q.Kind {
	case "insert":
		var cols, rows []string
		for _, i := range fields {
			cols = append(cols, rc(q.Rec.Fields[i].Col))
		}
		for _, rec := range q.Data[in] {
			var vals []string
			for _, i := range fields {
				vals = append(vals, val(rec, i))
			}
			rows = append(rows, "("+strings.Join(vals, ", ")+")")
		}
		fmt.Fprintf(&b, "INSERT INTO %s (%s)", q.relRef(), strings.Join(cols, ", "))
		if q.Override != "" {
			fmt.Fprintf(&b, " OVERRIDING %s VALUE", strings.ToUpper(q.Override))
		}
		fmt.Fprintf(&b, " VALUES %s", strings.Join(rows, ", "))
		if c := q.Conflict; c != nil {
			b.WriteString(" ON CONFLICT")
			switch {
			case c.Cols != nil:
				var s []string
				for _, x := range c.Cols {
					s = append(s, rc(x))
				}
				b.WriteString(" (" + strings.Join(s, ", ") + ")")
			case c.Constraint != "":
				b.WriteString(" ON CONSTRAINT " + qi(c.Constraint))
			case c.Index != "":
				b.WriteString(" " + indexTargets[c.Index])
			}
			if c.Ignore {
				b.WriteString(" DO NOTHING")
			} else {
				up := c.Update
				if len(up) == 1 && up[0] == "*" {
					up = nil
					for _, i := range fields {
						up = append(up, q.Rec.Fields[i].Col)
					}
				}
				var set []string
				for _, x := range up {
					set = append(set, fmt.Sprintf("%s = EXCLUDED.%s", rc(x), rc(x)))
				}
				b.WriteString(" DO UPDATE SET " + strings.Join(set, ", "))
			}
		}
	case "update":
		var set []string
		if isSliceForm(q.Form) {
			// VALUES of all the records, found by their keys
			var names []string
			for i := range q.Rec.Fields {
				names = append(names, fmt.Sprintf("c%d", i))
			}
			var rows []string
			for _, rec := range q.Data[in] {
				var vals []string
				for i, f := range q.Rec.Fields {
					vals = append(vals, wlitKey(f, tab.col(f.Col), rec[i]))
				}
				rows = append(rows, "("+strings.Join(vals, ", ")+")")
			}
			for _, i := range fields {
				f := q.Rec.Fields[i]
				if q.defaulted(f) {
					set = append(set, rc(f.Col)+" = DEFAULT")
				} else {
					set = append(set, fmt.Sprintf("%s = zz.c%d", rc(f.Col), i))
				}
			}
			var conds []string
			for _, i := range q.pkOf() {
				conds = append(conds, fmt.Sprintf("%s.%s = zz.c%d", q.target(), rc(q.Rec.Fields[i].Col), i))
			}
			fmt.Fprintf(&b, "UPDATE %s SET %s FROM (VALUES %s) AS zz (%s) WHERE %s", q.relRef(), strings.Join(set, ", "),
				strings.Join(rows, ", "), strings.Join(names, ", "), strings.Join(conds, " AND "))
			break
		}
		rec := q.Data[in][0]
		for _, i := range fields {
			set = append(set, rc(q.Rec.Fields[i].Col)+" = "+val(rec, i))
		}
		if q.byPK() {
			var conds []string
			for _, i := range q.pkOf() {
				f := q.Rec.Fields[i]
				conds = append(conds, fmt.Sprintf("%s.%s = %s", q.target(), rc(f.Col), sqlLit(tab.col(f.Col).Typ, rec[i])))
			}
			where = " WHERE " + strings.Join(conds, " AND ")
		}
		fmt.Fprintf(&b, "UPDATE %s SET %s", q.relRef(), strings.Join(set, ", "))
		if from != "" {
			b.WriteString(" FROM " + from)
		}
		b.WriteString(where)
	case "delete":
		fmt.Fprintf(&b, "DELETE FROM %s", q.relRef())
		if from != "" {
			b.WriteString(" USING " + from)
		}
		b.WriteString(where)
	}
	return b.String()
}

// wlitKey is wlit, but leaves keys as they are.
func wlitKey(f GField, c *pgCol, v LitV) string {
	if c.PK {
		return sqlLit(c.Typ, v)
	}
	return wlit(f, c, v)
}

// indexTargets are the conflict targets that infer the indexes.
var indexTargets = map[string]string{
	"gu_u1": "(u1)", "gu_u2_u3": "(u2, u3)", "gu_expr": "(lower(val), (cnt % 100)) WHERE cnt > 5",
	"ga_pkey": "(id)", "gb_pkey": "(id)", "gu_pkey": "(id)", "Gc_pkey": "(x, y)",
}

// refWrite executes the reference statement in a transaction that is rolled back.
func (q *GQuery) refWrite(db *sql.DB, in int) *refOut {
	tx, err := db.Begin()
	fw.InfraPanic(err)
	defer tx.Rollback()
	for _, p := range e2ePrelude {
		_, err := tx.Exec(p)
		fw.InfraPanic(err)
	}
	out := new(refOut)
	var ret []string
	tab := e2eTables[q.Table]
	for _, c := range tab.Cols {
		ret = append(ret, q.target()+"."+rc(c.Name))
	}
	out.SQL = q.writeSQL(in) + " RETURNING " + strings.Join(ret, ", ")
	out.Ret, err = queryMaps(tx, out.SQL, tab)
	if err != nil {
		out.Err = err.Error()
		return out
	}
	out.Affected = int64(len(out.Ret))
	var all []string
	for _, c := range tab.Cols {
		all = append(all, rc(c.Name))
	}
	ms, err := queryMaps(tx, "SELECT "+strings.Join(all, ", ")+" FROM "+qi(q.Table)+" ORDER BY "+tabOrder[q.Table], tab)
	fw.InfraPanic(err)
	for _, m := range ms {
		row := make([]string, len(tab.Cols))
		for i, c := range tab.Cols {
			row[i] = m[c.Name]
		}
		out.Table = append(out.Table, row)
	}
	tx.Rollback()
	if q.Conflict != nil && q.Conflict.Ignore && q.Return != nil && isSliceForm(q.Form) {
		out.Kept = q.kept(db, in)
	}
	return out
}

// kept inserts the records one after the other to see which ones are.
func (q *GQuery) kept(db *sql.DB, in int) (out []int) {
	tx, err := db.Begin()
	fw.InfraPanic(err)
	defer tx.Rollback()
	for _, p := range e2ePrelude {
		_, err := tx.Exec(p)
		fw.InfraPanic(err)
	}
	for i := range q.Data[in] {
		c := q.clone()
		c.Data[in] = c.Data[in][i : i+1]
		res, err := tx.Exec(c.writeSQL(in))
		fw.InfraPanic(err)
		n, err := res.RowsAffected()
		fw.InfraPanic(err)
		if n > 0 {
			out = append(out, i)
		}
	}
	return out
}

// queryMaps returns the rows as maps of the table's columns.
func queryMaps(tx *sql.Tx, query string, tab *pgTable) (out []map[string]string, err error) {
	rows, err := tx.Query(query)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	for rows.Next() {
		vals := make([]any, len(tab.Cols))
		ptrs := make([]any, len(vals))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		if err := rows.Scan(ptrs...); err != nil {
			return nil, err
		}
		m := map[string]string{}
		for i, c := range tab.Cols {
			m[c.Name] = canonDB(c.Typ, vals[i])
		}
		out = append(out, m)
	}
	return out, rows.Err()
}

// inputRow is the flattened form of an input record into which, when m isn't
// nil, the returned columns were read.
func (q *GQuery) inputRow(rec []LitV, m map[string]string) []string {
	idx := map[string]int{}
	for i, f := range q.Rec.Fields {
		idx[f.Col] = i
	}
	row := q.Rec.expectRow(func(f GField) (string, bool) {
		if m != nil && q.returned(f) {
			return readExpect(f, e2eTables[q.Table].col(f.Col).Typ, m[f.Col]), true
		}
		return canonLit(f, rec[idx[f.Col]]), true
	})
	if q.Rec.After && m == nil {
		row[len(row)-1] = "i:0"
	}
	return row
}

// outRow is the flattened form of a fresh record that was read.
func (q *GQuery) outRow(g *GRec, m map[string]string, read func(f GField) bool) []string {
	return g.expectRow(func(f GField) (string, bool) {
		if !read(f) {
			return "", false
		}
		return readExpect(f, e2eTables[q.Table].col(f.Col).Typ, m[f.Col]), true
	})
}

// judgeWrite compares the execution of a query that writes with the reference.
func (q *GQuery) judgeWrite(o *e2eOut, ref *refOut) error {
	ctx := func(format string, args ...any) error {
		return fmt.Errorf("input %d: %s\nreference: %s", o.Input, fmt.Sprintf(format, args...), ref.SQL)
	}
	tab := e2eTables[q.Table]
	if o.Panic != "" {
		return ctx("the generated method panics: %s", o.Panic)
	}
	if strings.Contains(o.Err, "for type integer") && q.Data != nil {
		for _, rec := range q.Data[o.Input] {
			for i, f := range q.Rec.Fields {
				if q.intParam(f, tab.col(f.Col), rec[i]) {
					return &knownErr{"nullif-int4-param", ctx("field %s: %s", f.Col, o.Err)}
				}
			}
		}
	}
	single := q.Return != nil && (isSingleForm(q.Form)) || q.Result != nil && isSingleForm(q.ResForm)
	got := o.Err
	if got == "norows" && ref.Err == "" {
		if !single || len(ref.Ret) > 0 {
			return ctx("sql.ErrNoRows, want %d rows", len(ref.Ret))
		}
		got = ""
	} else if got == "" && ref.Err == "" && single && len(ref.Ret) == 0 {
		return ctx("no error, want sql.ErrNoRows")
	}
	if isDup := func(s string) bool { return strings.Contains(s, "duplicate key value") }; q.Kind == "update" && isSliceForm(q.Form) && len(q.Data[o.Input]) > 1 &&
		(isDup(got) || isDup(ref.Err)) && (isDup(got) || got == "") && (isDup(ref.Err) || ref.Err == "") {
		// Unique indexes are checked row by row, in the order in which PostgreSQL happens
		// to join the values to the table: a value may be taken by a row that is yet to be updated.
		return nil
	}
	if (got != "") != (ref.Err != "") {
		return ctx("error %q, want %q", got, ref.Err)
	}
	if got != "" {
		if a, b := errText(got), errText(ref.Err); a != b {
			return ctx("error %q, want %q", got, ref.Err)
		}
		return nil
	}
	// the table
	dump := o.Rows["table "+q.Table]
	for i := 0; i < len(dump) || i < len(ref.Table); i++ {
		if i >= len(dump) || i >= len(ref.Table) || !sameRow(dump[i], ref.Table[i]) {
			return ctx("the table holds %s, want %s", showRows(dump[min(i, len(dump)):]), showRows(ref.Table[min(i, len(ref.Table)):]))
		}
	}
	if q.Affected != "" {
		if v, w := o.Vals["affected"], "i:"+strconv.FormatInt(ref.Affected, 10); v != w {
			return ctx("RowsAffected is %v, want %s", v, w)
		}
	}
	// the records
	rel := o.Rows["rel"]
	switch {
	case q.Form == "dir" || q.Kind == "delete" && q.Return == nil:
	case q.Kind == "delete":
		var want [][]string
		for _, m := range ref.Ret {
			want = append(want, q.outRow(q.Rec, m, q.returned))
		}
		if err := sameOutput(rel, want, isSingleForm(q.Form), false); err != nil {
			return ctx("Rel: %v", err)
		}
	default:
		if o.Err == "norows" {
			break
		}
		recs := q.Data[o.Input]
		if len(rel) != len(recs) {
			return ctx("Rel has %d records, want %d", len(rel), len(recs))
		}
		if q.Return == nil {
			for i := range recs {
				if w := q.inputRow(recs[i], nil); !sameRow(rel[i], w) {
					return ctx("Rel %d is %s, want it unchanged: %s", i, showRows(rel[i:i+1]), showRows([][]string{w}))
				}
			}
			break
		}
		if q.Kind == "update" && !isSliceForm(q.Form) {
			ok := false
			for _, m := range ref.Ret {
				ok = ok || sameRow(rel[0], q.inputRow(recs[0], m))
			}
			if !ok {
				return ctx("Rel is %s, want one of %v", showRows(rel), ref.Ret)
			}
			break
		}
		if q.Kind == "update" {
			return q.judgeUpdateReturn(o, ref, ctx)
		}
		if len(ref.Ret) == len(recs) {
			for i := range recs {
				if w := q.inputRow(recs[i], ref.Ret[i]); !sameRow(rel[i], w) {
					return ctx("Rel %d is %s, want %s", i, showRows(rel[i:i+1]), showRows([][]string{w}))
				}
			}
			break
		}
		return q.judgeSkipped(o, ref, ctx)
	}
	if q.Result != nil && o.Err != "norows" {
		var want [][]string
		for _, m := range ref.Ret {
			want = append(want, q.outRow(q.Result, m, q.read))
		}
		if err := sameOutput(o.Rows["res"], want, isSingleForm(q.ResForm), q.Kind == "insert"); err != nil {
			return ctx("Result: %v", err)
		}
	}
	return nil
}

// judgeSkipped judges the records of an insert that ignored some of them.
func (q *GQuery) judgeSkipped(o *e2eOut, ref *refOut, ctx func(string, ...any) error) error {
	rel, recs := o.Rows["rel"], q.Data[o.Input]
	// Which records were inserted? Insert them one after the other.
	want := make([][]string, len(recs))
	for i, rec := range recs {
		want[i] = q.inputRow(rec, nil)
	}
	for k, i := range ref.Kept {
		want[i] = q.inputRow(recs[i], ref.Ret[k])
	}
	for i := range recs {
		if sameRow(rel[i], want[i]) {
			continue
		}
		err := ctx("Rel %d is %s, want %s (records %v of the input were inserted)", i, showRows(rel[i:i+1]), showRows(want[i:i+1]), ref.Kept)
		// the rows that are returned are read into the first records
		for k := range recs {
			w := q.inputRow(recs[k], nil)
			if k < len(ref.Ret) {
				w = q.inputRow(recs[k], ref.Ret[k])
			}
			if !sameRow(rel[k], w) {
				return err
			}
		}
		return &knownErr{"ignore-slice-return", err}
	}
	return nil
}

// judgeUpdateReturn judges the records of a slice that an update returned.
func (q *GQuery) judgeUpdateReturn(o *e2eOut, ref *refOut, ctx func(string, ...any) error) error {
	rel, recs := o.Rows["rel"], q.Data[o.Input]
	var fail error
	unchanged := true
	for i, rec := range recs {
		var m map[string]string
		for _, r := range ref.Ret {
			same := true
			for _, k := range q.pkOf() {
				f := q.Rec.Fields[k]
				same = same && r[f.Col] == canonLit(f, rec[k])
			}
			if same {
				m = r
			}
		}
		if w := q.inputRow(rec, m); !sameRow(rel[i], w) && fail == nil {
			fail = ctx("Rel %d is %s, want %s", i, showRows(rel[i:i+1]), showRows([][]string{w}))
		}
		unchanged = unchanged && sameRow(rel[i], q.inputRow(rec, nil))
	}
	if fail != nil && unchanged {
		return &knownErr{"update-slice-return", fail}
	}
	return fail
}

// sameOutput compares the records that were read.
func sameOutput(got, want [][]string, single, ordered bool) error {
	if single {
		for _, w := range want {
			if len(got) == 1 && sameRow(got[0], w) {
				return nil
			}
			if ordered {
				break
			}
		}
		if len(want) == 0 {
			return nil
		}
		return fmt.Errorf("record %s, want one of %s", showRows(got), showRows(want))
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d records %s, want %d: %s", len(got), showRows(got), len(want), showRows(want))
	}
	if ordered {
		for i := range got {
			if !sameRow(got[i], want[i]) {
				return fmt.Errorf("record %d is %s, want %s", i, showRows(got[i:i+1]), showRows(want[i:i+1]))
			}
		}
		return nil
	}
	if extra := subsetRows(got, want); extra != nil {
		return fmt.Errorf("unexpected record %s among %s, want %s", showRows([][]string{extra}), showRows(got), showRows(want))
	}
	return nil
}

// errText drops the SQLSTATE that some messages end with.
func errText(s string) string {
	if i := strings.LastIndex(s, " at character"); i > 0 {
		s = s[:i]
	}
	return s
}
