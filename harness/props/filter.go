package props

import (
	"database/sql"
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/frk/gosql"
	"github.com/frk/gosql/filter"
	"github.com/frk/gosql/vh/fw"

	"pgregory.net/rapid"
)

// ---- the table ------------------------------------------------------------

// frow is a row of the table that filters are applied to. nil is NULL.
type frow struct {
	ID    int
	Vals  map[string]any // column key -> int64, float64, string, bool, time.Time or nil
	Words []string
}

// fcol is a column.
type fcol struct {
	Key      string
	Name     string // as written in SQL
	Type     string
	Nullable bool
}

// fFrom is the relation the filters are applied to. The columns' names are
// such that some are the beginning, or the end, of others.
const fFrom = ` FROM "t" AS t CROSS JOIN LATERAL (SELECT t."f" AS a, t."g" AS ab, t."m" AS "c") AS xt`

var fcols = []fcol{
	{"a", `t.a`, "int4", true},
	{"b", `t."b"`, "int8", false},
	{"c", `t."c"`, "text", true},
	{"d", `t."d d"`, "text", false},
	{"e", `t."e"`, "bool", true},
	{"f", `xt.a`, "float8", true},
	{"g", `xt.ab`, "timestamptz", true},
	{"h.i", `t."h"`, "int2", false},
	{"j.k_l", `t."j"`, "bool", false},
	{"m", `xt."c"`, "text", false},
}

func fcolByKey(k string) fcol {
	for _, c := range fcols {
		if c.Key == k {
			return c
		}
	}
	panic("no column " + k)
}

var ftexts = []string{"", "a", "ab", "A", "b", "null", "a;b", "a,b", `x"y`, `\`, "(a)", "é", "100%", "_"}
var ffloats = []float64{-1.5, -1, 0, 0.25, 1, 1.5, 1e10}
var fints = []int64{-2, -1, 0, 1, 2, 3, 7}
var fwords = []string{"foo", "foobar", "bar", "barn", "baz", "q1"}

var fepoch = time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)

// frows are the rows: a fixed pseudo-random mixture.
var frows = func() (rows []frow) {
	x := uint64(88172645463325252)
	next := func(n int) int {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return int(x % uint64(n))
	}
	for i := 0; i < 90; i++ {
		r := frow{ID: i, Vals: map[string]any{}}
		for _, c := range fcols {
			if c.Nullable && next(4) == 0 {
				r.Vals[c.Key] = nil
				continue
			}
			switch c.Type {
			case "int2", "int4", "int8":
				r.Vals[c.Key] = fints[next(len(fints))]
			case "text":
				r.Vals[c.Key] = ftexts[next(len(ftexts))]
			case "bool":
				r.Vals[c.Key] = next(2) == 0
			case "float8":
				r.Vals[c.Key] = ffloats[next(len(ffloats))]
			case "timestamptz":
				r.Vals[c.Key] = fepoch.Add(time.Duration(next(5)) * time.Hour)
			}
		}
		for _, w := range fwords {
			if next(3) == 0 {
				r.Words = append(r.Words, w)
			}
		}
		rows = append(rows, r)
	}
	return rows
}()

func filterDB(r *fw.Run, name string) *sql.DB {
	db := r.DB(name, `CREATE TABLE "t" ("id" int, "a" int4, "b" int8 NOT NULL, "c" text, "d d" text NOT NULL, "e" bool,
		"f" float8, "g" timestamptz, "h" int2 NOT NULL, "j" bool NOT NULL, "m" text NOT NULL, "ts" tsvector NOT NULL)`)
	for _, row := range frows {
		args := []any{row.ID}
		for _, c := range fcols {
			args = append(args, row.Vals[c.Key])
		}
		args = append(args, strings.Join(row.Words, " "))
		_, err := db.Exec(`INSERT INTO "t" VALUES ($1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11,to_tsvector('simple',$12))`, args...)
		fw.InfraPanic(err)
	}
	return db
}

// ---- three-valued logic ---------------------------------------------------

type tri int8

const (
	triF tri = iota
	triU
	triT
)

func triOf(b bool) tri {
	if b {
		return triT
	}
	return triF
}

// ---- the cases ------------------------------------------------------------

// fval is a serialisable value: type and text.
type fval struct {
	T string // int, int64, int16, string, bool, float64, time, null
	S string
}

func (v fval) val() any {
	switch v.T {
	case "null":
		return nil
	case "int", "int64", "int16":
		n, err := strconv.ParseInt(v.S, 10, 64)
		fw.InfraPanic(err)
		switch v.T {
		case "int":
			return int(n)
		case "int16":
			return int16(n)
		}
		return n
	case "string":
		return v.S
	case "bool":
		return v.S == "true"
	case "float64":
		f, err := strconv.ParseFloat(v.S, 64)
		fw.InfraPanic(err)
		return f
	case "time":
		n, err := strconv.ParseInt(v.S, 10, 64)
		fw.InfraPanic(err)
		return time.Unix(n, 0)
	}
	panic("bad value type " + v.T)
}

// norm is the value as the model holds it.
func (v fval) norm() any {
	switch x := v.val().(type) {
	case int:
		return int64(x)
	case int16:
		return int64(x)
	default:
		return x
	}
}

// fitem is a call on the constructor (or, in an FQL expression, a node).
type fitem struct {
	Do   string  `json:"do"` // col, in, text, and, or (no nest), nestand, nestor, fql
	Key  string  `json:"key,omitempty"`
	Op   string  `json:"op,omitempty"`
	Val  fval    `json:"val,omitzero"`
	Vals []fval  `json:"vals,omitempty"`
	Elem string  `json:"elem,omitempty"` // element type of Vals
	Via  string  `json:"via,omitempty"`  // method | col
	Sub  []fitem `json:"sub,omitempty"`
	Fmt  []int   `json:"fmt,omitempty"` // white space choices of an FQL string
}

type ford struct {
	Key        string
	Desc, NF   bool
	V2, Unmars bool
}

type fcase struct {
	Items  []fitem `json:"items"`
	Order  []ford  `json:"order,omitempty"`
	Sort   bool    `json:"sort,omitempty"` // through UnmarshalSort
	Limit  int64   `json:"limit,omitempty"`
	Offset int64   `json:"offset,omitempty"`
	Page   int64   `json:"page,omitempty"`
	Pos    int     `json:"pos,omitempty"`
}

// isOperand reports whether the item contributes a predicate.
func (it fitem) isOperand() bool {
	switch it.Do {
	case "and", "or":
		return false
	case "nestand", "nestor", "fql":
		for _, s := range it.Sub {
			if s.isOperand() {
				return true
			}
		}
		return false
	case "unknown":
		return false
	}
	return true
}

// like is SQL's LIKE (without escapes in use).
func like(s, pat string, fold bool) bool {
	var re strings.Builder
	re.WriteString("^(?s)")
	if fold {
		re.WriteString("(?i)")
	}
	for _, r := range pat {
		switch r {
		case '%':
			re.WriteString(".*")
		case '_':
			re.WriteString(".")
		default:
			re.WriteString(regexp.QuoteMeta(string(r)))
		}
	}
	re.WriteString("$")
	return regexp.MustCompile(re.String()).MatchString(s)
}

func cmpVals(a, b any) int {
	switch x := a.(type) {
	case int64:
		switch y := b.(type) {
		case int64:
			return cmpOrd(x, y)
		case float64:
			return cmpOrd(float64(x), y)
		}
	case float64:
		switch y := b.(type) {
		case int64:
			return cmpOrd(x, float64(y))
		case float64:
			return cmpOrd(x, y)
		}
	case string:
		return strings.Compare(x, b.(string))
	case bool:
		bi := func(b bool) int {
			if b {
				return 1
			}
			return 0
		}
		return bi(x) - bi(b.(bool))
	case time.Time:
		return x.Compare(b.(time.Time))
	}
	panic(fmt.Sprintf("cannot compare %T with %T", a, b))
}

func cmpOrd[T int64 | float64](a, b T) int {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}

// evalCmp is the meaning of a predicate of a filter.
func evalCmp(cell any, op string, val any) tri {
	switch val.(type) {
	case nil:
		switch op {
		case "=":
			return triOf(cell == nil)
		case "<>", "!=":
			return triOf(cell != nil)
		}
		return triU
	case bool:
		switch op {
		case "=":
			return triOf(cell == val)
		case "<>", "!=":
			return triOf(cell != val)
		}
	}
	if cell == nil {
		return triU
	}
	switch op {
	case "LIKE", "NOT LIKE", "ILIKE":
		m := like(cell.(string), val.(string), op == "ILIKE")
		return triOf(m != (op == "NOT LIKE"))
	}
	c := cmpVals(cell, val)
	switch op {
	case "=":
		return triOf(c == 0)
	case "<>", "!=":
		return triOf(c != 0)
	case "<":
		return triOf(c < 0)
	case "<=":
		return triOf(c <= 0)
	case ">":
		return triOf(c > 0)
	case ">=":
		return triOf(c >= 0)
	}
	panic("bad op " + op)
}

func (it fitem) eval(r frow) tri {
	switch it.Do {
	case "col":
		return evalCmp(r.Vals[it.Key], it.Op, it.Val.norm())
	case "in":
		if len(it.Vals) == 0 {
			return triF
		}
		if r.Vals[it.Key] == nil {
			return triU
		}
		for _, v := range it.Vals {
			if cmpVals(r.Vals[it.Key], v.norm()) == 0 {
				return triT
			}
		}
		return triF
	case "text":
		for _, term := range strings.Fields(it.Val.S) {
			ok := false
			for _, w := range r.Words {
				ok = ok || strings.HasPrefix(w, strings.ToLower(term))
			}
			if !ok {
				return triF
			}
		}
		return triT
	case "nestand", "nestor", "fql":
		t, _ := evalSeq(it.Sub, r)
		return t
	}
	panic("not an operand: " + it.Do)
}

// evalSeq evaluates a sequence of calls: AND binds tighter than OR, consecutive
// predicates without an operator in between are ANDed. The second result is
// false if there is nothing to evaluate.
func evalSeq(items []fitem, r frow) (tri, bool) {
	var groups []tri // the ANDed groups, to be ORed
	pending := ""
	for _, it := range items {
		switch it.Do {
		case "and", "or":
			// An operator that follows one whose operand was left out: OR binds weaker.
			if pending != "or" {
				pending = it.Do
			}
			continue
		}
		if !it.isOperand() {
			continue
		}
		conn := pending
		if conn == "" {
			conn = "and"
			if it.Do == "nestor" {
				conn = "or"
			}
		}
		pending = ""
		v := it.eval(r)
		if len(groups) == 0 || conn == "or" {
			groups = append(groups, v)
		} else {
			groups[len(groups)-1] = min(groups[len(groups)-1], v)
		}
	}
	if len(groups) == 0 {
		return triT, false
	}
	out := triF
	for _, g := range groups {
		out = max(out, g)
	}
	return out, true
}

// ---- generators -----------------------------------------------------------

func genFVal(t *rapid.T, c fcol, fql bool) fval {
	if rapid.IntRange(0, 7).Draw(t, "null") == 0 {
		return fval{T: "null"}
	}
	switch c.Type {
	case "int2", "int4", "int8":
		typ := "int64"
		if !fql {
			typ = rapid.SampledFrom([]string{"int", "int64", "int16"}).Draw(t, "goint")
		}
		return fval{T: typ, S: fmt.Sprint(rapid.SampledFrom(fints).Draw(t, "int"))}
	case "text":
		return fval{T: "string", S: rapid.SampledFrom(ftexts).Draw(t, "text")}
	case "bool":
		return fval{T: "bool", S: fmt.Sprint(rapid.Bool().Draw(t, "bool"))}
	case "float8":
		return fval{T: "float64", S: fmt.Sprint(rapid.SampledFrom(ffloats).Draw(t, "float"))}
	case "timestamptz":
		return fval{T: "time", S: fmt.Sprint(fepoch.Unix() + 3600*int64(rapid.IntRange(-1, 5).Draw(t, "time")))}
	}
	panic(c.Type)
}

func genFCol(t *rapid.T) fcol { return rapid.SampledFrom(fcols).Draw(t, "column") }

func genPred(t *rapid.T, fql bool) fitem {
	k := 0
	if !fql {
		k = rapid.IntRange(0, 9).Draw(t, "predkind")
	}
	if k == 1 {
		n := rapid.IntRange(1, 3).Draw(t, "terms")
		var terms []string
		for i := 0; i < n; i++ {
			w := rapid.SampledFrom(fwords).Draw(t, "word")
			w = w[:rapid.IntRange(1, len(w)).Draw(t, "prefix")]
			if rapid.IntRange(0, 3).Draw(t, "upper") == 0 {
				w = strings.ToUpper(w)
			}
			terms = append(terms, w)
		}
		sep := rapid.SampledFrom([]string{" ", "  "}).Draw(t, "sep")
		pad := rapid.SampledFrom([]string{"", " "}).Draw(t, "pad")
		return fitem{Do: "text", Val: fval{T: "string", S: pad + strings.Join(terms, sep) + pad}}
	}
	c := genFCol(t)
	if k == 2 && c.Type != "bool" && c.Type != "float8" && c.Type != "timestamptz" {
		it := fitem{Do: "in", Key: c.Key, Op: rapid.SampledFrom([]string{"IN", "in", "ANY", "Any"}).Draw(t, "inop"),
			Via: rapid.SampledFrom([]string{"method", "col"}).Draw(t, "via")}
		it.Elem = "string"
		if c.Type != "text" {
			it.Elem = rapid.SampledFrom([]string{"int", "int64", "int16"}).Draw(t, "elem")
		}
		for n := rapid.IntRange(0, 4).Draw(t, "nvals"); n > 0; n-- {
			if c.Type == "text" {
				it.Vals = append(it.Vals, fval{T: "string", S: rapid.SampledFrom(ftexts).Draw(t, "text")})
			} else {
				it.Vals = append(it.Vals, fval{T: it.Elem, S: fmt.Sprint(rapid.SampledFrom(fints).Draw(t, "int"))})
			}
		}
		return it
	}
	v := genFVal(t, c, fql)
	ops := []string{"=", "<>", "<", "<=", ">", ">="}
	switch {
	case fql && (v.T == "null" || v.T == "bool"):
		ops = []string{"=", "<>"}
	case !fql && c.Type == "text" && v.T != "null" && !strings.Contains(v.S, `\`):
		ops = append(ops, "LIKE", "NOT LIKE", "ILIKE", "!=")
	case !fql:
		ops = append(ops, "!=")
	}
	return fitem{Do: "col", Key: c.Key, Op: rapid.SampledFrom(ops).Draw(t, "op"), Val: v}
}

// genFQLSeq draws an FQL expression: operands with an explicit operator between each two.
// unknown allows rules with unknown keys.
func genFQLSeq(t *rapid.T, depth int, noOr, unknown bool) (items []fitem) {
	n := rapid.IntRange(1, 4).Draw(t, "operands")
	for i := 0; i < n; i++ {
		if i > 0 {
			conn := "and"
			if !noOr && rapid.Bool().Draw(t, "or") {
				conn = "or"
			}
			items = append(items, fitem{Do: conn})
		}
		k := rapid.IntRange(0, 3).Draw(t, "operand")
		switch {
		case k == 3 && depth > 0:
			items = append(items, fitem{Do: "nestand", Sub: genFQLSeq(t, depth-1, false, unknown)})
		case k == 2 && unknown:
			p := genPred(t, true)
			items = append(items, fitem{Do: "unknown", Key: rapid.SampledFrom([]string{"zz", "a.b", "id", "A", "_", "d_d"}).Draw(t, "unknown"), Op: p.Op, Val: p.Val})
		default:
			items = append(items, genPred(t, true))
		}
	}
	return items
}

// genSeq draws a sequence of calls.
func genSeq(t *rapid.T, depth int, needOperand bool) (items []fitem) {
	n := rapid.IntRange(0, 5).Draw(t, "calls")
	if rapid.IntRange(0, 9).Draw(t, "leading") == 0 {
		items = append(items, fitem{Do: rapid.SampledFrom([]string{"and", "or"}).Draw(t, "leadop")})
		n++
	}
	operands := 0
	afterConn := false
	for i := 0; i < n || (needOperand && operands == 0); i++ {
		k := rapid.IntRange(0, 11).Draw(t, "call")
		if (afterConn || needOperand && operands == 0) && k > 4 && k != 11 {
			k = 0
		}
		wasConn := afterConn
		afterConn = false
		switch {
		case (k == 5 || k == 6 || k == 7) && operands > 0:
			items = append(items, fitem{Do: []string{"and", "or", "or"}[k-5]})
			afterConn = true
			_ = wasConn
		case k == 8 && depth > 0:
			it := fitem{Do: "nestand", Sub: genSeq(t, depth-1, false)}
			if it.isOperand() {
				operands++
			}
			items = append(items, it)
		case (k == 9 || k == 10) && depth > 0:
			items = append(items, fitem{Do: "nestor", Sub: genSeq(t, depth-1, true)})
			operands++
		case k == 11:
			// Several operands of one FQL string are only unambiguous among other calls if they are ANDed.
			items = append(items, fitem{Do: "fql", Sub: genFQLSeq(t, depth, true, false), Fmt: genFmt(t)})
			operands++
		default:
			items = append(items, genPred(t, false))
			operands++
		}
	}
	return items
}

func genFmt(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}), 0, 8).Draw(t, "fmt")
}

func genOrder(t *rapid.T, cs *fcase) {
	cs.Sort = rapid.Bool().Draw(t, "viasort")
	for n := rapid.IntRange(0, 3).Draw(t, "orders"); n > 0; n-- {
		c := genFCol(t)
		o := ford{Key: c.Key, Desc: rapid.Bool().Draw(t, "desc")}
		if !cs.Sort {
			o.NF = rapid.Bool().Draw(t, "nullsfirst")
			o.V2 = rapid.Bool().Draw(t, "v2")
		}
		cs.Order = append(cs.Order, o)
	}
	if rapid.Bool().Draw(t, "limits") {
		cs.Limit = rapid.Int64Range(0, 30).Draw(t, "limit")
		switch rapid.IntRange(0, 5).Draw(t, "offsetkind") {
		case 0, 1:
			cs.Offset = rapid.Int64Range(0, 40).Draw(t, "offset")
		case 2, 3:
			cs.Page = rapid.Int64Range(0, 8).Draw(t, "page")
		case 4:
			cs.Page = math.MaxInt64 - rapid.Int64Range(0, 3).Draw(t, "hugepage")
		}
	}
}

func genFCase(t *rapid.T) fcase {
	cs := fcase{Items: genSeq(t, 3, false), Pos: rapid.IntRange(0, 3).Draw(t, "pos")}
	genOrder(t, &cs)
	return cs
}

// ---- building the filter --------------------------------------------------

func fcolmap() map[string]filter.Column {
	m := map[string]filter.Column{}
	for _, c := range fcols {
		m[c.Key] = filter.Column{Name: c.Name, IsNULLable: c.Nullable}
	}
	return m
}

var fqlOps = map[string]string{"=": "", "<>": "!", "<": "<", "<=": "<=", ">": ">", ">=": ">="}

// renderFQL writes an FQL string; the choices of white space come from ws.
func renderFQL(items []fitem, ws []int) string {
	n := 0
	sp := func() string {
		if len(ws) == 0 {
			return ""
		}
		n++
		return []string{"", " ", "\t", " \n"}[ws[n%len(ws)]]
	}
	var render func(items []fitem) string
	render = func(items []fitem) string {
		var b strings.Builder
		for _, it := range items {
			b.WriteString(sp())
			switch it.Do {
			case "and":
				b.WriteString(";")
			case "or":
				b.WriteString(",")
			case "nestand", "nestor", "fql":
				b.WriteString("(" + render(it.Sub) + sp() + ")")
			case "col", "unknown":
				b.WriteString(it.Key + sp() + ":" + sp() + fqlOps[it.Op] + sp())
				switch it.Val.T {
				case "null":
					b.WriteString("null")
				case "string":
					b.WriteString(`"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(it.Val.S) + `"`)
				case "time":
					b.WriteString("d" + it.Val.S)
				case "float64":
					s := strconv.FormatFloat(it.Val.val().(float64), 'f', -1, 64)
					if !strings.Contains(s, ".") {
						s += ".0"
					}
					b.WriteString(s)
				default:
					b.WriteString(it.Val.S)
				}
			default:
				panic(it.Do)
			}
		}
		return b.String()
	}
	return render(items) + sp()
}

func fints2[T int | int16 | int64](vals []fval) []T {
	out := []T{}
	for _, v := range vals {
		n, _ := strconv.ParseInt(v.S, 10, 64)
		out = append(out, T(n))
	}
	return out
}

// inSlice is the Go slice of an "in" item.
func (it fitem) inSlice() any {
	switch it.Elem {
	case "int":
		return fints2[int](it.Vals)
	case "int16":
		return fints2[int16](it.Vals)
	case "int64":
		return fints2[int64](it.Vals)
	}
	out := []string{}
	for _, v := range it.Vals {
		out = append(out, v.S)
	}
	return out
}

// apply makes the calls on the constructor.
func applyItems(c *filter.Constructor, items []fitem) error {
	for _, it := range items {
		name := ""
		if it.Key != "" {
			name = fcolByKey(it.Key).Name
		}
		switch it.Do {
		case "col":
			c.Col(name, it.Op, it.Val.val())
		case "in":
			vals := it.inSlice()
			if it.Via == "col" {
				c.Col(name, it.Op, vals)
				break
			}
			any := strings.EqualFold(it.Op, "any")
			switch v := vals.(type) {
			case []int:
				if any {
					c.ColAnyInts(name, v)
				} else {
					c.ColInInts(name, v)
				}
			case []int16:
				if any {
					c.ColAnyInt16s(name, v)
				} else {
					c.ColInInt16s(name, v)
				}
			case []int64:
				if any {
					c.ColAnyInt64s(name, v)
				} else {
					c.ColInInt64s(name, v)
				}
			case []string:
				if any {
					c.ColAnyStrings(name, v)
				} else {
					c.ColInStrings(name, v)
				}
			}
		case "text":
			c.TextSearch(it.Val.S)
		case "and":
			c.And(nil)
		case "or":
			c.Or(nil)
		case "nestand", "nestor":
			var err error
			nest := func() { err = applyItems(c, it.Sub) }
			if it.Do == "nestand" {
				c.And(nest)
			} else {
				c.Or(nest)
			}
			if err != nil {
				return err
			}
		case "fql":
			s := renderFQL(it.Sub, it.Fmt)
			if err := c.UnmarshalFQL(s); err != nil {
				return fmt.Errorf("UnmarshalFQL(%q): %w", s, err)
			}
		default:
			panic(it.Do)
		}
	}
	return nil
}

func (cs fcase) sortString() string {
	var parts []string
	for _, o := range cs.Order {
		s := o.Key
		if o.Desc {
			s = "-" + s
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, ",")
}

// build constructs the filter with the calls of the case.
func (cs fcase) build(c *filter.Constructor) error {
	if err := applyItems(c, cs.Items); err != nil {
		return err
	}
	if cs.Sort {
		if err := c.UnmarshalSort(cs.sortString()); err != nil {
			return err
		}
	} else {
		for _, o := range cs.Order {
			col := fcolByKey(o.Key)
			if o.V2 {
				c.OrderByV2(col.Name, o.Desc, col.Nullable, o.NF)
			} else {
				c.OrderBy(col.Name, o.Desc, o.NF)
			}
		}
	}
	c.Limit(cs.Limit)
	if cs.Page > 0 {
		c.Page(cs.Page)
	} else {
		c.Offset(cs.Offset)
	}
	return nil
}

// ---- oracle ---------------------------------------------------------------

// expect evaluates the case: the matching rows in order.
func (cs fcase) expect() (rows []frow) {
	for _, r := range frows {
		if v, _ := evalSeq(cs.Items, r); v == triT {
			rows = append(rows, r)
		}
	}
	return rows
}

// less compares two rows by the case's ORDER BY.
func (cs fcase) cmpRows(a, b frow) int {
	for _, o := range cs.Order {
		x, y := a.Vals[o.Key], b.Vals[o.Key]
		nf := o.NF && !cs.Sort
		switch {
		case x == nil && y == nil:
			continue
		case x == nil:
			if nf {
				return -1
			}
			return 1
		case y == nil:
			if nf {
				return 1
			}
			return -1
		}
		c := cmpVals(x, y)
		if o.Desc {
			c = -c
		}
		if c != 0 {
			return c
		}
	}
	return 0
}

func (cs fcase) test(db *sql.DB, c *filter.Constructor) error {
	if err := cs.build(c); err != nil {
		return fmt.Errorf("building the filter: %w", err)
	}
	want := cs.expect()

	run := func(f gosql.Filter, sel string) ([]int, string, error) {
		str, params := f.ToSQL(cs.Pos)
		q := "SELECT " + sel
		args := []any{}
		if cs.Pos > 0 {
			var ps []string
			for i := 1; i <= cs.Pos; i++ {
				ps = append(ps, fmt.Sprintf("$%d::int8", i))
				args = append(args, int64(i))
			}
			q = "SELECT " + sel + fFrom + ` CROSS JOIN (SELECT ` + strings.Join(ps, ",") + ") AS p" + str
		} else {
			q += fFrom + str
		}
		rows, err := db.Query(q, append(args, params...)...)
		if err != nil {
			return nil, str, err
		}
		defer rows.Close()
		var out []int
		for rows.Next() {
			var id int
			if err := rows.Scan(&id); err != nil {
				return nil, str, err
			}
			out = append(out, id)
		}
		return out, str, rows.Err()
	}

	got, str, err := run(c.Filter(), `t."id"`)
	if err != nil {
		return fmt.Errorf("the query with the filter %q failed: %w", str, err)
	}
	sort.SliceStable(want, func(i, j int) bool { return cs.cmpRows(want[i], want[j]) < 0 })
	limit, offset := cs.Limit, cs.Offset
	if cs.Page > 0 {
		switch {
		case limit == 0:
			offset = 0
		case cs.Page-1 > math.MaxInt64/limit:
			offset = math.MaxInt64
		default:
			offset = limit * (cs.Page - 1)
		}
	}
	page := want
	if offset >= int64(len(page)) {
		page = nil
	} else {
		page = page[offset:]
	}
	if limit > 0 && int64(len(page)) > limit {
		page = page[:limit]
	}
	if len(got) != len(page) {
		return fmt.Errorf("%q selects %d rows %v, want %d: %v", str, len(got), got, len(page), rowIDs(page))
	}
	match := map[int]bool{}
	for _, r := range want {
		match[r.ID] = true
	}
	for i, id := range got {
		if !match[id] {
			return fmt.Errorf("%q selects the row %d %v %v, which doesn't match (or is repeated)", str, id, frows[id].Vals, frows[id].Words)
		}
		delete(match, id)
		// The sort keys are determined even where the order of rows with equal keys isn't.
		if cs.cmpRows(frows[id], page[i]) != 0 {
			return fmt.Errorf("%q selects the rows %v, row %d is out of order: want one with the sort keys of %d (%v)", str, got, i, page[i].ID, page[i].Vals)
		}
	}

	cnt, cstr, err := run(c.CountFilter(), "count(*)")
	if err != nil {
		return fmt.Errorf("the query with the count filter %q failed: %w", cstr, err)
	}
	if len(cnt) != 1 || cnt[0] != len(want) {
		return fmt.Errorf("the count with %q is %v, want %d", cstr, cnt, len(want))
	}
	return nil
}

func rowIDs(rows []frow) (ids []int) {
	for _, r := range rows {
		ids = append(ids, r.ID)
	}
	return ids
}

func (cs fcase) class() (bool, []string) {
	var labels []string
	seen := map[string]bool{}
	depth := 0
	var walk func(items []fitem, d int)
	preds := 0
	walk = func(items []fitem, d int) {
		depth = max(depth, d)
		for _, it := range items {
			seen[it.Do] = true
			if it.Do == "col" && it.Val.T == "null" {
				seen["null-value"] = true
			}
			if it.Do == "in" && len(it.Vals) == 0 {
				seen["empty-in"] = true
			}
			if it.Do == "col" || it.Do == "in" || it.Do == "text" {
				preds++
			}
			walk(it.Sub, d+1)
		}
	}
	walk(cs.Items, 0)
	for k := range seen {
		labels = append(labels, k)
	}
	labels = append(labels, fmt.Sprintf("depth-%d", depth))
	if len(cs.Order) > 0 {
		labels = append(labels, "ordered")
	}
	if cs.Limit > 0 || cs.Offset > 0 || cs.Page > 0 {
		labels = append(labels, "limited")
	}
	n := len(cs.expect())
	if n > 0 && n < len(frows) {
		labels = append(labels, "selective")
	}
	return preds >= 2 && n > 0 && n < len(frows), labels
}

func newConstructor(strict bool) *filter.Constructor {
	c := new(filter.Constructor)
	c.InitV2(fcolmap(), `t."ts"`)
	if strict {
		c.StrictSwitch()
	}
	return c
}

func init() {
	fw.Register(&fw.Property{
		ID: "P10",
		Rule: "a case is a sequence of constructor calls (predicates, operators, nests, FQL strings), sort keys, limit and offset or page; " +
			"non-trivial if it has at least two predicates and selects some but not all of the rows",
		Subs: func(r *fw.Run) []fw.Sub {
			db := filterDB(r, "filter10")
			return []fw.Sub{&fw.Check[fcase]{
				Name:   "rows",
				Checks: r.N(20000, 200000),
				Gen:    genFCase,
				Test:   func(cs fcase) error { return cs.test(db, newConstructor(true)) },
				Class:  fcase.class,
			}}
		},
	})
	fw.Register(&fw.Property{
		ID: "P11",
		Rule: "a case is an FQL expression rendered with random white space, or a sort string, with known and unknown keys, or an arbitrary string; " +
			"non-trivial if at least two rules are in effect and some but not all of the rows are selected, or if the arbitrary string is accepted",
		Subs: p11,
	})
	fw.Register(&fw.Property{
		ID:   "P12",
		Rule: "a case is a filter built twice with the same calls but other values; non-trivial if it has at least two parameters",
		Subs: p12,
	})
}

// ---- P11 ------------------------------------------------------------------

type fqlCase struct {
	Items  []fitem  `json:"items"`
	Fmt    []int    `json:"fmt,omitempty"`
	Strict bool     `json:"strict,omitempty"`
	Sort   []string `json:"sort,omitempty"`
	Lead   string   `json:"lead,omitempty"`
	Trail  string   `json:"trail,omitempty"`
}

func (cs fqlCase) fql() string { return cs.Lead + renderFQL(cs.Items, cs.Fmt) + cs.Trail }

func firstUnknown(items []fitem) (string, bool) {
	for _, it := range items {
		if it.Do == "unknown" {
			return it.Key, true
		}
		if k, ok := firstUnknown(it.Sub); ok {
			return k, true
		}
	}
	return "", false
}

type fqlRaw struct {
	S string `json:"fql"`
}

// sqlTokens is the grammar of the text of a filter over this colmap.
var sqlToken = regexp.MustCompile(`^(?:x?t\.(?:"[^"]+"|[a-z]+)| WHERE | AND | OR |\(|\)| IS NULL| IS NOT NULL| IS TRUE| IS NOT TRUE| IS FALSE| IS NOT FALSE| (?:=|<>|<|>|<=|>=) \$[0-9]+| ORDER BY | ASC| DESC| NULLS FIRST| NULLS LAST|, )`)

func onlyFilterTokens(s string) error {
	names := map[string]bool{`t."ts"`: true}
	for _, c := range fcols {
		names[c.Name] = true
	}
	for rest := s; rest != ""; {
		m := sqlToken.FindString(rest)
		if m == "" || (strings.HasPrefix(m, "t.") || strings.HasPrefix(m, "xt.")) && !names[m] {
			return fmt.Errorf("the SQL %q has something at %q that neither the filter's syntax nor the columns account for", s, rest)
		}
		rest = rest[len(m):]
	}
	return nil
}

func p11(r *fw.Run) []fw.Sub {
	db := filterDB(r, "filter11")
	genItems := func(t *rapid.T) []fitem {
		return genFQLSeq(t, 3, false, rapid.IntRange(0, 2).Draw(t, "unknowns") == 0)
	}
	convRules := func(cs fqlCase) error {
		c := newConstructor(cs.Strict)
		s := cs.fql()
		err := c.UnmarshalFQL(s)
		if key, ok := firstUnknown(cs.Items); ok && cs.Strict {
			var unk filter.UnknownColumnKeyError
			if !errors.As(err, &unk) || unk.Key != key {
				return fmt.Errorf("%q has the unknown key %q, in strict mode the error is %v", s, key, err)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("%q was refused: %v", s, err)
		}
		fc := fcase{Items: cs.Items}
		want := fc.expect()
		str, params := c.Filter().ToSQL(0)
		rows, err := db.Query(`SELECT t."id"`+fFrom+str, params...)
		if err != nil {
			return fmt.Errorf("the query with the filter %q of %q failed: %w", str, s, err)
		}
		defer rows.Close()
		got := map[int]bool{}
		for rows.Next() {
			var id int
			fw.InfraPanic(rows.Scan(&id))
			got[id] = true
		}
		if err := rows.Err(); err != nil {
			return fmt.Errorf("the query with the filter %q of %q failed: %w", str, s, err)
		}
		for _, r := range want {
			if !got[r.ID] {
				return fmt.Errorf("%q (%q) doesn't select the row %d %v", s, str, r.ID, r.Vals)
			}
		}
		if len(got) != len(want) {
			return fmt.Errorf("%q (%q) selects %d rows, want %d", s, str, len(got), len(want))
		}
		return nil
	}

	conv := func(cs fqlCase) error {
		// Values pass through the column's converter, which gets what FQL parsed and whose result is the parameter.
		type wrapped struct{ V any }
		m := fcolmap()
		var seen []any
		fail := errors.New("refused by the converter")
		failAt := -1
		if len(cs.Fmt) > 0 {
			failAt = cs.Fmt[0]*3 - 3
		}
		for k, col := range m {
			col.ConvertValue = func(v any) (any, error) {
				if len(seen) == failAt {
					return nil, fail
				}
				seen = append(seen, v)
				return wrapped{v}, nil
			}
			m[k] = col
		}
		var want []any
		var walk func(items []fitem)
		walk = func(items []fitem) {
			for _, it := range items {
				if it.Do == "col" {
					want = append(want, it.Val.val())
				}
				walk(it.Sub)
			}
		}
		walk(cs.Items)
		c := new(filter.Constructor)
		c.InitV2(m, "")
		s := cs.fql()
		err := c.UnmarshalFQL(s)
		if failAt >= 0 && failAt < len(want) {
			if !errors.Is(err, fail) {
				return fmt.Errorf("%q: the error of the converter was lost: %v", s, err)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("%q was refused: %v", s, err)
		}
		_, params := c.Filter().ToSQL(0)
		if !reflect.DeepEqual(seen, want) {
			return fmt.Errorf("%q: the converters got %#v, want %#v", s, seen, want)
		}
		if len(params) != len(want) {
			return fmt.Errorf("%q: %d parameters, want %d", s, len(params), len(want))
		}
		for i, p := range params {
			if w, ok := p.(wrapped); !ok || !reflect.DeepEqual(w.V, want[i]) {
				return fmt.Errorf("%q: parameter %d is %#v, not the converted %#v", s, i, p, want[i])
			}
		}
		return nil
	}

	accepted := map[string]bool{}
	raw := func(cs fqlRaw) error {
		c := newConstructor(false)
		if err := c.UnmarshalFQL(cs.S); err != nil {
			return nil // refused
		}
		str, params := c.Filter().ToSQL(0)
		if err := onlyFilterTokens(str); err != nil {
			return fmt.Errorf("FQL %q: %w", cs.S, err)
		}
		if n := strings.Count(str, "$"); n != len(params) {
			return fmt.Errorf("FQL %q: %q has %d placeholders but there are %d parameters", cs.S, str, n, len(params))
		}
		// A column that is compared with a value of another type is refused by the server, malformed SQL is not allowed.
		st, err := db.Prepare(`SELECT t."id"` + fFrom + str)
		if err != nil {
			if strings.Contains(err.Error(), "syntax error") {
				return fmt.Errorf("FQL %q was accepted, and made the SQL %q: %v", cs.S, str, err)
			}
			return nil
		}
		return st.Close()
	}

	type sortCase struct {
		S      string `json:"sort"`
		Strict bool   `json:"strict,omitempty"`
	}
	sortTest := func(cs sortCase) error {
		c := newConstructor(cs.Strict)
		err := c.UnmarshalSort(cs.S)
		fc := fcase{Sort: true}
		for _, part := range strings.Split(cs.S, ",") {
			o := ford{Key: part}
			if strings.HasPrefix(part, "-") {
				o = ford{Key: part[1:], Desc: true}
			}
			known := false
			for _, col := range fcols {
				known = known || col.Key == o.Key
			}
			switch {
			case o.Key == "":
			case known:
				fc.Order = append(fc.Order, o)
			case cs.Strict:
				var unk filter.UnknownColumnKeyError
				if !errors.As(err, &unk) || unk.Key != o.Key {
					return fmt.Errorf("sort %q has the unknown key %q, in strict mode the error is %v", cs.S, o.Key, err)
				}
				return nil
			}
		}
		if err != nil {
			return fmt.Errorf("sort %q was refused: %v", cs.S, err)
		}
		str, params := c.Filter().ToSQL(0)
		if len(params) > 0 {
			return fmt.Errorf("sort %q has parameters", cs.S)
		}
		if err := onlyFilterTokens(str); err != nil {
			return fmt.Errorf("sort %q: %w", cs.S, err)
		}
		rows, err := db.Query(`SELECT t."id"` + fFrom + str)
		if err != nil {
			return fmt.Errorf("sort %q made the SQL %q: %v", cs.S, str, err)
		}
		defer rows.Close()
		want := append([]frow(nil), frows...)
		sort.SliceStable(want, func(i, j int) bool { return fc.cmpRows(want[i], want[j]) < 0 })
		i := 0
		for ; rows.Next(); i++ {
			var id int
			fw.InfraPanic(rows.Scan(&id))
			if i >= len(want) || fc.cmpRows(frows[id], want[i]) != 0 {
				return fmt.Errorf("sort %q (%q): row %d is out of order", cs.S, str, i)
			}
		}
		if i != len(want) {
			return fmt.Errorf("sort %q: %d rows", cs.S, i)
		}
		return nil
	}

	fclass := func(cs fqlCase) (bool, []string) {
		nt, labels := fcase{Items: cs.Items}.class()
		if _, ok := firstUnknown(cs.Items); ok {
			labels = append(labels, "unknown-keys")
		}
		return nt, labels
	}
	pieces := []string{"a", "b:", "c", ":", ":!", ":>", "1", "-2", "1.5", "null", "true", "false", `"`, `"x"`, `\`, "(", ")", ";", ",", " ", "d1", "zz:1", "a:1", `c:"y"`, "e:true", "h.i:3", ".", "'", "--", "$1", "é", "\x00"}
	genRaw := func(t *rapid.T) fqlRaw {
		if rapid.IntRange(0, 4).Draw(t, "mutate") > 0 {
			// A valid expression with a few pieces inserted or removed.
			s := renderFQL(genItems(t), genFmt(t))
			for n := rapid.IntRange(0, 3).Draw(t, "edits"); n > 0; n-- {
				i := rapid.IntRange(0, len(s)).Draw(t, "at")
				j := min(len(s), i+rapid.IntRange(0, 3).Draw(t, "cut"))
				s = s[:i] + rapid.SampledFrom(append([]string{""}, pieces...)).Draw(t, "ins") + s[j:]
			}
			return fqlRaw{strings.ToValidUTF8(s, "?")}
		}
		return fqlRaw{strings.Join(rapid.SliceOfN(rapid.SampledFrom(pieces), 0, 12).Draw(t, "pieces"), "")}
	}
	_ = accepted
	return []fw.Sub{
		&fw.Check[fqlCase]{
			Name:   "fql-rows",
			Checks: r.N(4000, 40000),
			Gen: func(t *rapid.T) fqlCase {
				return fqlCase{Items: genItems(t), Fmt: genFmt(t), Strict: rapid.Bool().Draw(t, "strict"),
					Lead: rapid.SampledFrom([]string{"", "", ";", ",", ";,"}).Draw(t, "lead"), Trail: rapid.SampledFrom([]string{"", "", ";", ",;"}).Draw(t, "trail")}
			},
			Test:  convRules,
			Class: fclass,
			Show:  func(cs fqlCase) any { return cs.fql() },
		},
		&fw.Check[fqlCase]{
			Name:   "fql-converters",
			Checks: r.N(2000, 20000),
			Gen:    func(t *rapid.T) fqlCase { return fqlCase{Items: genItems(t), Fmt: genFmt(t)} },
			Test:   conv,
			Class:  fclass,
			Show:   func(cs fqlCase) any { return cs.fql() },
		},
		&fw.Check[fqlRaw]{
			Name:   "fql-arbitrary",
			Checks: r.N(8000, 100000),
			Gen:    genRaw,
			Test:   raw,
			Class: func(cs fqlRaw) (bool, []string) {
				c := newConstructor(false)
				if c.UnmarshalFQL(cs.S) != nil {
					return false, []string{"refused"}
				}
				return true, []string{"accepted"}
			},
		},
		&fw.Check[sortCase]{
			Name:   "sort",
			Checks: r.N(2000, 20000),
			Gen: func(t *rapid.T) sortCase {
				var parts []string
				for n := rapid.IntRange(0, 5).Draw(t, "keys"); n > 0; n-- {
					k := rapid.SampledFrom([]string{"a", "b", "c", "d", "e", "f", "g", "h.i", "j.k_l", "m", "", "zz", "A", "a b", "a--"}).Draw(t, "key")
					parts = append(parts, rapid.SampledFrom([]string{"", "", "-"}).Draw(t, "dir")+k)
				}
				return sortCase{strings.Join(parts, ","), rapid.Bool().Draw(t, "strict")}
			},
			Test: sortTest,
			Class: func(cs sortCase) (bool, []string) {
				return strings.Count(cs.S, ",") > 0, nil
			},
		},
	}
}

// ---- P12 ------------------------------------------------------------------

type pCase struct {
	F    fcase `json:"f"`
	Pos  int   `json:"pos"`
	Seed int   `json:"seed"`
}

// revalue gives the predicates other values without changing the shape.
func revalue(items []fitem, seed int) []fitem {
	out := append([]fitem(nil), items...)
	re := func(v fval, i int) fval {
		switch v.T {
		case "int", "int64", "int16":
			v.S = fmt.Sprint((seed + i) % 1000)
		case "string":
			v.S = fmt.Sprintf(`'"; DROP TABLE t; -- $1 %d`, seed+i)
		case "float64":
			v.S = fmt.Sprint(float64(seed+i) / 8)
		case "time":
			v.S = fmt.Sprint(seed * i)
		}
		return v
	}
	for i := range out {
		seed++
		out[i].Val = re(out[i].Val, i)
		if out[i].Do == "text" {
			out[i].Val.S = fmt.Sprintf("word%d'", seed)
		}
		out[i].Vals = append([]fval(nil), out[i].Vals...)
		for j := range out[i].Vals {
			out[i].Vals[j] = re(out[i].Vals[j], j)
		}
		out[i].Sub = revalue(out[i].Sub, seed*31)
	}
	return out
}

// wantParams lists the parameters of the calls, in order; arrays as their driver value's text.
func wantParams(items []fitem) (out []any) {
	for _, it := range items {
		switch it.Do {
		case "col":
			v := it.Val.val()
			if _, isb := v.(bool); (isb || v == nil) && (it.Op == "=" || it.Op == "<>" || it.Op == "!=") {
				continue
			}
			out = append(out, v)
		case "in":
			if strings.EqualFold(it.Op, "any") {
				out = append(out, any("array"))
				continue
			}
			for _, v := range it.Vals {
				out = append(out, v.val())
			}
		case "text":
			out = append(out, strings.Join(strings.Fields(it.Val.S), ":* & ")+":*")
		}
		out = append(out, wantParams(it.Sub)...)
	}
	return out
}

var placeholder = regexp.MustCompile(`\$([0-9]+)`)

func p12(r *fw.Run) []fw.Sub {
	check := func(f gosql.Filter, pos int, want []any) (string, error) {
		s, params := f.ToSQL(pos)
		s2, params2 := f.ToSQL(pos)
		if s != s2 || len(params) != len(params2) {
			return s, fmt.Errorf("two calls of ToSQL differ: %q %v, %q %v", s, params, s2, params2)
		}
		ms := placeholder.FindAllStringSubmatch(s, -1)
		if len(ms) != len(params) {
			return s, fmt.Errorf("%q has %d placeholders but there are %d parameters", s, len(ms), len(params))
		}
		for i, m := range ms {
			if m[1] != strconv.Itoa(pos+i+1) {
				return s, fmt.Errorf("%q: placeholder %d should be $%d", s, i, pos+i+1)
			}
		}
		if len(params) != len(want) {
			return s, fmt.Errorf("%q has the parameters %v, want %v", s, params, want)
		}
		for i := range want {
			if want[i] == any("array") {
				continue
			}
			if !reflect.DeepEqual(params[i], want[i]) {
				return s, fmt.Errorf("%q: parameter %d is %#v, want %#v", s, i, params[i], want[i])
			}
		}
		return s, nil
	}
	test := func(cs pCase) error {
		c1, c2 := newConstructor(true), newConstructor(true)
		other := cs.F
		other.Items = revalue(cs.F.Items, cs.Seed)
		if err := cs.F.build(c1); err != nil {
			return err
		}
		if err := other.build(c2); err != nil {
			return err
		}
		s1, err := check(c1.Filter(), cs.Pos, wantParams(cs.F.Items))
		if err != nil {
			return err
		}
		s2, err := check(c2.Filter(), cs.Pos, wantParams(other.Items))
		if err != nil {
			return err
		}
		if s1 != s2 {
			return fmt.Errorf("the SQL depends on the values: %q, %q", s1, s2)
		}
		if _, err := check(c1.CountFilter(), cs.Pos, wantParams(cs.F.Items)); err != nil {
			return err
		}
		return nil
	}
	type listCase struct{ Num, Pos int }
	return []fw.Sub{
		&fw.Check[pCase]{
			Name:   "parameters",
			Checks: r.N(20000, 200000),
			Gen: func(t *rapid.T) pCase {
				cs := pCase{F: genFCase(t), Seed: rapid.IntRange(0, 1<<20).Draw(t, "seed")}
				cs.Pos = rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 60000)).Draw(t, "pos")
				return cs
			},
			Test: test,
			Class: func(cs pCase) (bool, []string) {
				_, labels := cs.F.class()
				return len(wantParams(cs.F.Items)) >= 2, labels
			},
		},
		&fw.Check[listCase]{
			Name:   "value-list",
			Checks: r.N(2000, 20000),
			Gen: func(t *rapid.T) listCase {
				n := rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 3000)).Draw(t, "num")
				return listCase{n, rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, 65535-n), rapid.Just(65535-n)).Draw(t, "pos")}
			},
			Test: func(cs listCase) error {
				if cs.Num > 0 && cs.Pos+cs.Num > 65535 {
					return nil
				}
				var want []string
				for i := 1; i <= cs.Num; i++ {
					want = append(want, "$"+strconv.Itoa(cs.Pos+i))
				}
				if cs.Num == 0 && cs.Pos >= 65535 {
					cs.Pos = 0
				}
				got := strings.Split(strings.ReplaceAll(gosql.InValueList(cs.Num, cs.Pos), " ", ""), ",")
				if cs.Num == 0 && len(got) == 1 && got[0] == "" {
					return nil
				}
				if !reflect.DeepEqual(got, want) {
					return fmt.Errorf("InValueList(%d, %d) = %v", cs.Num, cs.Pos, got)
				}
				for i := 0; i < cs.Num; i++ {
					if gosql.OrdinalParameters[cs.Pos+i] != want[i] {
						return fmt.Errorf("OrdinalParameters[%d] = %s", cs.Pos+i, gosql.OrdinalParameters[cs.Pos+i])
					}
				}
				return nil
			},
			Class: func(cs listCase) (bool, []string) { return cs.Num >= 2, nil },
		},
	}
}
