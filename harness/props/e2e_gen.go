package props

import (
	"fmt"
	"math/rand"
	"strings"

	"pgregory.net/rapid"
)

// Generators of query structs that are valid by construction.

type qgen struct {
	t *rapid.T
	n int
}

func (g *qgen) name() string { g.n++; return fmt.Sprintf("v%d", g.n) }

func (g *qgen) intn(n int) int {
	if n <= 1 {
		return 0
	}
	return rapid.IntRange(0, n-1).Draw(g.t, "i")
}

func (g *qgen) p(num, den int) bool { return g.intn(den) < num }

func pick[X any](g *qgen, xs []X) X { return xs[g.intn(len(xs))] }

func shuffle[X any](g *qgen, xs []X) []X {
	out := append([]X(nil), xs...)
	for i := len(out) - 1; i > 0; i-- {
		j := g.intn(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

var e2eGoTypes = map[string][]string{
	"int4":        {"int", "int32", "int"},
	"int8":        {"int64", "int"},
	"text":        {"string", "string", "[]byte"},
	"bool":        {"bool"},
	"float8":      {"float64"},
	"timestamptz": {"time.Time"},
}

var e2ePools = map[string][]string{
	"int4":        {"0", "1", "2", "3", "5", "7", "-1", "10", "99", "4"},
	"int8":        {"10", "30", "0", "-7", "9000000000", "70", "33", "1"},
	"text":        {"ann", "x", "", "Bob", "cat", "p", "q", "one", "it's", "zoë", "nb", "a_c", "a", "g1", "gr", "two", "\\", "$1"},
	"bool":        {"true", "false"},
	"float8":      {"0", "1.5", "-2.5", "0.5", "7", "1e+10", "3.25"},
	"timestamptz": {"2001-01-01T00:00:00Z", "2001-01-02T00:00:00Z", "2001-01-03T12:30:00Z", "2001-01-05T00:00:00Z", "2002-01-01T00:00:00Z", "2001-01-06T00:00:00Z"},
}

var (
	likePool    = []string{"%", "a%", "%n%", "_", "a_c", "ann", "B%", "", "%o%", "___", "%'%"}
	similarPool = []string{"%", "a%", "(ann|cat)", "%[a-cx]%", "(p|q)?", "_+"}
	rxPool      = []string{"^a", "n+", "o|x", ".", "^$", "[A-Z]", "b$", "^.{3}$"}
)

// recKind is how a record type is used.
type recKind struct {
	read, write bool
	allPtr      bool // all the fields are pointers (outer joins)
	need        []string
	opts        bool // tag options that restrict reading and writing
}

// rec draws a record type of a table.
func (g *qgen) rec(tab *pgTable, k recKind) *GRec {
	r := &GRec{}
	cols := shuffle(g, tab.Cols)
	n := 1 + g.intn(len(cols))
	if k.write && n < 2 {
		n = 2
	}
	var chosen []pgCol
	for i, c := range cols {
		needed := false
		for _, x := range k.need {
			needed = needed || x == c.Name
		}
		if i < n || needed {
			chosen = append(chosen, c)
		}
	}
	for _, c := range chosen {
		f := GField{Col: c.Name, Go: g.goType(c, k)}
		nullable := !c.NotNull || k.allPtr
		if !strings.HasPrefix(f.Go, "*") && nullable && k.read && c.Typ != "timestamptz" {
			switch g.intn(4) {
			case 0:
				f.Opts = append(f.Opts, "coalesce")
			case 1:
				if lit, ok := map[string]string{"int4": "42", "int8": "-8", "text": "'none'", "float8": "2.25", "bool": "true"}[c.Typ]; ok {
					f.Opts = append(f.Opts, "coalesce("+lit+")")
				}
			}
		}
		r.Fields = append(r.Fields, f)
	}
	if g.p(1, 2) {
		g.nest(r)
	}
	r.After = k.read && g.p(1, 5)
	return r
}

// nest moves fields of the record into nested structs. The names are such that
// the paths of different nodes can have the same concatenation.
func (g *qgen) nest(r *GRec) {
	// Evenly distributed choices, rapid's tend to be small.
	rnd := rand.New(rand.NewSource(int64(rapid.Uint32().Draw(g.t, "nest"))))
	p := func(n, d int) bool { return rnd.Intn(d) < n }
	for n := 1 + rnd.Intn(8); n > 0; n-- {
		up := len(r.Nodes)
		if p(1, 2) {
			up = rnd.Intn(len(r.Nodes) + 1)
		}
		used := map[string]bool{}
		for _, x := range r.Nodes {
			used[x.Name] = used[x.Name] || x.In == up
		}
		var names []string
		for _, x := range []string{"A", "AA", "AAA", "B", "BA", "AAAA"} {
			if !used[x] {
				names = append(names, x)
			}
		}
		x := GNode{In: up, Name: names[rnd.Intn(len(names))], Ptr: p(3, 5), Emb: p(1, 7)}
		if !x.Ptr && !x.Emb {
			x.Anon = p(1, 6)
		}
		if p(1, 3) { // a part of a column's name
			pfx := r.prefix(up)
			c := r.Fields[rnd.Intn(len(r.Fields))].Col
			if strings.HasPrefix(c, pfx) && len(c) > len(pfx)+1 {
				x.Prefix = c[len(pfx):][:1+rnd.Intn(len(c)-len(pfx)-1)]
			}
		}
		r.Nodes = append(r.Nodes, x)
	}
	for i := range r.Fields {
		var in []int
		for n := range r.Nodes {
			if pfx := r.prefix(n + 1); strings.HasPrefix(r.Fields[i].Col, pfx) && r.Fields[i].Col != pfx {
				in = append(in, n+1)
			}
		}
		if len(in) > 0 && p(4, 5) {
			r.Fields[i].In = in[rnd.Intn(len(in))]
			if p(1, 2) {
				r.Fields[i].In = in[len(in)-1-rnd.Intn(min(2, len(in)))]
			}
		}
	}
	r.sync()
}

// goType draws the Go type of a record field.
func (g *qgen) goType(c pgCol, k recKind) string {
	base := pick(g, e2eGoTypes[c.Typ])
	nullable := !c.NotNull || k.allPtr
	if base == "[]byte" && nullable {
		base = "string" // a []byte reads NULL as nil
	}
	switch {
	case k.allPtr:
		return "*" + base
	case nullable && (c.Typ == "timestamptz" || g.p(1, 2)):
		return "*" + base
	case !nullable && base != "[]byte" && g.p(1, 6):
		return "*" + base
	}
	return base
}

// scope is a relation whose columns can be referred to.
type scope struct {
	alias string
	tab   *pgTable
	null  bool // the columns can be NULL because of an outer join
}

func (s scope) ref(col string) string {
	if s.alias == "" {
		return col
	}
	return s.alias + "." + col
}

// vals draws a value per input.
func (g *qgen) vals(n int, goType, typ string, pool []string, list, nonEmpty bool) []LitV {
	out := make([]LitV, n)
	for i := range out {
		if list {
			k := g.intn(4)
			if nonEmpty && k == 0 {
				k = 1
			}
			if k == 0 && g.p(1, 2) {
				out[i].Null = true
				continue
			}
			out[i].List = []string{}
			for j := 0; j < k; j++ {
				out[i].List = append(out[i].List, pick(g, pool))
			}
			continue
		}
		if strings.HasPrefix(goType, "*") && g.p(1, 3) {
			out[i].Null = true
			continue
		}
		out[i].V = pick(g, pool)
	}
	return out
}

// whereItem draws one search condition.
func (g *qgen) whereItem(n int, scopes []scope, depth int) Item {
	s := pick(g, scopes)
	c := pick(g, s.tab.Cols)
	it := Item{Or: g.p(2, 5), Col: s.ref(c.Name), Typ: c.Typ}
	switch k := g.intn(12); {
	case k == 0 && depth < 3:
		it = Item{Or: it.Or, Kind: "nest", Items: g.where(n, scopes, depth+1)}
		return it
	case k <= 2 && c.Typ != "bool":
		it.Kind = "between"
		it.Op = pick(g, []string{"isbetween", "notbetween", "isbetweensym", "notbetweensym", "isbetweenasym", "notbetweenasym"})
		it.Swap = g.p(1, 3)
		if g.p(1, 4) {
			it.Func = "long"
		}
		bound := func() *Item {
			if g.p(1, 3) {
				if r, ok := g.colOf(scopes, c.Typ); ok {
					return &Item{Kind: "col", RCol: r}
				}
			}
			gt := pick(g, e2eGoTypes[c.Typ])
			if g.p(1, 5) {
				gt = "*" + strings.Replace(gt, "[]byte", "string", 1)
			}
			return &Item{Kind: "field", Go: gt, Vals: g.vals(n, gt, c.Typ, e2ePools[c.Typ], false, false)}
		}
		it.Low, it.High = bound(), bound()
		return it
	case k <= 5:
		it.Kind = "col"
		return g.colItem(it, s, c, scopes)
	}
	it.Kind = "field"
	ops := []string{"", "=", "<>", "!=", "<", ">", "<=", ">=", "isdistinct", "notdistinct"}
	gt := pick(g, e2eGoTypes[c.Typ])
	pool := e2ePools[c.Typ]
	kind := g.intn(6)
	switch {
	case kind == 0 && gt != "[]byte":
		it.Op = pick(g, []string{"isin", "notin"})
		it.Go = "[]" + gt
		if c.Typ == "text" && g.p(1, 4) {
			it.Func = pick(g, []string{"lower", "upper"})
			it.Func = ""
		}
		it.Vals = g.vals(n, it.Go, c.Typ, pool, true, true)
		return it
	case kind == 1 && gt != "[]byte":
		it.Quant = pick(g, []string{"any", "some", "all"})
		it.Op = pick(g, []string{"=", "<>", "!=", "<", ">", "<=", ">="})
		if c.Typ == "text" && g.p(1, 3) {
			it.Op = pick(g, []string{"islike", "notlike", "isilike", "notilike", "~", "~*", "!~", "!~*"})
			pool = likePool
			if strings.Contains(it.Op, "~") {
				pool = rxPool
			}
		}
		it.Go = "[]" + gt
		it.Vals = g.vals(n, it.Go, c.Typ, pool, true, false)
		return it
	case kind <= 3 && c.Typ == "text":
		it.Op = pick(g, []string{"islike", "notlike", "isilike", "notilike", "issimilar", "notsimilar", "~", "~*", "!~", "!~*"})
		pool = likePool
		if strings.Contains(it.Op, "similar") {
			pool = similarPool
		} else if strings.Contains(it.Op, "~") {
			pool = rxPool
		}
		gt = "string"
	default:
		if c.Typ == "bool" {
			ops = []string{"", "=", "<>", "isdistinct", "notdistinct"}
		}
		it.Op = pick(g, ops)
	}
	if c.Typ == "text" && !strings.Contains(it.Op, "similar") && !strings.Contains(it.Op, "~") && g.p(1, 4) {
		it.Func = pick(g, []string{"lower", "upper"})
		gt = "string"
	}
	if gt != "[]byte" && g.p(1, 5) {
		gt = "*" + gt
	}
	it.Go = gt
	it.Vals = g.vals(n, gt, c.Typ, pool, false, false)
	return it
}

// colOf draws a column of a type.
func (g *qgen) colOf(scopes []scope, typ string) (string, bool) {
	var all []string
	for _, s := range scopes {
		for _, c := range s.tab.Cols {
			if c.Typ == typ {
				all = append(all, s.ref(c.Name))
			}
		}
	}
	if len(all) == 0 {
		return "", false
	}
	return pick(g, all), true
}

// colItem draws a column directive.
func (g *qgen) colItem(it Item, s scope, c pgCol, scopes []scope) Item {
	switch k := g.intn(6); {
	case c.Typ == "bool" && k <= 2:
		it.Op = pick(g, []string{"", "istrue", "nottrue", "isfalse", "notfalse", "isunknown", "notunknown"})
		return it
	case !c.NotNull && k <= 3:
		it.Op = pick(g, []string{"isnull", "notnull"})
		return it
	case k == 4 && c.Typ == "int4":
		it.Op = pick(g, []string{"=", "<>", ">", "<="})
		it.RLit = pick(g, []string{"2", "0", "7", "3"})
		return it
	case k == 4 && c.Typ == "text":
		it.Op = pick(g, []string{"=", "<>", "islike", "isilike"})
		it.RLit = pick(g, []string{"'ann'", "'x'", "'%n%'", "''"})
		return it
	}
	r, _ := g.colOf(scopes, c.Typ)
	ops := []string{"=", "<>", "!=", "<", ">", "<=", ">=", "isdistinct", "notdistinct"}
	if c.Typ == "text" {
		ops = append(ops, "islike", "~", "notilike")
	}
	it.Op, it.RCol = pick(g, ops), r
	return it
}

// where draws a where struct.
func (g *qgen) where(n int, scopes []scope, depth int) []Item {
	k := 1 + g.intn(4)
	var items []Item
	for i := 0; i < k; i++ {
		items = append(items, g.whereItem(n, scopes, depth))
	}
	items[0].Or = false
	return items
}

// joins draws join directives; base is the relation that the first one can refer to.
func (g *qgen) joins(base []scope, max int, outer bool) (out []JoinD, scopes []scope) {
	scopes = append(scopes, base...)
	k := g.intn(max + 1)
	for i := 0; i < k; i++ {
		tab := pick(g, []*pgTable{tabB, tabC, tabU, tabA})
		alias := fmt.Sprintf("j%d", i+1)
		typs := []string{"Left", "Inner", "Inner", "Left", "Cross"}
		if outer {
			typs = append(typs, "Right", "Full")
		}
		j := JoinD{Typ: pick(g, typs), Table: tab.Name, Alias: alias, Or: g.p(1, 4)}
		me := scope{alias: alias, tab: tab}
		if j.Typ != "Cross" {
			nc := 1 + g.intn(2)
			for len(j.Conds) < nc {
				c := pick(g, tab.Cols)
				jc := JoinC{L: me.ref(c.Name)}
				if c.Typ == "bool" {
					jc.Op = pick(g, []string{"istrue", "notfalse", "isunknown", ""})
				} else if !c.NotNull && g.p(1, 6) && j.Typ != "Full" {
					jc.Op = pick(g, []string{"isnull", "notnull"})
				} else {
					r, ok := g.colOf(scopes, c.Typ)
					if !ok || g.p(1, 8) && c.Typ == "int4" {
						if c.Typ != "int4" {
							continue
						}
						jc.Op, jc.R = pick(g, []string{"=", "<", ">="}), pick(g, []string{"1", "2", "5"})
					} else {
						jc.R = r
						jc.Op = pick(g, []string{"=", "=", "=", "<>", "<", ">="})
					}
				}
				if j.Typ == "Full" {
					// only merge-joinable conditions
					j.Or = false
					r, ok := g.colOf(scopes, c.Typ)
					if !ok || c.Typ == "bool" {
						continue
					}
					jc.Op, jc.R = "=", r
				}
				j.Conds = append(j.Conds, jc)
			}
		}
		out = append(out, j)
		scopes = append(scopes, me)
	}
	return out, scopes
}

// order draws an order directive; total appends the key of the main relation.
func (g *qgen) order(scopes []scope, main scope, total bool) []Ord {
	var out []Ord
	used := map[string]bool{}
	add := func(s scope, c pgCol) {
		r := s.ref(c.Name)
		if used[r] {
			return
		}
		used[r] = true
		out = append(out, Ord{Col: r, Desc: g.p(1, 2), Nulls: pick(g, []string{"", "first", "last"})})
	}
	for i, k := 0, g.intn(3); i < k; i++ {
		s := pick(g, scopes)
		add(s, pick(g, s.tab.Cols))
	}
	if total {
		for _, c := range main.tab.Cols {
			if c.PK {
				add(main, c)
			}
		}
	}
	return out
}

// lim draws a limit or an offset.
func (g *qgen) lim(n int) *Lim {
	l := &Lim{Def: -1}
	if g.p(1, 2) {
		l.Def = pick(g, []int{1, 2, 3, 5, 50})
		if g.p(1, 2) {
			return l
		}
	}
	l.Field = true
	l.Go = pick(g, []string{"int", "int64", "int32", "uint", "uint8", "int16"})
	for i := 0; i < n; i++ {
		l.Vals = append(l.Vals, pick(g, []int{0, 1, 2, 3, 4, 100}))
	}
	return l
}

// filter draws a filter.
func (g *qgen) filter(n int, scopes []scope, main scope, sel bool) *FSpec {
	f := &FSpec{Embedded: g.p(1, 2)}
	f.Calls = g.fcalls(n, scopes, 0)
	if g.p(1, 6) {
		f.Calls = nil
	}
	if sel {
		if g.p(1, 2) {
			f.Order = g.order(scopes, main, true)
			if g.p(1, 2) {
				for i := 0; i < n; i++ {
					f.Limit = append(f.Limit, pick(g, []int{0, 1, 2, 5}))
				}
			}
			if g.p(1, 2) {
				for i := 0; i < n; i++ {
					f.Offset = append(f.Offset, pick(g, []int{0, 1, 2, 3}))
				}
			}
		}
	}
	return f
}

func (g *qgen) fcalls(n int, scopes []scope, depth int) []FCall {
	var out []FCall
	for i, k := 0, 1+g.intn(3); i < k; i++ {
		c := FCall{Or: i > 0 && g.p(2, 5)}
		if depth < 2 && g.p(1, 6) {
			c.Nested = g.fcalls(n, scopes, depth+1)
			out = append(out, c)
			continue
		}
		s := pick(g, scopes)
		col := pick(g, s.tab.Cols)
		c.Col, c.Typ = s.ref(col.Name), col.Typ
		c.Op = pick(g, []string{"=", "<>", "<", ">", "<=", ">="})
		if col.Typ == "bool" {
			c.Op = pick(g, []string{"=", "<>"})
		}
		for j := 0; j < n; j++ {
			v := LitV{V: pick(g, e2ePools[col.Typ])}
			if (c.Op == "=" || c.Op == "<>") && g.p(1, 6) {
				v = LitV{Null: true}
			}
			c.Vals = append(c.Vals, v)
		}
		out = append(out, c)
	}
	return out
}

// genSelect draws a select query.
func genSelect(t *rapid.T) *GQuery {
	g := &qgen{t: t}
	q := &GQuery{N: 3}
	q.Kind = pick(g, []string{"select", "select", "select", "select", "select", "select", "select", "count", "exists", "notexists"})
	tab := pick(g, []*pgTable{tabA, tabA, tabA, tabB, tabC})
	q.Table, q.Alias = tab.Name, "u"
	if g.p(1, 10) {
		q.Alias = ""
	}
	main := scope{alias: q.Alias, tab: tab}
	scopes := []scope{main}
	outer := false
	if q.Alias != "" && g.p(1, 3) {
		q.Joins, scopes = g.joins(scopes, 3, true)
		for _, j := range q.Joins {
			outer = outer || j.Typ == "Right" || j.Typ == "Full"
		}
	}
	if q.Kind == "select" {
		q.Form = pick(g, []string{"slice", "sliceptr", "slice", "sliceptr", "ptr", "val", "func", "funcptr", "iface", "ifaceval"})
		q.Rec = g.rec(tab, recKind{read: true, allPtr: outer})
		g.roOpts(q)
	}
	if q.Kind == "count" {
		q.CountGo = pick(g, []string{"int", "int64", "uint", "int32"})
	}
	switch k := g.intn(10); {
	case k < 6:
		q.Where = g.where(q.N, scopes, 0)
	case k < 9:
		q.Filter = g.filter(q.N, scopes, main, q.Kind == "select")
	}
	hasF := q.Filter != nil
	ford := hasF && len(q.Filter.Order) > 0
	if q.Kind == "select" && !ford {
		if g.p(2, 5) {
			q.Order = g.order(scopes, main, true)
			if g.p(1, 2) && !(hasF && q.Filter.Limit != nil) {
				q.Limit = g.lim(q.N)
			}
			if g.p(1, 2) && !(hasF && q.Filter.Offset != nil) {
				q.Offset = g.lim(q.N)
			}
		} else if g.p(1, 4) && !hasF {
			q.Limit = g.lim(q.N)
		}
	}
	if (q.Kind == "exists" || q.Kind == "notexists") && !hasF && g.p(1, 3) {
		q.Order = g.order(scopes, main, false)
		if g.p(1, 2) {
			q.Limit = g.lim(q.N)
		}
		if g.p(1, 2) {
			q.Offset = g.lim(q.N)
		}
	}
	q.Swap = g.p(1, 3)
	return q
}

// roOpts adds options that keep some fields from being read.
func (g *qgen) roOpts(q *GQuery) {
	if !g.p(1, 4) {
		return
	}
	for i := range q.Rec.Fields {
		if g.p(1, 5) && i > 0 {
			q.Rec.Fields[i].Opts = append(q.Rec.Fields[i].Opts, pick(g, []string{"wo", "-s", "-rw", "-r", "ro", "-w"}))
		}
	}
	g.upOptsRead(q.Rec)
}

// upOptsRead draws the options of nested records, some field remains readable.
func (g *qgen) upOptsRead(r *GRec) {
	if g.p(1, 2) {
		return
	}
	g.upOpts(r)
	for _, f := range r.Fields {
		if readable(f) {
			return
		}
	}
	for i := range r.Nodes {
		r.Nodes[i].Opts = nil
	}
	r.sync()
}

// ---- queries that write ----

// keyPools are the values of keys.
var keyPools = map[string][][]string{
	"ga": {{"1"}, {"2"}, {"3"}, {"5"}, {"8"}, {"10"}, {"11"}, {"12"}, {"0"}, {"-4"}},
	"gb": {{"1"}, {"2"}, {"4"}, {"6"}, {"8"}, {"9"}, {"10"}, {"0"}},
	"gu": {{"1"}, {"2"}, {"3"}, {"5"}, {"6"}, {"7"}, {"0"}},
	"Gc": {{"1", "a"}, {"1", "b"}, {"2", "a"}, {"3", "c"}, {"5", "yy"}, {"0", ""}, {"7", "a"}, {"2", "b"}, {"9", "new"}},
}

// writeOpts draws tag options that decide what a field is used for.
func (g *qgen) writeOpts(q *GQuery, keep func(c *pgCol) bool) {
	tab := e2eTables[q.Table]
	for i := range q.Rec.Fields {
		f := &q.Rec.Fields[i]
		c := tab.col(f.Col)
		if !g.p(1, 3) {
			continue
		}
		opts := [][]string{{"ro"}, {"wo"}, {"xf"}, {"-i"}, {"-u"}, {"-w", "+i"}, {"-w", "+u"}, {"-w"}, {"ro", "+u"}, {"-r"}, {"-s"}, {"-iu"}, {"-wr", "+iu"}, {"-w", "+w"}, {"nn"}, {"-f"}, {"-wr", "+ir"}, {"wo", "+s"}, {"-w", "-s"}, {"-rw"}}
		if c.Def != "" {
			opts = append(opts, []string{"default"}, []string{"default"}, []string{"default"})
		}
		o := pick(g, opts)
		n := len(f.Opts)
		f.Opts = append(f.Opts, o...)
		if keep(c) && (!q.written(*f)) {
			f.Opts = f.Opts[:n]
		}
	}
	if g.p(1, 3) {
		g.upOpts(q.Rec)
	}
}

// upOpts draws the tag options of the nested records.
func (g *qgen) upOpts(r *GRec) {
	for i := range r.Nodes {
		r.Nodes[i].Opts = nil
		if g.p(1, 3) {
			r.Nodes[i].Opts = pick(g, [][]string{{"ro"}, {"wo"}, {"-i"}, {"-u"}, {"-w"}, {"-r"}, {"-s"}, {"-w", "+u"}, {"-iu"}, {"-rw"}})
		}
	}
	r.sync()
}

// ensureWritten makes at least one field a target of the query.
func (g *qgen) ensureWritten(q *GQuery) {
	last := -1
	for i, f := range q.Rec.Fields {
		if q.written(f) {
			return
		}
		if !e2eTables[q.Table].col(f.Col).PK || q.Kind == "insert" || last < 0 {
			last = i
		}
	}
	q.Rec.Fields[last].Opts = nil
	for i := range q.Rec.Nodes {
		q.Rec.Nodes[i].Opts = nil
	}
	q.Rec.sync()
}

// colList draws a list of columns of the record.
func (g *qgen) colList(q *GQuery, ok func(f GField, c *pgCol) bool) []string {
	var all []string
	for _, f := range q.Rec.Fields {
		if ok(f, e2eTables[q.Table].col(f.Col)) {
			all = append(all, f.Col)
		}
	}
	if len(all) == 0 {
		return nil
	}
	all = shuffle(g, all)
	return all[:1+g.intn(len(all))]
}

// data draws the records of every input.
func (g *qgen) data(q *GQuery, existing bool) {
	tab := e2eTables[q.Table]
	for in := 0; in < q.N; in++ {
		k := 1
		if isSliceForm(q.Form) {
			k = 1 + g.intn(4)
		}
		keys := shuffle(g, keyPools[q.Table])
		var recs [][]LitV
		for j := 0; j < k; j++ {
			key := keys[j%len(keys)]
			if existing && g.p(2, 3) {
				key = nil
				for _, x := range keys { // one that isn't used yet and exists
					used := false
					for _, r := range recs {
						same := true
						kk := 0
						for fi, f := range q.Rec.Fields {
							if tab.col(f.Col).PK {
								same = same && r[fi].V == x[pkPos(tab, f.Col)]
								kk++
							}
						}
						used = used || same
					}
					if !used && keyExists(q.Table, x) {
						key = x
						break
					}
				}
				if key == nil {
					break
				}
			}
			if q.Kind == "insert" && j > 0 && g.p(1, 8) {
				key = keys[0]
			}
			rec := make([]LitV, len(q.Rec.Fields))
			for i, f := range q.Rec.Fields {
				c := tab.col(f.Col)
				if c.PK {
					rec[i] = LitV{V: key[pkPos(tab, f.Col)]}
					if q.Kind == "insert" && strings.HasPrefix(f.Go, "*") && g.p(1, 6) {
						rec[i] = LitV{Null: true}
					}
					continue
				}
				rec[i] = g.vals(1, f.Go, c.Typ, e2ePools[c.Typ], false, false)[0]
				if strings.HasPrefix(f.Go, "*") && rec[i].Null && c.NotNull && g.p(4, 5) {
					rec[i] = LitV{V: pick(g, e2ePools[c.Typ])}
				}
				if q.intParam(f, c, rec[i]) && !g.p(1, 30) {
					rec[i] = LitV{V: pick(g, []string{"0", "7", "-3", "33"})}
				}
				if c.Typ == "timestamptz" && !strings.HasPrefix(f.Go, "*") && g.p(1, 12) {
					rec[i] = LitV{V: "0001-01-01T00:00:00Z"}
				}
			}
			dup := false
			if existing {
				for _, r := range recs {
					same := true
					for _, pi := range q.pkOf() {
						same = same && r[pi].V == rec[pi].V
					}
					dup = dup || same
				}
			}
			if !dup {
				recs = append(recs, rec)
			}
		}
		q.Data = append(q.Data, recs)
	}
}

func pkPos(tab *pgTable, col string) int {
	n := 0
	for _, c := range tab.Cols {
		if c.Name == col {
			return n
		}
		if c.PK {
			n++
		}
	}
	return n
}

func keyExists(table string, key []string) bool {
	switch table {
	case "ga":
		return strings.Contains(" 1 2 3 4 5 6 7 8 9 10 ", " "+key[0]+" ")
	case "gb":
		return strings.Contains(" 1 2 3 4 5 6 7 8 ", " "+key[0]+" ")
	case "gu":
		return strings.Contains(" 1 2 3 4 5 ", " "+key[0]+" ")
	}
	return strings.Contains(" 1,a 1,b 2,a 3,c 5,yy 0, ", " "+key[0]+","+key[1]+" ")
}

var affectedTypes = []string{"int", "int64", "int32", "uint", "uint64", "int16", "uint8"}

// output draws what the query gives back.
func (g *qgen) output(q *GQuery) {
	tab := e2eTables[q.Table]
	switch g.intn(6) {
	case 0, 1:
		if q.Form == "dir" {
			break
		}
		if g.p(1, 2) {
			q.Return = []string{"*"}
		} else {
			q.Return = g.colList(q, func(f GField, c *pgCol) bool { return q.read(f) })
		}
		some := false
		for _, f := range q.Rec.Fields {
			some = some || q.returned(f)
		}
		if !some {
			q.Return = nil
		}
	case 2, 3:
		q.Result = g.rec(tab, recKind{read: true, allPtr: false})
		for i := range q.Result.Fields {
			if i > 0 && g.p(1, 6) {
				q.Result.Fields[i].Opts = append(q.Result.Fields[i].Opts, pick(g, []string{"wo", "-r", "ro", "-s"}))
			}
		}
		g.upOptsRead(q.Result)
		q.ResForm = pick(g, []string{"slice", "sliceptr", "slice", "sliceptr", "ptr", "val", "func", "funcptr", "iface", "ifaceval"})
	case 4:
		q.Affected = pick(g, affectedTypes)
	}
}

// qualifier draws the directive lists' qualifier.
func (g *qgen) directives(q *GQuery) {
	if g.p(1, 5) {
		q.Default = []string{"*"}
		if g.p(2, 3) {
			q.Default = g.colList(q, func(f GField, c *pgCol) bool {
				return c.Def != ""
			})
		}
	}
	if g.p(1, 5) {
		q.Force = []string{"*"}
		if g.p(2, 3) {
			q.Force = g.colList(q, func(f GField, c *pgCol) bool { return true })
		}
	}
}

// genInsert draws an insert query.
func genInsert(t *rapid.T) *GQuery { return genInsertOf(t, false) }

// genUpsert draws an insert with an update on conflicts, which mostly occur.
func genUpsert(t *rapid.T) *GQuery { return genInsertOf(t, true) }

// guRows are the rows of gu: the columns that are unique.
var guRows = []map[string]string{
	{"id": "1", "u1": "1", "u2": "a", "u3": "1"}, {"id": "2", "u1": "2", "u2": "a", "u3": "2"}, {"id": "5", "u1": "5", "u2": "e", "u3": "5"},
	{"val": "TWO", "cnt": "10"}, {"val": "four", "cnt": "6"}, {"val": "tHree", "cnt": "120"},
}

func genInsertOf(t *rapid.T, upsert bool) *GQuery {
	g := &qgen{t: t}
	q := &GQuery{Kind: "insert", N: 3}
	tab := pick(g, []*pgTable{tabA, tabA, tabB, tabC, tabU, tabU, tabU})
	kind := 0
	if upsert {
		tab, q.N = tabU, 4
		kind = g.intn(4)
	}
	q.Table, q.Alias = tab.Name, "u"
	if g.p(1, 4) {
		q.Alias = ""
	}
	q.Form = pick(g, []string{"ptr", "val", "slice", "sliceptr"})
	var need []string
	if tab == tabC {
		need = []string{"x"}
	}
	if g.p(1, 2) && tab == tabU {
		need = append(need, pick(g, []string{"u1", "u2", "u3", "id", "val", "cnt"}), pick(g, []string{"u1", "u2", "u3"}))
	}
	on := [][]string{{"id"}, {"u1"}, {"u2", "u3"}, {"val", "cnt"}}[kind]
	if upsert {
		need = append(append(need, on...), pick(g, tab.Cols).Name, pick(g, tab.Cols).Name)
	}
	q.Rec = g.rec(tab, recKind{write: true, read: g.p(1, 2), need: need})
	if !upsert || g.p(1, 4) {
		g.writeOpts(q, func(c *pgCol) bool { return c.NotNull && c.Def == "" })
	}
	g.directives(q)
	g.ensureWritten(q)
	if upsert {
		c := &GConflict{Update: []string{"*"}}
		switch {
		case kind == 3:
			c.Index = "gu_expr"
		case g.p(1, 2):
			c.Cols = shuffle(g, on)
		case g.p(1, 2) && kind != 1:
			c.Constraint = []string{"gu_pkey", "", "gu_u2_u3"}[kind]
		default:
			c.Index = []string{"gu_pkey", "gu_u1", "gu_u2_u3"}[kind]
		}
		if g.p(1, 2) {
			c.Update = g.colList(q, func(f GField, c *pgCol) bool { return true })
		}
		q.Conflict = c
	} else if g.p(2, 5) || tab == tabU && g.p(1, 2) {
		c := &GConflict{}
		switch g.intn(4) {
		case 0:
			c.Ignore = true
		case 1:
			switch tab {
			case tabC:
				c.Cols = shuffle(g, []string{"x", "y"})
			case tabU:
				c.Cols = pick(g, [][]string{{"id"}, {"u1"}, {"u2", "u3"}, {"u3", "u2"}})
			default:
				c.Cols = []string{"id"}
			}
		case 2:
			c.Index = tab.Name + "_pkey"
			if tab == tabU {
				c.Index = pick(g, []string{"gu_pkey", "gu_u1", "gu_u2_u3", "gu_expr", "gu_expr"})
			}
		case 3:
			c.Constraint = tab.Name + "_pkey"
			if tab == tabU {
				c.Constraint = pick(g, []string{"gu_pkey", "gu_u2_u3"})
			}
		}
		if c.Cols != nil || c.Index != "" || c.Constraint != "" {
			if g.p(1, 2) {
				c.Ignore = true
			} else if c.Update = []string{"*"}; g.p(2, 3) {
				c.Update = g.colList(q, func(f GField, c *pgCol) bool { return true })
			}
		}
		q.Conflict = c
	}
	g.output(q)
	g.data(q, false)
	if upsert {
		for _, recs := range q.Data {
			for _, rec := range recs {
				if g.p(1, 4) {
					continue
				}
				row := guRows[g.intn(3)]
				if kind == 3 {
					row = guRows[3+g.intn(3)]
				}
				for i, f := range q.Rec.Fields {
					for _, c := range on {
						if c == f.Col {
							rec[i] = LitV{V: row[c]}
						}
					}
				}
			}
		}
	}
	q.Swap = g.p(1, 4)
	return q
}

// joined draws the relation of a From or Using struct and the joins to it.
func (g *qgen) joined(q *GQuery, scopes []scope) []scope {
	tab := pick(g, []*pgTable{tabB, tabC, tabU, tabA})
	q.JoinRel = &JoinD{Table: tab.Name, Alias: "f"}
	base := []scope{{alias: "f", tab: tab}}
	joins, all := g.joins(base, 2, false)
	q.Joins = joins
	return append(scopes, all...)
}

// genUpdate draws an update query.
func genUpdate(t *rapid.T) *GQuery {
	g := &qgen{t: t}
	q := &GQuery{Kind: "update", N: 3}
	tab := pick(g, []*pgTable{tabA, tabA, tabB, tabC, tabU})
	q.Table, q.Alias = tab.Name, "u"
	if g.p(1, 4) {
		q.Alias = ""
	}
	q.Form = pick(g, []string{"ptr", "ptr", "val", "slice", "sliceptr"})
	scopes := []scope{{alias: q.Alias, tab: tab}}
	mode := "pk"
	if !isSliceForm(q.Form) {
		mode = pick(g, []string{"pk", "pk", "where", "where", "filter", "all"})
	}
	var need []string
	if mode == "pk" {
		for _, c := range tab.Cols {
			if c.PK {
				need = append(need, c.Name)
			}
		}
	}
	q.Rec = g.rec(tab, recKind{write: true, read: g.p(1, 2), need: need})
	for i := range q.Rec.Fields { // keys aren't pointers
		if tab.col(q.Rec.Fields[i].Col).PK {
			q.Rec.Fields[i].Go = strings.TrimPrefix(q.Rec.Fields[i].Go, "*")
		}
	}
	g.writeOpts(q, func(c *pgCol) bool { return false })
	g.directives(q)
	g.ensureWritten(q)
	if (mode == "where" || mode == "filter") && q.Alias != "" && g.p(1, 3) {
		scopes = g.joined(q, scopes)
	}
	switch mode {
	case "where":
		q.Where = g.where(q.N, scopes, 0)
	case "filter":
		q.Filter = g.filter(q.N, scopes, scopes[0], false)
	case "all":
		q.All = true
	}
	// The rows are updated in an unspecified order, which matters for defaults
	// that are taken from a sequence.
	seq := false
	for i := range q.Rec.Fields {
		f := &q.Rec.Fields[i]
		if !tab.col(f.Col).PK || !q.written(*f) || !q.defaulted(*f) {
			continue
		}
		if seq = true; mode != "pk" {
			f.Opts, q.Default, seq = nil, nil, false
		}
	}
	g.output(q)
	g.data(q, true)
	if seq {
		for i := range q.Data {
			q.Data[i] = q.Data[i][:min(1, len(q.Data[i]))]
		}
	}
	q.Swap = g.p(1, 4)
	return q
}

// genDelete draws a delete query.
func genDelete(t *rapid.T) *GQuery {
	g := &qgen{t: t}
	q := &GQuery{Kind: "delete", N: 3}
	tab := pick(g, []*pgTable{tabA, tabA, tabB, tabC, tabU})
	q.Table, q.Alias = tab.Name, "u"
	if g.p(1, 4) {
		q.Alias = ""
	}
	scopes := []scope{{alias: q.Alias, tab: tab}}
	q.Form = pick(g, []string{"dir", "dir", "ptr", "val", "slice", "sliceptr", "func", "funcptr", "iface", "ifaceval"})
	if q.Alias != "" && g.p(1, 3) {
		scopes = g.joined(q, scopes)
	}
	switch k := g.intn(10); {
	case k < 6:
		q.Where = g.where(q.N, scopes, 0)
	case k < 9:
		q.Filter = g.filter(q.N, scopes, scopes[0], false)
	default:
		q.All = true
	}
	if q.Form != "dir" {
		q.Rec = g.rec(tab, recKind{read: true})
		for i := range q.Rec.Fields {
			if i > 0 && g.p(1, 6) {
				q.Rec.Fields[i].Opts = append(q.Rec.Fields[i].Opts, pick(g, []string{"wo", "-r", "ro", "-s", "-rw"}))
			}
		}
		g.upOptsRead(q.Rec)
	}
	for {
		g.output(q)
		if q.Form == "dir" || q.Return != nil {
			break
		}
		q.Result, q.ResForm, q.Affected = nil, "", ""
		if g.p(1, 3) {
			q.Form, q.Rec = "dir", nil
		} else {
			q.Return = []string{"*"}
			break
		}
	}
	q.Swap = g.p(1, 4)
	return q
}
