package props

import (
	"database/sql"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/frk/gosql/vh/fw"
	"pgregory.net/rapid"
)

// gqCheck is a sub-check over generated query structs: each is given to the
// CLI, the generated method is compiled and executed, and the outcome of every
// execution is compared with the reference.
type gqCheck struct {
	name  string
	n     int // queries
	batch int
	gen   func(t *rapid.T) *GQuery
	ref   func(q *GQuery, db *sql.DB, in int) *refOut
	judge func(q *GQuery, o *e2eOut, ref *refOut) error
	fixed []*GQuery
	setup func(e *e2eEngine)
}

// verdict is the outcome of one query.
type verdict struct {
	kind  string // "", reject, compile, wrong
	err   error
	in    int // the failing input
	rows  int // rows that the reference returned
	known []knownAt
	errs  int // executions that failed as the reference did
}

// knownAt is a failure on record.
type knownAt struct {
	in int
	*knownErr
}

func (c *gqCheck) sub(r *fw.Run) fw.Sub {
	var e *e2eEngine
	var db *sql.DB
	open := func() {
		if e == nil {
			db = r.DB("e2e_"+strings.ReplaceAll(c.name, "-", "_"), e2eSchema)
			e = newE2E(r, "e2e_"+strings.ReplaceAll(c.name, "-", "_"))
			e.Extra = preludeSource()
			if c.setup != nil {
				c.setup(e)
			}
		}
	}
	return &fw.Custom{
		Name: c.name,
		Do: func(rep *fw.Reporter) {
			open()
			qs := append(append([]*GQuery(nil), c.fixed...), fw.Draws(r.Seed*31+uint64(len(c.name)), c.n, c.gen)...)
			for len(qs) > 0 {
				k := min(c.batch, len(qs))
				part := qs[:k]
				qs = qs[k:]
				seen := map[string]bool{}
				for i, v := range c.decide(e, db, part) {
					rep.Case(part[i], part[i].rich() && v.rows > 0, part[i].labels()...)
					if v.errs > 0 {
						rep.Label("the reference fails too", v.errs)
					}
					for _, k := range v.known {
						rep.Finding(k.key, part[i].single(k.in), fmt.Errorf("%w\nquery struct:\n%s", k.err, part[i].QSource(0)))
					}
					if v.kind == "" {
						continue
					}
					sig := v.kind
					if v.kind != "wrong" {
						sig += errShape(v.err.Error())
					}
					if seen[sig] || len(seen) >= 4 {
						continue
					}
					seen[sig] = true
					q, v := c.shrink(e, db, part[i], v)
					rep.Fail(q, fmt.Errorf("%w\nquery struct:\n%s", v.err, q.QSource(0)))
				}
				if rep.Failed() {
					return
				}
			}
		},
		ReplayCase: func(raw json.RawMessage) error {
			open()
			q := new(GQuery)
			fw.InfraPanic(json.Unmarshal(raw, q))
			return c.decide(e, db, []*GQuery{q})[0].err
		},
	}
}

// errShape drops the numbers from a message.
func errShape(s string) string {
	if i := strings.IndexByte(s, '\n'); i > 0 && i < 200 {
		s = s[:i]
	}
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return -1
		}
		return r
	}, s)
}

func preludeSource() string {
	var b strings.Builder
	b.WriteString("package main\n\nfunc init() {\n\tprelude = []string{\n")
	for _, p := range e2ePrelude {
		fmt.Fprintf(&b, "\t\t%q,\n", p)
	}
	b.WriteString("\t}\n}\n")
	return b.String()
}

// decide runs a batch.
func (c *gqCheck) decide(e *e2eEngine, db *sql.DB, qs []*GQuery) []verdict {
	cases := make([]e2eCase, len(qs))
	for i, q := range qs {
		cases[i] = q
	}
	out := make([]verdict, len(qs))
	for i, res := range e.run(cases) {
		v := &out[i]
		q := qs[i]
		switch {
		case res.Rejected != "":
			v.kind, v.err = "reject", fmt.Errorf("the query is rejected: %s", tail(res.Rejected, 1500))
			continue
		case res.Compile != "":
			v.kind, v.err = "compile", fmt.Errorf("the generated code does not compile: %s\n%s", tail(res.Compile, 1500), res.Gen)
			continue
		}
		for _, o := range res.Out {
			ref := c.ref(q, db, o.Input)
			v.rows += len(ref.All)
			if ref.Val != "" && ref.Val != "i:0" && ref.Val != "b:false" {
				v.rows++
			}
			v.rows += int(ref.Affected)
			if ref.Err != "" && o.Err != "" {
				v.errs++
			}
			err := c.judge(q, o, ref)
			if k, ok := err.(*knownErr); ok {
				v.known = append(v.known, knownAt{o.Input, k})
				continue
			}
			if err != nil {
				v.kind, v.err, v.in = "wrong", fmt.Errorf("%w\n%s", err, res.Gen), o.Input
				break
			}
		}
	}
	return out
}

// shrink looks for a smaller query that fails in the same way.
func (c *gqCheck) shrink(e *e2eEngine, db *sql.DB, q *GQuery, v verdict) (*GQuery, verdict) {
	if v.kind == "wrong" && q.N > 1 {
		one := q.single(v.in)
		if v1 := c.decide(e, db, []*GQuery{one})[0]; v1.kind == v.kind {
			q, v = one, v1
		}
	}
	for round := 0; round < 12; round++ {
		cands := q.reductions()
		if len(cands) == 0 {
			break
		}
		if len(cands) > 40 {
			cands = cands[:40]
		}
		found := false
		for i, cv := range c.decide(e, db, cands) {
			if cv.kind == v.kind && (v.kind == "wrong" || errShape(cv.err.Error()) == errShape(v.err.Error())) {
				q, v, found = cands[i], cv, true
				break
			}
		}
		if !found {
			break
		}
	}
	return q, v
}

// rich reports whether the query has more than a relation.
func (q *GQuery) rich() bool {
	return len(q.Where) > 0 || q.Filter != nil || len(q.Joins) > 0 || len(q.Order) > 0 || q.Limit != nil ||
		q.Offset != nil || q.Conflict != nil || q.Result != nil || q.Return != nil || q.JoinRel != nil || len(q.Data) > 0
}

func (q *GQuery) labels() []string {
	l := []string{"kind " + q.Kind}
	if q.Form != "" {
		l = append(l, "form "+q.Form)
	}
	add := func(b bool, s string) {
		if b {
			l = append(l, s)
		}
	}
	add(q.Filter != nil, "filter")
	add(q.All, "all directive")
	add(len(q.Order) > 0, "order by")
	add(q.Limit != nil, "limit")
	add(q.Offset != nil, "offset")
	add(q.Conflict != nil, "on conflict")
	add(q.Return != nil, "return directive")
	add(q.Result != nil, "result field "+q.ResForm)
	add(q.Affected != "", "rows affected")
	add(q.JoinRel != nil, "from/using")
	add(q.Default != nil, "default directive")
	add(q.Force != nil, "force directive")
	add(q.Rec != nil && q.Rec.After, "after scan")
	set := map[string]bool{}
	for _, j := range q.Joins {
		set["join "+strings.ToLower(j.Typ)] = true
	}
	var walk func(items []Item)
	walk = func(items []Item) {
		for _, it := range items {
			set["where "+it.Kind] = true
			if it.Op != "" {
				set["op "+it.Op] = true
			}
			if it.Quant != "" {
				set["quantifier "+it.Quant] = true
			}
			if it.Func != "" && it.Kind == "field" {
				set["modifier function"] = true
			}
			walk(it.Items)
		}
	}
	walk(q.Where)
	if q.Rec != nil {
		for _, f := range q.Rec.Fields {
			if f.In > 0 {
				set["nested fields"] = true
			}
			for _, up := range f.Up {
				if len(up) > 0 {
					set["options of nested records"] = true
				}
			}
			for _, o := range f.Opts {
				set["option "+strings.SplitN(o, "(", 2)[0]] = true
			}
		}
	}
	for k := range set {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// single keeps one input.
func (q *GQuery) single(in int) *GQuery {
	c := q.clone()
	c.N = 1
	var items func(its []Item)
	one := func(it *Item) {
		if it != nil && len(it.Vals) > 0 {
			it.Vals = it.Vals[in : in+1]
		}
	}
	items = func(its []Item) {
		for i := range its {
			one(&its[i])
			one(its[i].Low)
			one(its[i].High)
			items(its[i].Items)
		}
	}
	items(c.Where)
	for _, l := range []*Lim{c.Limit, c.Offset} {
		if l != nil && len(l.Vals) > 0 {
			l.Vals = l.Vals[in : in+1]
		}
	}
	if f := c.Filter; f != nil {
		var calls func(cs []FCall)
		calls = func(cs []FCall) {
			for i := range cs {
				if len(cs[i].Vals) > 0 {
					cs[i].Vals = cs[i].Vals[in : in+1]
				}
				calls(cs[i].Nested)
			}
		}
		calls(f.Calls)
		if f.Limit != nil {
			f.Limit = f.Limit[in : in+1]
		}
		if f.Offset != nil {
			f.Offset = f.Offset[in : in+1]
		}
	}
	if c.Data != nil {
		c.Data = c.Data[in : in+1]
	}
	return c
}

// reductions returns the queries that are one step smaller.
func (q *GQuery) reductions() (out []*GQuery) {
	try := func(f func(c *GQuery) bool) {
		c := q.clone()
		if f(c) {
			out = append(out, c)
		}
	}
	dml := q.Kind == "update" || q.Kind == "delete"
	// search conditions
	if len(q.Where) > 0 && !dml {
		try(func(c *GQuery) bool { c.Where = nil; return true })
	}
	if q.Filter != nil {
		if !dml {
			try(func(c *GQuery) bool { c.Filter = nil; return true })
		}
		try(func(c *GQuery) bool { c.Filter.Calls = nil; return len(q.Filter.Calls) > 0 })
		for i := range q.Filter.Calls {
			if len(q.Filter.Calls) > 1 {
				try(func(c *GQuery) bool {
					c.Filter.Calls = append(c.Filter.Calls[:i:i], c.Filter.Calls[i+1:]...)
					c.Filter.Calls[0].Or = false
					return true
				})
			}
		}
		try(func(c *GQuery) bool {
			ok := c.Filter.Limit != nil || c.Filter.Offset != nil
			c.Filter.Limit, c.Filter.Offset = nil, nil
			return ok
		})
		try(func(c *GQuery) bool {
			ok := c.Filter.Order != nil
			c.Filter.Order, c.Filter.Limit, c.Filter.Offset = nil, nil, nil
			return ok
		})
	}
	var paths func(items []Item, path []int)
	paths = func(items []Item, path []int) {
		for i := range items {
			p := append(append([]int(nil), path...), i)
			if len(items) > 1 {
				try(func(c *GQuery) bool {
					l := c.at(p)
					*l = append((*l)[:i:i], (*l)[i+1:]...)
					(*l)[0].Or = false
					return true
				})
			}
			if items[i].Kind == "nest" {
				try(func(c *GQuery) bool { // replace by its content
					l := c.at(p)
					in := (*l)[i].Items
					in[0].Or = (*l)[i].Or
					*l = append(append(append([]Item(nil), (*l)[:i]...), in...), (*l)[i+1:]...)
					return true
				})
				paths(items[i].Items, p)
			}
			if items[i].Func != "" && items[i].Kind == "field" {
				try(func(c *GQuery) bool { (*c.at(p))[i].Func = ""; return true })
			}
		}
	}
	paths(q.Where, nil)
	// record
	if q.Rec != nil && len(q.Rec.Fields) > 1 && q.Data == nil {
		for i := range q.Rec.Fields {
			try(func(c *GQuery) bool {
				c.Rec.Fields = append(c.Rec.Fields[:i:i], c.Rec.Fields[i+1:]...)
				return true
			})
		}
	}
	if q.Rec != nil && len(q.Rec.Fields) > 1 && q.Data != nil {
		for i := range q.Rec.Fields {
			if q.fixedField(q.Rec.Fields[i].Col) {
				continue
			}
			try(func(c *GQuery) bool {
				c.Rec.Fields = append(c.Rec.Fields[:i:i], c.Rec.Fields[i+1:]...)
				for a := range c.Data {
					for b := range c.Data[a] {
						d := c.Data[a][b]
						c.Data[a][b] = append(d[:i:i], d[i+1:]...)
					}
				}
				return true
			})
		}
		for a := range q.Data {
			for b := range q.Data[a] {
				if len(q.Data[a]) > 1 {
					try(func(c *GQuery) bool {
						c.Data[a] = append(c.Data[a][:b:b], c.Data[a][b+1:]...)
						return true
					})
				}
			}
		}
	}
	if q.Rec != nil {
		for i := range q.Rec.Fields {
			if len(q.Rec.Fields[i].Opts) > 0 {
				try(func(c *GQuery) bool { c.Rec.Fields[i].Opts = nil; return true })
			}
		}
		try(func(c *GQuery) bool { ok := c.Rec.After; c.Rec.After = false; return ok })
		for i := range q.Rec.Fields {
			if in := q.Rec.Fields[i].In; in > 0 {
				try(func(c *GQuery) bool { c.Rec.Fields[i].In = 0; c.Rec.sync(); return true })
				try(func(c *GQuery) bool {
					c.Rec.Fields[i].In = c.Rec.Nodes[in-1].In
					c.Rec.sync()
					return true
				})
			}
		}
		for i, n := range q.Rec.Nodes {
			try(func(c *GQuery) bool { c.Rec.Nodes[i].Opts = nil; c.Rec.sync(); return len(n.Opts) > 0 })
			try(func(c *GQuery) bool { c.Rec.Nodes[i].Ptr = false; return n.Ptr })
			try(func(c *GQuery) bool { c.Rec.Nodes[i].Emb = false; return n.Emb })
		}
	}
	if q.Result != nil && len(q.Result.Fields) > 1 {
		for i := range q.Result.Fields {
			try(func(c *GQuery) bool {
				c.Result.Fields = append(c.Result.Fields[:i:i], c.Result.Fields[i+1:]...)
				return true
			})
		}
	}
	if q.Affected != "" {
		try(func(c *GQuery) bool { c.Affected = ""; return true })
	}
	if q.Result != nil {
		try(func(c *GQuery) bool { c.Result, c.ResForm = nil, ""; return true })
	}
	if q.Return != nil {
		try(func(c *GQuery) bool { c.Return = nil; return true })
	}
	// tail
	try(func(c *GQuery) bool { ok := c.Limit != nil; c.Limit = nil; return ok })
	try(func(c *GQuery) bool { ok := c.Offset != nil; c.Offset = nil; return ok })
	if q.Limit == nil && q.Offset == nil {
		try(func(c *GQuery) bool { ok := c.Order != nil; c.Order = nil; return ok })
		for i := range q.Order {
			if len(q.Order) > 1 {
				try(func(c *GQuery) bool {
					c.Order = append(c.Order[:i:i], c.Order[i+1:]...)
					return true
				})
			}
		}
	}
	// the last join, when nothing refers to it
	if n := len(q.Joins); n > 0 {
		try(func(c *GQuery) bool {
			alias := c.Joins[n-1].Alias
			c.Joins = c.Joins[:n-1]
			if n == 1 {
				c.Joins = nil
			}
			raw, _ := json.Marshal(c)
			return !strings.Contains(string(raw), `"`+alias+`.`)
		})
		for i, j := range q.Joins {
			for k := range j.Conds {
				if len(j.Conds) > 1 {
					try(func(c *GQuery) bool {
						c.Joins[i].Conds = append(c.Joins[i].Conds[:k:k], c.Joins[i].Conds[k+1:]...)
						return true
					})
				}
			}
		}
	}
	return out
}

// at returns the list that holds the item at a path.
func (q *GQuery) at(path []int) *[]Item {
	l := &q.Where
	for _, i := range path[:len(path)-1] {
		l = &(*l)[i].Items
	}
	return l
}

// fixedField reports whether a directive mentions the column.
func (q *GQuery) fixedField(col string) bool {
	if c := e2eTables[q.Table].col(col); c.PK {
		return true
	}
	raw, _ := json.Marshal([]any{q.Default, q.Force, q.Return, q.Conflict})
	return strings.Contains(string(raw), col)
}

func init() {
	fw.Register(&fw.Property{
		ID:   "P21",
		Rule: "a generated insert counts as non-trivial when at least one of its executions inserted a row",
		Subs: func(r *fw.Run) []fw.Sub {
			return []fw.Sub{(&gqCheck{
				name: "insert", n: r.N(480, 6000), batch: 120, gen: genInsert,
				ref:   func(q *GQuery, db *sql.DB, in int) *refOut { return q.refWrite(db, in) },
				judge: func(q *GQuery, o *e2eOut, ref *refOut) error { return q.judgeWrite(o, ref) },
				fixed: fixedInserts,
			}).sub(r), (&gqCheck{
				name: "upsert", n: r.N(240, 3000), batch: 120, gen: genUpsert,
				ref:   func(q *GQuery, db *sql.DB, in int) *refOut { return q.refWrite(db, in) },
				judge: func(q *GQuery, o *e2eOut, ref *refOut) error { return q.judgeWrite(o, ref) },
			}).sub(r)}
		},
	})
	for _, x := range []struct {
		id, name, rule string
		gen            func(t *rapid.T) *GQuery
		fixed          []*GQuery
	}{
		{"P22", "update", "a generated update counts as non-trivial when at least one of its executions updated a row", genUpdate, fixedUpdates},
		{"P23", "delete", "a generated delete counts as non-trivial when at least one of its executions deleted a row", genDelete, nil},
	} {
		fw.Register(&fw.Property{
			ID: x.id, Rule: x.rule,
			Subs: func(r *fw.Run) []fw.Sub {
				return []fw.Sub{(&gqCheck{
					name: x.name, n: r.N(480, 6000), batch: 120, gen: x.gen,
					ref:   func(q *GQuery, db *sql.DB, in int) *refOut { return q.refWrite(db, in) },
					judge: func(q *GQuery, o *e2eOut, ref *refOut) error { return q.judgeWrite(o, ref) },
					fixed: x.fixed,
				}).sub(r)}
			},
		})
	}
	fw.Register(&fw.Property{
		ID:   "P20",
		Rule: "a generated query struct counts as non-trivial when it has at least a search condition, filter, join, ordering, limit or offset, and at least one of its executions returned rows",
		Subs: func(r *fw.Run) []fw.Sub {
			return []fw.Sub{(&gqCheck{
				name: "select", n: r.N(480, 6000), batch: 120, gen: genSelect,
				ref:   func(q *GQuery, db *sql.DB, in int) *refOut { return q.refSelect(db, in) },
				judge: func(q *GQuery, o *e2eOut, ref *refOut) error { return q.judgeSelect(o, ref) },
			}).sub(r)}
		},
	})
}

// fixedInserts reproduce what is on record in known-findings.txt.
var fixedInserts = []*GQuery{
	{Kind: "insert", Table: "ga", Alias: "u", N: 1, Form: "ptr", Rec: &GRec{Fields: []GField{{Col: "score", Go: "float64"}}},
		Data: [][][]LitV{{{{V: "1.5"}}}}},
	{Kind: "insert", Table: "gu", Alias: "u", N: 1, Form: "slice", Rec: &GRec{Fields: []GField{{Col: "id", Go: "int"}, {Col: "val", Go: "string"}}},
		Conflict: &GConflict{Ignore: true}, Return: []string{"val"},
		Data: [][][]LitV{{{{V: "1"}, {V: "a"}}, {{V: "20"}, {V: "b"}}}}},
}

var fixedUpdates = []*GQuery{
	{Kind: "update", Table: "ga", Alias: "u", N: 1, Form: "ptr", Rec: &GRec{Fields: []GField{{Col: "id", Go: "int"}, {Col: "score", Go: "float64"}}},
		Data: [][][]LitV{{{{V: "1"}, {V: "1.5"}}}}},
	{Kind: "update", Table: "gu", Alias: "u", N: 1, Form: "slice", Rec: &GRec{Fields: []GField{{Col: "id", Go: "int"}, {Col: "val", Go: "string"}, {Col: "cnt", Go: "int", Opts: []string{"ro"}}}},
		Return: []string{"cnt"},
		Data:   [][][]LitV{{{{V: "1"}, {V: "a"}, {V: "77"}}, {{V: "2"}, {V: "b"}, {V: "78"}}}}},
}
