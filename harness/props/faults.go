package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/frk/gosql/vh/fw"
	"pgregory.net/rapid"
)

// Faults at every step of a generated method: the methods run against a stand-in
// for the database that fails where the script says, and records what they do.

const faultSchema = `
CREATE TABLE h_t (id int PRIMARY KEY, name text NOT NULL, n int);
`

// FScript tells what the database does.
type FScript struct {
	Rows    int  // rows in the result, or rows affected
	CallErr bool // the call fails
	NextErr int  // the connection fails before row n (0: it doesn't, else n-1)
	ScanErr int  // row n-1 has a value that cannot be scanned
	CloseEr bool // closing the rows fails (relevant for single rows)
	AffErr  bool // the number of affected rows isn't available
	IterErr int  // the iterator fails at row n-1
	Handle  int  // what the error handler does: 0 wraps, 1 swallows, 2 returns the error as is
	Dead    bool // the context is already cancelled
}

// FCase is a query struct and scripts to run it with.
type FCase struct {
	Kind    string // Select, Insert, Update, Delete, Count, Exists, NotExists
	Rel     int    // index into fRels
	Rec     int    // index into fRecs
	Out     string // "", Return, Result, Affected
	Aff     string // the type of the affected rows field
	Handler int    // index into fHandlers
	Ctx     int    // 0 none, 1 field, 2 embedded
	Mod     int    // 0 none, 1 where, 2 filter, 3 in list
	Scripts []FScript
}

// fRecs are the record types.
var fRecs = []struct {
	name  string
	after bool
	lit   string
}{
	{"HPlain", false, "%s.HPlain{Id: %d, Name: \"v\"}"},
	{"HAfter", true, "%s.HAfter{Id: %d, Name: \"v\"}"},
	{"HAfterV", true, "%s.HAfterV{Id: %d, Name: \"v\"}"},
	{"HEmb", true, "%s.HEmb{HBase: %[1]s.HBase{Id: %[2]d, Name: \"v\"}}"},
	{"HNest", true, "%s.HNest{Id: %d, Sub: &%[1]s.HSub{Name: \"v\"}}"},
}

// fRels are the forms of the relation field.
var fRels = []struct {
	decl  string
	slice bool
	iter  bool
}{
	{"*%s", false, false},
	{"%s", false, false},
	{"[]*%s", true, false},
	{"[]%s", true, false},
	{"func(*%s) error", false, true},
	{"func(%s) error", false, true},
	{"interface{ Next(*%s) error }", false, true},
	{"interface{ Next(%s) error }", false, true},
}

// fHandlers are the forms of error handler fields.
var fHandlers = []struct {
	decl string
	info bool
	set  string
}{
	{"", false, ""},
	{"EH HVal", false, "q.EH = %s.HVal{}"},
	{"EH *HPtr", false, "q.EH = &%s.HPtr{}"},
	{"HVal", false, "q.HVal = %s.HVal{}"},
	{"*HPtr", false, "q.HPtr = &%s.HPtr{}"},
	{"gosql.ErrorHandler", false, "q.ErrorHandler = %s.HVal{}"},
	{"eh gosql.ErrorHandler", false, ""},
	{"EI IVal", true, "q.EI = %s.IVal{}"},
	{"EI *IPtr", true, "q.EI = &%s.IPtr{}"},
	{"*IPtr", true, "q.IPtr = &%s.IPtr{}"},
	{"gosql.ErrorInfoHandler", true, "q.ErrorInfoHandler = &%s.IPtr{}"},
	{"EI IEmb", true, "q.EI = %s.IEmb{new(%[1]s.IPtr)}"},
}

const faultQExtra = `
import (
	"fmt"
	"strings"

	"github.com/frk/gosql"
)

// Log records what the generated code does.
var Log []string

// Mode is what the handlers do: 0 wrap, 1 swallow, 2 return as is.
var Mode int

// Value is the query that is being executed.
var Value interface{}

func logf(f string, a ...interface{}) { Log = append(Log, fmt.Sprintf(f, a...)) }

func handle(err error) error {
	switch {
	case err == nil, Mode == 1:
		return nil
	case Mode == 2:
		return err
	}
	return fmt.Errorf("handled: %w", err)
}

type HVal struct{}

func (HVal) HandleError(err error) error {
	if err != nil {
		logf("handle %v", err)
	}
	return handle(err)
}

type HPtr struct{ n int }

func (h *HPtr) HandleError(err error) error {
	h.n++
	return HVal{}.HandleError(err)
}

type IVal struct{}

func (IVal) HandleErrorInfo(i *gosql.ErrorInfo) error {
	ok := i.QueryValue == Value && strings.Contains(i.QueryString, "h_t")
	if i.Error != nil {
		logf("info %v %s %s %v", i.Error, i.QueryKind, i.QueryName, ok)
	} else if !ok {
		logf("the error info is wrong: %+v", i)
	}
	LastSQL = i.QueryString
	return handle(i.Error)
}

// LastSQL is the query that the handler was given.
var LastSQL string

type IPtr struct{ n int }

func (h *IPtr) HandleErrorInfo(i *gosql.ErrorInfo) error {
	h.n++
	return IVal{}.HandleErrorInfo(i)
}

type IEmb struct{ *IPtr }

type HPlain struct {
	Id   int    ` + "`sql:\"id,pk\"`" + `
	Name string ` + "`sql:\"name\"`" + `
	N    *int   ` + "`sql:\"n\"`" + `
}

type HAfter struct {
	Id   int    ` + "`sql:\"id,pk\"`" + `
	Name string ` + "`sql:\"name\"`" + `
	N    *int   ` + "`sql:\"n\"`" + `
}

func (h *HAfter) AfterScan() { logf("after %d %s", h.Id, h.Name) }

type HAfterV struct {
	Id   int    ` + "`sql:\"id,pk\"`" + `
	Name string ` + "`sql:\"name\"`" + `
	N    *int   ` + "`sql:\"n\"`" + `
}

func (h HAfterV) AfterScan() { logf("after %d %s", h.Id, h.Name) }

type HBase struct {
	Id   int    ` + "`sql:\"id,pk\"`" + `
	Name string ` + "`sql:\"name\"`" + `
}

func (h *HBase) AfterScan() { logf("after %d %s", h.Id, h.Name) }

type HEmb struct {
	HBase ` + "`sql:\">\"`" + `
	N     *int ` + "`sql:\"n\"`" + `
}

type HSub struct {
	Name string ` + "`sql:\"name\"`" + `
	N    *int   ` + "`sql:\"n\"`" + `
}

type HNest struct {
	Id  int   ` + "`sql:\"id,pk\"`" + `
	Sub *HSub ` + "`sql:\">\"`" + `
}

func (h *HNest) AfterScan() { logf("after %d %s", h.Id, h.Sub.Name) }

// SetEH sets the handler of the unexported fields.
type ehSetter interface{ setEH(gosql.ErrorHandler) }

func SetEH(q interface{}) { q.(ehSetter).setEH(HVal{}) }
`

const faultRunExtra = `package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"

	"vhgen/q"
)

// Script tells the stand-in for the database what to do.
type Script struct {
	Rows, NextErr, ScanErr, IterErr, Handle int
	CallErr, CloseEr, AffErr, Dead          bool
	Kind                                    string
}

type fdrv struct{}
type fconn struct{}
type fres struct{}
type frows struct{ i int }

var (
	script  Script
	open    int
	fakeDB  *sql.DB
	calls   []string
	queries []string
)

func init() {
	sql.Register("vhfault", fdrv{})
	fakeDB, _ = sql.Open("vhfault", "")
}

func (fdrv) Open(string) (driver.Conn, error)             { return fconn{}, nil }
func (fconn) Prepare(string) (driver.Stmt, error)         { return nil, errors.New("prepare") }
func (fconn) Close() error                                { return nil }
func (fconn) Begin() (driver.Tx, error)                   { return nil, errors.New("begin") }
func (fconn) CheckNamedValue(*driver.NamedValue) error    { return nil }
func (fconn) ExecContext(context.Context, string, []driver.NamedValue) (driver.Result, error) {
	if script.CallErr {
		return nil, errors.New("E-call")
	}
	return fres{}, nil
}
func (fconn) QueryContext(context.Context, string, []driver.NamedValue) (driver.Rows, error) {
	if script.CallErr {
		return nil, errors.New("E-call")
	}
	open++
	return &frows{}, nil
}
func (fres) LastInsertId() (int64, error) { return 0, errors.New("no id") }
func (fres) RowsAffected() (int64, error) {
	if script.AffErr {
		return 0, errors.New("E-affected")
	}
	return int64(script.Rows), nil
}
func (r *frows) Columns() []string {
	if script.Kind == "Count" || script.Kind == "Exists" || script.Kind == "NotExists" {
		return []string{"v"}
	}
	return []string{"id", "name", "n"}
}
func (r *frows) Close() error {
	open--
	if script.CloseEr {
		return errors.New("E-close")
	}
	return nil
}
func (r *frows) Next(d []driver.Value) error {
	if script.NextErr == r.i+1 {
		return errors.New("E-next")
	}
	if r.i >= script.Rows {
		return io.EOF
	}
	r.i++
	var id driver.Value = int64(r.i)
	if script.ScanErr == r.i {
		id = "bad"
	}
	switch script.Kind {
	case "Count":
		d[0] = id
	case "Exists", "NotExists":
		d[0] = true
		if script.ScanErr == r.i {
			d[0] = "bad"
		}
	default:
		d[0], d[1], d[2] = id, fmt.Sprint("n", r.i), int64(r.i * 10)
	}
	return nil
}

// Conn records the calls.
type Conn struct{}

type ctxKey struct{}

func ctxOK(ctx context.Context) string {
	if ctx == nil {
		return "nil"
	}
	return fmt.Sprint(ctx.Value(ctxKey{}))
}

func call(name, query string) { calls = append(calls, name); queries = append(queries, query) }

func (Conn) Exec(s string, a ...interface{}) (sql.Result, error) {
	call("Exec", s)
	return fakeDB.Exec(s, a...)
}
func (Conn) ExecContext(ctx context.Context, s string, a ...interface{}) (sql.Result, error) {
	call("ExecContext "+ctxOK(ctx), s)
	return fakeDB.ExecContext(ctx, s, a...)
}
func (Conn) Query(s string, a ...interface{}) (*sql.Rows, error) {
	call("Query", s)
	return fakeDB.Query(s, a...)
}
func (Conn) QueryContext(ctx context.Context, s string, a ...interface{}) (*sql.Rows, error) {
	call("QueryContext "+ctxOK(ctx), s)
	return fakeDB.QueryContext(ctx, s, a...)
}
func (Conn) QueryRow(s string, a ...interface{}) *sql.Row {
	call("QueryRow", s)
	return fakeDB.QueryRow(s, a...)
}
func (Conn) QueryRowContext(ctx context.Context, s string, a ...interface{}) *sql.Row {
	call("QueryRowContext "+ctxOK(ctx), s)
	return fakeDB.QueryRowContext(ctx, s, a...)
}

// start prepares an execution.
func start(s Script, val interface{}) context.Context {
	script, open, calls, queries = s, 0, nil, nil
	q.Log, q.Mode, q.Value, q.LastSQL = nil, s.Handle, val, ""
	ctx := context.WithValue(context.Background(), ctxKey{}, "mine")
	if s.Dead {
		c, cancel := context.WithCancel(ctx)
		cancel()
		return c
	}
	return ctx
}

// done records what happened.
func (t *T) done(err error) {
	if err != nil {
		t.Out.Err = err.Error()
	}
	t.Out.Rows["calls"] = [][]string{calls}
	t.Out.Rows["log"] = [][]string{q.Log}
	t.Out.Vals["open"] = fmt.Sprint(open, " ", fakeDB.Stats().InUse)
	t.Out.Vals["sql"] = q.LastSQL == "" || len(queries) == 1 && q.LastSQL == queries[0]
}

// iter is the iterator of the methods.
func iter(id int, name string, n *int) error {
	x := "nil"
	if n != nil {
		x = fmt.Sprint(*n)
	}
	q.Log = append(q.Log, fmt.Sprintf("iter %d %s %s", id, name, x))
	if script.IterErr > 0 && script.IterErr == len(iterSeen)+1 {
		return errors.New("E-iter")
	}
	iterSeen = append(iterSeen, id)
	return nil
}

var iterSeen []int
`

func (c *FCase) name(id int) string {
	k := c.Kind
	switch k {
	case "Count", "Exists", "NotExists":
		k = "Select"
	}
	return k + "Q" + strconv.Itoa(id)
}

func (c *FCase) count() bool { return c.Kind == "Count" || c.Kind == "Exists" || c.Kind == "NotExists" }

// QSource declares the query struct.
func (c *FCase) QSource(id int) string {
	var b strings.Builder
	imps := map[string]string{}
	fmt.Fprintf(&b, "type %s struct {\n", c.name(id))
	rec := fRecs[c.Rec].name
	switch {
	case c.count():
		ty := "int"
		if c.Kind != "Count" {
			ty = "bool"
		}
		fmt.Fprintf(&b, "\t%s %s `rel:\"h_t\"`\n", c.Kind, ty)
	case c.Kind == "Delete" && c.Out != "Return":
		b.WriteString("\t_ gosql.Relation `rel:\"h_t\"`\n")
	default:
		fmt.Fprintf(&b, "\tRel "+fRels[c.Rel].decl+" `rel:\"h_t\"`\n", rec)
	}
	switch c.Ctx {
	case 1:
		b.WriteString("\tCtx context.Context\n")
	case 2:
		b.WriteString("\tcontext.Context\n")
	}
	if h := fHandlers[c.Handler].decl; h != "" {
		b.WriteString("\t" + h + "\n")
	}
	switch c.Mod {
	case 0:
		if c.Kind == "Delete" || c.Kind == "Update" && !fRels[c.Rel].slice {
			b.WriteString("\t_ gosql.All\n")
		}
	case 1:
		b.WriteString("\tWhere struct {\n\t\tId int `sql:\"id >\"`\n\t}\n")
	case 2:
		b.WriteString("\tFilter gosql.Filter\n")
	case 3:
		b.WriteString("\tWhere struct {\n\t\tIds []int `sql:\"id isin\"`\n\t}\n")
	}
	switch c.Out {
	case "Return":
		b.WriteString("\t_ gosql.Return `sql:\"*\"`\n")
	case "Result":
		fmt.Fprintf(&b, "\tResult "+fRels[c.resRel()].decl+"\n", rec)
	case "Affected":
		fmt.Fprintf(&b, "\tRowsAffected %s\n", c.Aff)
	}
	b.WriteString("}\n")
	if strings.HasPrefix(fHandlers[c.Handler].decl, "eh ") {
		fmt.Fprintf(&b, "\nfunc (q *%s) setEH(h gosql.ErrorHandler) { q.eh = h }\n", c.name(id))
	}
	if strings.Contains(b.String(), "gosql.") {
		imps["github.com/frk/gosql"] = ""
	}
	if strings.Contains(b.String(), "context.") {
		imps["context"] = ""
	}
	return "package q\n\n" + importDecl(imps) + b.String()
}

// resRel is the form of the result field: the one of the relation with pointers
// and values swapped, or an iterator.
func (c *FCase) resRel() int {
	if c.Aff != "" && c.Out == "Result" {
		n, _ := strconv.Atoi(c.Aff)
		return n
	}
	return c.Rel
}

// outRel is the form of the field that receives the output, or -1.
func (c *FCase) outRel() int {
	switch {
	case c.count():
		return 0
	case c.Kind == "Select", c.Out == "Return":
		return c.Rel
	case c.Out == "Result":
		return c.resRel()
	}
	return -1
}

// inRows is the number of records given to the query.
func (c *FCase) inRows() int {
	if (c.Kind == "Insert" || c.Kind == "Update") && fRels[c.Rel].slice {
		return 4
	}
	return 1
}

// RunSource executes the scripts.
func (c *FCase) RunSource(id int) string {
	var b strings.Builder
	imps := map[string]string{"vhgen/q": ""}
	rec := fRecs[c.Rec]
	for i, s := range c.Scripts {
		fmt.Fprintf(&b, "\treg(%d, %d, func(t *T) {\n\t\tx := new(q.%s)\n", id, i, c.name(id))
		fmt.Fprintf(&b, "\t\tctx := start(Script{Rows: %d, NextErr: %d, ScanErr: %d, IterErr: %d, Handle: %d, CallErr: %v, CloseEr: %v, AffErr: %v, Dead: %v, Kind: %q}, x)\n\t\t_ = ctx\n\t\titerSeen = nil\n",
			s.Rows, s.NextErr, s.ScanErr, s.IterErr, s.Handle, s.CallErr, s.CloseEr, s.AffErr, s.Dead, c.Kind)
		rel := fRels[c.Rel]
		if c.Kind == "Insert" || c.Kind == "Update" {
			one := func(n int) string { return fmt.Sprintf(rec.lit, "q", 100+n) }
			switch {
			case strings.HasPrefix(rel.decl, "[]"):
				amp := ""
				if strings.HasPrefix(rel.decl, "[]*") {
					amp = "&"
				}
				fmt.Fprintf(&b, "\t\tx.Rel = "+strings.Replace(rel.decl, "%s", "q.%s", 1)+"{", rec.name)
				for n := range c.inRows() {
					b.WriteString(amp + one(n) + ", ")
				}
				b.WriteString("}\n")
			case rel.decl[0] == '*':
				fmt.Fprintf(&b, "\t\tx.Rel = &%s\n", one(0))
			default:
				fmt.Fprintf(&b, "\t\tx.Rel = %s\n", one(0))
			}
		}
		field := "Rel"
		if c.Out == "Result" {
			field = "Result"
		}
		if o := c.outRel(); o >= 0 && fRels[o].iter {
			arg := "r *q." + rec.name
			if !strings.Contains(fRels[o].decl, "*") {
				arg = "r q." + rec.name
			}
			name, n := "r.Name", "r.N"
			if rec.name == "HNest" {
				name, n = "r.Sub.Name", "r.Sub.N"
			}
			body := fmt.Sprintf("func(%s) error { return iter(r.Id, %s, %s) }", arg, name, n)
			if strings.HasPrefix(fRels[o].decl, "interface") {
				body = "nextFn" + strconv.Itoa(id) + "(" + body + ")"
			}
			fmt.Fprintf(&b, "\t\tx.%s = %s\n", field, body)
		}
		if set := fHandlers[c.Handler].set; set != "" {
			fmt.Fprintf(&b, "\t\t"+strings.Replace(set, "q.", "x.", 1)+"\n", "q")
		} else if c.Handler > 0 {
			b.WriteString("\t\tq.SetEH(x)\n")
		}
		switch c.Ctx {
		case 1:
			b.WriteString("\t\tx.Ctx = ctx\n")
		case 2:
			b.WriteString("\t\tx.Context = ctx\n")
		}
		switch c.Mod {
		case 2:
			imps["github.com/frk/gosql/filter"] = ""
			b.WriteString("\t\tf := new(filter.Constructor)\n\t\tf.Col(\"id\", \">\", 1)\n\t\tx.Filter = f.Filter()\n")
		case 3:
			b.WriteString("\t\tx.Where.Ids = []int{1, 2, 3}\n")
		}
		b.WriteString("\t\terr := x.Exec(Conn{})\n\t\tt.done(err)\n")
		switch {
		case c.count():
			fmt.Fprintf(&b, "\t\tt.Val(\"val\", x.%s)\n", c.Kind)
		case c.Out == "Affected":
			b.WriteString("\t\tt.Val(\"val\", x.RowsAffected)\n")
		case c.outRel() >= 0 && !fRels[c.outRel()].iter:
			fmt.Fprintf(&b, "\t\tif err == nil {\n\t\t\tt.Recs(\"out\", x.%s)\n\t\t}\n", field)
		}
		b.WriteString("\t})\n")
	}
	src := "func init() {\n" + b.String() + "}\n"
	if strings.Contains(src, "nextFn"+strconv.Itoa(id)) {
		star := ""
		if strings.Contains(fRels[c.outRel()].decl, "*") {
			star = "*"
		}
		src += fmt.Sprintf("\ntype nextFn%d func(%sq.%s) error\n\nfunc (f nextFn%[1]d) Next(r %[2]sq.%[3]s) error { return f(r) }\n", id, star, rec.name)
	}
	return "package main\n\n" + importDecl(imps) + src
}

func (c *FCase) Inputs() int { return len(c.Scripts) }

// fExpect is what an execution has to do.
type fExpect struct {
	calls []string
	log   []string
	err   string // exact, or a part of it if it starts with ~
	rows  [][]string
	val   string
	some  bool // the rows and the value are to be compared
}

func (c *FCase) expect(id int, s FScript) (e fExpect) {
	h := fHandlers[c.Handler]
	kind := c.Kind
	if c.count() {
		kind = "Select"
	}
	swallowed := false
	fail := func(msg string) {
		switch {
		case h.decl == "":
			e.err = msg
			return
		case h.info:
			e.log = append(e.log, fmt.Sprintf("info %s %s %s true", msg, kind, c.name(id)))
		default:
			e.log = append(e.log, "handle "+msg)
		}
		switch s.Handle {
		case 0:
			e.err = "handled: " + msg
		case 1:
			swallowed = true
		case 2:
			e.err = msg
		}
	}
	defer func() { e.some = e.err == "" && !swallowed }()
	call := func(m string) {
		if c.Ctx > 0 {
			m += "Context mine"
		}
		e.calls = []string{m}
	}
	dead := c.Ctx > 0 && s.Dead
	after := fRecs[c.Rec].after && !c.count()
	scanErr := func() string {
		if c.count() && c.Kind != "Count" {
			return `sql: Scan error on column index 0, name "v": sql/driver: couldn't convert "bad" into type bool`
		}
		col := "id"
		if c.Kind == "Count" {
			col = "v"
		}
		return `sql: Scan error on column index 0, name "` + col + `": converting driver.Value type string ("bad") to a int: invalid syntax`
	}
	o := c.outRel()
	switch {
	case o < 0:
		call("Exec")
		switch {
		case dead:
			fail("context canceled")
		case s.CallErr:
			fail("E-call")
		case c.Out == "Affected" && s.AffErr:
			fail("E-affected")
		}
		if c.Out == "Affected" {
			e.val = "i:" + strconv.Itoa(s.Rows)
		}
	case c.count() || !fRels[o].slice && !fRels[o].iter:
		call("QueryRow")
		switch {
		case dead:
			fail("context canceled")
		case s.CallErr:
			fail("E-call")
		case s.NextErr == 1:
			fail("E-next")
		case s.Rows == 0:
			fail("sql: no rows in result set")
		case s.ScanErr == 1:
			fail(scanErr())
		case s.CloseEr:
			fail("E-close")
		default:
			if after {
				e.log = append(e.log, "after 1 n1")
			}
			switch c.Kind {
			case "Count":
				e.val = "i:1"
			case "Exists", "NotExists":
				e.val = "b:true"
			default:
				e.rows = [][]string{{"i:1", "s:n1", "i:10"}}
			}
		}
	default:
		call("Query")
		if dead {
			fail("context canceled")
			return e
		}
		if s.CallErr {
			fail("E-call")
			return e
		}
		e.rows = [][]string{}
		for i := 1; ; i++ {
			if s.NextErr == i {
				fail("E-next")
				return e
			}
			if i > s.Rows {
				break
			}
			if s.ScanErr == i {
				fail(scanErr())
				return e
			}
			n := strconv.Itoa(i)
			if after {
				e.log = append(e.log, "after "+n+" n"+n)
			}
			if fRels[o].iter {
				e.log = append(e.log, "iter "+n+" n"+n+" "+n+"0")
				if s.IterErr == i {
					fail("E-iter")
					return e
				}
				continue
			}
			e.rows = append(e.rows, []string{"i:" + n, "s:n" + n, "i:" + n + "0"})
		}
		// the records of a slice insert or update that got no row stay
		if c.Kind != "Select" && c.Kind != "Delete" && c.Out == "Return" && fRels[c.Rel].slice {
			for i := s.Rows; i < c.inRows(); i++ {
				e.rows = append(e.rows, []string{"i:" + strconv.Itoa(100+i), "s:v", "null"})
			}
		}
	}
	return e
}

// judge compares an execution with what it has to be.
func (c *FCase) judge(id int, o *e2eOut) error {
	s := c.Scripts[o.Input]
	if o.Panic != "" {
		return fmt.Errorf("the method panicked: %s", o.Panic)
	}
	e := c.expect(id, s)
	got := func(name string) []string {
		if r := o.Rows[name]; len(r) > 0 {
			return r[0]
		}
		return nil
	}
	diff := func(what string, want, got any) error {
		return fmt.Errorf("%s differ\n want %v\n  got %v\n(script %+v)", what, want, got, s)
	}
	if g := got("calls"); !reflect.DeepEqual(g, e.calls) {
		return diff("the calls of the connection", e.calls, g)
	}
	if o.Err != e.err {
		return diff("the errors", fmt.Sprintf("%q", e.err), fmt.Sprintf("%q", o.Err))
	}
	if g := got("log"); !reflect.DeepEqual(append([]string{}, g...), append([]string{}, e.log...)) {
		return diff("the events", e.log, g)
	}
	if g := fmt.Sprint(o.Vals["open"]); g != "0 0" {
		return diff("the open rows and connections", "0 0", g)
	}
	if o.Vals["sql"] != true {
		return fmt.Errorf("the handler got another query than the database")
	}
	if !e.some {
		return nil
	}
	if e.val != "" && o.Vals["val"] != e.val {
		return diff("the values", e.val, o.Vals["val"])
	}
	if out, ok := o.Rows["out"]; ok && fmt.Sprint(out) != fmt.Sprint(e.rows) {
		return diff("the records", e.rows, out)
	}
	return nil
}

func (c *FCase) rich() bool {
	for _, s := range c.Scripts {
		if s.CallErr || s.NextErr+s.ScanErr+s.IterErr > 0 || s.CloseEr || s.AffErr || s.Rows == 0 {
			return true
		}
	}
	return false
}

func (c *FCase) labels() []string {
	l := []string{"kind:" + c.Kind, "out:" + c.Out, "handler:" + fHandlers[c.Handler].decl, "record:" + fRecs[c.Rec].name, "mod:" + strconv.Itoa(c.Mod), "ctx:" + strconv.Itoa(c.Ctx)}
	if o := c.outRel(); o >= 0 && !c.count() {
		l = append(l, "target:"+fmt.Sprintf(fRels[o].decl, "R"))
	}
	return l
}

func genFaultCase(t *rapid.T) *FCase {
	c := &FCase{}
	c.Kind = rapid.SampledFrom([]string{"Select", "Select", "Select", "Insert", "Insert", "Update", "Update", "Delete", "Delete", "Count", "Exists", "NotExists"}).Draw(t, "kind")
	c.Rec = rapid.IntRange(0, len(fRecs)-1).Draw(t, "rec")
	c.Handler = rapid.IntRange(0, len(fHandlers)-1).Draw(t, "handler")
	c.Ctx = rapid.IntRange(0, 2).Draw(t, "ctx")
	last := 3
	switch c.Kind {
	case "Select", "Delete":
		last = len(fRels) - 1
	}
	c.Rel = rapid.IntRange(0, last).Draw(t, "rel")
	if c.Kind != "Select" && !c.count() {
		c.Out = rapid.SampledFrom([]string{"", "Return", "Result", "Affected"}).Draw(t, "out")
		switch c.Out {
		case "Affected":
			c.Aff = rapid.SampledFrom([]string{"int", "int64", "int8", "uint16", "uint"}).Draw(t, "aff")
		case "Result":
			n := rapid.IntRange(0, len(fRels)-1).Draw(t, "result")
			c.Aff = strconv.Itoa(n)
		}
	}
	if c.Kind != "Insert" && !(c.Kind == "Update" && fRels[c.Rel].slice) {
		c.Mod = rapid.IntRange(0, 3).Draw(t, "mod")
	}
	maxRows := 4
	for range rapid.IntRange(3, 10).Draw(t, "scripts") {
		var s FScript
		s.Rows = rapid.IntRange(0, maxRows).Draw(t, "rows")
		at := func(l string) int { return rapid.IntRange(1, 4).Draw(t, l) }
		switch rapid.IntRange(0, 8).Draw(t, "fault") {
		case 0:
			s.CallErr = true
		case 1:
			s.NextErr = at("next")
		case 2:
			s.ScanErr = at("scan")
		case 3:
			s.IterErr = at("iter")
		case 4:
			s.AffErr = true
		case 5:
			s.Dead = true
		case 6:
			if o := c.outRel(); o >= 0 && (c.count() || !fRels[o].slice && !fRels[o].iter) {
				s.CloseEr, s.Rows = true, max(1, s.Rows)
			}
		case 7:
			s.NextErr, s.ScanErr, s.IterErr = at("next"), at("scan"), at("iter")
		}
		s.Handle = rapid.IntRange(0, 2).Draw(t, "handle")
		c.Scripts = append(c.Scripts, s)
	}
	return c
}

func init() {
	fw.Register(&fw.Property{ID: "P27", Rule: "a query struct is executed with at least one script in which a step fails or no row is found", Subs: func(r *fw.Run) []fw.Sub {
		var e *e2eEngine
		open := func() {
			if e == nil {
				r.DB("faults", faultSchema)
				e = newE2E(r, "faults")
				e.QExtra, e.Extra = faultQExtra, faultRunExtra
			}
		}
		decide := func(cs []*FCase) []error {
			cases := make([]e2eCase, len(cs))
			for i := range cs {
				cases[i] = cs[i]
			}
			out := make([]error, len(cs))
			for i, res := range e.run(cases) {
				switch {
				case res.Rejected != "":
					out[i] = fmt.Errorf("the query is rejected: %s", tail(res.Rejected, 1500))
				case res.Compile != "":
					out[i] = fmt.Errorf("the generated code does not compile: %s\n%s", tail(res.Compile, 1500), res.Gen)
				}
				for _, o := range res.Out {
					if err := cs[i].judge(i, o); err != nil {
						out[i] = fmt.Errorf("%w\n%s", err, res.Gen)
						break
					}
				}
			}
			return out
		}
		return []fw.Sub{&fw.Custom{
			Name: "faults",
			Do: func(rep *fw.Reporter) {
				open()
				cs := fw.Draws(r.Seed*17+3, r.N(400, 8000), genFaultCase)
				for len(cs) > 0 && !rep.Failed() {
					k := min(200, len(cs))
					part := cs[:k]
					cs = cs[k:]
					seen := map[string]bool{}
					for i, err := range decide(part) {
						rep.Case(part[i], part[i].rich(), part[i].labels()...)
						if err == nil {
							continue
						}
						sig := errShape(err.Error())
						if seen[sig] || len(seen) >= 4 {
							continue
						}
						seen[sig] = true
						c := shrinkFaultCase(part[i], decide)
						if e1 := decide([]*FCase{c})[0]; e1 != nil {
							err = e1
						}
						rep.Fail(c, fmt.Errorf("%w\n%s", err, c.QSource(0)))
					}
				}
			},
			ReplayCase: func(raw json.RawMessage) error {
				open()
				c := new(FCase)
				fw.InfraPanic(json.Unmarshal(raw, c))
				return decide([]*FCase{c})[0]
			},
		}}
	}})
}

// shrinkFaultCase drops parts of a case for as long as it fails.
func shrinkFaultCase(c *FCase, decide func([]*FCase) []error) *FCase {
	for range 4 {
		var vs []*FCase
		add := func(f func(x *FCase)) {
			x := *c
			x.Scripts = append([]FScript(nil), c.Scripts...)
			f(&x)
			if !reflect.DeepEqual(&x, c) {
				vs = append(vs, &x)
			}
		}
		if len(c.Scripts) > 1 {
			for i := range c.Scripts {
				add(func(x *FCase) { x.Scripts = x.Scripts[i : i+1] })
			}
		}
		add(func(x *FCase) { x.Handler = 0 })
		add(func(x *FCase) { x.Rec = 0 })
		add(func(x *FCase) { x.Ctx = 0 })
		add(func(x *FCase) { x.Mod = 0 })
		for i := range c.Scripts {
			add(func(x *FCase) { x.Scripts[i].Rows = min(1, x.Scripts[i].Rows) })
		}
		found := false
		for i, err := range decide(vs) {
			if err != nil {
				c, found = vs[i], true
				break
			}
		}
		if !found {
			break
		}
	}
	return c
}
