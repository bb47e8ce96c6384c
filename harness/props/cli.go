package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/printer"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/frk/gosql/vh/fw"

	"pgregory.net/rapid"
)

// The CLI engine: generated projects (a module with several packages, records
// shared between them, files with query types and files without) on which the
// command is run with generated options, given by flags and by a config file.
// The outcome is compared with what the options and the project's sources say.

// cliType is a type declaration.
type cliType struct {
	Name   string
	Tmpl   int // index into cliTmpls, -1: not a query type (its name doesn't match)
	Rec    int // index into cliRecs
	Alias  int // the alias used in the rel tag
	Ignore int `json:",omitempty"` // 1: on the declaration, 2: on the spec inside a group, 3: in a block comment
	Group  int `json:",omitempty"` // types of a file with the same non-zero group are declared together
	Bad    int `json:",omitempty"` // what is wrong with it, index into cliBadTypes
}

// cliFile is a source file.
type cliFile struct {
	Name  string
	Build string `json:",omitempty"` // a constraint that excludes the file
	Types []cliType
}

// cliPkg is a package.
type cliPkg struct {
	Dir   string
	Name  string
	Files []cliFile
}

// cliOpt is the value of an option.
type cliOpt struct {
	Flag []string // values given by flags (nil: none)
	File *string  `json:",omitempty"` // JSON given by the file
}

// cliScn is a scenario.
type cliScn struct {
	Pkgs  []cliPkg
	Cwd   string            // directory the command is run in
	Opts  map[string]cliOpt // by the name of the JSON key
	CfgAt string            `json:",omitempty"` // name of the config file at the root, or "flag:path"
	Git   bool              // the root is a git project
	Stale string            `json:",omitempty"` // what is in the way of the output files
	Run   bool              // build and run the outcome
	Bad   string            `json:",omitempty"` // what makes the run fail
	Twice bool              // run the command a second time
	Extra []string          `json:",omitempty"` // further arguments
}

const cliSchema = `
CREATE TABLE ct_a (id int PRIMARY KEY, name text NOT NULL, email text NOT NULL DEFAULT 'x@y', created timestamptz, n int NOT NULL DEFAULT 3, code text NOT NULL DEFAULT 'c', sub_x int, sub_y text, doc tsvector, tags text[] NOT NULL DEFAULT '{}', data jsonb NOT NULL DEFAULT '{}');
INSERT INTO ct_a (id, name) SELECT i, 'n'||i FROM generate_series(1,5) i;
`

type cliRec struct {
	Import string
	Ref    string
	fields []cliField
}

// cliRecs are the record types a query can refer to.
var cliRecs = []cliRec{
	{"", "Rec", []cliField{
		{col: "id", path: []string{"Id"}, json: []string{"id"}, alt: []string{"ID"}, typ: "int", val: "1"},
		{col: "name", path: []string{"Name"}, json: []string{""}, alt: []string{"the_name"}, typ: "string", val: `"x"`},
		{col: "n", path: []string{"N"}, json: []string{"num"}, alt: []string{""}, typ: "Num", val: "4"},
	}},
	{"vhgen/m/recs", "recs.Rec", []cliField{
		{col: "id", path: []string{"Id"}, json: []string{"id"}, alt: []string{""}, typ: "int", val: "1"},
		{col: "email", path: []string{"Email"}, json: []string{"mail"}, alt: []string{"e"}, typ: "recs.Email", val: `"a@b"`},
		{col: "created", path: []string{"Created"}, json: []string{"created"}, alt: []string{"created"}, typ: "*time.Time", val: "time.Now()"},
		{col: "name", path: []string{"Name"}, json: []string{"name"}, alt: []string{"name"}, typ: "string", val: `"y"`},
	}},
	{"vhgen/x/recs", "recs.Rec", []cliField{
		{col: "id", path: []string{"Id"}, json: []string{"id"}, alt: []string{"id"}, typ: "int", val: "1"},
		{col: "name", path: []string{"Name"}, json: []string{"-"}, alt: []string{"n"}, typ: "string", val: `"z"`},
		{col: "sub_x", path: []string{"Sub", "X"}, json: []string{"sub", "x"}, alt: []string{"s", "X"}, typ: "*int", val: "3"},
		{col: "sub_y", path: []string{"Sub", "Y"}, json: []string{"sub", ""}, alt: []string{"s", "Y"}, typ: "*string", val: `"s"`},
		{col: "code", path: []string{"Code"}, json: []string{"code"}, alt: []string{""}, typ: "recs.Code", val: `"k"`},
	}},
	{"vhgen/m/recs", "recs.Other", []cliField{
		{col: "id", path: []string{"Id"}, json: []string{""}, alt: []string{""}, typ: "int", val: "1"},
		{col: "name", path: []string{"Name"}, json: []string{"name"}, alt: []string{"name"}, typ: "string", val: `"o"`},
		{col: "created", path: []string{"At"}, json: []string{"at"}, alt: []string{"at"}, typ: "*time.Time", val: "time.Now()"},
	}},
	// a package with the name of one that the generated code uses
	{"vhgen/y/pgsql", "pgsql.Rec", []cliField{
		{col: "id", path: []string{"Base", "Id"}, json: []string{"", "id"}, alt: []string{"b", "id"}, typ: "int", val: "1"},
		{col: "name", path: []string{"Base", "Name"}, json: []string{"", "name"}, alt: []string{"b", ""}, typ: "string", val: `"o"`},
		{col: "tags", path: []string{"Tags"}, json: []string{"tags"}, alt: []string{""}, typ: "[]string"},
		{col: "sub_x", path: []string{"In", "X"}, json: []string{"in", "X"}, alt: []string{"in", "X"}, typ: "*int", val: "3"},
		{col: "sub_y", path: []string{"Part", "Y"}, json: []string{"-", ""}, alt: []string{"", "Y"}, typ: "*string", val: `"s"`},
	}},
	// aliases of types
	{"vhgen/z/gosql", "gosql.Al", []cliField{
		{col: "id", path: []string{"Id"}, json: []string{""}, alt: []string{""}, typ: "int", val: "1"},
		{col: "name", path: []string{"Name"}, json: []string{"name"}, alt: []string{""}, typ: "string", val: `"o"`},
		{col: "created", path: []string{"At"}, json: []string{""}, alt: []string{""}, typ: "*time.Time", val: "time.Now()"},
		{col: "data", path: []string{"Data"}, json: []string{"data"}, alt: []string{""}, typ: "interface{}"},
		{col: "tags", path: []string{"Tags"}, json: []string{""}, alt: []string{""}, typ: "[]string"},
	}},
}

// cliNamed are packages of a kind, by path and name: namesakes of others, and some
// with names that are used in the generated code for something else.
var cliNamed = [][2]string{
	{"w/recs", "recs"}, {"w/recs1", "recs1"}, {"u/recs", "recs"}, {"u/recs1", "recs"}, {"u/recs2", "recs"},
	{"w/v", "v"}, {"w/q", "q"}, {"w/rows", "rows"}, {"w/err", "err"}, {"w/params", "params"}, {"w/c", "c"}, {"w/i", "i"}, {"w/f", "f"}, {"w/ctx", "ctx"},
	{"w/time", "time"}, {"u/time1", "time"}, {"u/vpkg", "v"}, {"w/queryString", "queryString"}, {"w/sql", "sql"}, {"w/filter", "filter"}, {"w/res", "res"}, {"w/val", "val"}, {"w/nest", "nest"}, {"w/op", "op"},
	{"w/append", "append"}, {"w/row", "row"}, {"w/string", "string"}, {"w/context", "context"}, {"w/int64", "int64"}, {"w/len", "len"}, {"w/error", "error"}, {"w/nil", "nil"}, {"w/new", "new"},
}

// the families of records with the same package name
var cliFamilies [][]int

func init() {
	fam := []int{1, 2}
	var rest []int
	for _, x := range cliNamed {
		path := "vhgen/" + x[0]
		alias := strings.ReplaceAll(x[0], "/", "_")
		cliImportNames[path] = alias
		n := len(cliRecs)
		if strings.HasPrefix(x[1], "recs") {
			fam = append(fam, n)
		} else {
			rest = append(rest, n)
		}
		cliRecs = append(cliRecs, cliRec{path, x[1] + ".Row", []cliField{
			{col: "id", path: []string{"Id"}, json: []string{"id"}, alt: []string{""}, typ: "int", val: "1"},
			{col: "name", path: []string{"Name"}, json: []string{"name"}, alt: []string{"name"}, typ: "string", val: `"y"`},
			{col: "code", path: []string{"Code"}, json: []string{""}, alt: []string{"code"}, typ: x[1] + ".Label", val: `"k"`},
		}})
		cliLib[x[0]+"/row.go"] = "package " + x[1] + `

type Label string

type Row struct {
	Id   int    ` + "`sql:\"id,pk\" json:\"id\"`" + `
	Name string ` + "`sql:\"name\" json:\"name\" alt:\"name\"`" + `
	Code Label  ` + "`sql:\"code\" alt:\"code\"`" + `
}
`
	}
	cliFamilies = [][]int{{0, 1, 2, 3, 4, 5}, {0, 1, 2, 3, 4, 5}, fam, rest}
}

// cliField is a field of a record.
type cliField struct {
	col       string
	path      []string
	json, alt []string
	typ       string
	val       string
}

// cliLib are the packages with the shared record types.
var cliLib = map[string]string{
	"m/recs/recs.go": `package recs

import "time"

type Email string

type Rec struct {
	Id      int        ` + "`sql:\"id,pk\" json:\"id\"`" + `
	Email   Email      ` + "`sql:\"email\" json:\"mail,omitempty\" alt:\"e\"`" + `
	Created *time.Time ` + "`sql:\"created\" json:\"created\" alt:\"created\"`" + `
	Name    string     ` + "`sql:\"name\" json:\"name\" alt:\"name\"`" + `
	Skip    chan int
}

type Other struct {
	Id   int        ` + "`sql:\"id,pk\"`" + `
	Name string     ` + "`sql:\"name\" json:\"name\" alt:\"name\"`" + `
	At   *time.Time ` + "`sql:\"created\" json:\"at\" alt:\"at\"`" + `
}

// EH is an error handler.
type EH struct{}

func (EH) HandleError(err error) error { return err }
`,
	"m/recs/eih.go": `package recs

import "github.com/frk/gosql"

type EIH struct{ Kind string }

func (h *EIH) HandleErrorInfo(i *gosql.ErrorInfo) error { h.Kind = i.QueryKind; return i.Error }

func ConvEmail(v interface{}) (interface{}, error) { return v, nil }
`,
	"x/recs/recs.go": `package recs

import "vhgen/parts"

type Code string

type Rec struct {
	Id   int        ` + "`sql:\"id,pk\" json:\"id\" alt:\"id\"`" + `
	Name string     ` + "`sql:\"name\" json:\"-\" alt:\"n\"`" + `
	Sub  *parts.Sub ` + "`sql:\">sub_\" json:\"sub\" alt:\"s\"`" + `
	Code Code       ` + "`sql:\"code\" json:\"code\"`" + `
}
`,
	"y/pgsql/rec.go": `package pgsql

import "vhgen/parts"

type Base struct {
	Id   int    ` + "`sql:\"id,pk\" json:\"id\" alt:\"id\"`" + `
	Name string ` + "`sql:\"name\" json:\"name\"`" + `
}

type Inner struct {
	X *int   ` + "`sql:\"x\" json:\"X\" alt:\"X\"`" + `
	y string ` + "`sql:\"y\"`" + `
}

type Rec struct {
	Base   ` + "`sql:\">\" alt:\"b\"`" + `
	Tags   []string ` + "`sql:\"tags\" json:\"tags\"`" + `
	In     *Inner   ` + "`sql:\">sub_\" json:\"in\" alt:\"in\"`" + `
	Part   struct {
		Y *string ` + "`sql:\"y\" alt:\"Y\"`" + `
		y *string ` + "`sql:\"y\" alt:\"Y\"`" + `
	} ` + "`sql:\">sub_\" json:\"-\"`" + `
	hidden int ` + "`sql:\"n\"`" + `
	lock   parts.Sub ` + "`sql:\">sub_\"`" + `
}
`,
	"z/gosql/al.go": `package gosql

import "time"

type (
	Int   = int
	Str   = string
	Stamp = *time.Time
	Strs  = []Str
	Any   = any
)

type Al = Rec

type Rec struct {
	Id   Int   ` + "`sql:\"id,pk\"`" + `
	Name Str   ` + "`sql:\"name\" json:\"name\"`" + `
	At   Stamp ` + "`sql:\"created\"`" + `
	Data Any   ` + "`sql:\"data\" json:\"data\"`" + `
	Tags Strs  ` + "`sql:\"tags\"`" + `
}
`,
	"parts/parts.go": `package parts

type Sub struct {
	X *int    ` + "`sql:\"x\" json:\"x\" alt:\"X\"`" + `
	Y *string ` + "`sql:\"y\" alt:\"Y\"`" + `
}
`,
	"conn/conn.go": `package dbconn

import (
	"context"
	"database/sql"
)

// Tx is a pointer type to use as the argument of methods.
type Tx struct{ T *sql.Tx }

func (c *Tx) Exec(q string, a ...interface{}) (sql.Result, error) { return c.T.Exec(q, a...) }
func (c *Tx) ExecContext(ctx context.Context, q string, a ...interface{}) (sql.Result, error) {
	return c.T.ExecContext(ctx, q, a...)
}
func (c *Tx) Query(q string, a ...interface{}) (*sql.Rows, error) { return c.T.Query(q, a...) }
func (c *Tx) QueryContext(ctx context.Context, q string, a ...interface{}) (*sql.Rows, error) {
	return c.T.QueryContext(ctx, q, a...)
}
func (c *Tx) QueryRow(q string, a ...interface{}) *sql.Row { return c.T.QueryRow(q, a...) }
func (c *Tx) QueryRowContext(ctx context.Context, q string, a ...interface{}) *sql.Row {
	return c.T.QueryRowContext(ctx, q, a...)
}

// Iface is an interface to use as the argument of methods.
type Iface interface {
	Exec(q string, a ...interface{}) (sql.Result, error)
	ExecContext(ctx context.Context, q string, a ...interface{}) (sql.Result, error)
	Query(q string, a ...interface{}) (*sql.Rows, error)
	QueryContext(ctx context.Context, q string, a ...interface{}) (*sql.Rows, error)
	QueryRow(q string, a ...interface{}) *sql.Row
	QueryRowContext(ctx context.Context, q string, a ...interface{}) *sql.Row
}

// Emb has the methods by embedding.
type Emb struct{ *sql.Tx }

// Few lacks methods.
type Few struct{}

func (Few) Exec(q string, a ...interface{}) (sql.Result, error) { return nil, nil }
`,
}

// cliArgTypes are the values for the argument type, with the package's name, its
// path, and how the argument is made of a *sql.Tx.
var cliArgTypes = map[string]struct{ typ, imp, expr string }{
	"":                          {"gosql.Conn", "github.com/frk/gosql", "tx"},
	"github.com/frk/gosql.Conn": {"gosql.Conn", "github.com/frk/gosql", "tx"},
	"*vhgen/conn.Tx":            {"*dbconn.Tx", "vhgen/conn", "&dbconn.Tx{T: tx}"},
	"vhgen/conn.Iface":          {"dbconn.Iface", "vhgen/conn", "tx"},
	"*vhgen/conn.Emb":           {"*dbconn.Emb", "vhgen/conn", "&dbconn.Emb{Tx: tx}"},
	"vhgen/conn.Emb":            {"dbconn.Emb", "vhgen/conn", "dbconn.Emb{Tx: tx}"},
	"*database/sql.Tx":          {"*sql.Tx", "database/sql", "tx"},
}

// cliTmpl is a form of query type. {N} its name, {R} the record type, {A} the alias
// with a colon, {q} the alias with a dot.
type cliTmpl struct {
	kind string
	body string
	init string   // statements that prepare a value q for execution
	imps []string // imports
	rows bool     // an error about missing rows is fine
	v2   bool
	pk   bool
}

var cliTmpls = []cliTmpl{
	{kind: "select", body: "struct {\n\tRows []*{R} `rel:\"ct_a{A}\"`\n}"},
	{kind: "select", body: "struct {\n\tRow {R} `rel:\"ct_a{A}\"`\n\tWhere struct {\n\t\tId int `sql:\"{q}id\"`\n\t}\n}", init: "q.Where.Id = 1"},
	{kind: "select", body: "struct {\n\tRow *{R} `rel:\"ct_a{A}\"`\n\tWhere struct {\n\t\tId int `sql:\"{q}id >\"`\n\t\tOr struct {\n\t\t\tName string `sql:\"{q}name\" bool:\"or\"`\n\t\t} `sql:\">\" bool:\"or\"`\n\t}\n\t_ gosql.Limit `sql:\"1\"`\n}", imps: []string{"github.com/frk/gosql"}},
	{kind: "select", body: "struct {\n\tRows []{R} `rel:\"ct_a{A}\"`\n\tWhere struct {\n\t\tIds []int `sql:\"{q}id isin\"`\n\t}\n\tLimit int\n\tOffset int `sql:\"1\"`\n}", init: "q.Where.Ids = []int{1, 2, 3}; q.Limit = 2"},
	{kind: "select", body: "struct {\n\tRows []*{R} `rel:\"ct_a{A}\"`\n\tFilter gosql.Filter\n}", init: "q.Filter = new(filter.Constructor).Filter()", imps: []string{"github.com/frk/gosql"}},
	{kind: "select", body: "struct {\n\tRows []*{R} `rel:\"ct_a{A}\"`\n\tgosql.Filter\n\t*recs.EIH\n}", init: "q.Filter = new(filter.Constructor).Filter(); q.EIH = new(recs.EIH)", imps: []string{"github.com/frk/gosql", "vhgen/m/recs"}},
	{kind: "select", body: "struct {\n\tCount int `rel:\"ct_a{A}\"`\n}"},
	{kind: "select", body: "struct {\n\tExists bool `rel:\"ct_a{A}\"`\n\tWhere struct {\n\t\tId int `sql:\"{q}id <\"`\n\t}\n}", init: "q.Where.Id = 3"},
	{kind: "select", body: "struct {\n\tRows func(*{R}) error `rel:\"ct_a{A}\"`\n\t_ gosql.OrderBy `sql:\"-{q}id\"`\n}", init: "q.Rows = func(r *{R}) error { _ = r.Id; return nil }", imps: []string{"github.com/frk/gosql"}},
	{kind: "select", body: "struct {\n\tRows []*{R} `rel:\"ct_a{A}\"`\n\tcontext.Context\n\trecs.EH\n}", init: "q.Context = context.Background()", imps: []string{"context", "vhgen/m/recs"}},
	{kind: "insert", pk: true, body: "struct {\n\tRow *{R} `rel:\"ct_a{A}\"`\n\t_ gosql.Return `sql:\"*\"`\n}", init: "q.Row = {new}", imps: []string{"github.com/frk/gosql"}},
	{kind: "insert", pk: true, body: "struct {\n\tRows []*{R} `rel:\"ct_a{A}\"`\n\tErr recs.EIH\n}", init: "q.Rows = []*{R}{{{new}}}", imps: []string{"vhgen/m/recs"}},
	{kind: "insert", pk: true, body: "struct {\n\tRow {R} `rel:\"ct_a{A}\"`\n\tOnConflict struct {\n\t\t_ gosql.Column `sql:\"{q}id\"`\n\t\t_ gosql.Update `sql:\"{q}name\"`\n\t}\n\tRowsAffected int\n}", init: "q.Row = *{new}; q.Row.Id = 2", imps: []string{"github.com/frk/gosql"}},
	{kind: "update", body: "struct {\n\tRow *{R} `rel:\"ct_a{A}\"`\n\tWhere struct {\n\t\tId int `sql:\"{q}id\"`\n\t}\n}", init: "q.Row = {new}; q.Where.Id = 2; q.Row.Id = 2"},
	{kind: "update", pk: true, body: "struct {\n\tRows []*{R} `rel:\"ct_a{A}\"`\n\tResult []*{R}\n}", init: "q.Rows = []*{R}{{{new}}}; q.Rows[0].Id = 4"},
	{kind: "update", pk: true, body: "struct {\n\tRow {R} `rel:\"ct_a{A}\"`\n\tRowsAffected int64\n\tErr recs.EH\n}", init: "q.Row = *{new}; q.Row.Id = 3", imps: []string{"vhgen/m/recs"}},
	{kind: "delete", body: "struct {\n\t_ {R} `rel:\"ct_a{A}\"`\n\tWhere struct {\n\t\tId int `sql:\"{q}id\"`\n\t}\n}", init: "q.Where.Id = 5"},
	{kind: "delete", body: "struct {\n\t_ {R} `rel:\"ct_a{A}\"`\n\tgosql.Filter\n\tRowsAffected int\n}", init: "c := new(filter.Constructor); c.Col(\"id\", \"=\", 4); q.Filter = c.Filter()", imps: []string{"github.com/frk/gosql"}},
	{kind: "delete", body: "struct {\n\t_ gosql.Relation `rel:\"ct_a{A}\"`\n\t_ gosql.All\n}", imps: []string{"github.com/frk/gosql"}},
	{kind: "delete", body: "struct {\n\tRows []{R} `rel:\"ct_a{A}\"`\n\tWhere struct {\n\t\tName []string `sql:\"{q}name notin\"`\n\t}\n\t_ gosql.Return `sql:\"*\"`\n}", init: "q.Where.Name = []string{\"n1\"}", imps: []string{"github.com/frk/gosql"}},
	{kind: "filter", v2: true, body: "struct {\n\t_ *{R} `rel:\"ct_a{A}\"`\n\tfilter.Constructor\n}", init: "q.Init()", imps: []string{"github.com/frk/gosql/filter"}},
	{kind: "filter", v2: true, body: "struct {\n\tRec {R} `rel:\"ct_a{A}\"`\n\tC filter.Constructor\n\t_ gosql.TextSearch `sql:\"{q}doc\"`\n}", init: "q.Init()", imps: []string{"github.com/frk/gosql", "github.com/frk/gosql/filter"}},
	{kind: "filter", body: "struct {\n\t_ *{R} `rel:\"ct_a{A}\"`\n\tgosql.FilterConstructor\n}", init: "q.FilterConstructor = new(filter.Constructor); q.Init()", imps: []string{"github.com/frk/gosql"}},
}

// added later, to keep the indices
func init() {
	cliTmpls = append(cliTmpls,
		cliTmpl{kind: "select", body: "struct {\n\tRows []*{R} `rel:\"ct_a{A}\"`\n\tLast error\n\tMemo map[string]error\n}"},
		cliTmpl{kind: "select", body: "struct {\n\tRows rt.List[{R}] `rel:\"ct_a{A}\"`\n}", imps: []string{"vhgen/rt"}},
	)
}

var cliAliases = []string{"", "a", "t1"}

// cliBadTypes are what a query type can be wrong about.
var cliBadTypes = []struct{ name, body string }{
	{},
	{"missing column", "struct {\n\tRow struct {\n\t\tNope int `sql:\"nope\"`\n\t} `rel:\"ct_a\"`\n}"},
	{"missing relation", "struct {\n\tRow struct {\n\t\tId int `sql:\"id\"`\n\t} `rel:\"ct_none\"`\n}"},
	{"no rel field", "struct {\n\tRow struct {\n\t\tId int `sql:\"id\"`\n\t}\n}"},
	{"bad operator", "struct {\n\tRow struct {\n\t\tId int `sql:\"id\"`\n\t} `rel:\"ct_a\"`\n\tWhere struct {\n\t\tId int `sql:\"id @@@@\"`\n\t}\n}"},
	{"bad type", "struct {\n\tRow struct {\n\t\tId int `sql:\"id\"`\n\t} `rel:\"ct_a\"`\n\tWhere struct {\n\t\tId struct{ X int } `sql:\"id\"`\n\t}\n}"},
}

var rxCliTarget = regexp.MustCompile(`^(?i:Select|Insert|Update|Delete|Filter)`)

func (ty *cliType) query() bool { return ty.Tmpl >= 0 || ty.Bad > 0 }

// source is the content of a file.
func (f *cliFile) source(pkg *cliPkg) string {
	var b strings.Builder
	imps := map[string]string{}
	refs := map[string]bool{}
	for _, ty := range f.Types {
		for _, i := range ty.imports() {
			imps[i] = ""
		}
		refs[ty.ref()] = true
	}
	// two packages with the same name: the second one gets a name
	for i := range imps {
		imps[i] = cliImportNames[i]
	}
	if f.Build != "" {
		b.WriteString(f.Build + "\n\n")
	}
	b.WriteString("package " + pkg.Name + "\n\n")
	b.WriteString(importDecl(imps))
	done := map[int]bool{}
	for _, ty := range f.Types {
		if ty.Group == 0 {
			b.WriteString(ty.doc(false) + "type " + ty.Name + " " + ty.decl() + "\n\n")
			continue
		}
		if done[ty.Group] {
			continue
		}
		done[ty.Group] = true
		b.WriteString("// A group of types.\ntype (\n")
		for _, u := range f.Types {
			if u.Group == ty.Group {
				b.WriteString(u.doc(true) + u.Name + " " + u.decl() + "\n")
			}
		}
		b.WriteString(")\n\n")
	}
	return b.String()
}

func importDecl(imps map[string]string) string {
	if len(imps) == 0 {
		return ""
	}
	var keys []string
	for k := range imps {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	s := "import (\n"
	for _, k := range keys {
		s += "\t" + imps[k] + " " + strconv.Quote(k) + "\n"
	}
	return s + ")\n\n"
}

func (ty *cliType) doc(group bool) string {
	switch ty.Ignore {
	case 1, 2:
		return "// " + ty.Name + " is not for the tool.\n//gosql:ignore\n"
	case 3:
		return "/* " + ty.Name + " is\ngosql:ignore\n*/\n"
	}
	return "// " + ty.Name + " is a type.\n"
}

// cliImportNames are the names of imported packages that would clash with others.
var cliImportNames = map[string]string{"vhgen/x/recs": "xrecs", "vhgen/z/gosql": "zgosql"}

func (ty *cliType) ref() string {
	r := cliRecs[ty.Rec]
	if n := cliImportNames[r.Import]; n != "" {
		return n + r.Ref[strings.IndexByte(r.Ref, '.'):]
	}
	return r.Ref
}

// imports are the paths that the type's declaration needs.
func (ty *cliType) imports() (out []string) {
	if ty.Bad > 0 || ty.Tmpl < 0 {
		return nil
	}
	t := cliTmpls[ty.Tmpl]
	out = append(out, t.imps...)
	if r := cliRecs[ty.Rec]; r.Import != "" && strings.Contains(t.body, "{R}") {
		out = append(out, r.Import)
	}
	return out
}

func (ty *cliType) decl() string {
	if ty.Bad > 0 {
		return cliBadTypes[ty.Bad].body
	}
	if ty.Tmpl < 0 {
		return []string{"struct{ X int }", "int", "func()", "struct {\n\tRows []struct{} `rel:\"x\"`\n}"}[-1-ty.Tmpl]
	}
	a, q := "", ""
	if al := cliAliases[ty.Alias]; al != "" {
		a, q = ":"+al, al+"."
	}
	return strings.NewReplacer("{R}", ty.ref(), "{A}", a, "{q}", q).Replace(cliTmpls[ty.Tmpl].body)
}

// typesSource declares the package's own types.
func (p *cliPkg) typesSource() string {
	return "package " + p.Name + `

type Num int

type Rec struct {
	Id   int    ` + "`sql:\"id,pk\" json:\"id\" alt:\"ID\"`" + `
	Name string ` + "`sql:\"name\" alt:\"the_name\"`" + `
	N    Num    ` + "`sql:\"n\" json:\"num\"`" + `
}
`
}

// effective values of the options

func (s *cliScn) str(key, def string) string {
	o := s.Opts[key]
	if len(o.Flag) > 0 {
		return o.Flag[len(o.Flag)-1]
	}
	if o.File != nil && s.CfgAt != "" {
		var v *string
		if json.Unmarshal([]byte(*o.File), &v) == nil && v != nil {
			return *v
		}
	}
	return def
}

func (s *cliScn) boolean(key string) bool {
	o := s.Opts[key]
	if len(o.Flag) > 0 {
		v := o.Flag[len(o.Flag)-1]
		return v == "" || v == "true" || v == "1" || v == "T"
	}
	if o.File != nil && s.CfgAt != "" {
		var v *bool
		if json.Unmarshal([]byte(*o.File), &v) == nil && v != nil {
			return *v
		}
	}
	return false
}

func (s *cliScn) list(key string) []string {
	o := s.Opts[key]
	if len(o.Flag) > 0 {
		return o.Flag
	}
	if o.File != nil && s.CfgAt != "" {
		var v []string
		json.Unmarshal([]byte(*o.File), &v)
		return v
	}
	return nil
}

var cliFlagNames = map[string]string{
	"working_directory": "wd", "recursive": "r", "input_files": "f", "input_file_regexps": "rx",
	"output_file_name_format": "o", "database_dsn": "db", "quote_identifiers": "qid",
	"filter_column_key_tag": "fcktag", "filter_column_key_base": "fckbase", "filter_column_key_separator": "fcksep",
	"method_with_context": "with-ctx", "method_argument_type": "argtype",
}

// cliExpect is what the command has to do.
type cliExpect struct {
	out map[string]*cliOut // by path relative to the root
}

type cliOut struct {
	pkg   *cliPkg
	file  *cliFile
	types []cliType
}

// expect computes the outcome from the options and the sources.
func (s *cliScn) expect(root string) *cliExpect {
	ex := &cliExpect{out: map[string]*cliOut{}}
	wd := s.wd(root)
	files, rxs := s.list("input_files"), s.list("input_file_regexps")
	for i := range s.Pkgs {
		p := &s.Pkgs[i]
		dir := filepath.Join(root, p.Dir)
		if dir != wd && !(s.boolean("recursive") && strings.HasPrefix(dir, wd+"/")) {
			continue
		}
		for j := range p.Files {
			f := &p.Files[j]
			if f.Build != "" || strings.HasSuffix(f.Name, "_test.go") {
				continue
			}
			path := filepath.Join(dir, f.Name)
			if len(files)+len(rxs) > 0 {
				sel := false
				for _, x := range files {
					x = strings.ReplaceAll(x, "{root}", root)
					if !filepath.IsAbs(x) {
						x = filepath.Join(wd, x)
					}
					sel = sel || filepath.Clean(x) == path
				}
				for _, x := range rxs {
					rx, err := regexp.Compile(x)
					sel = sel || err == nil && rx.MatchString(path)
				}
				if !sel {
					continue
				}
			}
			o := &cliOut{pkg: p, file: f}
			for _, ty := range f.Types {
				if ty.Ignore == 0 && rxCliTarget.MatchString(ty.Name) {
					o.types = append(o.types, ty)
				}
			}
			if len(o.types) > 0 {
				ex.out[filepath.Join(p.Dir, s.outName(f.Name))] = o
			}
		}
	}
	return ex
}

// wd is the working directory's absolute path.
func (s *cliScn) wd(root string) string {
	wd := strings.ReplaceAll(s.str("working_directory", "."), "{root}", root)
	if !filepath.IsAbs(wd) {
		wd = filepath.Join(root, s.Cwd, wd)
	}
	return filepath.Clean(wd)
}

func (s *cliScn) outName(in string) string {
	f := s.str("output_file_name_format", "%s_gosql.go")
	base := strings.TrimSuffix(in, ".go")
	if strings.Contains(f, "%s") {
		f = strings.Replace(f, "%s", base, 1)
	} else {
		f = base + f
	}
	if !strings.HasSuffix(f, ".go") {
		f += ".go"
	}
	return f
}

// runSource calls the methods that are going to be generated.
func (s *cliScn) runSource(p *cliPkg, types []cliType) string {
	at := cliArgTypes[s.str("method_argument_type", "")]
	imps := map[string]string{"database/sql": "", "vhgen/rt": ""}
	meth := s.str("method_name", "Exec")
	var b strings.Builder
	for i, ty := range types {
		t := cliTmpls[ty.Tmpl]
		if t.kind == "filter" {
			imps["github.com/frk/gosql"] = ""
		}
		init := t.init
		if strings.Contains(init, "filter.") {
			imps["github.com/frk/gosql/filter"] = ""
		}
		if strings.Contains(init, "recs.EIH") {
			imps["vhgen/m/recs"] = ""
		}
		if strings.Contains(init, "context.") {
			imps["context"] = ""
		}
		if strings.Contains(init, "{R}") || strings.Contains(init, "{new}") {
			if r := cliRecs[ty.Rec]; r.Import != "" {
				imps[r.Import] = cliImportNames[r.Import]
			}
		}
		ref := ty.ref()
		lit := ref + "{Id: " + strconv.Itoa(100+i) + ", Name: \"v\"}"
		if ref == "zgosql.Al" {
			lit = ref + "{Id: " + strconv.Itoa(100+i) + ", Name: \"v\", Tags: []string{\"a\"}, Data: 1}"
		}
		if ref == "pgsql.Rec" {
			lit = ref + "{Base: pgsql.Base{Id: " + strconv.Itoa(100+i) + ", Name: \"v\"}, In: new(pgsql.Inner), Tags: []string{\"a\"}}"
		}
		if ref == "xrecs.Rec" && strings.Contains(init, "{new}") {
			imps["vhgen/parts"] = ""
			lit = ref + "{Id: " + strconv.Itoa(100+i) + ", Name: \"v\", Sub: new(parts.Sub)}"
		}
		init = strings.ReplaceAll(init, "{{{new}}}", "{&"+lit+"}")
		init = strings.ReplaceAll(init, "{new}", "(&"+lit+")")
		init = strings.ReplaceAll(init, "{R}", ref)
		fmt.Fprintf(&b, "\tt.Run(tx, %q, func() error {\n\t\tq := new(%s)\n", p.Dir+"/"+ty.Name, ty.Name)
		if init != "" {
			b.WriteString("\t\t" + init + "\n")
		}
		if t.kind == "filter" {
			// the predicate methods, by the names of the fields
			for _, f := range cliRecs[ty.Rec].fields {
				if strings.Contains(f.val, "time.") {
					imps["time"] = ""
				}
				if f.val == "" {
					continue
				}
				fmt.Fprintf(&b, "\t\tq = q.%s(\"=\", %s)\n", strings.Join(f.path, ""), f.val)
			}
			id := strings.Join(cliRecs[ty.Rec].fields[0].path, "")
			fmt.Fprintf(&b, "\t\tq = q.And(nil).%s(\">\", 1).Or(func(x *%s) { x.%[1]s(\"<\", 9).Or(nil).%[1]s(\">\", 3) })\n", id, ty.Name)
			fil := "q.Filter()"
			switch {
			case strings.Contains(t.body, "C filter.Constructor"):
				fil = "q.C.Filter()"
			case strings.Contains(t.body, "gosql.FilterConstructor"):
				fil = "q.FilterConstructor.(interface{ Filter() gosql.Filter }).Filter()"
			}
			table := "ct_a"
			if a := cliAliases[ty.Alias]; a != "" {
				table += " AS " + a
			}
			imps["github.com/frk/gosql"] = ""
			fmt.Fprintf(&b, "\t\tvar f gosql.Filter = %s\n\t\treturn t.Filter(tx, %q, f, _%s_colmap)\n", fil, table, ty.Name)
		} else if s.boolean("method_with_context") {
			imps["context"] = ""
			fmt.Fprintf(&b, "\t\treturn q.%s(context.Background(), %s)\n", meth, at.expr)
		} else {
			fmt.Fprintf(&b, "\t\treturn q.%s(%s)\n", meth, at.expr)
		}
		b.WriteString("\t})\n")
	}
	if strings.Contains(b.String(), "dbconn.") {
		imps["vhgen/conn"] = "dbconn"
	}
	return "package " + p.Name + "\n\n" + importDecl(imps) + "func RunAll(tx *sql.Tx, t *rt.T) {\n" + b.String() + "}\n"
}

const cliRT = `package rt

import (
	"database/sql"
	"encoding/json"
	"fmt"
	"os"

	"github.com/frk/gosql"
	"github.com/frk/gosql/filter"
	_ "github.com/lib/pq"
)

type List[T any] []T

type T struct {
	Errs   map[string]string
	ColMap map[string]map[string]string
	cur    string
}

func (t *T) Run(tx *sql.Tx, name string, f func() error) {
	t.cur = name
	tx.Exec("SAVEPOINT s")
	defer tx.Exec("ROLLBACK TO SAVEPOINT s")
	defer func() {
		if e := recover(); e != nil {
			t.Errs[name] = fmt.Sprint("panic: ", e)
		}
	}()
	t.Errs[name] = ""
	if err := f(); err != nil {
		t.Errs[name] = err.Error()
	}
}

// Filter executes a query with the filter and records the column map.
func (t *T) Filter(tx *sql.Tx, table string, f gosql.Filter, colmap interface{}) error {
	m := map[string]string{}
	switch x := colmap.(type) {
	case map[string]string:
		m = x
	case map[string]filter.Column:
		for k, v := range x {
			m[k] = v.Name
		}
	}
	t.ColMap[t.cur] = m
	s, params := f.ToSQL(0)
	var n int
	return tx.QueryRow("SELECT count(*) FROM "+table+" "+s, params...).Scan(&n)
}

func Main(fs ...func(tx *sql.Tx, t *T)) {
	db, err := sql.Open("postgres", os.Getenv("VH_DSN"))
	if err != nil {
		panic(err)
	}
	tx, err := db.Begin()
	if err != nil {
		panic(err)
	}
	if _, err := tx.Exec("CREATE TEMP TABLE ct_a (LIKE public.ct_a INCLUDING ALL) ON COMMIT DROP; INSERT INTO ct_a SELECT * FROM public.ct_a"); err != nil {
		panic(err)
	}
	t := &T{Errs: map[string]string{}, ColMap: map[string]map[string]string{}}
	for _, f := range fs {
		f(tx, t)
	}
	tx.Rollback()
	json.NewEncoder(os.Stdout).Encode(t)
}
`

// colmap is the column map of a filter type.
func (s *cliScn) colmap(ty *cliType) map[string]string {
	m := map[string]string{}
	tag, sep, base := s.str("filter_column_key_tag", "json"), s.str("filter_column_key_separator", "."), s.boolean("filter_column_key_base")
	for _, f := range cliRecs[ty.Rec].fields {
		var names []string
		switch tag {
		case "":
			names = f.path
		case "json":
			names = f.json
		case "alt":
			names = f.alt
		default:
			names = make([]string, len(f.path))
		}
		if base {
			names = names[len(names)-1:]
		}
		skip := false
		var ks []string
		for _, n := range names {
			if n == "-" {
				skip = true
			}
			if n != "" {
				ks = append(ks, n)
			}
		}
		key := strings.Join(ks, sep)
		if skip || key == "" {
			continue
		}
		if _, ok := m[key]; !ok {
			m[key] = s.colIdent(ty, f.col)
		}
	}
	return m
}

func (s *cliScn) colIdent(ty *cliType, col string) string {
	if s.boolean("quote_identifiers") {
		col = `"` + col + `"`
	}
	if a := cliAliases[ty.Alias]; a != "" {
		col = a + "." + col
	}
	return col
}

// args are the command's arguments.
func (s *cliScn) args(root string) (out []string) {
	var keys []string
	for k := range s.Opts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if strings.HasPrefix(s.CfgAt, "flag:") {
		p := strings.ReplaceAll(s.CfgAt[5:], "{root}", root)
		out = append(out, "--config", p)
	}
	for _, k := range keys {
		name, ok := cliFlagNames[k]
		if !ok {
			continue
		}
		for _, v := range s.Opts[k].Flag {
			v = strings.ReplaceAll(v, "{root}", root)
			switch k {
			case "recursive", "quote_identifiers", "filter_column_key_base", "method_with_context":
				if v == "" {
					out = append(out, "-"+name)
				} else {
					out = append(out, "-"+name+"="+v)
				}
			default:
				out = append(out, "-"+name, v)
			}
		}
	}
	return append(out, s.Extra...)
}

// config is the content of the config file.
func (s *cliScn) config(root string) string {
	var keys []string
	for k, o := range s.Opts {
		if o.File != nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var parts []string
	for _, k := range keys {
		parts = append(parts, "\t"+strconv.Quote(k)+": "+strings.ReplaceAll(*s.Opts[k].File, "{root}", root))
	}
	return "{\n" + strings.Join(parts, ",\n") + "\n}\n"
}

// cliEngine runs scenarios.
type cliEngine struct {
	r   *fw.Run
	dsn string
	mu  sync.Mutex
	n   int
}

func newCLI(r *fw.Run, db string) *cliEngine {
	r.DB(db, cliSchema)
	buildCLI(r)
	return &cliEngine{r: r, dsn: r.Cluster().DSN(db)}
}

// cliProblem is a difference between what happened and what has to happen.
type cliProblem struct {
	kind string // files, methods, options, format, build, run, again, status
	msg  string
}

func snapshot(root string) map[string]string {
	m := map[string]string{}
	err := filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if d.IsDir() {
			m[rel+"/"] = ""
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		m[rel] = string(b)
		return nil
	})
	fw.InfraPanic(err)
	return m
}

// write materialises the scenario.
func (s *cliScn) write(r *fw.Run, root, dsn string) {
	put := func(path, text string) {
		path = filepath.Join(root, path)
		fw.InfraPanic(os.MkdirAll(filepath.Dir(path), 0o755))
		fw.InfraPanic(os.WriteFile(path, []byte(text), 0o644))
	}
	scaffold(r, root)
	os.Remove(filepath.Join(root, "q"))
	for p, t := range cliLib {
		put(p, t)
	}
	put("rt/rt.go", cliRT)
	put("README.txt", "A project.\n")
	ex := s.expect(root)
	imps := map[string]string{"vhgen/rt": ""}
	var calls []string
	for i := range s.Pkgs {
		p := &s.Pkgs[i]
		for j := range p.Files {
			f := &p.Files[j]
			put(filepath.Join(p.Dir, f.Name), f.source(p))
		}
		put(filepath.Join(p.Dir, "types.go"), p.typesSource())
		put(filepath.Join(p.Dir, "notes_gosql.txt"), "SelectNotes\n")
		if s.Run {
			var types []cliType
			var outs []string
			for o := range ex.out {
				outs = append(outs, o)
			}
			sort.Strings(outs)
			for _, o := range outs {
				if ex.out[o].pkg == p {
					types = append(types, ex.out[o].types...)
				}
			}
			put(filepath.Join(p.Dir, "calls.go"), s.runSource(p, types))
			n := fmt.Sprintf("p%d", i)
			imps["vhgen/"+p.Dir] = n
			calls = append(calls, n+".RunAll")
		}
	}
	if s.Run {
		put("cmd/zz/main.go", "package main\n\n"+importDecl(imps)+"func main() {\n\trt.Main("+strings.Join(calls, ", ")+")\n}\n")
	}
	if s.Git {
		put(".git/HEAD", "ref: refs/heads/master\n")
	}
	if s.Stale != "" {
		for o, x := range ex.out {
			switch s.Stale {
			case "old":
				// what an earlier run left, when the types had other names
				put(o, "// DO NOT EDIT. This file was generated by \"github.com/frk/gosql\".\n\npackage "+x.pkg.Name+"\n\nimport (\n\t\"github.com/frk/gosql\"\n)\n\nfunc (q *SelectGone) Exec(c gosql.Conn) error {\n\tconst queryString = `SELECT 1` // `\n\n\treturn nil\n}\n"+strings.Repeat("// a long tail\n", 4000))
			case "same":
				put(o, "package "+x.pkg.Name+"\n\nimport (\n\t\"github.com/frk/gosql\"\n)\n\nfunc (q *"+x.types[0].Name+") Exec(c gosql.Conn) error {\n\treturn nil\n}\n")
			case "cut":
				put(o, "// DO NOT EDIT. This file was generated by \"github.com/frk/gosql\".\n\npackage "+x.pkg.Name+"\n\nimport (\n\t\"github.com/frk/go")
			}
		}
	}
	switch {
	case strings.HasPrefix(s.CfgAt, "flag:"):
		p := strings.ReplaceAll(s.CfgAt[5:], "{root}", root)
		if !filepath.IsAbs(p) {
			p = filepath.Join(root, s.Cwd, p)
		}
		if s.Bad != "cfg-missing" {
			rel, _ := filepath.Rel(root, p)
			put(rel, s.config(root))
		}
	case s.CfgAt != "":
		put(s.CfgAt, s.config(root))
	}
	if s.Bad == "cfg-syntax" {
		put(".gosql", "{\"recursive\": tru")
	}
}

// run runs the scenario and returns the problems found; labels describe it.
func (e *cliEngine) run(s *cliScn) (probs []cliProblem, labels []string) {
	e.mu.Lock()
	e.n++
	root := filepath.Join(e.r.TempDir(), "s"+strconv.Itoa(e.n))
	e.mu.Unlock()
	defer os.RemoveAll(root)
	fail := func(kind, f string, a ...any) {
		msg := strings.ReplaceAll(fmt.Sprintf(f, a...), root, "{root}")
		probs = append(probs, cliProblem{kind, msg})
	}
	label := func(l string) { labels = append(labels, l) }
	fw.InfraPanic(os.MkdirAll(root, 0o755))
	// the data source
	t := *s
	t.Opts = map[string]cliOpt{}
	for k, o := range s.Opts {
		rep := func(x string) string { return strings.ReplaceAll(x, "{dsn}", e.dsn) }
		n := cliOpt{}
		for _, f := range o.Flag {
			n.Flag = append(n.Flag, rep(f))
		}
		if o.File != nil {
			v := rep(*o.File)
			n.File = &v
		}
		t.Opts[k] = n
	}
	s = &t
	s.write(e.r, root, e.dsn)
	before := snapshot(root)
	cwd := filepath.Join(root, s.Cwd)
	args := s.args(root)
	ex := s.expect(root)

	_, stderr, code := runCmd(cwd, nil, 5*time.Minute, cliBuild.path, args...)
	if code == -1 {
		fw.InfraPanic(fmt.Errorf("the CLI timed out: %v %s", args, stderr))
	}
	after := snapshot(root)
	if strings.Contains(stderr, "panic:") {
		fail("status", "the command panicked:\n%s", head(stderr, 1500))
		return probs, labels
	}
	if s.Bad != "" {
		label("fails:" + s.Bad)
		if code == 0 {
			fail("status", "the command succeeded (%s)", s.Bad)
		} else if strings.TrimSpace(stderr) == "" {
			fail("status", "the command failed without a message (%s)", s.Bad)
		}
		for _, d := range diffTrees(before, after, nil) {
			fail("files", "a failed run (%s) %s\n%s", s.Bad, d, head(stderr, 500))
		}
		return probs, labels
	}
	if code != 0 {
		fail("status", "the command failed with status %d:\n%s", code, head(stderr, 1500))
		for _, d := range diffTrees(before, after, nil) {
			fail("files", "a failed run %s", d)
		}
		return probs, labels
	}
	label(fmt.Sprintf("outputs:%d", min(len(ex.out), 5)))
	for _, d := range diffTrees(before, after, ex.out) {
		fail("files", "the run %s", d)
	}
	var outs []string
	for o := range ex.out {
		outs = append(outs, o)
	}
	sort.Strings(outs)
	for _, o := range outs {
		text, ok := after[o]
		if !ok {
			fail("files", "the run didn't write %s for %s", o, filepath.Join(ex.out[o].pkg.Dir, ex.out[o].file.Name))
			continue
		}
		if s.Stale != "" && text == before[o] {
			fail("files", "the run left the old content of %s", o)
			continue
		}
		e.checkOutput(s, o, ex.out[o], text, fail, label)
	}
	if len(probs) > 0 && !s.Twice {
		return probs, labels
	}
	if s.Twice {
		if s.Stale != "" {
			// what was in the way makes no difference
			for o := range ex.out {
				fw.InfraPanic(os.Remove(filepath.Join(root, o)))
			}
		}
		_, stderr, code = runCmd(cwd, nil, 5*time.Minute, cliBuild.path, args...)
		if code != 0 {
			fail("again", "the second run failed: %s", head(stderr, 1000))
		} else {
			for _, d := range diffTrees(after, snapshot(root), nil) {
				fail("again", "the second run %s", d)
			}
		}
	}
	if s.Run && len(probs) == 0 {
		e.execute(s, root, ex, fail, label)
	}
	return probs, labels
}

// diffTrees lists the differences between two snapshots, except the content of
// the given files.
func diffTrees(a, b map[string]string, but map[string]*cliOut) (out []string) {
	var keys []string
	for k := range a {
		keys = append(keys, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		if but[k] != nil {
			continue
		}
		x, ok1 := a[k]
		y, ok2 := b[k]
		switch {
		case !ok2:
			out = append(out, "removed "+k)
		case !ok1:
			out = append(out, "made "+k+":\n"+head(y, 300))
		case x != y:
			out = append(out, "changed "+k+":\n"+head(y, 300))
		}
	}
	return out
}

// checkOutput checks an output file.
func (e *cliEngine) checkOutput(s *cliScn, path string, o *cliOut, text string, fail func(kind, f string, a ...any), label func(string)) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, text, parser.ParseComments)
	if err != nil {
		fail("build", "%s doesn't parse: %v\n%s", path, err, text)
		return
	}
	if g, err := format.Source([]byte(text)); err != nil || string(g) != text {
		fail("format", "%s isn't formatted: %v\n%s", path, err, text)
	}
	if !strings.HasPrefix(text, "// DO NOT EDIT.") {
		fail("format", "%s doesn't begin with the notice:\n%s", path, head(text, 200))
	}
	if f.Name.Name != o.pkg.Name {
		fail("methods", "%s is of package %s", path, f.Name.Name)
	}
	have := map[string][]*ast.FuncDecl{}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		if fd.Recv == nil {
			fail("methods", "%s declares a function %s", path, fd.Name.Name)
			continue
		}
		rt := exprString(fset, fd.Recv.List[0].Type)
		have[rt] = append(have[rt], fd)
	}
	meth := s.str("method_name", "Exec")
	at := cliArgTypes[s.str("method_argument_type", "")].typ
	for _, ty := range o.types {
		ms := have["*"+ty.Name]
		delete(have, "*"+ty.Name)
		if cliTmpls[ty.Tmpl].kind == "filter" {
			label("type:filter")
			if len(ms) == 0 {
				fail("methods", "%s has no methods for %s", path, ty.Name)
			}
			continue
		}
		label("type:" + cliTmpls[ty.Tmpl].kind)
		if len(ms) != 1 {
			fail("methods", "%s has %d methods for %s", path, len(ms), ty.Name)
			continue
		}
		m := ms[0]
		var params []string
		for _, p := range m.Type.Params.List {
			for range max(1, len(p.Names)) {
				params = append(params, exprString(fset, p.Type))
			}
		}
		sig := m.Name.Name + "(" + strings.Join(params, ", ") + ")"
		want := meth + "(" + at + ")"
		if s.boolean("method_with_context") {
			want = meth + "(context.Context, " + at + ")"
		}
		if rs := m.Type.Results; rs == nil || len(rs.List) != 1 || exprString(fset, rs.List[0].Type) != "error" {
			sig += " without an error"
		}
		if sig != want {
			fail("options", "the method of %s is %s, not %s", ty.Name, sig, want)
		}
		if t := cliTmpls[ty.Tmpl]; strings.Contains(t.body, "Rows []") || strings.Contains(t.body, "Where struct") {
			var b bytes.Buffer
			printer.Fprint(&b, fset, m)
			if s.boolean("method_with_context") || strings.Contains(t.body, "context.Context") {
				if !strings.Contains(b.String(), "Context(") {
					fail("options", "the method of %s doesn't pass on the context\n%s", ty.Name, b.String())
				}
			}
		}
	}
	for rt := range have {
		fail("methods", "%s has methods for %s", path, rt)
	}
}

func exprString(fset *token.FileSet, x ast.Expr) string {
	var b bytes.Buffer
	printer.Fprint(&b, fset, x)
	return b.String()
}

// execute builds the project and runs the generated methods.
func (e *cliEngine) execute(s *cliScn, root string, ex *cliExpect, fail func(kind, f string, a ...any), label func(string)) {
	bin := filepath.Join(root, "zz")
	_, stderr, code := runCmd(root, nil, 10*time.Minute, "go", "build", "-gcflags=-e", "-o", bin, "./cmd/zz")
	if code != 0 {
		var b strings.Builder
		for o := range ex.out {
			if strings.Contains(stderr, o) {
				t, _ := os.ReadFile(filepath.Join(root, o))
				fmt.Fprintf(&b, "--- %s\n%s", o, t)
			}
		}
		fail("build", "the project doesn't build: %s\n%s", head(stderr, 1500), head(b.String(), 6000))
		return
	}
	label("built")
	stdout, stderr, code := runCmd(root, []string{"VH_DSN=" + e.dsn}, 5*time.Minute, bin)
	if code != 0 {
		fw.InfraPanic(fmt.Errorf("the runner failed (%d): %s\n%s", code, tail(stdout, 1000), tail(stderr, 3000)))
	}
	var res struct {
		Errs   map[string]string
		ColMap map[string]map[string]string
	}
	if err := json.Unmarshal([]byte(stdout), &res); err != nil {
		fw.InfraPanic(fmt.Errorf("the runner printed %s: %v", head(stdout, 500), err))
	}
	for p, o := range ex.out {
		for _, ty := range o.types {
			n := o.pkg.Dir + "/" + ty.Name
			err, ok := res.Errs[n]
			if !ok {
				fw.InfraPanic(fmt.Errorf("%s wasn't executed", n))
			}
			if err != "" {
				t, _ := os.ReadFile(filepath.Join(root, p))
				fail("run", "executing %s: %s\n%s", n, err, t)
			}
			if cliTmpls[ty.Tmpl].kind == "filter" {
				want := s.colmap(&ty)
				if got := res.ColMap[n]; !sameMap(got, want) {
					fail("options", "the column map of %s is %v, not %v", n, got, want)
				}
			}
		}
	}
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// generators

var cliPrefixes = map[string][]string{
	"select": {"Select", "select", "SELECT", "SeLect"},
	"insert": {"Insert", "insert", "INSERT"},
	"update": {"Update", "update", "uPDATE"},
	"delete": {"Delete", "delete"},
	"filter": {"Filter", "filter", "FILTER"},
}

// genPkgs draws the packages of a project.
func genPkgs(t *rapid.T, maxPkgs, maxFiles, maxTypes int, noise bool) (out []cliPkg) {
	dirs := rapid.Permutation([]string{"store", "store/users", "store/users/deep", "app", "app/db", "zz2"}).Draw(t, "dirs")
	np := rapid.IntRange(1, maxPkgs).Draw(t, "pkgs")
	for _, d := range dirs[:np] {
		p := cliPkg{Dir: d, Name: filepath.Base(d)}
		if rapid.IntRange(0, 3).Draw(t, "pkg name") == 0 {
			p.Name = "other"
		}
		names := rapid.Permutation([]string{"users.go", "a.go", "users_select.go", "b.c.go", "z9.go"}).Draw(t, "files")
		nf := rapid.IntRange(1, maxFiles).Draw(t, "nfiles")
		n := 0
		used := map[string]bool{}
		for fi, name := range names[:nf] {
			f := cliFile{Name: name}
			if noise && fi > 0 {
				switch rapid.IntRange(0, 7).Draw(t, "file kind") {
				case 0:
					f.Name = strings.TrimSuffix(name, ".go") + "_test.go"
				case 1:
					f.Build = rapid.SampledFrom([]string{"//go:build ignore", "//go:build windows", "//go:build !linux"}).Draw(t, "build")
				}
			}
			nt := rapid.IntRange(1, maxTypes).Draw(t, "ntypes")
			recs := cliFamilies[rapid.IntRange(0, len(cliFamilies)-1).Draw(t, "recs")]
			group := 0
			for range nt {
				n++
				ty := genCLIType(t, n, noise, recs)
				for used[strings.ToLower(ty.Name)] {
					ty.Name += "X"
				}
				used[strings.ToLower(ty.Name)] = true
				if rapid.IntRange(0, 3).Draw(t, "grouped") == 0 {
					if group == 0 || rapid.Bool().Draw(t, "new group") {
						group++
					}
					ty.Group = group
				}
				if ty.Group == 0 && ty.Ignore == 2 {
					ty.Ignore = 1
				}
				f.Types = append(f.Types, ty)
			}
			p.Files = append(p.Files, f)
		}
		out = append(out, p)
	}
	return out
}

func genCLIType(t *rapid.T, n int, noise bool, recs []int) (ty cliType) {
	if noise && rapid.IntRange(0, 4).Draw(t, "plain") == 0 {
		ty.Tmpl = -1 - rapid.IntRange(0, 3).Draw(t, "plain form")
		ty.Name = rapid.SampledFrom([]string{"Sel", "MySelect", "XInsert", "Updat", "Upsert", "RemoveUser", "Fil", "fooFilter", "_Select", "Dele"}).Draw(t, "plain name") + strconv.Itoa(n)
		return ty
	}
	ty.Tmpl = rapid.IntRange(0, len(cliTmpls)-1).Draw(t, "tmpl")
	tm := cliTmpls[ty.Tmpl]
	ty.Name = rapid.SampledFrom(cliPrefixes[tm.kind]).Draw(t, "prefix") + rapid.SampledFrom([]string{"", "Users", "Query", "_x", "By"}).Draw(t, "suffix") + strconv.Itoa(n)
	ty.Rec = recs[int(rapid.Uint32().Draw(t, "rec"))%len(recs)]
	ty.Alias = rapid.IntRange(0, len(cliAliases)-1).Draw(t, "alias")
	if noise && rapid.IntRange(0, 5).Draw(t, "ignored") == 0 {
		ty.Ignore = rapid.IntRange(1, 3).Draw(t, "ignore")
	}
	return ty
}

// jsonOf is a pointer to the value's JSON.
func jsonOf(v any) *string {
	b, _ := json.Marshal(v)
	s := string(b)
	return &s
}

// genSelection draws the options that select files.
func genSelection(t *rapid.T, s *cliScn, file func(key string) bool) {
	dirs := []string{}
	var paths []string
	for _, p := range s.Pkgs {
		dirs = append(dirs, p.Dir)
		for _, f := range p.Files {
			paths = append(paths, filepath.Join(p.Dir, f.Name))
		}
	}
	wd := rapid.SampledFrom(append(dirs, ".", "store", "app")).Draw(t, "wd")
	set := func(key, v string, j *string) {
		o := s.Opts[key]
		if file(key) {
			o.File = j
		} else {
			o.Flag = append(o.Flag, v)
		}
		s.Opts[key] = o
	}
	exists := wd == "."
	for _, d := range dirs {
		exists = exists || d == wd || strings.HasPrefix(d, wd+"/")
	}
	if !exists {
		wd = dirs[0]
	}
	hasPkg := false
	for _, d := range dirs {
		hasPkg = hasPkg || d == wd
	}
	recursive := rapid.Bool().Draw(t, "recursive") || !hasPkg
	// where the command is run and how the directory is given
	switch rapid.IntRange(0, 3).Draw(t, "wd form") {
	case 0: // in the directory
		s.Cwd = wd
	case 1:
		set("working_directory", "{root}/"+wd, jsonOf("{root}/"+wd))
	case 2:
		s.Cwd = dirs[0]
		rel, _ := filepath.Rel(dirs[0], wd)
		set("working_directory", rel, jsonOf(rel))
	default:
		set("working_directory", "./"+wd, jsonOf("./"+wd))
	}
	if recursive {
		set("recursive", rapid.SampledFrom([]string{"", "true", "1"}).Draw(t, "r"), jsonOf(true))
	}
	if rapid.IntRange(0, 2).Draw(t, "with files") == 0 {
		var v []string
		for range rapid.IntRange(1, 2).Draw(t, "nf") {
			p := rapid.SampledFrom(paths).Draw(t, "f")
			switch rapid.IntRange(0, 3).Draw(t, "f form") {
			case 0:
				v = append(v, "{root}/"+p)
			case 1:
				rel, _ := filepath.Rel(wd, p)
				v = append(v, rel)
			case 2:
				rel, _ := filepath.Rel(wd, p)
				v = append(v, "./"+rel)
			default:
				v = append(v, filepath.Base(p))
			}
		}
		setList(s, "input_files", v, file("input_files"))
	}
	if rapid.IntRange(0, 2).Draw(t, "with rx") == 0 {
		var v []string
		for range rapid.IntRange(1, 2).Draw(t, "nrx") {
			v = append(v, rapid.SampledFrom([]string{`users`, `/a\.go$`, `_select\.go$`, `.`, `store/[^/]+\.go$`, `^users`, `(?i)USERS_`, `nothing`, `z\d\.go|b\.c`}).Draw(t, "rx"))
		}
		setList(s, "input_file_regexps", v, file("input_file_regexps"))
	}
}

func setList(s *cliScn, key string, v []string, file bool) {
	o := s.Opts[key]
	if file {
		o.File = jsonOf(v)
	} else {
		o.Flag = v
	}
	s.Opts[key] = o
}

// parallel runs scenarios and reports the problems of the given kinds.
func (e *cliEngine) all(rep *fw.Reporter, scns []*cliScn, kinds string, nontrivial func(s *cliScn, labels []string) bool) {
	type res struct {
		probs  []cliProblem
		labels []string
	}
	out := make([]res, len(scns))
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	var infra any
	for i := range scns {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() {
				if x := recover(); x != nil {
					e.mu.Lock()
					infra = x
					e.mu.Unlock()
				}
				<-sem
				wg.Done()
			}()
			out[i].probs, out[i].labels = e.run(scns[i])
		}(i)
	}
	wg.Wait()
	if infra != nil {
		panic(infra)
	}
	relevant := func(ps []cliProblem) (q []cliProblem) {
		for _, p := range ps {
			if contains(strings.Fields(kinds), p.kind) {
				q = append(q, p)
			}
		}
		return q
	}
	shrunk := 0
	for i, s := range scns {
		rep.Case(s, nontrivial(s, out[i].labels), out[i].labels...)
		if ps := relevant(out[i].probs); len(ps) > 0 {
			if shrunk < 3 {
				shrunk++
				s, ps = e.shrink(s, ps, relevant)
			}
			rep.Fail(s, cliError(ps))
		}
	}
}

func cliError(ps []cliProblem) error {
	var msgs []string
	for _, p := range ps {
		msgs = append(msgs, p.msg)
	}
	if len(msgs) > 3 {
		msgs = msgs[:3]
	}
	return fmt.Errorf("%s", strings.Join(msgs, "\n"))
}

// shrink drops parts of a scenario for as long as the same kind of problem remains.
func (e *cliEngine) shrink(s *cliScn, ps []cliProblem, relevant func([]cliProblem) []cliProblem) (*cliScn, []cliProblem) {
	tries := 0
	try := func(c *cliScn) bool {
		if tries++; tries > 40 {
			return false
		}
		q, _ := e.run(c)
		if q = relevant(q); len(q) > 0 && q[0].kind == ps[0].kind {
			s, ps = c, q
			return true
		}
		return false
	}
	clone := func() *cliScn {
		b, _ := json.Marshal(s)
		c := new(cliScn)
		json.Unmarshal(b, c)
		return c
	}
	for again := true; again && tries < 40; {
		again = false
		for i := 0; i < len(s.Pkgs) && len(s.Pkgs) > 1; i++ {
			c := clone()
			c.Pkgs = append(c.Pkgs[:i:i], c.Pkgs[i+1:]...)
			opts, _ := json.Marshal(s.Opts)
			if strings.HasPrefix(s.Cwd, s.Pkgs[i].Dir) || strings.Contains(string(opts), s.Pkgs[i].Dir) || strings.Contains(s.CfgAt, s.Pkgs[i].Dir) {
				continue
			}
			if try(c) {
				again = true
				i--
			}
		}
		for i := range s.Pkgs {
			for j := 0; j < len(s.Pkgs[i].Files) && len(s.Pkgs[i].Files) > 1; j++ {
				c := clone()
				c.Pkgs[i].Files = append(c.Pkgs[i].Files[:j:j], c.Pkgs[i].Files[j+1:]...)
				if try(c) {
					again = true
					j--
				}
			}
			for j := range s.Pkgs[i].Files {
				for k := 0; k < len(s.Pkgs[i].Files[j].Types); k++ {
					c := clone()
					f := &c.Pkgs[i].Files[j]
					f.Types = append(f.Types[:k:k], f.Types[k+1:]...)
					if try(c) {
						again = true
						k--
					}
				}
			}
		}
		var keys []string
		for k := range s.Opts {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if k == "database_dsn" {
				continue
			}
			c := clone()
			delete(c.Opts, k)
			if try(c) {
				again = true
			}
		}
	}
	return s, ps
}

func (e *cliEngine) replay(raw json.RawMessage, kinds string) error {
	s := new(cliScn)
	if err := json.Unmarshal(raw, s); err != nil {
		return err
	}
	probs, _ := e.run(s)
	var ps []cliProblem
	for _, p := range probs {
		if contains(strings.Fields(kinds), p.kind) {
			ps = append(ps, p)
		}
	}
	if len(ps) > 0 {
		return cliError(ps)
	}
	return nil
}
