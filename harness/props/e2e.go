package props

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/frk/gosql/vh/fw"
)

// The end-to-end engine: query structs rendered as Go source are given to the
// gosql CLI built from /repo, the generated methods are compiled into a runner
// program that executes them against a throwaway PostgreSQL, and the outcome of
// every execution is read back as JSON.

var cliBuild struct {
	once sync.Once
	path string
	err  error
}

// buildCLI builds cmd/gosql from /repo's working tree.
func buildCLI(r *fw.Run) string {
	cliBuild.once.Do(func() {
		dir := r.TempDir()
		cliBuild.path = filepath.Join(dir, "gosql")
		cmd := exec.Command("go", "build", "-o", cliBuild.path, "github.com/frk/gosql/cmd/gosql")
		cmd.Dir = filepath.Join(r.VerifDir, "harness")
		out, err := cmd.CombinedOutput()
		if err != nil {
			cliBuild.err = fmt.Errorf("building the CLI: %v\n%s", err, out)
		}
	})
	fw.InfraPanic(cliBuild.err)
	return cliBuild.path
}

// runCmd runs a command with a time limit.
func runCmd(dir string, env []string, timeout time.Duration, name string, args ...string) (stdout, stderr string, code int) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if ctx.Err() != nil {
		return o.String(), e.String() + "\n(timed out)", -1
	}
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			return o.String(), e.String(), x.ExitCode()
		}
		fw.InfraPanic(err)
	}
	return o.String(), e.String(), 0
}

// e2eCase is a case the engine can run.
type e2eCase interface {
	// QSource is the content of the file with the query type (package q); the
	// names of all declared types end in "_"+id... e.g. SelectQ17.
	QSource(id int) string
	// RunSource is the content of the runner's file (package main).
	RunSource(id int) string
	// Inputs is the number of executions.
	Inputs() int
}

// e2eOut is the outcome of one execution.
type e2eOut struct {
	Case, Input int
	Err         string
	Vals        map[string]any
	Rows        map[string][][]string
	Panic       string
}

// e2eRes is the outcome of a case.
type e2eRes struct {
	Rejected string // the CLI's error message, when it rejected the query
	Compile  string // the compiler's complaint, when the generated code did not build
	Out      []*e2eOut
	Gen      string // the generated code
}

type e2eEngine struct {
	r       *fw.Run
	dsn     string
	dir     string
	n       int
	cliArgs []string
	// Extra runner source (package main), and extra q package source.
	Extra  string
	QExtra string
	// Files are other files of the module.
	Files map[string]string
}

func newE2E(r *fw.Run, dbname string) *e2eEngine {
	buildCLI(r)
	return &e2eEngine{r: r, dsn: r.Cluster().DSN(dbname), dir: r.TempDir()}
}

var goModCache struct {
	once sync.Once
	mod  string
	sum  []byte
}

// scaffold makes a fresh module directory.
func scaffold(r *fw.Run, dir string) {
	goModCache.once.Do(func() {
		h := filepath.Join(r.VerifDir, "harness")
		mod, err := os.ReadFile(filepath.Join(h, "go.mod"))
		fw.InfraPanic(err)
		sum, err := os.ReadFile(filepath.Join(h, "go.sum"))
		fw.InfraPanic(err)
		s := strings.Replace(string(mod), "module github.com/frk/gosql/vh", "module vhgen", 1)
		goModCache.mod, goModCache.sum = s, sum
	})
	fw.InfraPanic(os.MkdirAll(filepath.Join(dir, "q"), 0o755))
	fw.InfraPanic(os.WriteFile(filepath.Join(dir, "go.mod"), []byte(goModCache.mod), 0o644))
	fw.InfraPanic(os.WriteFile(filepath.Join(dir, "go.sum"), goModCache.sum, 0o644))
}

var rxCaseName = regexp.MustCompile(`(?:Q|_)(\d+)\b`)
var rxCaseFile = regexp.MustCompile(`q(\d+)(?:_gosql)?\.go`)

// run runs a batch of cases.
func (e *e2eEngine) run(cases []e2eCase) []*e2eRes {
	out := make([]*e2eRes, len(cases))
	for i := range out {
		out[i] = &e2eRes{}
	}
	alive := make([]int, len(cases))
	for i := range alive {
		alive[i] = i
	}
	e.n++
	dir := filepath.Join(e.dir, "b"+strconv.Itoa(e.n))
	defer os.RemoveAll(dir)

	// 1. generate; drop the cases that the CLI rejects
	scaffold(e.r, dir)
	qdir := filepath.Join(dir, "q")
	fw.InfraPanic(os.WriteFile(filepath.Join(qdir, "base.go"), []byte("package q\n"+e.QExtra), 0o644))
	e.writeFiles(dir)
	for _, i := range alive {
		fw.InfraPanic(os.WriteFile(filepath.Join(qdir, fmt.Sprintf("q%d.go", i)), []byte(cases[i].QSource(i)), 0o644))
	}
	drop := func(i int) {
		for k, j := range alive {
			if j == i {
				alive = append(alive[:k:k], alive[k+1:]...)
				break
			}
		}
		os.Remove(filepath.Join(qdir, fmt.Sprintf("q%d.go", i)))
		os.Remove(filepath.Join(qdir, fmt.Sprintf("q%d_gosql.go", i)))
	}
	for len(alive) > 0 {
		args := append([]string{"-db", e.dsn, "-wd", qdir}, e.cliArgs...)
		_, stderr, code := runCmd(dir, nil, 5*time.Minute, cliBuild.path, args...)
		if code == 0 {
			break
		}
		if code == -1 {
			fw.InfraPanic(fmt.Errorf("the CLI timed out: %s", stderr))
		}
		// find the case that the message is about
		m := rxCaseFile.FindStringSubmatch(stderr)
		if m == nil {
			m = regexp.MustCompile(`\bQ(\d+)\b|[a-z]Q(\d+)\b`).FindStringSubmatch(stderr)
			if m != nil && m[1] == "" {
				m[1] = m[2]
			}
		}
		bad := -1
		if m != nil {
			n, _ := strconv.Atoi(m[1])
			for _, i := range alive {
				if i == n {
					bad = n
				}
			}
		}
		if bad < 0 {
			// bisect
			bad = e.bisectReject(dir, alive, args)
			if bad < 0 {
				fw.InfraPanic(fmt.Errorf("the CLI failed on a batch, but on none of its cases alone:\n%s", stderr))
			}
		}
		out[bad].Rejected = strings.TrimSpace(stderr)
		drop(bad)
	}
	if len(alive) == 0 {
		return out
	}
	for _, i := range alive {
		b, err := os.ReadFile(filepath.Join(qdir, fmt.Sprintf("q%d_gosql.go", i)))
		if err == nil {
			out[i].Gen = string(b)
		}
	}

	// 2. compile; drop the cases whose code does not build
	fw.InfraPanic(os.WriteFile(filepath.Join(dir, "main.go"), []byte(runnerMain), 0o644))
	if e.Extra != "" {
		fw.InfraPanic(os.WriteFile(filepath.Join(dir, "extra.go"), []byte(e.Extra), 0o644))
	}
	for _, i := range alive {
		fw.InfraPanic(os.WriteFile(filepath.Join(dir, fmt.Sprintf("q%d.go", i)), []byte(cases[i].RunSource(i)), 0o644))
	}
	bin := filepath.Join(dir, "runner")
	for {
		_, stderr, code := runCmd(dir, nil, 10*time.Minute, "go", "build", "-gcflags=-e", "-o", bin, ".")
		if code == 0 {
			break
		}
		bad := map[int][]string{}
		for _, line := range strings.Split(stderr, "\n") {
			if m := rxCaseFile.FindStringSubmatch(line); m != nil {
				n, _ := strconv.Atoi(m[1])
				bad[n] = append(bad[n], line)
			}
		}
		if len(bad) == 0 {
			fw.InfraPanic(fmt.Errorf("the runner does not build:\n%s", stderr))
		}
		for n, lines := range bad {
			out[n].Compile = strings.Join(lines, "\n")
			drop(n)
			os.Remove(filepath.Join(dir, fmt.Sprintf("q%d.go", n)))
		}
		if len(alive) == 0 {
			return out
		}
	}

	// 3. run
	stdout, stderr, code := runCmd(dir, []string{"VH_DSN=" + e.dsn}, 10*time.Minute, bin)
	if code != 0 {
		fw.InfraPanic(fmt.Errorf("the runner failed (%d):\n%s\n%s", code, tail(stdout, 2000), tail(stderr, 4000)))
	}
	sc := bufio.NewScanner(strings.NewReader(stdout))
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		o := new(e2eOut)
		d := json.NewDecoder(bytes.NewReader(sc.Bytes()))
		if err := d.Decode(o); err != nil {
			fw.InfraPanic(fmt.Errorf("bad runner output: %v: %s", err, sc.Text()))
		}
		out[o.Case].Out = append(out[o.Case].Out, o)
	}
	for _, i := range alive {
		sort.Slice(out[i].Out, func(a, b int) bool { return out[i].Out[a].Input < out[i].Out[b].Input })
		if len(out[i].Out) != cases[i].Inputs() {
			fw.InfraPanic(fmt.Errorf("case %d: %d outcomes for %d inputs", i, len(out[i].Out), cases[i].Inputs()))
		}
	}
	return out
}

// writeFiles writes the other files of the module.
func (e *e2eEngine) writeFiles(dir string) {
	for name, text := range e.Files {
		fw.InfraPanic(os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755))
		fw.InfraPanic(os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644))
	}
}

// wellTyped reports which of the cases are well-typed Go before anything is generated.
func (e *e2eEngine) wellTyped(cases []e2eCase) []bool {
	out := make([]bool, len(cases))
	e.n++
	dir := filepath.Join(e.dir, "w"+strconv.Itoa(e.n))
	defer os.RemoveAll(dir)
	scaffold(e.r, dir)
	q := filepath.Join(dir, "q")
	fw.InfraPanic(os.WriteFile(filepath.Join(q, "base.go"), []byte("package q\n"+e.QExtra), 0o644))
	e.writeFiles(dir)
	for i, c := range cases {
		out[i] = true
		fw.InfraPanic(os.WriteFile(filepath.Join(q, fmt.Sprintf("q%d.go", i)), []byte(c.QSource(i)), 0o644))
	}
	for {
		_, stderr, code := runCmd(dir, nil, 10*time.Minute, "go", "build", "-gcflags=-e", "./q")
		if code == 0 {
			return out
		}
		n := 0
		for _, m := range rxCaseFile.FindAllStringSubmatch(stderr, -1) {
			i, _ := strconv.Atoi(m[1])
			if out[i] {
				n++
				out[i] = false
				os.Remove(filepath.Join(q, fmt.Sprintf("q%d.go", i)))
			}
		}
		if n == 0 {
			fw.InfraPanic(fmt.Errorf("the declarations do not build:\n%s", stderr))
		}
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// bisectReject finds a case that the CLI rejects on its own.
func (e *e2eEngine) bisectReject(dir string, alive []int, args []string) int {
	for _, i := range alive {
		f := filepath.Join(dir, "q", fmt.Sprintf("q%d.go", i))
		_, _, code := runCmd(dir, nil, 5*time.Minute, cliBuild.path, append(args[:len(args):len(args)], "-f", f)...)
		if code != 0 {
			return i
		}
	}
	return -1
}

const runnerMain = `package main

import (
	"context"
	"database/sql"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"

	_ "github.com/lib/pq"
)

type runFunc func(t *T)

type entry struct {
	id, input int
	f         runFunc
}

var entries []entry

func reg(id, input int, f runFunc) { entries = append(entries, entry{id, input, f}) }

// T is the context of one execution.
type T struct {
	*sql.Tx
	Out struct {
		Case, Input int
		Err         string
		Vals        map[string]any
		Rows        map[string][][]string
		Panic       string
	}
}

func P[X any](x X) *X { return &x }

func (t *T) Err(err error) {
	if err == sql.ErrNoRows {
		t.Out.Err = "norows"
	} else if err != nil {
		t.Out.Err = err.Error()
	}
}

func (t *T) Val(name string, v any) { t.Out.Vals[name] = canon(reflect.ValueOf(v)) }

// Recs records the rows held by a record, a slice of records, pointers to them.
func (t *T) Recs(name string, v any) {
	t.Out.Rows[name] = [][]string{}
	rv := reflect.ValueOf(v)
	for rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			return
		}
		rv = rv.Elem()
	}
	if rv.Kind() == reflect.Slice {
		for i := 0; i < rv.Len(); i++ {
			t.Rec(name, rv.Index(i))
		}
		return
	}
	t.Rec(name, rv)
}

func (t *T) Rec(name string, rv reflect.Value) {
	for rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			t.Out.Rows[name] = append(t.Out.Rows[name], []string{"<nil>"})
			return
		}
		rv = rv.Elem()
	}
	var row []string
	flatten(rv, &row)
	t.Out.Rows[name] = append(t.Out.Rows[name], row)
}

func flatten(rv reflect.Value, row *[]string) {
	ty := rv.Type()
	for i := 0; i < ty.NumField(); i++ {
		tag := ty.Field(i).Tag.Get("sql")
		if tag == "" {
			continue
		}
		f := rv.Field(i)
		if strings.HasPrefix(tag, ">") {
			if f.Kind() == reflect.Ptr {
				if f.IsNil() {
					flatten(reflect.New(f.Type().Elem()).Elem(), row)
					*row = append(*row, "(nil)")
					continue
				}
				f = f.Elem()
			}
			flatten(f, row)
			continue
		}
		*row = append(*row, canon(f))
	}
}

func canon(v reflect.Value) string {
	if !v.IsValid() {
		return "null"
	}
	if v.Kind() == reflect.Interface {
		if v.IsNil() {
			return "null"
		}
		v = v.Elem()
	}
	if v.CanInterface() {
		if t, ok := v.Interface().(time.Time); ok {
			return "t:" + t.UTC().Format(time.RFC3339Nano)
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "null"
		}
		return canon(v.Elem())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return "i:" + strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return "i:" + strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		return "f:" + strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.Bool:
		return "b:" + strconv.FormatBool(v.Bool())
	case reflect.String:
		return "s:" + v.String()
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return "s:" + string(v.Bytes())
		}
	}
	b, _ := json.Marshal(v.Interface())
	return "j:" + string(b)
}

// Dump records the content of a table.
func (t *T) Dump(table, order string) {
	if t.Out.Err != "" && t.Out.Err != "norows" {
		return // the transaction is aborted
	}
	rows, err := t.Tx.Query("SELECT * FROM \"" + table + "\" ORDER BY " + order)
	if err != nil {
		t.Out.Err += " [dump: " + err.Error() + "]"
		return
	}
	defer rows.Close()
	cols, _ := rows.Columns()
	t.Out.Rows["table "+table] = [][]string{}
	for rows.Next() {
		vals := make([]any, len(cols))
		ptrs := make([]any, len(cols))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		if err := rows.Scan(ptrs...); err != nil {
			t.Out.Err += " [dump: " + err.Error() + "]"
			return
		}
		row := make([]string, len(cols))
		for i, v := range vals {
			row[i] = canon(reflect.ValueOf(v))
		}
		t.Out.Rows["table "+table] = append(t.Out.Rows["table "+table], row)
	}
}

var prelude []string

func main() {
	db, err := sql.Open("postgres", os.Getenv("VH_DSN"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	db.SetMaxOpenConns(1)
	w := json.NewEncoder(os.Stdout)
	for _, e := range entries {
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		tx, err := db.BeginTx(ctx, nil)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for _, p := range prelude {
			if _, err := tx.Exec(p); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
		}
		t := &T{Tx: tx}
		t.Out.Case, t.Out.Input = e.id, e.input
		t.Out.Vals, t.Out.Rows = map[string]any{}, map[string][][]string{}
		func() {
			defer func() {
				if p := recover(); p != nil {
					t.Out.Panic = fmt.Sprint(p)
				}
			}()
			e.f(t)
		}()
		tx.Rollback()
		cancel()
		if err := w.Encode(&t.Out); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
}
`

var verdictsBuild struct {
	once sync.Once
	path string
	err  error
}

// verdicts is what the generator says of each case on its own; it is empty if
// the case is accepted.
func (e *e2eEngine) verdicts(cases []e2eCase) []string {
	out := make([]string, len(cases))
	verdictsBuild.once.Do(func() {
		verdictsBuild.path = filepath.Join(e.r.TempDir(), "verdicts")
		cmd := exec.Command("go", "build", "-o", verdictsBuild.path, "./cmd/verdicts")
		cmd.Dir = filepath.Join(e.r.VerifDir, "harness")
		if msg, err := cmd.CombinedOutput(); err != nil {
			verdictsBuild.err = err
			fmt.Fprintf(os.Stderr, "cmd/verdicts does not build, using the CLI: %v\n%s", err, head(string(msg), 500))
		}
	})
	dirs := e.r.TempDir()
	defer os.RemoveAll(dirs)
	rest := make([]int, 0, len(cases))
	if verdictsBuild.err == nil && len(e.cliArgs) == 0 {
		dir := filepath.Join(dirs, "all")
		scaffold(e.r, dir)
		q := filepath.Join(dir, "q")
		fw.InfraPanic(os.WriteFile(filepath.Join(q, "base.go"), []byte("package q\n"+e.QExtra), 0o644))
		e.writeFiles(dir)
		for i, c := range cases {
			fw.InfraPanic(os.WriteFile(filepath.Join(q, fmt.Sprintf("q%d.go", i)), []byte(c.QSource(i)), 0o644))
		}
		stdout, stderr, code := runCmd(dir, nil, 5*time.Minute, verdictsBuild.path, e.dsn, q)
		got := map[string]string{}
		if code == 0 {
			fw.InfraPanic(json.Unmarshal([]byte(stdout), &got))
		} else {
			fmt.Fprintf(os.Stderr, "cmd/verdicts failed, using the CLI: %s\n", head(stderr, 500))
		}
		for i := range cases {
			m, ok := got[fmt.Sprintf("q%d.go", i)]
			if !ok {
				rest = append(rest, i)
			}
			out[i] = m
		}
	} else {
		for i := range cases {
			rest = append(rest, i)
		}
	}
	var wg sync.WaitGroup
	sem := make(chan int, 8)
	for _, i := range rest {
		wg.Add(1)
		sem <- 1
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			out[i] = e.verdict(fmt.Sprintf("%s/a%d", dirs, i), cases[i])
		}(i)
	}
	wg.Wait()
	return out
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// verdict is what the CLI says of a case; it is empty if the case is accepted.
func (e *e2eEngine) verdict(dir string, c e2eCase) string {
	scaffold(e.r, dir)
	defer os.RemoveAll(dir)
	q := filepath.Join(dir, "q")
	fw.InfraPanic(os.WriteFile(filepath.Join(q, "q0.go"), []byte(c.QSource(0)), 0o644))
	if e.QExtra != "" {
		fw.InfraPanic(os.WriteFile(filepath.Join(q, "base.go"), []byte("package q\n"+e.QExtra), 0o644))
	}
	e.writeFiles(dir)
	stdout, stderr, code := runCmd(dir, nil, 5*time.Minute, cliBuild.path, append([]string{"-db", e.dsn, "-wd", q}, e.cliArgs...)...)
	if code == -1 {
		fw.InfraPanic(fmt.Errorf("the CLI timed out: %s", stderr))
	}
	if code != 0 && stderr+stdout == "" {
		return fmt.Sprintf("exit status %d", code)
	}
	if code == 0 {
		return ""
	}
	return strings.TrimSpace(stderr + stdout)
}
