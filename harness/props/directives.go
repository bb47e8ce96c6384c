package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/frk/gosql/vh/fw"

	"pgregory.net/rapid"
)

// P32: whatever a query struct declares takes effect, or the struct is refused. A
// struct that is accepted with a member (a directive, a special field, an item of a
// nested struct) yields other code than the same struct without that member.

const dSchema = `
CREATE TABLE da (id int4 PRIMARY KEY, n int4, m int4 NOT NULL DEFAULT 1, d text DEFAULT 'x', t text, ro text DEFAULT 'r', CONSTRAINT da_n UNIQUE (n), CONSTRAINT da_t UNIQUE (t, m), gid int4 GENERATED BY DEFAULT AS IDENTITY);
CREATE INDEX da_plain ON da (m);
CREATE UNIQUE INDEX da_lower ON da (lower(t));
CREATE TABLE dbb (id int4 PRIMARY KEY, a_id int4, t text);
CREATE TABLE dc (id int4 PRIMARY KEY, b_id int4, f bool);
`

const dQ = `
import "github.com/frk/gosql"

type DRec struct {
	Id int    ` + "`sql:\"id\"`" + `
	N  int    ` + "`sql:\"n\"`" + `
	M  int    ` + "`sql:\"m\"`" + `
	D  string ` + "`sql:\"d\"`" + `
	T  string ` + "`sql:\"t\"`" + `
	Ro string ` + "`sql:\"ro,ro\"`" + `
}

type DRes struct {
	Id int    ` + "`sql:\"id\"`" + `
	T  string ` + "`sql:\"t\"`" + `
}

type DRes2 struct {
	Id int ` + "`sql:\"id\"`" + `
}

type DHandler struct{}

func (DHandler) HandleError(err error) error { return err }

type DInfoHandler struct{}

func (*DInfoHandler) HandleErrorInfo(i *gosql.ErrorInfo) error { return i.Error }
`

// dRels are the shapes of the rel field.
var dRels = []string{"Rel *DRec", "Rel []*DRec", "Rel []DRec", "Rel DRec", "Rel func(*DRec) error", "_ gosql.Relation", "Count int", "Exists bool", "NotExists bool"}

// dMembers are the members by the struct that holds them ("" is the query struct).
var dMembers = map[string][]string{
	"": {
		"_ gosql.OrderBy `sql:\"a.id\"`", "_ gosql.OrderBy `sql:\"-a.n:nullslast\"`", "_ gosql.Limit `sql:\"5\"`", "Limit int", "limit uint8", "_ gosql.Offset `sql:\"3\"`", "Offset int64", "offset int",
		"_ gosql.Return `sql:\"*\"`", "_ gosql.Return `sql:\"a.id\"`", "_ gosql.Return `sql:\"a.t,a.n\"`", "Result []*DRes", "Result *DRes2", "result []DRes2", "RowsAffected int", "rowsaffected int64",
		"_ gosql.All", "F gosql.Filter", "F2 gosql.Filter", "Ctx context.Context", "C2 context.Context", "EH gosql.ErrorHandler", "EIH gosql.ErrorInfoHandler", "DHandler", "*DInfoHandler",
		"_ gosql.Force `sql:\"a.ro\"`", "_ gosql.Force `sql:\"*\"`", "_ gosql.Default `sql:\"a.m\"`", "_ gosql.Default `sql:\"a.d\"`", "_ gosql.Override `sql:\"user\"`", "_ gosql.Override `sql:\"system\"`",
		"_ gosql.TextSearch `sql:\"a.t\"`", "_ gosql.Ignore", "_ gosql.Update `sql:\"a.t\"`", "_ gosql.Column `sql:\"a.id\"`", "_ gosql.Index `sql:\"da_lower\"`", "_ gosql.Constraint `sql:\"da_n\"`", "_ gosql.LeftJoin `sql:\"dbb:b\"`",
	},
	"Where": {"Id int `sql:\"a.id\"`", "N int `sql:\"a.n >\"`", "T []string `sql:\"a.t isin\" bool:\"or\"`", "_ gosql.Column `sql:\"a.t isnull\"`", "_ gosql.Column `sql:\"a.m = a.n\" bool:\"or\"`", "Sub struct {\n\t\t\tM int `sql:\"a.m <\"`\n\t\t} `sql:\">\"`",
		"B struct {\n\t\t\tX int `sql:\"x\"`\n\t\t\tY int `sql:\"y\"`\n\t\t} `sql:\"a.m isbetween\"`", "BT string `sql:\"b.t\"`", "_ gosql.Column `sql:\"c.f istrue\"`", "_ gosql.OrderBy `sql:\"a.id\"`", "_ gosql.Limit `sql:\"2\"`"},
	"where":      {"Id2 int `sql:\"a.id\"`"},
	"Join":       {"_ gosql.LeftJoin `sql:\"dbb:b,b.a_id = a.id\"`", "_ gosql.InnerJoin `sql:\"dc:c,c.id = a.n\"`", "_ gosql.CrossJoin `sql:\"dbb:x\"`", "_ gosql.Relation `sql:\"dbb:b\"`"},
	"join":       {"_ gosql.RightJoin `sql:\"dbb:y,y.id = a.id\"`"},
	"From":       {"_ gosql.Relation `sql:\"dbb:b\"`", "_ gosql.LeftJoin `sql:\"dc:c,c.b_id = b.id\"`", "_ gosql.Relation `sql:\"dc:c\"`"},
	"from":       {"_ gosql.Relation `sql:\"dc:e\"`"},
	"Using":      {"_ gosql.Relation `sql:\"dbb:b\"`", "_ gosql.LeftJoin `sql:\"dc:c,c.b_id = b.id\"`", "_ gosql.Relation `sql:\"dc:c\"`"},
	"using":      {"_ gosql.Relation `sql:\"dc:e\"`"},
	"OnConflict": {"_ gosql.Column `sql:\"a.id\"`", "_ gosql.Column `sql:\"a.t,a.m\"`", "_ gosql.Index `sql:\"da_lower\"`", "_ gosql.Constraint `sql:\"da_n\"`", "_ gosql.Ignore", "_ gosql.Update `sql:\"a.t\"`", "_ gosql.Update `sql:\"*\"`"},
	"onconflict": {"_ gosql.Ignore", "_ gosql.Constraint `sql:\"da_n\"`", "_ gosql.Update `sql:\"a.n\"`"},
}

// dGroups are the structs that a kind of query may have.
var dGroups = map[string][]string{
	"Select": {"Where", "Join", "Join", "where", "join"}, "Insert": {"OnConflict", "OnConflict", "onconflict"}, "Update": {"Where", "Where", "From", "From", "where", "from"}, "Delete": {"Where", "Where", "Using", "Using", "where", "using"},
}

// dMember is a member.
type dMember struct {
	In   string `json:",omitempty"`
	Text string
}

// dCase is a query struct.
type dCase struct {
	Kind    string
	Rel     string
	Members []dMember
}

func (c *dCase) QSource(id int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "type %sQ%d struct {\n\t%s `rel:\"da:a\"`\n", c.Kind, id, c.Rel)
	done := map[string]bool{}
	for _, m := range c.Members {
		if m.In == "" {
			fmt.Fprintf(&b, "\t%s\n", m.Text)
			continue
		}
		if done[m.In] {
			continue
		}
		done[m.In] = true
		fmt.Fprintf(&b, "\t%s struct {\n", m.In)
		for _, x := range c.Members {
			if x.In == m.In {
				fmt.Fprintf(&b, "\t\t%s\n", x.Text)
			}
		}
		b.WriteString("\t}\n")
	}
	b.WriteString("}\n")
	src := b.String()
	h := "package q\n\nimport (\n"
	if strings.Contains(src, "context.") {
		h += "\t\"context\"\n"
	}
	if strings.Contains(src, "gosql.") {
		h += "\t\"github.com/frk/gosql\"\n"
	}
	return h + ")\n\n" + src
}

func (c *dCase) Inputs() int             { return 1 }
func (c *dCase) RunSource(id int) string { return "package main\n" }

// without is the case without its ith member.
func (c *dCase) without(i int) *dCase {
	d := &dCase{Kind: c.Kind, Rel: c.Rel}
	d.Members = append(append(d.Members, c.Members[:i]...), c.Members[i+1:]...)
	return d
}

// idle reports whether a member needn't have an effect.
func (c *dCase) idle(m dMember) bool {
	switch {
	case strings.Contains(m.Text, "gosql.All"):
		return true // says that there are no conditions on purpose
	case c.Rel == "Count int" && m.In == "" && (strings.Contains(m.Text, "OrderBy") || strings.Contains(strings.ToLower(m.Text), "limit") || strings.Contains(strings.ToLower(m.Text), "offset")):
		return true // the number of the rows that match doesn't depend on them
	case strings.EqualFold(m.In, "OnConflict") && strings.Contains(m.Text, "Ignore"):
		return true // what a conflict target without an action stands for
	}
	return false
}

func dGen(t *rapid.T) *dCase {
	c := &dCase{Kind: rapid.SampledFrom([]string{"Select", "Select", "Insert", "Insert", "Update", "Delete"}).Draw(t, "kind")}
	c.Rel = rapid.SampledFrom(dRels).Draw(t, "rel")
	seen := map[string]bool{}
	for n := rapid.IntRange(1, 5).Draw(t, "members"); n > 0; n-- {
		m := dMember{}
		if rapid.IntRange(0, 99).Draw(t, "nested") < 55 {
			m.In = rapid.SampledFrom(dGroups[c.Kind]).Draw(t, "struct")
			if k := len(c.Members); k > 0 && rapid.Bool().Draw(t, "same") {
				m.In = c.Members[k-1].In
			}
		}
		m.Text = rapid.SampledFrom(dMembers[m.In]).Draw(t, "member")
		name, _, _ := strings.Cut(strings.TrimPrefix(m.Text, "*"), " ")
		if k := m.In + "/" + name; name != "_" && seen[k] || seen[m.In+"/"+m.Text] && rapid.IntRange(0, 9).Draw(t, "again") > 0 {
			continue // Go has no duplicate fields
		} else {
			seen[k] = true
			seen[m.In+"/"+m.Text] = true
		}
		c.Members = append(c.Members, m)
	}
	// what makes the member's struct complete
	has := func(in string) bool {
		for _, m := range c.Members {
			if m.In == in {
				return true
			}
		}
		return false
	}
	if (has("From") || has("Using")) && rapid.IntRange(0, 9).Draw(t, "relation") > 1 {
		in := "From"
		if has("Using") {
			in = "Using"
		}
		c.Members = append([]dMember{{in, "_ gosql.Relation `sql:\"dbb:b\"`"}}, c.Members...)
	}
	return c
}

var rxDName = regexp.MustCompile(`Q\d+\b`)

// dCode gives the verdicts on cases and the code that is generated.
func dCode(e *e2eEngine, cases []e2eCase) (msgs, codes []string) {
	msgs = e.verdicts(cases)
	codes = make([]string, len(cases))
	dir := filepath.Join(e.r.TempDir(), "code")
	defer os.RemoveAll(dir)
	scaffold(e.r, dir)
	q := filepath.Join(dir, "q")
	fw.InfraPanic(os.WriteFile(filepath.Join(q, "base.go"), []byte("package q\n"+e.QExtra), 0o644))
	n := 0
	for i, c := range cases {
		if msgs[i] == "" {
			n++
			fw.InfraPanic(os.WriteFile(filepath.Join(q, fmt.Sprintf("q%d.go", i)), []byte(c.QSource(i)), 0o644))
		}
	}
	if n == 0 {
		return msgs, codes
	}
	_, stderr, code := e.cli(dir, q)
	if code != 0 {
		// one that was accepted on its own is refused now
		for i := range cases {
			if strings.Contains(stderr, fmt.Sprintf("/q%d.go", i)) {
				msgs[i] = stderr
			}
		}
		return msgs, nil
	}
	for i := range cases {
		if msgs[i] == "" {
			b, err := os.ReadFile(filepath.Join(q, fmt.Sprintf("q%d_gosql.go", i)))
			fw.InfraPanic(err)
			codes[i] = rxDName.ReplaceAllString(string(b), "Q")
		}
	}
	return msgs, codes
}

func (e *e2eEngine) cli(dir, q string) (stdout, stderr string, code int) {
	return runCmd(dir, nil, 5*time.Minute, cliBuild.path, append([]string{"-db", e.dsn, "-wd", q}, e.cliArgs...)...)
}

func dSub(r *fw.Run) fw.Sub {
	var e *e2eEngine
	open := func() {
		if e == nil {
			r.DB("e2e_directives", dSchema)
			e = newE2E(r, "e2e_directives")
			e.QExtra = dQ
		}
	}
	type result struct {
		err      error
		msg      string
		accepted int
	}
	decide := func(cs []*dCase) []result {
		out := make([]result, len(cs))
		var all []e2eCase
		at := make([]int, len(cs))
		for i, c := range cs {
			at[i] = len(all)
			all = append(all, c)
			for j := range c.Members {
				all = append(all, c.without(j))
			}
		}
		msgs, codes := dCode(e, all)
		if codes == nil {
			fw.InfraPanic(fmt.Errorf("types that are accepted on their own are refused together"))
		}
		for i, c := range cs {
			out[i].msg = msgs[at[i]]
			if strings.Contains(out[i].msg, "goroutine ") {
				out[i].err = fmt.Errorf("the generator panics: %s", head(out[i].msg, 1500))
			}
			if out[i].msg != "" {
				continue
			}
			for j, m := range c.Members {
				k := at[i] + 1 + j
				if msgs[k] != "" || c.idle(m) {
					continue
				}
				out[i].accepted++
				if codes[k] == codes[at[i]] {
					out[i].err = fmt.Errorf("the struct is accepted, but its member %q has no effect: the code is the same without it\n%s\n%s", strings.TrimSpace(m.In+" "+m.Text), c.QSource(0), codes[k])
				}
			}
		}
		return out
	}
	return &fw.Custom{
		Name: "effects",
		Do: func(rep *fw.Reporter) {
			open()
			n := r.N(4500, 40000)
			for k := 0; n > 0 && !rep.Failed(); k++ {
				m := min(n, 300)
				n -= m
				cs := fw.Draws(r.Seed*37+uint64(k), m, dGen)
				res := decide(cs)
				for i, c := range cs {
					labels := []string{"kind " + c.Kind}
					if res[i].msg != "" {
						labels = append(labels, "refused")
					} else {
						labels = append(labels, "accepted "+c.Kind)
						for _, m := range c.Members {
							if m.In != "" {
								labels = append(labels, "accepted with "+m.In)
							}
						}
					}
					rep.Case(c, res[i].accepted > 0, labels...)
					if res[i].err == nil {
						continue
					}
					// shrink: leave out members as long as it fails
					err := res[i].err
				shrink:
					for j := 0; j < len(c.Members); j++ {
						d := c.without(j)
						if e2 := decide([]*dCase{d})[0].err; e2 != nil {
							c, err = d, e2
							goto shrink
						}
					}
					rep.Fail(c, err)
				}
			}
		},
		ReplayCase: func(raw json.RawMessage) error {
			open()
			c := new(dCase)
			fw.InfraPanic(json.Unmarshal(raw, c))
			return decide([]*dCase{c})[0].err
		},
	}
}

func init() {
	fw.Register(&fw.Property{
		ID:   "P32",
		Rule: "a query struct counts as non-trivial when it is accepted, and so is the same struct without one of its members, so that the code of the two is compared",
		Subs: func(r *fw.Run) []fw.Sub { return []fw.Sub{dSub(r)} },
	})
}
