// Package fw is the framework shared by all the checks: it drives rapid over
// the generators of a property, counts what was generated, writes the evidence
// file and turns shrunk failures into replay files.
package fw

import (
	"crypto/sha256"
	"database/sql"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/frk/gosql/vh/pgx"

	"pgregory.net/rapid"
)

// Property is one entry of properties.jsonl together with its decision procedure.
type Property struct {
	ID   string
	Rule string
	// Subs builds the sub-checks.
	Subs func(r *Run) []Sub
	// Assumptions that go to the evidence file.
	Assumptions []string
}

var registry = map[string]*Property{}

// Register adds a property.
func Register(p *Property) {
	if registry[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	registry[p.ID] = p
}

// Lookup finds a property.
func Lookup(id string) *Property { return registry[id] }

// IDs lists the registered properties.
func IDs() (ids []string) {
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Sub is one generated check of a property.
type Sub interface {
	SubName() string
	run(r *Run) *result
	replay(r *Run, raw json.RawMessage) error
}

// Infra marks an error as a failure of the environment, not of the property.
type Infra struct{ Err error }

func (e Infra) Error() string { return "infrastructure: " + e.Err.Error() }

// InfraPanic aborts the check with an error exit if err is not nil.
func InfraPanic(err error) {
	if err != nil {
		panic(Infra{err})
	}
}

// Check is a Sub over cases of type C.
type Check[C any] struct {
	Name string
	// Checks is the number of cases to generate.
	Checks int
	// Gen draws a case. All the choices come from t.
	Gen func(t *rapid.T) C
	// Test decides the property for one case; a nil error means that it holds.
	Test func(c C) error
	// Class reports whether the case is non-trivial, and the labels to count.
	Class func(c C) (nontrivial bool, labels []string)
	// Show renders the case for samples (optional).
	Show func(c C) any
	// Fixed cases that run before the generated ones (regressions).
	Fixed []C
}

// Labeled can be implemented by a case to collect labels found out during Test.
type result struct {
	sub        string
	evals      int
	distinct   map[[8]byte]struct{}
	labels     map[string]int
	samples    []any
	violations []violation
	infra      error
	wall       float64
}

type violation struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Show     any             `json:"shown,omitempty"`
	Seed     uint64          `json:"seed"`
	Tier     string          `json:"tier"`
}

// Run is one execution of a property's check.
type Run struct {
	ID       string
	Tier     string
	Seed     uint64
	RepoDir  string
	VerifDir string

	mu      sync.Mutex
	cluster *pgx.Cluster
	tmp     []string
	cleanup []func()
	known   map[string]string // known findings by key
	found   map[string]string // those that were met
}

// N picks the case count of the tier.
func (r *Run) N(quick, thorough int) int {
	if r.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Cluster returns the run's PostgreSQL cluster, starting it on first use.
func (r *Run) Cluster() *pgx.Cluster {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cluster == nil {
		c, err := pgx.Start()
		InfraPanic(err)
		r.cluster = c
	}
	return r.cluster
}

// DB creates a fresh database with the given schema.
func (r *Run) DB(name, script string) *sql.DB {
	c := r.Cluster()
	r.mu.Lock()
	defer r.mu.Unlock()
	db, err := c.CreateDB(name, script)
	InfraPanic(err)
	return db
}

// TempDir makes a scratch directory that is removed at the end of the run.
func (r *Run) TempDir() string {
	d, err := os.MkdirTemp("/tmp", "gosql-verif-work.")
	InfraPanic(err)
	r.mu.Lock()
	r.tmp = append(r.tmp, d)
	r.mu.Unlock()
	return d
}

// OnExit registers a function to run at the end.
func (r *Run) OnExit(f func()) {
	r.mu.Lock()
	r.cleanup = append(r.cleanup, f)
	r.mu.Unlock()
}

// Close releases everything the run holds.
func (r *Run) Close() {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, f := range r.cleanup {
		f()
	}
	r.cleanup = nil
	if r.cluster != nil {
		r.cluster.Stop()
		r.cluster = nil
	}
	for _, d := range r.tmp {
		if strings.HasPrefix(d, "/tmp/gosql-verif-work.") {
			os.RemoveAll(d)
		}
	}
	r.tmp = nil
}

func (c *Check[C]) SubName() string { return c.Name }

func (c *Check[C]) safeTest(x C) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if inf, ok := p.(Infra); ok {
				panic(inf)
			}
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	return c.Test(x)
}

func trimStack(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 2500 {
		s = s[:2500] + "..."
	}
	return s
}

// tb is the minimal rapid.TB.
type tb struct {
	name   string
	failed bool
	log    []string
}

type failNow struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return t.name }
func (t *tb) Logf(f string, a ...any)   { t.log = append(t.log, fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.log = append(t.log, fmt.Sprintln(a...)) }
func (t *tb) Skipf(f string, a ...any)  { panic("skip") }
func (t *tb) Skip(a ...any)             { panic("skip") }
func (t *tb) SkipNow()                  { panic("skip") }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(failNow{}) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); panic(failNow{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(failNow{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

var rapidFlags sync.Mutex

func (c *Check[C]) record(res *result, x C) {
	res.evals++
	nontrivial, labels := true, []string(nil)
	if c.Class != nil {
		nontrivial, labels = c.Class(x)
	}
	for _, l := range labels {
		res.labels[l]++
	}
	if nontrivial {
		res.labels["(nontrivial)"]++
		raw, err := json.Marshal(x)
		if err != nil {
			panic(Infra{fmt.Errorf("case of %s is not serialisable: %v", c.Name, err)})
		}
		h := sha256.Sum256(raw)
		var k [8]byte
		copy(k[:], h[:])
		if _, ok := res.distinct[k]; !ok {
			res.distinct[k] = struct{}{}
			if n := len(res.distinct); len(res.samples) < 6 && (n == 1 || n == 10 || n == 50 || n == 200 || n == 1000 || n == 3000) {
				if len(raw) < 4000 {
					if c.Show != nil {
						res.samples = append(res.samples, map[string]any{"sub": c.Name, "case": c.Show(x)})
					} else {
						res.samples = append(res.samples, map[string]any{"sub": c.Name, "case": json.RawMessage(raw)})
					}
				}
			}
		}
	}
}

func (c *Check[C]) run(r *Run) (res *result) {
	start := time.Now()
	res = &result{sub: c.Name, distinct: map[[8]byte]struct{}{}, labels: map[string]int{}}
	defer func() { res.wall = time.Since(start).Seconds() }()
	defer func() {
		if p := recover(); p != nil {
			if inf, ok := p.(Infra); ok {
				res.infra = inf
				return
			}
			res.infra = fmt.Errorf("panic in harness: %v\n%s", p, debug.Stack())
		}
	}()

	fail := func(x C, err error) {
		raw, merr := json.Marshal(x)
		if merr != nil {
			panic(Infra{merr})
		}
		v := violation{Property: r.ID, Sub: c.Name, Error: err.Error(), Case: raw, Seed: r.Seed, Tier: r.Tier}
		if c.Show != nil {
			v.Show = c.Show(x)
		}
		res.violations = append(res.violations, v)
	}

	for _, x := range c.Fixed {
		c.record(res, x)
		if err := c.safeTest(x); err != nil {
			fail(x, err)
			return res
		}
	}
	if c.Checks == 0 {
		return res
	}

	var lastCase C
	var lastErr error
	var infra error
	locked := true
	rapidFlags.Lock()
	defer func() {
		if locked {
			rapidFlags.Unlock()
		}
	}()
	// rapid treats seed 0 as "random": remap.
	seed := r.Seed*1000003 + uint64(fnv(c.Name)) + 1
	if seed == 0 {
		seed = 1
	}
	must(flag.Set("rapid.seed", fmt.Sprint(seed)))
	must(flag.Set("rapid.checks", fmt.Sprint(c.Checks)))

	t := &tb{name: r.ID + "/" + c.Name}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(failNow); ok {
					return
				}
				panic(p)
			}
		}()
		rapid.Check(t, func(t *rapid.T) {
			if locked {
				locked = false
				rapidFlags.Unlock()
			}
			if infra != nil {
				return
			}
			x := c.Gen(t)
			if lastErr == nil {
				c.record(res, x)
			}
			var err error
			func() {
				defer func() {
					if p := recover(); p != nil {
						if inf, ok := p.(Infra); ok {
							infra = inf
							return
						}
						panic(p)
					}
				}()
				err = c.safeTest(x)
			}()
			var inf Infra
			if errors.As(err, &inf) {
				infra = inf
				return
			}
			if err != nil {
				lastCase, lastErr = x, err
				t.Fatalf("failed")
			}
		})
	}()
	if infra != nil {
		res.infra = infra
		return res
	}
	if lastErr != nil {
		// The case that rapid ran last is the minimal one; it may be flaky, so run it again.
		if err := c.safeTest(lastCase); err != nil {
			lastErr = err
		} else {
			lastErr = fmt.Errorf("(did not fail again when re-run on its own) %w", lastErr)
		}
		fail(lastCase, lastErr)
	} else if t.failed {
		res.infra = fmt.Errorf("%s: rapid gave up: %s", c.Name, strings.Join(t.log, "; "))
	}
	return res
}

func (c *Check[C]) replay(r *Run, raw json.RawMessage) error {
	var x C
	if err := json.Unmarshal(raw, &x); err != nil {
		return Infra{err}
	}
	return c.safeTest(x)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func fnv(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	return h
}

// Custom is a Sub that drives its own batches (end-to-end checks that compile code).
type Custom struct {
	Name string
	// Do runs the check; it uses the Reporter to count cases and to report failures.
	Do func(rep *Reporter)
	// ReplayCase re-runs one saved case.
	ReplayCase func(raw json.RawMessage) error
}

// Reporter collects the results of a Custom sub-check.
type Reporter struct {
	R   *Run
	res *result
	mu  sync.Mutex
}

// Case counts one evaluated case.
func (rep *Reporter) Case(x any, nontrivial bool, labels ...string) {
	rep.mu.Lock()
	defer rep.mu.Unlock()
	res := rep.res
	res.evals++
	for _, l := range labels {
		res.labels[l]++
	}
	if nontrivial {
		res.labels["(nontrivial)"]++
		raw, err := json.Marshal(x)
		InfraPanic(err)
		h := sha256.Sum256(raw)
		var k [8]byte
		copy(k[:], h[:])
		if _, ok := res.distinct[k]; !ok {
			res.distinct[k] = struct{}{}
			if n := len(res.distinct); len(res.samples) < 5 && (n == 1 || n == 10 || n == 50 || n == 200 || n == 1000) && len(raw) < 8000 {
				res.samples = append(res.samples, map[string]any{"sub": res.sub, "case": json.RawMessage(raw)})
			}
		}
	}
}

// Label counts a label.
func (rep *Reporter) Label(l string, n int) {
	rep.mu.Lock()
	rep.res.labels[l] += n
	rep.mu.Unlock()
}

// Fail reports a violation.
func (rep *Reporter) Fail(x any, err error) {
	rep.mu.Lock()
	defer rep.mu.Unlock()
	raw, merr := json.Marshal(x)
	InfraPanic(merr)
	rep.res.violations = append(rep.res.violations, violation{Property: rep.R.ID, Sub: rep.res.sub,
		Error: err.Error(), Case: raw, Seed: rep.R.Seed, Tier: rep.R.Tier})
}

// Finding reports a failure that may be listed in known-findings.txt under the
// given key; if it is not, it is a violation.
func (rep *Reporter) Finding(key string, x any, err error) {
	if what := rep.R.Known(key); what != "" {
		rep.R.mu.Lock()
		rep.R.found[key] = what
		rep.R.mu.Unlock()
		rep.Label("known finding "+key, 1)
		return
	}
	rep.Fail(x, err)
}

// Known returns the description of a known finding of the property: the entry
// "finding: property=<id> key=<key> <what>" of known-findings.txt.
func (r *Run) Known(key string) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.known == nil {
		r.known, r.found = map[string]string{}, map[string]string{}
		data, err := os.ReadFile(filepath.Join(r.VerifDir, "known-findings.txt"))
		if err != nil && !os.IsNotExist(err) {
			panic(Infra{err})
		}
		for _, line := range strings.Split(string(data), "\n") {
			f := strings.SplitN(strings.TrimSpace(line), " ", 4)
			if len(f) == 4 && f[0] == "finding:" && f[1] == "property="+r.ID && strings.HasPrefix(f[2], "key=") {
				r.known[f[2][4:]] = f[3]
			}
		}
	}
	return r.known[key]
}

// Failed reports whether a violation was recorded.
func (rep *Reporter) Failed() bool {
	rep.mu.Lock()
	defer rep.mu.Unlock()
	return len(rep.res.violations) > 0
}

func (c *Custom) SubName() string { return c.Name }

func (c *Custom) run(r *Run) (res *result) {
	start := time.Now()
	res = &result{sub: c.Name, distinct: map[[8]byte]struct{}{}, labels: map[string]int{}}
	defer func() { res.wall = time.Since(start).Seconds() }()
	defer func() {
		if p := recover(); p != nil {
			if inf, ok := p.(Infra); ok {
				res.infra = inf
				return
			}
			res.infra = fmt.Errorf("panic in harness: %v\n%s", p, debug.Stack())
		}
	}()
	c.Do(&Reporter{R: r, res: res})
	return res
}

func (c *Custom) replay(r *Run, raw json.RawMessage) error {
	if c.ReplayCase == nil {
		return Infra{errors.New("no replay for " + c.Name)}
	}
	return c.ReplayCase(raw)
}

// Draws runs f over n independent rapid generations with a fixed seed: a way of
// using rapid's generators outside of rapid.Check (for batches).
func Draws[C any](seed uint64, n int, gen func(t *rapid.T) C) []C {
	g := rapid.Custom(gen)
	out := make([]C, n)
	for i := range out {
		s := int(int64(seed*1000003+uint64(i)*7919) & 0x7fffffffffff)
		if s == 0 {
			s = 1
		}
		out[i] = g.Example(s)
	}
	return out
}

// Main runs the check of a property and returns the exit status.
func Main(r *Run, p *Property, replayFile string, only string) (status int) {
	defer r.Close()
	defer func() {
		if v := recover(); v != nil {
			fmt.Fprintf(os.Stderr, "error: %v\n%s\n", v, debug.Stack())
			status = 3
		}
	}()
	start := time.Now()
	subs := p.Subs(r)

	if replayFile != "" {
		data, err := os.ReadFile(replayFile)
		InfraPanic(err)
		var v violation
		InfraPanic(json.Unmarshal(data, &v))
		for _, s := range subs {
			if s.SubName() == v.Sub {
				err := s.replay(r, v.Case)
				var inf Infra
				if errors.As(err, &inf) {
					fmt.Fprintln(os.Stderr, err)
					return 3
				}
				if err != nil {
					fmt.Printf("reproduced: %v\n", err)
					fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, replayFile)
					return 1
				}
				fmt.Println("not reproduced: the property holds for this case")
				return 0
			}
		}
		fmt.Fprintf(os.Stderr, "no sub-check %q\n", v.Sub)
		return 3
	}

	if only != "" {
		var sel []Sub
		for _, s := range subs {
			if strings.Contains(s.SubName(), only) {
				sel = append(sel, s)
			}
		}
		subs = sel
	}

	results := make([]*result, len(subs))
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for i, s := range subs {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			results[i] = s.run(r)
		}()
	}
	wg.Wait()

	evals, distinct, nviol := 0, 0, 0
	var samples []any
	dist := map[string]any{}
	var infra error
	var lines []string
	for _, res := range results {
		evals += res.evals
		distinct += len(res.distinct)
		samples = append(samples, res.samples...)
		dist[res.sub] = map[string]any{"evaluations": res.evals, "distinct_nontrivial": len(res.distinct), "labels": res.labels, "wall_s": round(res.wall)}
		if res.infra != nil {
			infra = fmt.Errorf("%s: %w", res.sub, res.infra)
		}
		for _, v := range res.violations {
			nviol++
			dir := filepath.Join(r.VerifDir, "replays")
			InfraPanic(os.MkdirAll(dir, 0o755))
			name := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d-%d.json", r.ID, sanitize(v.Sub), r.Seed, nviol))
			data, err := json.MarshalIndent(v, "", "  ")
			InfraPanic(err)
			InfraPanic(os.WriteFile(name, append(data, '\n'), 0o644))
			msg := v.Error
			if len(msg) > 3000 {
				msg = msg[:3000] + "..."
			}
			cs := string(v.Case)
			if v.Show != nil {
				b, _ := json.Marshal(v.Show)
				cs = string(b)
			}
			if len(cs) > 3000 {
				cs = cs[:3000] + "..."
			}
			fmt.Printf("-- %s/%s violated\n   case: %s\n   %s\n", r.ID, v.Sub, cs, msg)
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", r.ID, name))
		}
	}
	if len(samples) > 40 {
		step := len(samples) / 40
		var pick []any
		for i := 0; i < len(samples); i += step + 1 {
			pick = append(pick, samples[i])
		}
		samples = pick
	}
	if only == "" {
		ev := map[string]any{
			"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": "exploration",
			"coverage": map[string]any{
				"evaluations": evals, "distinct_nontrivial": distinct, "rule": p.Rule,
				"samples": samples, "sub_checks": dist,
			},
			"assumptions": p.Assumptions,
			"wall_s":      round(time.Since(start).Seconds()), "violations": nviol,
		}
		if p.Assumptions == nil {
			delete(ev, "assumptions")
		}
		data, err := json.MarshalIndent(ev, "", " ")
		InfraPanic(err)
		InfraPanic(os.MkdirAll(filepath.Join(r.VerifDir, "evidence"), 0o755))
		InfraPanic(os.WriteFile(filepath.Join(r.VerifDir, "evidence", r.ID+".json"), append(data, '\n'), 0o644))
	} else {
		b, _ := json.MarshalIndent(dist, "", " ")
		fmt.Println(string(b))
	}
	fmt.Printf("%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %.1fs\n", r.ID, r.Tier, r.Seed, evals, distinct, time.Since(start).Seconds())
	var keys []string
	for k := range r.found {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s [%s] %s\n", r.ID, k, r.found[k])
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if nviol > 0 {
		return 1
	}
	if infra != nil {
		fmt.Fprintln(os.Stderr, "error:", infra)
		return 3
	}
	return 0
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '/' || r == ' ' || r == ':' {
			return '_'
		}
		return r
	}, s)
}
