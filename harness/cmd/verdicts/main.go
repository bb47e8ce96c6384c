// Command verdicts reports what the generator says of each file of a package on
// its own. It stands in for one run of the CLI per file, which takes much longer
// because every run loads the package and all of its dependencies. The harness
// falls back to the CLI if it doesn't build.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/format"
	"os"
	"path/filepath"
	"runtime/debug"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/generator"
	"github.com/frk/gosql/internal/postgres"
	"github.com/frk/gosql/internal/search"
)

func main() {
	dsn, dir := os.Args[1], os.Args[2]
	cfg := config.DefaultConfig
	cfg.DatabaseDSN.Value = dsn
	cfg.WorkingDirectory.Value = dir
	if err := os.Chdir(dir); err != nil {
		fatal(err)
	}
	if err := cfg.Validate(); err != nil {
		fatal(err)
	}
	db, err := postgres.Open(dsn)
	if err != nil {
		fatal(err)
	}
	defer db.Close()
	pkgs, err := search.Search(dir, false, nil)
	if err != nil {
		fatal(err)
	}
	if err := analysis.AnalyzeFilterValueConverters(cfg); err != nil {
		fatal(err)
	}
	out := map[string]string{}
	for _, pkg := range pkgs {
		for _, file := range pkg.Files {
			out[filepath.Base(file.Path)] = verdict(cfg, db, pkg, file)
		}
	}
	if err := json.NewEncoder(os.Stdout).Encode(out); err != nil {
		fatal(err)
	}
}

func verdict(cfg config.Config, db *postgres.DB, pkg *search.Package, file *search.File) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
		}
	}()
	var infos []*postgres.TargetInfo
	for _, m := range file.Matches {
		an, err := analysis.Run(pkg.Fset, m.Named, m.Pos, cfg)
		if err != nil {
			return "refused: " + err.Error()
		}
		ti, err := postgres.Check(db, an.Struct, an)
		if err != nil {
			return "refused: " + err.Error()
		}
		infos = append(infos, ti)
	}
	var buf bytes.Buffer
	if err := generator.Write(&buf, pkg.Name, infos, cfg); err != nil {
		return "refused: " + err.Error()
	}
	if _, err := format.Source(buf.Bytes()); err != nil {
		return "refused: " + err.Error()
	}
	return ""
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}
