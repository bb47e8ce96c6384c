package props

import (
	"encoding/json"
	"strings"

	"github.com/frk/gosql/vh/fw"

	"pgregory.net/rapid"
)

func init() {
	// the engine is made on first use and shared by a run's sub-checks
	var eng *cliEngine
	engine := func(r *fw.Run) *cliEngine {
		if eng == nil {
			eng = newCLI(r, "cli")
		}
		return eng
	}
	reg := func(id, rule, name, kinds string, quick, thorough int, gen func(t *rapid.T) *cliScn, nontrivial func(s *cliScn, labels []string) bool) {
		var run *fw.Run
		fw.Register(&fw.Property{ID: id, Rule: rule, Subs: func(r *fw.Run) []fw.Sub {
			run = r
			return []fw.Sub{&fw.Custom{
				Name: name,
				Do: func(rep *fw.Reporter) {
					scns := fw.Draws(r.Seed, r.N(quick, thorough), gen)
					engine(r).all(rep, scns, kinds, nontrivial)
				},
				ReplayCase: func(raw json.RawMessage) error { return engine(run).replay(raw, kinds) },
			}}
		}})
	}
	hasOut := func(s *cliScn, labels []string) bool {
		for _, l := range labels {
			if strings.HasPrefix(l, "outputs:") && l != "outputs:0" {
				return true
			}
		}
		return false
	}

	reg("P50", "an option is given by a flag or the file, with an output file to show it", "options", "status options files methods run", 110, 1500, genOptionsScn, func(s *cliScn, labels []string) bool {
		return hasOut(s, labels) && len(s.Opts) > 2
	})
	reg("P51", "the project has files or types that are not to be processed besides some that are", "selection", "status files methods", 170, 2500, genSelectScn, hasOut)
	reg("P52", "the run has to fail, or files of the same name are in the way", "writes", "status files again", 170, 2500, genWritesScn, func(s *cliScn, labels []string) bool { return s.Bad != "" || s.Stale != "" })
	reg("P24", "a project with two or more query types is generated, built and executed", "projects", "status format build run again", 90, 1500, genProjectScn, func(s *cliScn, labels []string) bool {
		return hasOut(s, labels)
	})
}

// scn0 is a scenario with the data source given by a flag or by the file.
func scn0(t *rapid.T) *cliScn {
	s := &cliScn{Opts: map[string]cliOpt{}}
	s.Opts["database_dsn"] = cliOpt{Flag: []string{"{dsn}"}}
	return s
}

// cfgAt draws where the config file is.
func cfgAt(t *rapid.T, s *cliScn) {
	s.CfgAt = rapid.SampledFrom([]string{"", ".gosql", ".gosql.json", "flag:{root}/conf/my.json", "flag:my.json"}).Draw(t, "config at")
	s.Git = strings.HasPrefix(s.CfgAt, ".") || rapid.Bool().Draw(t, "git")
}

func genSelectScn(t *rapid.T) *cliScn {
	s := scn0(t)
	s.Pkgs = genPkgs(t, 3, 3, 4, true)
	cfgAt(t, s)
	genSelection(t, s, func(key string) bool {
		return fileable(s, key) && rapid.IntRange(0, 2).Draw(t, key+" in file") == 0
	})
	return s
}

// fileable reports whether the option can be given by the config file: the file at
// the project's root is only found when the working directory given by flags, or
// the current one, is inside of it, which it always is.
func fileable(s *cliScn, key string) bool { return s.CfgAt != "" }

func genProjectScn(t *rapid.T) *cliScn {
	s := scn0(t)
	s.Pkgs = genPkgs(t, 3, 2, 5, false)
	s.Run, s.Twice = true, rapid.IntRange(0, 2).Draw(t, "twice") == 0
	s.Opts["recursive"] = cliOpt{Flag: []string{""}}
	genOutputOpts(t, s, func(string) int { return 0 })
	if rapid.IntRange(0, 3).Draw(t, "stale") == 0 {
		s.Stale = rapid.SampledFrom([]string{"old", "same"}).Draw(t, "stale kind")
	}
	return s
}

// genOutputOpts draws the options that shape the output. at tells where an option
// is given: 0 flag, 1 file, 2 both.
func genOutputOpts(t *rapid.T, s *cliScn, at func(key string) int) {
	set := func(key string, gen func() (string, *string)) {
		if rapid.Bool().Draw(t, key) {
			return
		}
		var o cliOpt
		w := at(key)
		if w != 1 && cliFlagNames[key] != "" {
			v, _ := gen()
			o.Flag = []string{v}
		}
		if w != 0 {
			_, o.File = gen()
		}
		if o.Flag != nil || o.File != nil {
			s.Opts[key] = o
		}
	}
	str := func(vals ...string) func() (string, *string) {
		return func() (string, *string) {
			v := rapid.SampledFrom(vals).Draw(t, "value")
			return v, jsonOf(v)
		}
	}
	boolean := func() (string, *string) {
		v := rapid.Bool().Draw(t, "value")
		if v {
			return rapid.SampledFrom([]string{"", "true", "1", "T"}).Draw(t, "form"), jsonOf(true)
		}
		return rapid.SampledFrom([]string{"false", "0"}).Draw(t, "form"), jsonOf(false)
	}
	set("output_file_name_format", str("%s_gosql.go", "_out", "gen_%s", "%s.gen.go", "zz_%s_q.go", ".sql.go", "_%s_hidden.go", "x%s")) // the hidden one is replaced below
	if o, ok := s.Opts["output_file_name_format"]; ok && s.Run {
		// the go command ignores files whose names begin with an underscore
		for i := range o.Flag {
			if o.Flag[i][0] == '_' && strings.Contains(o.Flag[i], "hidden") {
				o.Flag[i] = "q_%s"
			}
		}
		if o.File != nil && strings.Contains(*o.File, "hidden") {
			o.File = jsonOf("q_%s")
		}
		s.Opts["output_file_name_format"] = o
	}
	set("quote_identifiers", boolean)
	set("filter_column_key_tag", str("json", "", "alt", "nope", "_x1"))
	set("filter_column_key_base", boolean)
	set("filter_column_key_separator", str(".", "", "-", "_", ","))
	set("method_with_context", boolean)
	set("method_name", str("Exec", "Run", "exec", "Do_it2"))
	set("method_argument_type", str("github.com/frk/gosql.Conn", "*vhgen/conn.Tx", "vhgen/conn.Iface", "*vhgen/conn.Emb", "vhgen/conn.Emb", "*database/sql.Tx"))
}

func genOptionsScn(t *rapid.T) *cliScn {
	s := scn0(t)
	s.Pkgs = genPkgs(t, 2, 2, 3, false)
	cfgAt(t, s)
	if s.CfgAt == "" && rapid.Bool().Draw(t, "file") {
		s.CfgAt, s.Git = ".gosql.json", true
	}
	where := func(key string) int {
		if !fileable(s, key) {
			return 0
		}
		return rapid.IntRange(0, 2).Draw(t, key+" at")
	}
	if s.CfgAt != "" {
		switch rapid.IntRange(0, 3).Draw(t, "dsn at") {
		case 0:
			s.Opts["database_dsn"] = cliOpt{File: jsonOf("{dsn}")}
		case 1:
			s.Opts["database_dsn"] = cliOpt{Flag: []string{"{dsn}"}, File: jsonOf("postgres://nobody@127.0.0.1:1/none?connect_timeout=2")}
		}
	}
	// directory, files
	one := s.Pkgs[0].Dir
	bg := rapid.Bool().Draw(t, "recursive value")
	switch where("recursive") {
	case 0:
		s.Opts["recursive"] = cliOpt{Flag: []string{""}}
	case 1:
		s.Opts["recursive"] = cliOpt{File: jsonOf(true)}
	case 2:
		f := "false"
		if bg {
			f = "true"
		}
		s.Opts["recursive"] = cliOpt{Flag: []string{f}, File: jsonOf(!bg)}
	}
	if !s.boolean("recursive") {
		s.Cwd = one
	} else {
		switch where("working_directory") {
		case 0:
			s.Opts["working_directory"] = cliOpt{Flag: []string{"{root}/" + one}}
		case 1:
			s.Opts["working_directory"] = cliOpt{File: jsonOf("{root}/" + one)}
		case 2:
			s.Opts["working_directory"] = cliOpt{Flag: []string{"{root}"}, File: jsonOf("{root}/" + one)}
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "lists") == 0 {
		key := rapid.SampledFrom([]string{"input_files", "input_file_regexps"}).Draw(t, "list")
		v := [2][]string{}
		for i := range v {
			for range rapid.IntRange(1, 2).Draw(t, "n") {
				p := rapid.SampledFrom(s.Pkgs).Draw(t, "pkg")
				f := rapid.SampledFrom(p.Files).Draw(t, "file")
				if key == "input_files" {
					v[i] = append(v[i], "{root}/"+p.Dir+"/"+f.Name)
				} else {
					v[i] = append(v[i], p.Dir+"/"+strings.ReplaceAll(f.Name, ".", `\.`))
				}
			}
		}
		w := where(key)
		var o cliOpt
		if w != 1 {
			o.Flag = v[0]
		}
		if w != 0 {
			o.File = jsonOf(v[1])
		}
		s.Opts[key] = o
	}
	genOutputOpts(t, s, where)
	if s.CfgAt != "" && rapid.IntRange(0, 3).Draw(t, "nulls") == 0 {
		// null stands for an option that isn't given
		for _, k := range []string{"quote_identifiers", "method_name", "filter_column_key_tag", "input_files", "recursive", "method_argument_type"} {
			if o := s.Opts[k]; o.File == nil {
				o.File = jsonOf(nil)
				s.Opts[k] = o
			}
		}
	}
	s.Run = rapid.Bool().Draw(t, "run")
	if s.Run {
		if o, ok := s.Opts["output_file_name_format"]; ok {
			for _, v := range append([]string{""}, o.Flag...) {
				s.Run = s.Run && !strings.Contains(v, "hidden")
			}
			s.Run = s.Run && (o.File == nil || !strings.Contains(*o.File, "hidden"))
		}
	}
	return s
}

func genWritesScn(t *rapid.T) *cliScn {
	s := scn0(t)
	s.Pkgs = genPkgs(t, 3, 3, 3, true)
	s.Opts["recursive"] = cliOpt{Flag: []string{""}}
	s.Stale = rapid.SampledFrom([]string{"", "old", "same", "cut"}).Draw(t, "stale")
	if rapid.Bool().Draw(t, "good") {
		s.Twice = true
		genSelection(t, s, func(string) bool { return false })
		delete(s.Opts, "recursive")
		s.Opts["recursive"] = cliOpt{Flag: []string{""}}
		return s
	}
	s.Bad = rapid.SampledFrom([]string{"type", "type", "type", "type", "out-2", "out-verb", "out-same", "fcktag", "fcksep", "rx", "nodb", "baddb", "wd", "arg-none", "arg-few", "arg-dot",
		"mname", "cfg-syntax", "cfg-missing", "cfg-type", "bool", "flag"}).Draw(t, "bad")
	opt := func(key, v string) {
		if cliFlagNames[key] == "" || rapid.Bool().Draw(t, "in file") {
			s.CfgAt, s.Git = ".gosql", true
			s.Opts[key] = cliOpt{File: jsonOf(v)}
			return
		}
		s.Opts[key] = cliOpt{Flag: []string{v}}
	}
	switch s.Bad {
	case "type":
		// one of the types, anywhere, is wrong
		var at []*cliType
		for i := range s.Pkgs {
			for j := range s.Pkgs[i].Files {
				f := &s.Pkgs[i].Files[j]
				if f.Build != "" || strings.HasSuffix(f.Name, "_test.go") {
					continue
				}
				for k := range f.Types {
					if ty := &f.Types[k]; ty.Ignore == 0 && ty.Tmpl >= 0 {
						at = append(at, ty)
					}
				}
			}
		}
		if len(at) == 0 {
			s.Bad = "rx"
			opt2 := cliOpt{Flag: []string{"("}}
			s.Opts["input_file_regexps"] = opt2
			return s
		}
		ty := at[rapid.IntRange(0, len(at)-1).Draw(t, "at")]
		ty.Bad = rapid.IntRange(1, len(cliBadTypes)-1).Draw(t, "defect")
		ty.Name = "Select" + ty.Name
	case "out-2":
		opt("output_file_name_format", rapid.SampledFrom([]string{"%s%s", "%s_%s.go", "%s%%"}).Draw(t, "o"))
	case "out-verb":
		opt("output_file_name_format", rapid.SampledFrom([]string{"%d.go", "x%", "%v_gosql.go"}).Draw(t, "o"))
	case "out-same":
		// the output would take the place of the source
		opt("output_file_name_format", rapid.SampledFrom([]string{"%s", "%s.go", "", ".go"}).Draw(t, "o"))
	case "fcktag":
		opt("filter_column_key_tag", rapid.SampledFrom([]string{"1x", "a-b", "a b", "é", "a.b"}).Draw(t, "v"))
	case "fcksep":
		opt("filter_column_key_separator", rapid.SampledFrom([]string{"::", "é", ".. "}).Draw(t, "v"))
	case "rx":
		s.Opts["input_file_regexps"] = cliOpt{Flag: []string{rapid.SampledFrom([]string{"(", "a[", "*"}).Draw(t, "rx")}}
	case "nodb":
		delete(s.Opts, "database_dsn")
	case "baddb":
		opt("database_dsn", "postgres://nobody@127.0.0.1:1/none?connect_timeout=2&sslmode=disable")
	case "wd":
		s.Opts["working_directory"] = cliOpt{Flag: []string{rapid.SampledFrom([]string{"{root}/none", "./none", "{root}/README.txt"}).Draw(t, "wd")}}
	case "arg-none":
		opt("method_argument_type", rapid.SampledFrom([]string{"vhgen/conn.None", "vhgen/none.Tx", "*vhgen/conn.tx"}).Draw(t, "v"))
	case "arg-few":
		opt("method_argument_type", rapid.SampledFrom([]string{"vhgen/conn.Few", "*vhgen/conn.Few", "vhgen/m/recs.Rec"}).Draw(t, "v"))
	case "arg-dot":
		opt("method_argument_type", "Conn")
	case "mname":
		opt("method_name", rapid.SampledFrom([]string{"a b", "1x", "func", "", "x-y", "Exec("}).Draw(t, "v"))
	case "cfg-syntax":
		s.Git = true
	case "cfg-missing":
		s.CfgAt = "flag:{root}/none.json"
	case "cfg-type":
		s.CfgAt, s.Git = ".gosql", true
		k := rapid.SampledFrom([]string{"recursive", "quote_identifiers", "method_name", "input_files", "method_argument_type", "output_file_name_format"}).Draw(t, "key")
		delete(s.Opts, k)
		s.Opts[k] = cliOpt{File: jsonOf(map[string]int{"x": 1})}
	case "bool":
		s.Opts["recursive"] = cliOpt{Flag: []string{rapid.SampledFrom([]string{"maybe", "yes", "2"}).Draw(t, "v")}}
	case "flag":
		s.Extra = []string{rapid.SampledFrom([]string{"-nope", "--recursive", "-method", "-fck"}).Draw(t, "v")}
	}
	return s
}
