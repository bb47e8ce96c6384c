prop("P10", "A filter selects exactly the rows that its calls describe",
     "The clauses of a filter that is put together with a sequence of constructor calls — comparisons, lists, text searches, explicit and implicit AND and OR, nested groups, FQL strings, sort keys, limit, offset or page — are always valid SQL, "
     "and select exactly the rows for which the expression that the calls spell out is true, in the requested order and window. "
     "AND binds tighter than OR, a group is evaluated as a unit, comparing with nil or a boolean means IS NULL, IS TRUE and so on, calls that contribute no predicate leave no trace, and the count filter selects the same rows without order and window.",
     ["histories", "inputs"], "All sequences of constructor calls with any nesting, operators and values, and all data.",
     "The tests compare the SQL text of a few dozen call sequences; nothing runs the SQL, and empty groups, dangling operators, empty lists, NULLs and overflowing pages don't occur in them.",
     ["filter/filter.go", "filter/convenience.go", "gosql.go"],
     [{"name": "Constructor: node list and its SQL", "where": "filter/filter.go"}, {"name": "list predicates", "where": "filter/convenience.go"}],
     ["rows that a real server returns for the filter"],
     "model-based property testing (rapid): call sequences against a three-valued-logic evaluator, executed by PostgreSQL",
     "The evaluator is written from the documented meaning of the calls, and PostgreSQL executes the SQL over 90 fixed rows with NULLs. Sampled, not exhaustive.")
prop("P11", "FQL and sort strings mean what they say, or are refused",
     "Every well-formed FQL or sort string selects, or orders, exactly the rows it describes, whatever its nesting and white space; keys that have no column are ignored, or refused in strict mode with an error that names the key, and values pass through the column's converter. "
     "No string at all, however malformed, yields SQL with anything in it but the known columns, operators and placeholders, or SQL that is syntactically invalid.",
     ["inputs"], "All strings, well-formed and not, and all subsets of known keys.",
     "Tests parse a dozen fixed strings; unknown keys outside of strict mode, odd separators and hostile input are not tried.",
     ["filter/filter.go"],
     [{"name": "UnmarshalFQL, UnmarshalSort", "where": "filter/filter.go"}],
     ["SQL text, parameters, rows that a real server returns"],
     "grammar-based and mutation fuzzing (rapid) with an evaluator, a token whitelist and PostgreSQL's parser as oracles",
     "Sampled strings; the FQL tokenizer itself is a third-party module and is trusted for what a token is.")
prop("P12", "Values reach the database only as parameters, numbered without gaps",
     "The SQL text of a filter depends only on the calls, never on the values; its placeholders are numbered consecutively from the position that the caller gives, each value is passed exactly once and unchanged in the order of the placeholders, and producing the SQL again gives the same. "
     "Lists of placeholders start and end where requested.",
     ["inputs", "histories"], "All call sequences, all values, all starting positions.",
     "Tests look at a few positions and harmless values.",
     ["filter/filter.go", "filter/convenience.go", "gosql.go"],
     [{"name": "sqlWriter", "where": "filter/filter.go"}, {"name": "InValueList, OrdinalParameters", "where": "gosql.go"}],
     ["SQL text and parameters"],
     "metamorphic property testing (rapid): the same calls with hostile values",
     "Sampled; positions up to the limit of 65535 parameters.")

prop("P20", "Generated selects return exactly the rows and values described",
     "For every accepted SelectXxx query struct, the generated method returns exactly the rows of the database that the struct describes: those of the joined relations for which its where struct or filter is true, in the declared order, inside the declared limit and offset, "
     "each field of the record with the value of its column (its zero value where allowed for NULL), as a slice, a single record, a count, or an answer to whether any (none) exists. "
     "This holds for every operator, quantifier, modifier function, nesting, join, directive, record shape and argument; the method fails only if the described query does.",
     ["inputs", "programs"], "All query structs of the documented language, all arguments, all data.",
     "The golden tests compare the generated text for about two hundred structs; none of them is compiled or executed, so a text that is wrong but was recorded once stays.",
     ["internal/generator/generator.go", "internal/analysis/analysis.go", "internal/postgres/postgres.go", "filter/filter.go"],
     [{"name": "query to SQL and Go", "where": "internal/generator"}, {"name": "struct analysis", "where": "internal/analysis"}, {"name": "type checker", "where": "internal/postgres"}],
     ["result of the generated method against a real server"],
     "generative differential testing (rapid): random query structs through the CLI, the Go compiler and PostgreSQL, against an independently written reference query",
     "The reference is SQL written by the model from the documented meaning of the struct, and PostgreSQL is its evaluator. Sampled over four tables and the common column types; every struct is executed with several arguments.")

_GEN = [{"name": "query to SQL and Go", "where": "internal/generator"}, {"name": "struct analysis", "where": "internal/analysis"}, {"name": "type checker", "where": "internal/postgres"}]
_GENF = ["internal/generator/generator.go", "internal/analysis/analysis.go", "internal/postgres/postgres.go", "filter/filter.go"]
_GENT = "generative differential testing (rapid): random query structs through the CLI, the Go compiler and PostgreSQL, against an independently written reference query"
prop("P21", "Generated inserts store and return exactly what the struct describes",
     "For every accepted InsertXxx query struct and every records in it, the generated method stores exactly those records: every field that the tags (ro, wo, -i, +w ...), those of the records it is nested in, and the Force directive allow, with the zero values of nullable columns as NULL, the default where requested, and nothing else. "
     "OnConflict ignores or updates exactly the conflicting rows on the named columns, index or constraint; Return and Result hand back the rows that were stored, record by record, and RowsAffected their number; a failed insert changes nothing.",
     ["inputs", "programs"], "All insert structs of the documented language, all records, all data.",
     "The golden tests record the text of about sixty inserts and never execute one; the interplay of modes, defaults, conflicts and returned rows needs a server and many combinations.",
     _GENF, _GEN, ["the table, the records and the error after the generated method ran, on a real server"], _GENT,
     "The reference writes the rows that the model of the tags describes by hand-written SQL; sampled over four tables with several sets of records each. Two recorded findings are excluded by key.")
prop("P22", "Generated updates change exactly the described rows and columns",
     "For every accepted UpdateXxx query struct, the generated method changes exactly the rows that the struct selects (by the primary key of each record, the where struct, the filter, the joined relations or All), in those rows exactly the columns that tags, Force and Default allow, to the values of the record; "
     "every other row and column is left alone. Return, Result and RowsAffected report exactly the changed rows.",
     ["inputs", "programs"], "All update structs of the documented language, all records, all data.",
     "The golden tests record the text of a few dozen updates and never execute one.",
     _GENF, _GEN, ["the table, the records and the error after the generated method ran, on a real server"], _GENT,
     "The reference is hand-written SQL derived from the model; updates of many rows whose key comes from a sequence are left out, as the order of the rows is unspecified. Two recorded findings are excluded by key.")
prop("P23", "Generated deletes remove and return exactly the described rows",
     "For every accepted DeleteXxx query struct, the generated method removes exactly the rows that the where struct, the filter (also at run time), the joined relations or All select, and no other; Return, Result and RowsAffected report exactly the removed rows.",
     ["inputs", "programs"], "All delete structs of the documented language, all arguments, all data.",
     "The golden tests record the text of a few dozen deletes and never execute one.",
     _GENF, _GEN, ["the table, the records and the error after the generated method ran, on a real server"], _GENT,
     "The reference is hand-written SQL derived from the model. Sampled over four tables and the common column types.")
prop("P25", "A field of any accepted type keeps the values of its column, in both ways",
     "For every pair of a column type and a Go type that the documentation and package pgsql provide for (every array, range, vector, geometric, network, bit, date, JSON and XML type with each of its Go types, and strings and byte slices for all of them), the generator accepts the field for writing and for reading, "
     "and what it generates compiles, reads every value of the column, and writes it back unchanged (a value of a nullable column and a field that is not a pointer may become NULL only if it is the type's zero value; NULL itself survives in pointers). "
     "Variants that are not part of the documented set (pointers, named types) are refused, or work just as well.",
     ["inputs", "programs"], "All pairs of types, in inserts, updates and selects of one and many records, and all values.",
     "The tests check the accepted pairs against a copy of the table, and compare the text of a few; a converter named in the table that does not exist or doesn't fit, a cast that truncates or a literal without quotes shows up only when the code is compiled and run.",
     ["internal/postgres/compatibility.go", "internal/postgres/postgres.go", "internal/postgres/oid/types.go", "internal/generator/generator.go"],
     [{"name": "compatibility table", "where": "internal/postgres/compatibility.go"}, {"name": "NULLIF and COALESCE", "where": "internal/generator/generator.go"}],
     ["the rows of two tables after values went through generated code, on a real server"],
     "enumeration of all pairs of types with generated values (rapid), round trip through the CLI, the Go compiler and PostgreSQL",
     "All documented pairs on every run, and in the quick tier a rotating fifth of the variants. The source values are written by SQL and compared as text by the server. Columns of type \"char\" are left out, PostgreSQL 16 reports a category for them that the generator does not know.")
prop("P30", "The type checker accepts exactly conditions that PostgreSQL can run",
     "A condition (of a where struct or a join; a field, column, literal, unary or between comparison with any operator, quantifier and modifier function, between columns of any types and fields of any Go types) that the generator accepts yields code that compiles and a statement that passes PostgreSQL's parser and type checks (no SQLSTATE of class 42), with arguments that database/sql can convert. "
     "Conditions that the documentation provides for (a column and a field of a type that goes with it, columns of the same type unless it is a composite one, typed literals, null and truth tests) are accepted whenever PostgreSQL can run them. Columns and relations that do not exist are refused, and the generator does not panic.",
     ["inputs", "programs"], "All combinations of operand types, operators, quantifiers and functions, in selects, updates and deletes.",
     "The tests list a few accepted and refused conditions; whether the checker's idea of operators, casts and functions is PostgreSQL's for the thousands of other combinations only PostgreSQL can tell.",
     ["internal/postgres/postgres.go", "internal/postgres/compatibility.go", "internal/analysis/analysis.go", "internal/analysis/enums.go", "internal/generator/generator.go"],
     [{"name": "condition checks", "where": "internal/postgres/postgres.go"}, {"name": "predicate parsing", "where": "internal/analysis/analysis.go"}],
     ["the generator's verdict, and the error code PostgreSQL returns for the generated statement"],
     "random generation of conditions (rapid), differential against PostgreSQL's own parser and type checker, through the CLI and the Go compiler",
     "58 column types, 45 Go types besides the documented ones, all operators, 40 functions. Verdicts come from the generator's packages in one process (cmd/verdicts), or the CLI if those don't build; the CLI confirms what is reported.")

_CLI = [{"name": "command line, config file, output", "where": "internal/command, internal/config"}, {"name": "file and type search", "where": "internal/search"}, {"name": "code generator", "where": "internal/generator"}]
_CLIF = ["internal/command/command.go", "internal/config/config.go", "internal/search/search.go", "internal/generator/generator.go", "internal/typesutil/predicates.go", "cmd/gosql/main.go"]
_CLIT = "generative testing (rapid) of random projects against a model of the tool, with greedy shrinking"
prop("P24", "What the tool writes always compiles and runs, with any project layout",
     "Whenever the tool succeeds, the files it wrote are gofmt-formatted Go that compiles together with the package they belong to, and every generated method executes against the database without an error of syntax or types. "
     "This holds for every mix of query and filter types in a file, files in a package and packages in a module, wherever the record types come from (the same package, imported ones, several packages of one name), for every kind of record (pointer, value, slice, iterator), every method argument type, method name, output name and key option, and for stale output of an earlier run; running it again changes nothing.",
     ["inputs", "programs"], "All projects of query and filter types and all options that shape the output.",
     "The golden tests generate from single files of one package with the default options and compare the text; nothing compiles it. Imports, name clashes and state shared between types and packages show only in combinations.",
     _CLIF + ["internal/analysis/analysis.go"], _CLI, ["exit status, the written files, the Go compiler's and PostgreSQL's verdict on them"], _CLIT,
     "Projects of up to three packages with up to 23 forms of query types over four record types; the generated methods are executed once each.")
prop("P50", "Every option takes effect by flag and by file, and the flag wins",
     "Each documented option has its documented effect and default, whether it is given by its flag, by the config file (explicit, or .gosql or .gosql.json found at the root of the repository above the working directory), or both, in which case the flag wins; a null in the file counts as not given. "
     "This covers the data source, the working directory, recursion, input files and their regular expressions, the output name, quoting of identifiers, the tag, base and separator of filter keys, and the method's name, argument type and context.",
     ["programs", "configurations"], "All combinations of options and of where they are given.",
     "The tests parse a couple of complete configurations and never run the tool with them; which source wins for which option, and whether the option reaches the output, is not tested.",
     _CLIF, _CLI, ["exit status, the set of written files, signatures and filter keys of the generated code, behaviour when executed"], _CLIT,
     "The model derives the output files, method names, arguments and filter keys from the options; the generated code is parsed, and in half of the cases built and run.")
prop("P51", "Exactly the query and filter types of the selected files are processed",
     "The tool writes one output file per selected source file that declares query or filter types, and in it methods for exactly those types: structs whose names begin with Select, Insert, Update, Delete or Filter in any case and that are not marked gosql:ignore (in the type's own doc, a group's or a line comment as documented). "
     "Selected are the Go files that the go command would build, other than tests, in the working directory (and below it if recursive), limited to the listed files and regular expressions; nothing else is read or written.",
     ["programs", "configurations"], "All directory trees, file names, build tags, declarations and selection options.",
     "The tests search one fixed directory.",
     _CLIF, _CLI, ["exit status, the set of written files, the receivers of the generated methods"], _CLIT,
     "The model decides by file name, build constraint, declaration and option; other files are compared byte by byte.")
prop("P52", "A failing run writes nothing, and a run never touches other files",
     "If any query type of any selected file is invalid, or an option, the config file or the database is, the tool exits with a status other than zero, reports it, and leaves every file of the project as it was. "
     "If it succeeds, it has created or replaced output files only, an output of an earlier run (even a broken one) doesn't affect the result, and a second run reproduces every byte.",
     ["programs", "configurations", "fault_sequences"], "All projects, all single faults in types, options, config file, database and earlier output.",
     "No test runs the command with an error in one of several files, or over existing output.",
     _CLIF, _CLI, ["exit status, message, and the bytes of every file in the project"], _CLIT,
     "22 kinds of fault, at random places of the project; a snapshot of the tree is compared before and after.")
prop("P27", "Every failure reaches the caller or its error handler exactly once",
     "Whatever step of a generated method fails (the call, fetching any row, scanning it, the caller's iterator, closing a single row, asking for the affected rows, a cancelled context), the method stops there and returns that error; no error is lost and no row is processed after it. "
     "With an ErrorHandler or ErrorInfoHandler (named, embedded, pointer, promoted or interface) the handler gets that error exactly once, with the very query text, kind, type name and query value, and its result is what the method returns. "
     "A method makes one call, of the method that belongs to its output and with the query's own context if it has one; it closes the rows it opened and releases the connection on every path; AfterScan is called once per record, right after it's scanned and before the iterator sees it.",
     ["fault_sequences", "programs"], "All query structs of the grammar, all result sizes and all single and multiple faults.",
     "The golden tests compare text; no test executes generated code against a failing driver.",
     ["internal/generator/generator.go", "internal/analysis/analysis.go", "internal/typesutil/predicates.go"],
     [{"name": "code generator, method bodies", "where": "internal/generator/generator.go"}, {"name": "recognition of handlers and AfterScan", "where": "internal/typesutil/predicates.go"}],
     ["the calls made, the events (handler, AfterScan, iterator) in order, the returned error, the output, open rows and connections in use"],
     "generative fault injection (rapid) against a model of the method, with greedy shrinking",
     "Query structs over eight forms of relations and results, five record types, eleven forms of handlers, three of contexts; three to ten scripts each.")
prop("P26", "Filter types expose each filterable field of the record, bound to its column",
     "For every filter type, the generated map has exactly the keys that the record's tags and the options (and fck tags that override them, for a field or all fields of a nested struct) define, each naming the column of its own field, the first field winning a contested key; with v2 constructors also whether the column can be null, and the converter configured for the field's type. "
     "There is exactly one predicate method per filterable field whose name is free, taking the field's (base) type, and And, Or and Init; each hands its own column, the operator and the value unchanged to the type's own constructor, in call order and nesting, and returns its receiver. Excluded fields, and those without a column, have neither key nor method. "
     "With the module's constructor, each method and each key selects exactly the rows whose column has the value.",
     ["inputs", "programs"], "All records of nested fields and tags, all forms of constructors and options, and sequences of calls.",
     "The golden tests compare the text of a few filters with flat records; nothing compiles or calls them.",
     ["internal/generator/generator.go", "internal/analysis/analysis.go", "internal/analysis/fieldmode.go", "internal/postgres/postgres.go", "internal/config/types.go"],
     [{"name": "code generator, filter types", "where": "internal/generator/generator.go buildFilterCode"}, {"name": "filter column keys", "where": "internal/analysis/analysis.go parseFilterColumnKey"}],
     ["the calls that a recording constructor gets, the method set by reflection, the columns that PostgreSQL resolves the identifiers to, the selected rows"],
     "generative testing (rapid) of record trees and call sequences against a model, with greedy shrinking",
     "Records up to four levels deep over 18 field types in three configurations, six forms of constructors, v1 and v2.")
prop("P31", "Names in tags are accepted exactly if what they name exists and fits",
     "A query or filter type whose directives, conditions and record tags name only things that exist in the database and fit their use (columns of the target, or of a joined relation where that is allowed; columns with a default; columns with an ordering; tsvector columns; non-deferrable unique indexes and constraints as conflict targets; all columns of the primary key for an update without conditions) is accepted, and its statement isn't refused by PostgreSQL. "
     "A type that names something else, or qualifies it with a relation that isn't the query's or isn't allowed there, is refused by an error that names its file.",
     ["inputs", "programs"], "All tables (columns, defaults, indexes, constraints) and all query and filter types over them.",
     "The tests have one fixed schema and one name per directive; that a rule holds for an index with included columns, for a deferrable constraint, or for a qualifier of the other relation depends on combinations that no test has.",
     ["internal/postgres/postgres.go", "internal/postgres/errors.go", "internal/analysis/analysis.go"],
     [{"name": "type checking of directives", "where": "internal/postgres/postgres.go typeCheckQuery*Directive, typeCheckQueryOnConflictStruct"}, {"name": "relation loading", "where": "internal/postgres/postgres.go loadRelation"}, {"name": "column identifiers", "where": "internal/analysis/analysis.go parseColIdent"}],
     ["the tool's exit status and message, the error codes of PostgreSQL"],
     "random generation of schemas and types, compared with a reference model of the documented rules; accepted statements are executed by PostgreSQL; greedy shrinking",
     "Sixty random tables per run, one directive per type. Not decided: several unique indexes over the same columns of which only some are deferrable.")
prop("P32", "Whatever a query struct declares takes effect, or the struct is refused",
     "No part of a query struct is dropped without a word: if a struct is accepted with a directive, a special field or an item of a nested struct, the code that is generated for it differs from the code for the same struct without that part. "
     "Parts that exclude or repeat one another (two orderings, two conflict targets, two join structs) are refused instead of the last one taking the place of the others. Exempt is what states a default (All; Ignore next to a conflict target) and what cannot matter (ordering and limits of a count).",
     ["inputs", "programs"], "All query types made of directives, special fields and nested structs.",
     "The tests check each exclusion with one pair of directives at most, in one order; the silent loss of a part appears only in combinations that no golden file has.",
     ["internal/analysis/analysis.go", "internal/generator/generator.go"],
     [{"name": "query struct analysis", "where": "internal/analysis/analysis.go analyzeQueryStruct, analyzeQueryStructDirective, analyzeQueryStructField"}, {"name": "nested structs", "where": "internal/analysis/analysis.go analyzeWhereStruct, analyzeJoinStruct, analyzeOnConflictStruct"}],
     ["the tool's exit status, the generated code"],
     "metamorphic testing over random query structs: the code with each member is compared with the code without it; greedy shrinking",
     "One to five members per struct, 60 members, nine shapes of the rel field, one schema; parts that are accepted together only are not compared. Some 600 distinct pairs of accepted structs per run.")
prop("P40", "Any type is either refused by name or yields code that compiles and runs",
     "Whatever struct a program declares under a query or filter name (any mix of fields, directives, tags, record types, aliases and columns, sensible or not), the tool neither panics nor hangs: it either refuses the type with an error that names it, or accepts it, and then the generated code compiles and PostgreSQL finds no error of syntax, name or type in its statements. "
     "Neither depends on the other types of the package.",
     ["inputs", "programs"], "All Go struct types whose name begins with a query or filter prefix.",
     "The tests have one type per error and golden types that are well formed; the space of malformed and unusual types between them is sampled by nothing.",
     ["internal/analysis/analysis.go", "internal/analysis/error.go", "internal/postgres/postgres.go", "internal/postgres/errors.go", "internal/generator/generator.go", "internal/typesutil/predicates.go"],
     [{"name": "analysis of types", "where": "internal/analysis/analysis.go"}, {"name": "type checking against the database", "where": "internal/postgres/postgres.go"}, {"name": "code generator", "where": "internal/generator/generator.go"}],
     ["the tool's exit status and message, the Go compiler's verdict, the error codes of PostgreSQL"],
     "random generation of Go types (grammar-based fuzzing) with the Go compiler and PostgreSQL as the oracle, with greedy shrinking",
     "Fifteen names, 80 kinds of fields and directives, 110 Go types, schemas of eleven relations with 36 column types; types that aren't Go are discarded by go/types. Two shapes are known findings and left out of the generator.")
