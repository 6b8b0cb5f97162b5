package checks

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
	"verifmc/faultdb"
)

func init() {
	core.Register(&core.Check{Prop: "C11", Level: "model_checking",
		Rule: "one evaluation = one database with one setting; a transition is one dump or load; a trace is one dump loaded into an empty database and compared value by value (SQLite) or fact by fact (schemas of the other dialects)",
		Run:  runC11,
		Assumptions: []string{
			"values are dumped and loaded with SQLite; of Postgres, MySQL and SQL Server the tables, columns, keys and indexes are, from emulated system catalogs (syscatworld.go) into the DDL model (ddlmodel.go)",
			"values are of the column's own type (text in text columns, whole numbers in integer columns, valid timestamps in timestamp columns) and do not look like the null marker",
		}})
}

// dumpSet is how dump and load are called.
type dumpSet struct {
	format  string // dir, zip, tgz
	null    string
	binary  string
	batch   int
	history string
	mode    string // "", schema, data
	tables  []string
	exclude []string
}

func (o dumpSet) String() string {
	return fmt.Sprintf("%s null=%q binary=%q batch=%d history=%q mode=%s tables=%q exclude=%q", o.format, o.null, o.binary, o.batch, o.history, o.mode, o.tables, o.exclude)
}

// dump writes a dump called name below dir and gives the path to load.
func dump(s *faultdb.Server, dir, name string, o dumpSet) (string, error) {
	cmd := &ddl.DumpCmd{DB: s.DB(), Dialect: "sqlite", OutputDir: dir, Stderr: io.Discard, HistoryTable: o.history,
		SchemaOnly: o.mode == "schema", DataOnly: o.mode == "data", Nullstring: o.null, Binaryprefix: o.binary, Tables: o.tables, ExcludeTables: o.exclude}
	switch o.format {
	case "zip":
		cmd.Zip = name
		name += ".zip"
	case "tgz":
		cmd.Tgz = name
		name += ".tgz"
	default:
		cmd.OutputDir = filepath.Join(dir, name)
	}
	return name, cmd.Run()
}

func load(s *faultdb.Server, dir string, o dumpSet, names ...string) error {
	cmd := &ddl.LoadCmd{DB: s.DB(), Dialect: "sqlite", DirFS: os.DirFS(dir), Filenames: names, Stderr: io.Discard, HistoryTable: o.history, Nullstring: o.null, Binaryprefix: o.binary, Batchsize: o.batch}
	return cmd.Run()
}

// cells is the rows of all tables, each value with its storage class and bytes.
func cells(s *faultdb.Server, skip ...string) string {
	var out []string
	for n, t := range shapeOf(s, skip...).tables {
		var e []string
		for _, c := range t.order {
			q := qid(c)
			e = append(e, "typeof("+q+")||' '||CASE WHEN typeof("+q+") IN ('text','blob') THEN hex("+q+") ELSE quote("+q+") END")
		}
		rows := 0
		for _, r := range s.MustQuery("SELECT " + strings.Join(e, ", ") + " FROM " + qid(n)) {
			var p []string
			for i, v := range r {
				p = append(p, t.order[i]+"="+str(v))
			}
			rows++
			out = append(out, fmt.Sprintf("%q: %s", n, strings.Join(p, " | ")))
		}
		if rows == 0 {
			out = append(out, fmt.Sprintf("%q: no rows", n))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// tablesOnly is the schema without views and triggers, which a dump does not carry.
func tablesOnly(s *faultdb.Server, skip ...string) string {
	sh := shapeOf(s, skip...)
	sh.views = nil
	for _, t := range sh.tables {
		t.trig = nil
	}
	return sh.String()
}

func roundTrip(t *core.T, dir string, s *faultdb.Server, o dumpSet, skip ...string) {
	t.Step(3)
	name, err := dump(s, dir, "dump", o)
	if err != nil {
		t.Fatal("dump", "dump fails: %v", err)
	}
	d := faultdb.New("_foreign_keys=true")
	defer d.Close()
	text := ""
	if o.format == "dir" {
		text = dirText(filepath.Join(dir, name))
	}
	if err := load(d, dir, o, name); err != nil {
		t.Fatal("load", "load fails: %v\n%s", err, text)
	}
	t.Trace(1)
	want, got := tablesOnly(s, skip...), tablesOnly(d)
	t.State(want)
	if want != got {
		t.Fail("schema", "the schema differs after dump and load:\n%s", diffLines(want, got))
	}
	want, got = cells(s, skip...), cells(d)
	t.State(want)
	if want != got {
		t.Fail("rows", "rows differ after dump and load:\n%s", diffLines(want, got))
	}
	if t.Failed() {
		return
	}
	again, err := dump(d, dir, "again", o)
	if err != nil {
		t.Fatal("dump", "second dump fails: %v", err)
	}
	if o.format == "dir" && !hasViews(s) {
		if a := dirText(filepath.Join(dir, again)); a != text {
			t.Fail("redump", "the second dump differs:\n%s", diffLines(text, a))
		}
	}
}

func hasViews(s *faultdb.Server) bool {
	return len(s.MustQuery("SELECT 1 FROM sqlite_schema WHERE type IN ('view', 'trigger') OR sql LIKE 'CREATE VIRTUAL%'")) > 0
}

var textValues = []string{"", " ", "a", "A", "it's", `say "x"`, `"`, `""`, `"q"`, ",", "a,b", ";", "line\nbreak", "\n", "cr\rx", "\r", "tab\t", "\\", `\n`, `\\N`, `\.`, "NULL", "null", "nil", "0x", "0x00ff", "0xzz", "x'00'", "1", "01", "1.0", "1e5", "-0", "+1", " 1 ", "true", "false", "é", "日本", "\U0001F600", "\ufeffbom", "\x00", "a\x00b", "\xff\xfe", "#c", "--", "%s %d", "$1", "{{.}}", "[1,2]", "{}", "2020-01-02", "2020-01-02 03:04:05", "’"}

// dumpValues are the values of each column type as SQL.
var dumpValues = []struct {
	types  []string
	values func() []string
}{
	{[]string{"TEXT", "VARCHAR(255)", "CHAR(3)", "NVARCHAR(10)", "CLOB", "varchar", "JSON TEXT", "UUID TEXT"}, func() []string {
		var out []string
		for _, v := range textValues {
			out = append(out, fmt.Sprintf("CAST(x'%x' AS TEXT)", v))
		}
		return out
	}},
	{[]string{"INTEGER", "INT", "BIGINT", "SMALLINT", "TINYINT", "UNSIGNED BIG INT", "int8"}, func() []string {
		return []string{"0", "1", "-1", "9223372036854775807", "-9223372036854775808", "9007199254740993", "255"}
	}},
	{[]string{"REAL", "DOUBLE", "DOUBLE PRECISION", "FLOAT"}, func() []string {
		return []string{"0.0", "1.0", "-1.5", "0.1", "1e300", "1e-300", "5e-324", "1.7976931348623157e308", "123456789012345680.0", "3.141592653589793", "0.30000000000000004"}
	}},
	{[]string{"NUMERIC", "DECIMAL(10,2)"}, func() []string {
		return []string{"0", "1", "-1.5", "0.1", "1e300", "9223372036854775807", "100", "1e-7"}
	}},
	{[]string{"BLOB", "BINARY(4)", "VARBINARY(10)", "LONGBLOB"}, func() []string {
		return []string{"x''", "x'00'", "x'ff'", "x'3078'", "x'5c4e'", "x'00010203fffe'", "x'0d0a'", "x'22'", "x'0a'"}
	}},
	{[]string{"BOOLEAN", "boolean"}, func() []string { return []string{"0", "1", "TRUE", "FALSE"} }},
	{[]string{"DATETIME", "TIMESTAMP", "datetime"}, func() []string {
		return []string{"'2020-01-02 03:04:05'", "'1969-12-31 23:59:59'", "'0001-01-01 00:00:01'", "'9999-12-31 23:59:59'", "'2020-02-29 00:00:00'", "'2020-01-02 03:04:05.123'", "'2020-01-02 03:04:05.000001'"}
	}},
	{[]string{"DATE", "date"}, func() []string { return []string{"'2020-01-02'", "'1969-12-31'", "'9999-12-31'", "'2020-02-29'"} }},
	{[]string{"UUID"}, func() []string {
		return []string{"x'00000000000000000000000000000000'", "x'ffeeddccbbaa99887766554433221100'", "x'30783078307830783078307830783078'", "'267f4bdb-50a0-4139-9704-c26a16f8f019'"}
	}},
	{[]string{"JSON", "JSONB"}, func() []string { return []string{`'{"a": 1}'`, `'[]'`, `'"x"'`} }},
	{[]string{"TIME"}, func() []string { return []string{"'03:04:05'", "'00:00:00'"} }},
}

func runC11(r *core.Runner) {
	base := scratchDir()
	defer os.RemoveAll(base)
	n := 0
	formats := []string{"dir", "dir", "zip", "tgz"}
	run := func(family, key string, o dumpSet, stmts []string, skip ...string) {
		n++
		dir := filepath.Join(base, fmt.Sprint(n))
		if o.format == "" {
			o.format = formats[n%len(formats)]
		}
		r.Count("cases in family "+family, 1)
		r.Go2(fmt.Sprintf("%s %s %s", family, o, key), func(t *core.T) {
			if err := os.MkdirAll(dir, 0o755); err != nil {
				core.Broken("%v", err)
			}
			defer os.RemoveAll(dir)
			s := faultdb.New("_foreign_keys=false")
			defer s.Close()
			for _, q := range stmts {
				if err := s.Exec(q); err != nil {
					t.Outcome("not a database")
					return
				}
			}
			t.Nontrivial()
			roundTrip(t, dir, s, o, skip...)
		})
	}
	settings := []dumpSet{{}, {batch: 1}, {batch: 2, null: "NULL!"}, {batch: 3, binary: `\x`}, {null: "∅", binary: "b'"}}
	keys := []string{"(id INTEGER PRIMARY KEY, v %s)", "(v %s)", "(v %s PRIMARY KEY)", "(v %s PRIMARY KEY) WITHOUT ROWID", "(id INT, v %s, PRIMARY KEY (v, id))", "(v %s UNIQUE, w TEXT DEFAULT 'w')"}
	// 1. Every value of every type, alone and together.
	for _, tv := range dumpValues {
		for _, typ := range tv.types {
			vs := append(tv.values(), "NULL")
			for ki, key := range keys {
				for si, o := range settings {
					var all []string
					for i, v := range vs {
						col := "v"
						if strings.Contains(key, "id ") {
							all = append(all, fmt.Sprintf("INSERT OR IGNORE INTO t (id, v) VALUES (%d, %s)", i, v))
						} else {
							all = append(all, fmt.Sprintf("INSERT OR IGNORE INTO t (%s) VALUES (%s)", col, v))
						}
						if si == 0 {
							run("one value", fmt.Sprintf("%s %s %s", typ, key, v), o, []string{"CREATE TABLE t " + fmt.Sprintf(key, typ), all[i]})
						}
					}
					create := "CREATE TABLE t " + fmt.Sprintf(key, typ)
					run("values", fmt.Sprintf("%s key %d", typ, ki), o, append([]string{create}, all...))
					run("no rows", fmt.Sprintf("%s key %d", typ, ki), o, []string{create})
				}
			}
		}
		if r.Stop() {
			break
		}
	}
	// 2. Pairs of columns.
	for i, a := range dumpValues {
		for j, b := range dumpValues {
			for ai, at := range a.types {
				if ai > 0 && !r.Thorough() {
					break
				}
				bt := b.types[ai%len(b.types)]
				var ins []string
				id := 0
				for _, x := range append(a.values(), "NULL") {
					for _, y := range append(b.values(), "NULL") {
						id++
						ins = append(ins, fmt.Sprintf("(%d, %s, %s)", id, x, y))
					}
				}
				for si, o := range settings {
					run("two columns", fmt.Sprintf("%s %s", at, bt), o, []string{fmt.Sprintf("CREATE TABLE t (id INTEGER PRIMARY KEY, a %s, b %s)", at, bt), "INSERT INTO t VALUES " + strings.Join(ins, ", ")})
					if (i+j+si)%3 == 0 {
						run("two columns", fmt.Sprintf("%s %s no key", at, bt), o, []string{fmt.Sprintf("CREATE TABLE t (a %s, b %s)", at, bt), "INSERT INTO t SELECT column2, column3 FROM (VALUES " + strings.Join(ins, ", ") + ")"})
					}
				}
			}
		}
	}
	for _, v := range []string{"\r\n", "a\r\nb", "\n\r\n"} {
		run("carriage return and newline", fmt.Sprintf("%q", v), dumpSet{format: "dir"}, []string{"CREATE TABLE t (id INTEGER PRIMARY KEY, v TEXT)", fmt.Sprintf("INSERT INTO t VALUES (1, CAST(x'%x' AS TEXT))", v)})
	}
	// 3. Names.
	names := append([]string{}, "_t", "1_t", "12_t", "_1_t", "main.t", "t.csv", "schema", "schema.json", "a.b.c", ".t", "t.", "temp.t", "2020_a.b", "%s", "a b", "CSV", "-t")
	for _, x := range introNames {
		if !strings.ContainsAny(x, "\n/") {
			names = append(names, x)
		}
	}
	for i, a := range names {
		for j, b := range names {
			if strings.EqualFold(a, b) && i != j || !r.Thorough() && i > 4 && j > 4 && i != j {
				continue
			}
			st := []string{
				fmt.Sprintf("CREATE TABLE %s (%s INTEGER PRIMARY KEY, %s TEXT)", qid(a), qid(a), qid("x"+b)),
				fmt.Sprintf("INSERT INTO %s VALUES (1, 'one'), (2, NULL)", qid(a)),
			}
			o := dumpSet{}
			if a == "sqddl_history" || b == "sqddl_history" {
				o.history = "other history"
			}
			if i != j {
				st = append(st,
					fmt.Sprintf("CREATE TABLE %s (%s INTEGER PRIMARY KEY, %s TEXT REFERENCES %s)", qid(b), qid(a), qid("x"+b), qid(a)),
					fmt.Sprintf("CREATE INDEX %s ON %s (%s)", qid("i"+b), qid(b), qid("x"+b)),
					fmt.Sprintf("INSERT INTO %s VALUES (2, 'two'), (3, NULL)", qid(b)))
			}
			run("names", fmt.Sprintf("%q %q", a, b), o, st)
		}
	}
	r.Wait()
	// 4. Schemas.
	pop := population{rowDomain[0], rowDomain[1], rowDomain[2]}
	for _, extra := range []string{"", "virtual", "stored", "check", "auto", "strict", "trigger", "view", "child", "self", "implicit", "collate", "rowid", "composite"} {
		k := common{cascade: true, extra: extra}
		for _, f := range allFeats(k) {
			if !r.Thorough() && (f.b > 6 || f.ix > 2 || extra != "" && (f.ix > 1 || f.uq > 1 || f.b > 3)) {
				continue
			}
			s := f.build(k)
			for st := style(0); st < numStyles; st++ {
				if !r.Thorough() && int(st) != n%int(numStyles) {
					continue
				}
				run("schemas "+extra, s.key(), settings[n%len(settings)], append(s.ddl(st), pop.inserts(s, "t", "b")...))
			}
		}
		if r.Stop() {
			break
		}
	}
	for _, s := range networks(true) {
		run("networks", s.key(), settings[n%len(settings)], append(s.ddl(style(n%int(numStyles))), netInserts(s)...))
	}
	for _, s := range append(columnSchemas(), twoColumnSchemas()...) {
		run("columns", s.key(), settings[n%len(settings)], s.ddl(style(n%int(numStyles))))
	}
	r.Wait()
	runDumpParts(r, base)
	runDumpServers(r)
	r.Wait()
}

// files is the contents of a dump directory by file name.
func files(dir string) map[string]string {
	es, err := os.ReadDir(dir)
	if err != nil {
		core.Broken("%v", err)
	}
	out := map[string]string{}
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			core.Broken("%v", err)
		}
		out[e.Name()] = string(b)
	}
	return out
}

// runDumpParts: partial dumps are the parts of a full one.
func runDumpParts(r *core.Runner, base string) {
	tables := []string{"a", "b", "B c", "sqddl_history", "h2"}
	stmts := []string{
		"CREATE TABLE a (id INTEGER PRIMARY KEY, v TEXT)", "CREATE TABLE b (a INT REFERENCES a, v TEXT, PRIMARY KEY (a, v))",
		`CREATE TABLE "B c" (x TEXT)`, "CREATE TABLE sqddl_history (filename TEXT PRIMARY KEY)", "CREATE TABLE h2 (filename TEXT PRIMARY KEY)",
		"CREATE INDEX ia ON a (v)", "CREATE INDEX ib ON b (v, a)", `CREATE UNIQUE INDEX ic ON "B c" (x)`,
		"INSERT INTO a VALUES (1, 'x'), (2, NULL)", "INSERT INTO b VALUES (1, 'y'), (2, 'z')", `INSERT INTO "B c" VALUES ('q')`, "INSERT INTO sqddl_history VALUES ('1.sql')", "INSERT INTO h2 VALUES ('2.sql')",
	}
	n := 0
	for _, history := range []string{"", "h2"} {
		hist := history
		if hist == "" {
			hist = "sqddl_history"
		}
		for _, sel := range subsets(tables) {
			for _, kind := range []string{"tables", "exclude"} {
				o := dumpSet{format: "dir", history: history}
				if kind == "tables" {
					if has(sel, hist) {
						continue // asking for the history table by name is left open
					}
					o.tables = sel
				} else {
					o.exclude = sel
				}
				var kept []string
				for _, tb := range tables {
					if tb != hist && (kind == "tables" && (len(sel) == 0 || has(sel, tb)) || kind == "exclude" && !has(sel, tb)) {
						kept = append(kept, tb)
					}
				}
				n++
				dir := filepath.Join(base, fmt.Sprint("p", n))
				r.Go2("parts "+o.String(), func(t *core.T) {
					defer os.RemoveAll(dir)
					s := faultdb.New("_foreign_keys=false")
					defer s.Close()
					for _, q := range stmts {
						s.MustExec(q)
					}
					before := content(s)
					t.Step(4)
					t.Trace(1)
					t.Nontrivial()
					parts := map[string]map[string]string{}
					for _, p := range []struct {
						name string
						o    dumpSet
					}{{"full", dumpSet{format: "dir", history: history}}, {"sel", o}, {"schema", o}, {"data", o}} {
						po := p.o
						if p.name == "schema" || p.name == "data" {
							po.mode = p.name
						}
						if _, err := dump(s, dir, p.name, po); err != nil {
							t.Fatal("dump", "%s: %v", p.name, err)
						}
						parts[p.name] = files(filepath.Join(dir, p.name))
					}
					if content(s) != before {
						t.Fail("changed", "dumping changed the database")
					}
					var csv []string
					for f, text := range parts["sel"] {
						if strings.HasSuffix(f, ".csv") {
							csv = append(csv, strings.TrimSuffix(f, ".csv"))
							if text != parts["full"][f] {
								t.Fail("parts", "%s differs from the one of a full dump", f)
							}
							if text != parts["data"][f] {
								t.Fail("parts", "%s differs from the one of a data-only dump", f)
							}
						} else if parts["schema"][f] != text {
							t.Fail("parts", "%s differs from the one of a schema-only dump", f)
						}
					}
					sort.Strings(csv)
					want := append([]string{}, kept...)
					sort.Strings(want)
					if fmt.Sprint(csv) != fmt.Sprint(want) {
						t.Fail("parts", "data of %q instead of %q", csv, want)
					}
					if len(parts["schema"])+len(parts["data"]) != len(parts["sel"]) {
						t.Fail("parts", "files: full %q, schema-only %q, data-only %q", sortedKeys(parts["sel"]), sortedKeys(parts["schema"]), sortedKeys(parts["data"]))
					}
					// Schema first, then data, is the same as all at once.
					var skip []string
					for _, tb := range tables {
						if !has(kept, tb) {
							skip = append(skip, tb)
						}
					}
					for _, load1 := range [][]string{{"sel"}, {"schema", "data"}, {"schema/schema.sql", "data", "schema/indexes.sql"}} {
						d := faultdb.New("_foreign_keys=true")
						if err := load(d, dir, o, load1...); err != nil {
							t.Fail("load", "%q: %v", load1, err)
						} else if a, b := tablesOnly(s, skip...)+cells(s, skip...), tablesOnly(d)+cells(d); a != b {
							t.Fail("parts", "loading %q:\n%s", load1, diffLines(a, b))
						}
						t.State(tablesOnly(d))
						d.Close()
					}
				})
			}
		}
	}
}
