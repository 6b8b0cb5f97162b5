package checks

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
	"verifmc/faultdb"
)

func init() {
	core.Register(&core.Check{Prop: "C16", Level: "exploration", Run: runC16,
		Rule: "every combination of column attributes, key columns and their order, foreign key rules, index forms, names and writing styles listed in c16.go, every subset of tables, views, object types and constraint types as filter, for the other dialects every type, column form, constraint, object sharing a name, name, comment and filter of c16cat.go on catalogs of several server versions, and the failure of every query and row fetch; an evaluation is one introspection compared with an independent reading of the database, non-trivial when the reading reports at least one object or the fault was reached",
		Assumptions: []string{
			"SQLite is real; the queries for Postgres, MySQL and SQL Server run on system catalogs that the check builds as SQLite tables from the documentation of those servers, with the expressions SQLite lacks translated; a query SQLite cannot execute even then is left out and logged",
			"in those catalogs names contain no comma or vertical bar, defaults and predicates are compared without their outermost brackets, the order of included columns is not judged, and with a filter on tables or views neither are indexes and triggers of views",
			"include and exclude filters of the same kind are not combined, filter names are written as the object is",
			"with a Tables filter triggers of views are not judged",
			"no temporary tables and no attached databases",
		}})
}

// C16 compares what the introspector reports with what SQLite's pragmas say.

// catFacts writes a catalog as one line per object.
func catFacts(c *ddl.Catalog) []string {
	var out []string
	for _, s := range c.Schemas {
		for _, t := range s.Tables {
			out = append(out, fmt.Sprintf("table %q %s", t.TableName, t.SQL))
			for i, col := range t.Columns {
				out = append(out, colFact(col, i, true))
			}
			for _, x := range t.Constraints {
				out = append(out, consFact(x))
			}
			for _, x := range t.Indexes {
				out = append(out, idxFact(x))
			}
			for _, x := range t.Triggers {
				out = append(out, trigFact(x))
			}
		}
		for _, v := range s.Views {
			out = append(out, viewFact(v))
			for _, x := range v.Indexes {
				out = append(out, idxFact(x))
			}
			for _, x := range v.Triggers {
				out = append(out, trigFact(x))
			}
		}
		for _, x := range s.Routines {
			out = append(out, "routine "+x.RoutineName)
		}
	}
	sort.Strings(out)
	return out
}

func colFact(c ddl.Column, i int, keys bool) string {
	s := fmt.Sprintf("column %q #%d %q %s notnull=%v generated=%v default=%s", c.TableName, i, c.ColumnName, c.ColumnType, c.IsNotNull, c.IsGenerated, normDefault(c.ColumnDefault))
	if keys {
		s += fmt.Sprintf(" pk=%v unique=%v ref=%q.%q %s/%s", c.IsPrimaryKey, c.IsUnique, c.ReferencesTable, c.ReferencesColumn, c.UpdateRule, c.DeleteRule)
	}
	return s
}

func consFact(c ddl.Constraint) string {
	s := fmt.Sprintf("constraint %q %s %q", c.TableName, c.ConstraintType, c.Columns)
	if c.ConstraintType == "FOREIGN KEY" {
		s += fmt.Sprintf(" -> %q %q %s/%s", c.ReferencesTable, c.ReferencesColumns, c.UpdateRule, c.DeleteRule)
	}
	return s
}

func idxFact(x ddl.Index) string {
	if len(x.Columns) == 1 && x.Columns[0] == "" {
		x.Columns = nil // a single expression
	}
	return fmt.Sprintf("index %q %q unique=%v %q %s", x.TableName, x.IndexName, x.IsUnique, x.Columns, x.SQL)
}

func trigFact(x ddl.Trigger) string {
	return fmt.Sprintf("trigger %q %q %s", x.TableName, x.TriggerName, x.SQL)
}

func viewFact(v ddl.View) string {
	for len(v.ColumnTypes) < len(v.Columns) {
		v.ColumnTypes = append(v.ColumnTypes, "")
	}
	return fmt.Sprintf("view %q %q %q %s", v.ViewName, v.Columns, v.ColumnTypes, v.SQL)
}

type dbObject struct {
	kind  string // table, view
	name  string
	facts []string // without constraints
	cons  map[string][]string
	trigs []string
	plain []string // column facts without the keys, as GetColumns reports them
}

// readObjects reads the database with pragmas only.
func readObjects(s *faultdb.Server) []dbObject {
	var out []dbObject
	crlf := func(q string) string { return strings.ReplaceAll(q, "\r\n", "\n") + ";" }
	for _, r := range s.MustQuery(`SELECT m.type, m.name, m.sql, l.type FROM sqlite_schema m JOIN pragma_table_list l ON l.schema = 'main' AND l.name = m.name WHERE m.type IN ('table', 'view') AND l.type <> 'shadow' AND substr(m.name, 1, 7) <> 'sqlite_' ORDER BY m.name`) {
		o := dbObject{kind: str(r[0]), name: str(r[1]), cons: map[string][]string{}}
		for _, q := range s.MustQuery(`SELECT name, sql FROM sqlite_schema WHERE type = 'trigger' AND tbl_name = ?`, o.name) {
			o.trigs = append(o.trigs, trigFact(ddl.Trigger{TableName: o.name, TriggerName: str(q[0]), SQL: crlf(str(q[1]))}))
		}
		cols := s.MustQuery(`SELECT name, type, "notnull", coalesce(dflt_value,''), pk, hidden FROM pragma_table_xinfo(?) ORDER BY cid`, o.name)
		if o.kind == "view" {
			v := ddl.View{ViewName: o.name, SQL: crlf(str(r[2]))}
			for _, c := range cols {
				v.Columns = append(v.Columns, str(c[0]))
				v.ColumnTypes = append(v.ColumnTypes, str(c[1]))
			}
			o.facts = append(o.facts, viewFact(v))
			out = append(out, o)
			continue
		}
		o.facts = append(o.facts, fmt.Sprintf("table %q %s", o.name, crlf(str(r[2]))))
		cons := func(c ddl.Constraint) {
			c.TableName = o.name
			o.cons[c.ConstraintType] = append(o.cons[c.ConstraintType], consFact(c))
		}
		pk := pkOf(s, o.name)
		if len(pk) > 0 {
			cons(ddl.Constraint{ConstraintType: "PRIMARY KEY", Columns: pk})
		}
		single := map[string]bool{}
		for _, x := range s.MustQuery(`SELECT name, "unique", origin FROM pragma_index_list(?)`, o.name) {
			var names []string
			for _, c := range s.MustQuery(`SELECT cid, name FROM pragma_index_info(?) ORDER BY seqno`, str(x[0])) {
				n := str(c[1])
				if strings.HasPrefix(str(c[0]), "-") {
					n = ""
				}
				names = append(names, n)
			}
			switch str(x[2]) {
			case "u":
				cons(ddl.Constraint{ConstraintType: "UNIQUE", Columns: names})
				if len(names) == 1 {
					single[names[0]] = true
				}
			case "c":
				q := s.Strings(`SELECT sql FROM sqlite_schema WHERE type = 'index' AND name = ?`, str(x[0]))[0]
				o.facts = append(o.facts, idxFact(ddl.Index{TableName: o.name, IndexName: str(x[0]), IsUnique: str(x[1]) == "1", Columns: names, SQL: crlf(q)}))
			}
		}
		refs := map[string]ddl.Constraint{}
		fks := map[string]*ddl.Constraint{}
		act := func(a string) string {
			if a == "NO ACTION" {
				return ""
			}
			return a
		}
		for _, x := range s.MustQuery(`SELECT id, "table", "from", "to", on_update, on_delete, seq FROM pragma_foreign_key_list(?) ORDER BY id DESC, seq`, o.name) {
			id := str(x[0])
			if fks[id] == nil {
				fks[id] = &ddl.Constraint{ConstraintType: "FOREIGN KEY", ReferencesTable: str(x[1]), UpdateRule: act(str(x[4])), DeleteRule: act(str(x[5]))}
			}
			f := fks[id]
			f.Columns = append(f.Columns, str(x[2]))
			if x[3] != nil {
				f.ReferencesColumns = append(f.ReferencesColumns, str(x[3]))
			} else if p := pkOf(s, f.ReferencesTable); len(f.ReferencesColumns) < len(p) {
				f.ReferencesColumns = append(f.ReferencesColumns, p[len(f.ReferencesColumns)])
			}
		}
		for _, id := range sortedKeys(fks) {
			cons(*fks[id])
			if len(fks[id].Columns) == 1 {
				refs[fks[id].Columns[0]] = *fks[id]
			}
		}
		for i, c := range cols {
			if str(c[5]) == "1" && str(r[3]) == "virtual" {
				continue
			}
			col := ddl.Column{TableName: o.name, ColumnName: str(c[0]), IsNotNull: str(c[2]) == "1", IsGenerated: str(c[5]) == "2" || str(c[5]) == "3", ColumnDefault: str(c[3])}
			col.ColumnType = strings.TrimSpace(strings.TrimSuffix(str(c[1]), "GENERATED ALWAYS"))
			o.plain = append(o.plain, colFact(col, i, false))
			col.IsPrimaryKey = len(pk) == 1 && pk[0] == col.ColumnName
			col.IsUnique = single[col.ColumnName]
			if f, ok := refs[col.ColumnName]; ok {
				col.ReferencesTable, col.UpdateRule, col.DeleteRule = f.ReferencesTable, f.UpdateRule, f.DeleteRule
				if len(f.ReferencesColumns) > 0 {
					col.ReferencesColumn = f.ReferencesColumns[0]
				}
			}
			o.facts = append(o.facts, colFact(col, i, true))
		}
		out = append(out, o)
	}
	return out
}

func pkOf(s *faultdb.Server, table string) []string {
	var pk []string
	for _, r := range s.MustQuery(`SELECT name FROM pragma_table_info(?) WHERE pk > 0 ORDER BY pk`, table) {
		pk = append(pk, str(r[0]))
	}
	return pk
}

func has(list []string, s string) bool {
	for _, l := range list {
		if l == s {
			return true
		}
	}
	return false
}

func (o dbObject) admitted(f ddl.Filter) bool {
	in, ex, typ := f.Tables, f.ExcludeTables, "TABLES"
	if o.kind == "view" {
		in, ex, typ = f.Views, f.ExcludeViews, "VIEWS"
	}
	if len(f.ObjectTypes) > 0 && !has(f.ObjectTypes, typ) {
		return false
	}
	if len(in) > 0 {
		return has(in, o.name)
	}
	return !has(ex, o.name)
}

func expectFacts(objs []dbObject, f ddl.Filter) []string {
	var out []string
	for _, o := range objs {
		if !o.admitted(f) {
			continue
		}
		for _, x := range o.facts {
			// The key flags of columns follow the constraints that are read.
			out = append(out, x)
		}
		for typ, c := range o.cons {
			if len(f.ConstraintTypes) == 0 || has(f.ConstraintTypes, typ) {
				out = append(out, c...)
			}
		}
		if o.kind == "view" && len(f.Tables) > 0 {
			continue
		}
		out = append(out, o.trigs...)
	}
	sort.Strings(out)
	return out
}

// dropKeys removes the key flags, which depend on the constraints read.
func dropKeys(facts []string) []string {
	out := make([]string, len(facts))
	for i, f := range facts {
		if strings.HasPrefix(f, "column ") {
			if j := strings.LastIndex(f, " pk="); j > 0 {
				f = f[:j]
			}
		}
		out[i] = f
	}
	return out
}

func factDiff(got, want []string) string {
	n := map[string]int{}
	for _, w := range want {
		n[w]++
	}
	var b strings.Builder
	for _, g := range got {
		if n[g] > 0 {
			n[g]--
		} else {
			b.WriteString("\n  reported: " + g)
		}
	}
	for _, w := range want {
		if n[w] > 0 {
			n[w]--
			b.WriteString("\n  missing:  " + w)
		}
	}
	return b.String()
}

// introspectCheck compares one introspection with the reading of the database.
func introspectCheck(t *core.T, s *faultdb.Server, objs []dbObject, f ddl.Filter, sig string) {
	t.Step(1)
	dbi := ddl.NewDatabaseIntrospector(ddl.DialectSQLite, s.DB())
	dbi.Filter = f
	var c ddl.Catalog
	if err := dbi.WriteCatalog(&c); err != nil {
		t.Fail(sig, "introspection of a sound database failed: %v", err)
		return
	}
	got, want := catFacts(&c), expectFacts(objs, f)
	if len(want) > 0 {
		t.Nontrivial()
	}
	var kept []string
	for _, g := range got {
		if hiddenColumn(s, g) {
			continue
		}
		kept = append(kept, g)
	}
	got = kept
	if len(f.Tables) > 0 {
		kept = nil
		for _, g := range got {
			if strings.HasPrefix(g, "trigger ") {
				view := false
				for _, o := range objs {
					view = view || o.kind == "view" && has(o.trigs, g)
				}
				if view {
					continue
				}
			}
			kept = append(kept, g)
		}
		got = kept
	}
	if len(f.ConstraintTypes) > 0 {
		got, want = dropKeys(got), dropKeys(want)
	}
	if d := factDiff(got, want); d != "" {
		t.Fail(sig, "the catalog differs from the database%s", d)
	}
	if t.Failed() {
		return
	}
	// The single object methods.
	f.ObjectTypes = nil
	want = expectFacts(objs, f)
	var one []string
	fail := func(err error) bool {
		if err != nil {
			t.Fail(sig, "introspection of a sound database failed: %v", err)
		}
		return err != nil
	}
	tables, err := dbi.GetTables()
	if fail(err) {
		return
	}
	for _, x := range tables {
		one = append(one, fmt.Sprintf("table %q %s", x.TableName, x.SQL))
	}
	views, err := dbi.GetViews()
	if fail(err) {
		return
	}
	for _, x := range views {
		one = append(one, viewFact(x))
	}
	cons, err := dbi.GetConstraints()
	if fail(err) {
		return
	}
	for _, x := range cons {
		one = append(one, consFact(x))
	}
	idx, err := dbi.GetIndexes()
	if fail(err) {
		return
	}
	for _, x := range idx {
		one = append(one, idxFact(x))
	}
	cols, err := dbi.GetColumns()
	if fail(err) {
		return
	}
	n := map[string]int{}
	for _, x := range cols {
		g := colFact(x, n[x.TableName], true)
		n[x.TableName]++
		if !hiddenColumn(s, g) {
			one = append(one, g)
		}
	}
	kept = nil
	for _, w := range want {
		if !strings.HasPrefix(w, "trigger ") {
			kept = append(kept, w)
		}
	}
	sort.Strings(one)
	if d := factDiff(dropKeys(one), dropKeys(kept)); d != "" {
		t.Fail(sig, "the Get methods differ from the database%s", d)
	}
}

// hiddenColumn tells whether the fact is about a hidden column of a virtual table.
func hiddenColumn(s *faultdb.Server, fact string) bool {
	var tbl, col string
	var n int
	if k, _ := fmt.Sscanf(fact, "column %q #%d %q", &tbl, &n, &col); k != 3 {
		return false
	}
	return len(s.MustQuery(`SELECT 1 FROM pragma_table_xinfo(?) WHERE name = ? AND hidden = 1`, tbl, col)) > 0
}

func schemaCase(r *core.Runner, sig string, stmts []string) {
	if r.Stop() {
		return
	}
	r.Go(sig+": "+strings.Join(stmts, "; "), func(t *core.T) {
		s := faultdb.New("")
		defer s.Close()
		for _, q := range stmts {
			s.MustExec(q)
		}
		introspectCheck(t, s, readObjects(s), ddl.Filter{}, sig)
	})
}

// historyHidden runs a command that reads the schema and looks for the tables it saw.
func historyHidden(t *core.T, hist, cmd string) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	s := faultdb.New("")
	defer s.Close()
	for _, n := range []string{"a", "sqddl_history", "my_hist"} {
		s.MustExec(fmt.Sprintf("CREATE TABLE %s (id INTEGER PRIMARY KEY)", n))
	}
	t.Step(1)
	t.Nontrivial()
	var out syncBuf
	var err error
	saw := func(name string) bool { return false }
	hidden := hist
	if hidden == "" {
		hidden = "sqddl_history"
	}
	switch cmd {
	case "tables":
		c := &ddl.TablesCmd{DB: s.DB(), Dialect: "sqlite", HistoryTable: hist, Stdout: &out}
		err = c.Run()
		saw = func(name string) bool { return strings.Contains(out.String(), "type "+strings.ToUpper(name)+" struct") }
	case "dump":
		c := &ddl.DumpCmd{DB: s.DB(), Dialect: "sqlite", HistoryTable: hist, SchemaOnly: true, OutputDir: dir, Stderr: &out}
		err = c.Run()
		text := dirText(dir)
		saw = func(name string) bool { return strings.Contains(text, fmt.Sprintf("%q", name)) }
	case "generate":
		db, err := sql.Open("sqlite3", dir+"/src.db")
		if err != nil {
			core.Broken("%v", err)
		}
		for _, q := range s.Strings("SELECT sql FROM sqlite_schema") {
			if _, err := db.Exec(q); err != nil {
				core.Broken("%v", err)
			}
		}
		db.Close()
		if err := os.WriteFile(dir+"/tables.go", []byte("package tables\n"), 0o644); err != nil {
			core.Broken("%v", err)
		}
		args := []string{"-src", "sqlite:" + dir + "/src.db", "-dest", dir + "/tables.go", "-drop-objects", "-dry-run"}
		if hist != "" {
			args = append(args, "-history-table", hist)
		}
		var c *ddl.GenerateCmd
		if c, err = ddl.GenerateCommand(args...); err == nil {
			c.Stdout, c.Stderr = &out, &out
			err = c.Run()
		}
		saw = func(name string) bool { return strings.Contains(out.String(), "DROP TABLE "+name) }
	case "automigrate":
		c := &ddl.AutomigrateCmd{DB: s.DB(), Dialect: "sqlite", HistoryTable: hist, DestCatalog: &ddl.Catalog{Dialect: "sqlite"}, DropObjects: true, Stderr: &out}
		err = c.Run()
		left := s.Strings("SELECT name FROM sqlite_schema")
		saw = func(name string) bool { return !has(left, name) }
	}
	if err != nil {
		t.Fail("history", "%s fails: %v\n%s", cmd, err, out.String())
		return
	}
	for _, n := range []string{"a", "sqddl_history", "my_hist"} {
		if saw(n) == (n == hidden) {
			t.Fail("history", "%s with history table %q: table %s seen=%v\n%s", cmd, hist, n, saw(n), out.String())
		}
	}
}

func perms(in []string) [][]string {
	if len(in) == 0 {
		return [][]string{nil}
	}
	var out [][]string
	for i := range in {
		rest := append(append([]string{}, in[:i]...), in[i+1:]...)
		for _, p := range perms(rest) {
			out = append(out, append([]string{in[i]}, p...))
		}
	}
	return out
}

// subsets returns every subset, the empty one first.
func subsets[V any](in []V) [][]V {
	out := [][]V{}
	for m := 0; m < 1<<len(in); m++ {
		var s []V
		for i := range in {
			if m>>i&1 == 1 {
				s = append(s, in[i])
			}
		}
		out = append(out, s)
	}
	return out
}

var introTypes = []string{"", "INTEGER", "int", "TEXT", "VARCHAR(10)", "DECIMAL(10,2)", "UNSIGNED BIG INT", "timestamp", `"my type"`}
var introDefaults = []string{"", "1", "-1", "+2", "1.5e3", "'x'", "'it''s'", "''", "'1'", "NULL", "TRUE", "CURRENT_TIMESTAMP", "(1 + 2)", "(datetime('now'))", "x'00ff'", "('a' || 'b')", "('(' || 'b')", "((3))", "0x1F", "ident"}
var introNames = []string{"t", "T", "Mixed Case", `q"x`, "it's", "com,ma", "a;b", "pi|pe", "sqlite", "sqlite-x", "sqlitexy", "ünï", "a%_b", "create table", "order", "a\\b", "1st", "[br]", "`bt`", "a.b", "new\nline", "-- c", " lead", "sqddl_history", "{{.}}"}

func runC16(r *core.Runner) {
	runC16Catalogs(r)
	// 1. Column attributes.
	for _, typ := range introTypes {
		for _, def := range introDefaults {
			for _, attr := range []string{"", " NOT NULL", " UNIQUE", " NOT NULL UNIQUE", " REFERENCES p", " REFERENCES p (b) ON DELETE CASCADE", " COLLATE NOCASE", " CHECK (a <> ')')"} {
				d := ""
				if def != "" {
					d = " DEFAULT " + def
				}
				schemaCase(r, "column", []string{"CREATE TABLE p (id INTEGER PRIMARY KEY, b UNIQUE)", fmt.Sprintf("CREATE TABLE t (x, a %s%s%s, y)", typ, attr, d)})
			}
		}
		for _, pk := range []string{"PRIMARY KEY", "PRIMARY KEY NOT NULL", "PRIMARY KEY DESC", "PRIMARY KEY AUTOINCREMENT", "NOT NULL PRIMARY KEY UNIQUE", "CONSTRAINT k PRIMARY KEY"} {
			if strings.Contains(pk, "AUTO") && typ != "INTEGER" {
				continue
			}
			for _, opt := range []string{"", " STRICT", " WITHOUT ROWID"} {
				if opt == " STRICT" && !has([]string{"INTEGER", "int", "TEXT"}, typ) || opt == " WITHOUT ROWID" && strings.Contains(pk, "AUTO") {
					continue
				}
				schemaCase(r, "pk", []string{fmt.Sprintf("CREATE TABLE t (x INT, a %s %s, y TEXT)%s", typ, pk, opt)})
			}
		}
		for _, g := range []string{"AS (x + 1)", "GENERATED ALWAYS AS (x || ')') STORED", "generated always as (x) virtual", "AS (x) NOT NULL", "UNIQUE AS (x)"} {
			schemaCase(r, "generated", []string{fmt.Sprintf("CREATE TABLE t (x INT, a %s %s, y TEXT)", typ, g)})
		}
	}
	// 2. Keys over several columns, in every order and writing style.
	cols := []string{"a", "b", "c"}
	var lists [][]string
	for _, sub := range subsets(cols) {
		lists = append(lists, perms(sub)...)
	}
	mk := func(name string) sTable {
		return sTable{name: name, cols: []sCol{{name: "a", typ: "INT"}, {name: "b", typ: "TEXT"}, {name: "c", typ: "INT"}}}
	}
	for st := style(0); st < numStyles; st++ {
		for _, pk := range lists {
			for _, u := range lists {
				t := mk("t")
				t.pk = pk
				if len(u) > 0 {
					t.uniques = [][]string{u}
				}
				schemaCase(r, "keys", sSchema{tables: []sTable{t}}.ddl(st))
				// A second unique key: every two different ones, on plain tables.
				if len(pk) == 0 && len(u) > 0 {
					for _, u2 := range lists {
						if len(u2) > 0 && strings.Join(u, ",") < strings.Join(u2, ",") {
							t2 := mk("t")
							t2.uniques = [][]string{u, u2}
							schemaCase(r, "keys", sSchema{tables: []sTable{t2}}.ddl(st))
						}
					}
				}
			}
		}
		// 3. Foreign keys.
		rules := []string{"", "NO ACTION", "RESTRICT", "CASCADE", "SET NULL", "SET DEFAULT"}
		for _, cl := range lists {
			if len(cl) == 0 {
				continue
			}
			for _, rl := range lists {
				if len(rl) != len(cl) {
					continue
				}
				p := mk("p")
				p.uniques = [][]string{rl}
				for _, upd := range rules {
					for _, del := range rules {
						if len(cl) > 1 && upd != "" && del != "" {
							continue
						}
						t := mk("t")
						t.fks = []sFK{{cols: cl, ref: "p", refCols: rl, upd: upd, del: del}}
						schemaCase(r, "fk", sSchema{tables: []sTable{p, t}}.ddl(st))
					}
				}
				// Without columns: the primary key of p. And to itself, and two of them.
				p2 := mk("p")
				p2.pk = rl
				t := mk("t")
				t.fks = []sFK{{cols: cl, ref: "p"}}
				schemaCase(r, "fk", sSchema{tables: []sTable{p2, t}}.ddl(st))
				t.fks = []sFK{{cols: cl, ref: "p"}, {cols: cl, ref: "t", refCols: rl}}
				t.uniques = [][]string{rl}
				if len(cl) > 1 {
					schemaCase(r, "fk", sSchema{tables: []sTable{p2, t}}.ddl(st))
				}
				t.fks = []sFK{{cols: cl, ref: "t", refCols: rl, del: "CASCADE"}}
				schemaCase(r, "fk", sSchema{tables: []sTable{t}}.ddl(st))
			}
			t := mk("t")
			t.fks = []sFK{{cols: cl, ref: "nowhere"}}
			schemaCase(r, "fk-dangling", sSchema{tables: []sTable{t}}.ddl(st))
			t.fks = []sFK{{cols: cl, ref: "p"}}
			schemaCase(r, "fk-dangling", sSchema{tables: []sTable{mk("p"), t}}.ddl(st))
		}
		// 4. Indexes.
		for _, cl := range lists {
			if len(cl) == 0 {
				continue
			}
			for _, uniq := range []bool{false, true} {
				for _, desc := range []bool{false, true} {
					for _, where := range []string{"", "a > 1", "b IS NOT NULL"} {
						t := mk("t")
						t.idx = []sIdx{{name: "i", cols: cl, unique: uniq, desc: desc, where: where}}
						schemaCase(r, "index", sSchema{tables: []sTable{t}}.ddl(st))
						t.idx = append(t.idx, sIdx{name: "h", cols: []string{"(lower(b))", "a"}, unique: !uniq})
						t.uniques = [][]string{cl}
						schemaCase(r, "index", sSchema{tables: []sTable{t, mk("z")}}.ddl(st))
					}
				}
			}
		}
	}
	for _, expr := range []string{"a + c", "lower(b), a", "a, lower(b), c", "b COLLATE NOCASE"} {
		schemaCase(r, "index", []string{"CREATE TABLE t (a, b, c)", "CREATE INDEX i ON t (" + expr + ")"})
	}
	// 5. Names.
	for i, n1 := range introNames {
		for j, n2 := range introNames {
			if i != j && !r.Thorough() && i > 2 && j > 2 {
				continue
			}
			a, b := qid(n1), qid(n2)
			b2 := b
			if strings.EqualFold(n1, n2) {
				b2 = qid(n2 + "2")
			}
			schemaCase(r, "names", []string{
				fmt.Sprintf("CREATE TABLE %s (x INT, %s INT UNIQUE, %s INT PRIMARY KEY, UNIQUE (%s, x))", a, a, qid(n2+"k"), a),
				fmt.Sprintf("CREATE TABLE %s (%s INT, %s INT REFERENCES %s (%s), FOREIGN KEY (%s, %s) REFERENCES %s (%s, x))", qid("child of "+n2), b, qid(n2+"k"), a, a, b, qid(n2+"k"), a, a),
				fmt.Sprintf("CREATE INDEX %s ON %s (%s, x)", qid("i "+n2), a, a),
				fmt.Sprintf("CREATE VIEW %s AS SELECT %s, x AS %s FROM %s", qid("v "+n2), a, b2, a),
				fmt.Sprintf("CREATE TRIGGER %s AFTER INSERT ON %s BEGIN SELECT 1; END", b, a),
				fmt.Sprintf("CREATE TRIGGER %s INSTEAD OF INSERT ON %s BEGIN SELECT 1; END", qid("vt "+n2), qid("v "+n2)),
			})
		}
	}
	// 6. Views, triggers, virtual tables and the tables SQLite makes by itself.
	pieces := [][]string{
		{"CREATE VIEW v AS SELECT a, b FROM t"},
		{"CREATE VIEW v1 AS SELECT 1"},
		{"CREATE VIEW v2 (m, n) AS SELECT a || b, count(*) FROM t GROUP BY 1", "CREATE TRIGGER g2 INSTEAD OF UPDATE OF m ON v2 BEGIN SELECT 1; END"},
		{"CREATE VIEW v3 AS SELECT a || b, a || '|' AS \"x|y\" FROM t", "CREATE VIEW v4 AS SELECT * FROM v3"},
		{"CREATE TRIGGER g AFTER INSERT ON t BEGIN SELECT 1; END", "CREATE TRIGGER f BEFORE DELETE ON t WHEN old.a > 1 BEGIN\r\n DELETE FROM t;\r\nSELECT ';'; END"},
		{"CREATE VIRTUAL TABLE mail USING fts5(subject, body)", "CREATE VIRTUAL TABLE geo USING rtree(id, x0, x1)"},
		{"CREATE TABLE au (id INTEGER PRIMARY KEY AUTOINCREMENT)", "INSERT INTO au DEFAULT VALUES"},
		{"CREATE INDEX ti ON t (a)", "INSERT INTO t (a) VALUES (1)", "ANALYZE"},
		{"CREATE TABLE copy AS SELECT a, b FROM t", "CREATE TABLE e (x)\r\n"},
		{"ALTER TABLE t RENAME COLUMN b TO bb", "ALTER TABLE t ADD COLUMN added TEXT DEFAULT 'x' NOT NULL"},
	}
	r.Go("view on a dropped table", func(t *core.T) {
		s := faultdb.New("")
		defer s.Close()
		for _, q := range []string{"CREATE TABLE t (a)", "CREATE TABLE u (a)", "CREATE VIEW v AS SELECT * FROM t", "CREATE VIEW w AS SELECT * FROM u", "DROP TABLE u"} {
			s.MustExec(q)
		}
		t.Step(1)
		t.Nontrivial()
		views, err := ddl.NewDatabaseIntrospector(ddl.DialectSQLite, s.DB()).GetViews()
		if err == nil && len(views) != 2 {
			t.Fail("broken-view", "a view that cannot be read is left out without an error: %v", views)
		}
	})
	schemaCase(r, "literal-name", []string{"CREATE TABLE 't' (a INT PRIMARY KEY, b UNIQUE)", "CREATE INDEX 'i' ON 't' (b)"})
	schemaCase(r, "literal-name", []string{"CREATE TABLE t (a INT PRIMARY KEY, b UNIQUE)", "ALTER TABLE t RENAME TO 'u'"})
	for m := 1; m < 1<<len(pieces); m++ {
		stmts := []string{"CREATE TABLE t (a INT, b TEXT)"}
		for i, p := range pieces {
			if m>>i&1 == 1 {
				stmts = append(stmts, p...)
			}
		}
		schemaCase(r, "objects", stmts)
	}
	r.Wait()
	// 7. Filters.
	names := []string{"a", "b'c", "sqddl_history"}
	views := []string{"v", "w x"}
	world := []string{
		`CREATE TABLE a (id INTEGER PRIMARY KEY, u INT UNIQUE CHECK (u > 0), UNIQUE (id, u))`,
		`CREATE TABLE "b'c" (id INT REFERENCES a (id), k TEXT NOT NULL, PRIMARY KEY (id, k))`,
		`CREATE TABLE sqddl_history (filename TEXT PRIMARY KEY)`,
		`CREATE INDEX ai ON a (u)`, `CREATE INDEX bi ON "b'c" (k)`,
		`CREATE VIEW v AS SELECT * FROM a`, `CREATE VIEW "w x" AS SELECT * FROM "b'c"`,
		`CREATE TRIGGER ta AFTER INSERT ON a BEGIN SELECT 1; END`, `CREATE TRIGGER tb AFTER INSERT ON "b'c" BEGIN SELECT 1; END`,
		`CREATE TRIGGER tv INSTEAD OF INSERT ON v BEGIN SELECT 1; END`, `CREATE TRIGGER tw INSTEAD OF DELETE ON "w x" BEGIN SELECT 1; END`,
	}
	for _, tf := range append(subsets(names), []string{"nothing"}, []string{"v", "a"}) {
		for _, exT := range []bool{false, true} {
			for _, vf := range append(subsets(views), []string{"nothing"}, []string{"a"}) {
				for _, exV := range []bool{false, true} {
					if r.Stop() || exT && has(tf, "v") || len(tf) == 0 && exT || len(vf) == 0 && exV {
						continue
					}
					r.Go(fmt.Sprintf("filter tables=%q exclude=%v views=%q exclude=%v", tf, exT, vf, exV), func(t *core.T) {
						s := faultdb.New("")
						defer s.Close()
						for _, q := range world {
							s.MustExec(q)
						}
						objs := readObjects(s)
						for _, ot := range subsets([]string{"TABLES", "VIEWS", "ROUTINES"}) {
							for _, ct := range subsets([]string{"PRIMARY KEY", "UNIQUE", "FOREIGN KEY", "CHECK"}) {
								f := ddl.Filter{ObjectTypes: ot, ConstraintTypes: ct}
								if exT {
									f.ExcludeTables = tf
								} else {
									f.Tables = tf
								}
								if exV {
									f.ExcludeViews = vf
								} else {
									f.Views = vf
								}
								introspectCheck(t, s, objs, f, "filter")
							}
						}
					})
				}
			}
		}
	}
	r.Wait()
	for _, h := range []string{"", "sqddl_history", "my_hist", "other"} {
		for _, cmd := range []string{"tables", "dump", "generate", "automigrate"} {
			r.Go(fmt.Sprintf("history table %q of %s", h, cmd), func(t *core.T) { historyHidden(t, h, cmd) })
		}
	}
	// 8. Failures of every query and row fetch.
	methods := map[string]func(*ddl.DatabaseIntrospector) error{
		"WriteCatalog":        func(d *ddl.DatabaseIntrospector) error { return d.WriteCatalog(&ddl.Catalog{}) },
		"GetVersion":          func(d *ddl.DatabaseIntrospector) error { _, err := d.GetVersion(); return err },
		"GetVersionNums":      func(d *ddl.DatabaseIntrospector) error { _, err := d.GetVersionNums(); return err },
		"GetDatabaseName":     func(d *ddl.DatabaseIntrospector) error { _, err := d.GetDatabaseName(); return err },
		"GetCurrentSchema":    func(d *ddl.DatabaseIntrospector) error { _, err := d.GetCurrentSchema(); return err },
		"GetDefaultCollation": func(d *ddl.DatabaseIntrospector) error { _, err := d.GetDefaultCollation(); return err },
		"GetColumns":          func(d *ddl.DatabaseIntrospector) error { _, err := d.GetColumns(); return err },
		"GetConstraints":      func(d *ddl.DatabaseIntrospector) error { _, err := d.GetConstraints(); return err },
		"GetDomains":          func(d *ddl.DatabaseIntrospector) error { _, err := d.GetDomains(); return err },
		"GetEnums":            func(d *ddl.DatabaseIntrospector) error { _, err := d.GetEnums(); return err },
		"GetExtensions":       func(d *ddl.DatabaseIntrospector) error { _, err := d.GetExtensions(); return err },
		"GetIndexes":          func(d *ddl.DatabaseIntrospector) error { _, err := d.GetIndexes(); return err },
		"GetRoutines":         func(d *ddl.DatabaseIntrospector) error { _, err := d.GetRoutines(); return err },
		"GetTables":           func(d *ddl.DatabaseIntrospector) error { _, err := d.GetTables(); return err },
		"GetTriggers":         func(d *ddl.DatabaseIntrospector) error { _, err := d.GetTriggers(); return err },
		"GetViews":            func(d *ddl.DatabaseIntrospector) error { _, err := d.GetViews(); return err },
	}
	for _, m := range sortedKeys(methods) {
		call := methods[m]
		r.Go("failures sqlite "+m, func(t *core.T) {
			s := faultdb.New("")
			defer s.Close()
			for _, q := range world {
				s.MustExec(q)
			}
			for _, mode := range []faultdb.Mode{faultdb.ErrBefore, faultdb.Crash} {
				for n := 0; ; n++ {
					c := s.Clone("")
					var hit *faultdb.Op
					c.Hook = func(op faultdb.Op) faultdb.Mode {
						if op.Seq == n {
							hit = &op
							return mode
						}
						return faultdb.OK
					}
					t.Step(1)
					db := c.DB()
					c.Reset()
					err := call(ddl.NewDatabaseIntrospector(ddl.DialectSQLite, db))
					c.Close()
					if hit == nil {
						break
					}
					if hit.Kind == "rollback" || hit.Kind == "connect" {
						continue
					}
					t.Nontrivial()
					if err == nil {
						t.Fail("failure-hidden", "%s reports success although %s failed (%s)", m, hit, mode)
					}
				}
			}
		})
		for _, d := range allDialects[1:] {
			r.Go("failures "+d+" "+m, func(t *core.T) {
				for _, step := range []string{"query", "next"} {
					s := faultdb.New("")
					s.Translate = func(conn int, q string, args []driver.NamedValue) (string, []driver.NamedValue, *faultdb.Answer) {
						if strings.Contains(strings.ToLower(q), "version") && m != "GetVersion" && m != "GetVersionNums" && !strings.Contains(q, "\n") {
							return "", nil, &faultdb.Answer{Cols: []string{"v"}, Rows: [][]driver.Value{{"8.0.33"}}}
						}
						return "SELECT 1", nil, nil
					}
					hit := ""
					s.Hook = func(op faultdb.Op) faultdb.Mode {
						if op.Kind == step && (m == "GetVersion" || m == "GetVersionNums" || !strings.Contains(strings.ToLower(op.SQL), "version")) {
							hit = op.SQL
							return faultdb.ErrBefore
						}
						return faultdb.OK
					}
					dbi := ddl.NewDatabaseIntrospector(d, s.DB())
					dbi.VersionNums = ddl.VersionNums{99, 0, 0}
					t.Step(1)
					err := call(dbi)
					s.Close()
					if hit == "" {
						continue
					}
					t.Nontrivial()
					if err == nil {
						t.Fail("failure-hidden", "%s on %s reports success although a %s of %.80q failed", m, d, step, hit)
					}
				}
			})
		}
	}
	// 9. Server versions.
	for _, v := range []struct{ dialect, version, want string }{
		{"postgres", "15.2", "[15 2]"}, {"postgres", "15.2 (Debian 15.2-1.pgdg110+1)", "[15 2]"}, {"postgres", "9.6.24", "[9 6 24]"},
		{"mysql", "8.0.33", "[8 0 33]"}, {"mysql", "8.0.33-0ubuntu0.22.04.2", "[8 0 33]"}, {"mysql", "5.7.42-log", "[5 7 42]"},
		{"mysql", "10.11.2-MariaDB-1:10.11.2+maria~ubu2204", "[10 11 2]"}, {"mysql", "8.0.32-24", "[8 0 32]"},
		{"sqlserver", "15.0.2000.5", "[15 0 2000 5]"}, {"sqlite", "3.39.4", "[3 39 4]"},
	} {
		r.Go("version "+v.dialect+" "+v.version, func(t *core.T) {
			s := faultdb.New("")
			defer s.Close()
			s.Translate = func(conn int, q string, args []driver.NamedValue) (string, []driver.NamedValue, *faultdb.Answer) {
				return "", nil, &faultdb.Answer{Cols: []string{"v"}, Rows: [][]driver.Value{{v.version}}}
			}
			t.Step(1)
			t.Nontrivial()
			got, err := ddl.NewDatabaseIntrospector(v.dialect, s.DB()).GetVersionNums()
			if err != nil || fmt.Sprint(got) != v.want {
				t.Fail("version", "version %q of %s is read as %v (%v), want %s", v.version, v.dialect, got, err, v.want)
			}
		})
	}
	r.Wait()
}
