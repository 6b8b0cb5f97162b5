package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
	"verifmc/faultdb"
)

func init() {
	core.Register(&core.Check{Prop: "C10", Level: "model_checking",
		Rule: "one evaluation = one schema or one set of tags in one dialect; a transition is one conversion; a trace is one conversion compared with the schema it started from or with the meaning of the tags",
		Run:  runC10,
		Assumptions: []string{
			"checks, generation expressions, partial, descending and expression indexes and the names of constraints and indexes have no place in table structs",
			"primary key columns are not null, as table structs declare them",
			"databases are SQLite; schemas of the other dialects are given as catalogs",
		}})
}

// brackets removes the brackets around an expression.
func brackets(s string) string {
	for {
		s = strings.TrimSpace(s)
		toks := sqlTokens(s)
		if len(toks) < 2 || toks[0] != "(" || closing(toks, 0) != len(toks)-1 {
			return s
		}
		s = s[1 : len(s)-1]
	}
}

// structFacts is what table structs can say about a catalog.
func structFacts(c *ddl.Catalog) []string {
	var out []string
	for _, s := range c.Schemas {
		for _, t := range s.Tables {
			if t.Ignore || len(t.Columns) == 0 {
				continue
			}
			id := fmt.Sprintf("%q.%q", t.TableSchema, t.TableName)
			out = append(out, fmt.Sprintf("table %s virtual=%v", id, t.IsVirtual || strings.HasPrefix(strings.ToUpper(t.SQL), "CREATE VIRTUAL")))
			var pk []string
			for _, k := range t.Constraints {
				if k.Ignore {
					continue
				}
				more := ""
				if k.IsDeferrable {
					more = fmt.Sprintf(" deferrable deferred=%v", k.IsInitiallyDeferred)
				}
				switch k.ConstraintType {
				case ddl.PRIMARY_KEY:
					pk = k.Columns
					out = append(out, fmt.Sprintf("key %s %q%s", id, k.Columns, more))
				case ddl.UNIQUE:
					out = append(out, fmt.Sprintf("unique %s %q%s", id, k.Columns, more))
				case ddl.FOREIGN_KEY:
					rs := k.ReferencesSchema
					if rs == "" {
						rs = c.CurrentSchema
					}
					rule := func(r string) string {
						if r == "" {
							return ddl.NO_ACTION
						}
						return r
					}
					out = append(out, fmt.Sprintf("foreign key %s %q references %q.%q %q %s %s%s", id, k.Columns, rs, k.ReferencesTable, k.ReferencesColumns, rule(k.UpdateRule), rule(k.DeleteRule), more))
				}
			}
			for _, x := range t.Indexes {
				if x.Ignore || !simpleIdx(x) {
					continue
				}
				typ := strings.ToUpper(x.IndexType)
				if typ == "BTREE" {
					typ = ""
				}
				out = append(out, fmt.Sprintf("index %s %q unique=%v %s", id, x.Columns, x.IsUnique, typ))
			}
			n := 0
			for _, col := range t.Columns {
				if col.Ignore {
					continue
				}
				n++
				typ := col.ColumnType
				if col.DomainName != "" {
					typ = col.DomainName
				}
				rowid := c.Dialect == ddl.DialectSQLite && len(pk) == 1 && pk[0] == col.ColumnName && strings.EqualFold(typ, "INTEGER")
				notNull := col.IsNotNull || has(pk, col.ColumnName) && !rowid
				if rowid {
					typ = "INTEGER"
				}
				coll := col.CollationName
				if coll == c.DefaultCollation {
					coll = ""
				}
				out = append(out, fmt.Sprintf("column %s %d %q type=%q notnull=%v default=%q collate=%q auto=%v identity=%q onupdate=%v generated=%v", id, n, col.ColumnName, typ, notNull,
					brackets(col.ColumnDefault), coll, col.IsAutoincrement, col.ColumnIdentity, col.OnUpdateCurrentTimestamp, col.IsGenerated || col.GeneratedExpr != ""))
			}
		}
	}
	sort.Strings(out)
	return out
}

// simpleIdx reports whether an index can be written in a tag.
func simpleIdx(x ddl.Index) bool {
	if len(x.Columns) == 0 || len(x.IncludeColumns) > 0 || x.Predicate != "" {
		return false
	}
	for i, c := range x.Columns {
		if c == "" || strings.HasPrefix(c, "(") || i < len(x.Descending) && x.Descending[i] {
			return false
		}
	}
	toks := sqlTokens(x.SQL)
	for _, t := range toks {
		if strings.EqualFold(t, "WHERE") || strings.EqualFold(t, "DESC") {
			return false
		}
	}
	return true
}

// parseStructs reads table structs into a catalog.
func parseStructs(dialect, schema, text string) (*ddl.Catalog, error) {
	c := &ddl.Catalog{Dialect: dialect, CurrentSchema: schema}
	f, err := fstest.MapFS{"tables.go": {Data: []byte(text)}}.Open("tables.go")
	if err != nil {
		core.Broken("%v", err)
	}
	p := ddl.NewStructParser(nil)
	if err := p.ParseFile(f); err != nil {
		return nil, err
	}
	if err := p.WriteCatalog(c); err != nil {
		return nil, err
	}
	return c, nil
}

// writeStructs writes a catalog as table structs.
func writeStructs(c *ddl.Catalog) (string, error) {
	var ts ddl.TableStructs
	if err := ts.ReadCatalog(c); err != nil {
		return "", err
	}
	b, err := ts.MarshalText()
	return "package tables\n\nimport \"github.com/bokwoon95/sq\"\n\n" + string(b), err
}

// sameCatalog compares two catalogs field by field, whether lists are empty or absent.
func sameCatalog(a, b *ddl.Catalog) string {
	ja, err := json.MarshalIndent(a, "", " ")
	if err != nil {
		return err.Error()
	}
	jb, err := json.MarshalIndent(b, "", " ")
	if err != nil {
		return err.Error()
	}
	if !bytes.Equal(ja, jb) {
		return diffLines(string(ja), string(jb))
	}
	var walk func(x, y reflect.Value, path string) string
	walk = func(x, y reflect.Value, path string) string {
		switch x.Kind() {
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				if x.Type().Field(i).IsExported() {
					if d := walk(x.Field(i), y.Field(i), path+"."+x.Type().Field(i).Name); d != "" {
						return d
					}
				}
			}
		case reflect.Slice:
			if x.Len() != y.Len() {
				return path + " differs in length"
			}
			if x.Len() > 0 && x.Pointer() == y.Pointer() {
				return path + " is shared"
			}
			for i := 0; i < x.Len(); i++ {
				if d := walk(x.Index(i), y.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
					return d
				}
			}
		case reflect.Map:
			if x.Len() != y.Len() || x.Len() > 0 && !reflect.DeepEqual(x.Interface(), y.Interface()) {
				return path + " differs"
			}
		default:
			if !reflect.DeepEqual(x.Interface(), y.Interface()) {
				return fmt.Sprintf("%s: %v and %v", path, x.Interface(), y.Interface())
			}
		}
		return ""
	}
	return walk(reflect.ValueOf(*a), reflect.ValueOf(*b), "catalog")
}

// convert puts a catalog through every conversion.
func convert(t *core.T, c *ddl.Catalog, text string) {
	t.Step(5)
	t.Trace(3)
	b, err := json.Marshal(c)
	if err != nil {
		t.Fatal("json", "%v", err)
	}
	var j, cp ddl.Catalog
	if err := json.Unmarshal(b, &j); err != nil {
		t.Fatal("json", "%v", err)
	}
	if d := sameCatalog(c, &j); d != "" {
		t.Fail("json", "the catalog differs after writing and reading it as JSON:\n%s", d)
	}
	if err := c.WriteCatalog(&cp); err != nil {
		t.Fatal("copy", "%v", err)
	}
	if d := sameCatalog(c, &cp); d != "" {
		t.Fail("copy", "the copy of the catalog differs:\n%s", d)
	}
	if text == "" {
		text, err = writeStructs(c)
		if err != nil {
			t.Fatal("write", "cannot be written as table structs: %v", err)
		}
	}
	p, err := parseStructs(c.Dialect, c.CurrentSchema, text)
	if err != nil {
		t.Fatal("parse", "generated table structs are rejected: %v\n%s", err, text)
	}
	p.DefaultCollation = c.DefaultCollation
	want, got := structFacts(c), structFacts(p)
	t.State(strings.Join(want, "\n"))
	if d := factDiff(got, want); d != "" {
		t.Fail("structs", "schema differs after writing and reading table structs:\n%s\n%s", d, text)
	}
	again, err := writeStructs(p)
	if err != nil {
		t.Fatal("write", "cannot be written as table structs: %v", err)
	}
	p2, err := parseStructs(c.Dialect, c.CurrentSchema, again)
	if err != nil {
		t.Fatal("parse", "regenerated table structs are rejected: %v\n%s", err, again)
	}
	p2.DefaultCollation = c.DefaultCollation
	if d := factDiff(structFacts(p2), want); d != "" {
		t.Fail("structs", "schema differs after writing and reading table structs twice:\n%s\n%s", d, again)
	}
	domain := false
	for _, s := range c.Schemas {
		for _, tab := range s.Tables {
			for _, col := range tab.Columns {
				domain = domain || col.DomainName != ""
			}
		}
	}
	if !domain && fieldTypes(again) != fieldTypes(text) {
		t.Fail("fields", "field types differ in the regenerated source:\n%s", diffLines(fieldTypes(text), fieldTypes(again)))
	}
}

var fieldType = regexp.MustCompile(`^\s*(\S+)\s+(sq\.\w+)`)

// fieldTypes is the names and types of the fields of table structs.
func fieldTypes(text string) string {
	var out []string
	for _, l := range strings.Split(text, "\n") {
		if m := fieldType.FindStringSubmatch(l); m != nil {
			out = append(out, m[1]+" "+m[2])
		}
	}
	return strings.Join(out, "\n")
}

// dbStructs is the output of the tables command and the catalog it stands for.
func dbStructs(t *core.T, s *faultdb.Server) (string, *ddl.Catalog) {
	var out bytes.Buffer
	cmd := &ddl.TablesCmd{DB: s.DB(), Dialect: "sqlite", Stdout: &out, PackageName: "tables"}
	if err := cmd.Run(); err != nil {
		t.Fatal("tables", "tables fails: %v", err)
	}
	c := &ddl.Catalog{}
	dbi := ddl.NewDatabaseIntrospector("sqlite", s.DB())
	dbi.ObjectTypes = []string{"TABLES"}
	if err := dbi.WriteCatalog(c); err != nil {
		core.Broken("%v", err)
	}
	return out.String(), c
}

func convertDB(r *core.Runner, key string, stmts ...string) {
	r.Go(key+": "+strings.Join(stmts, "; "), func(t *core.T) {
		t.Nontrivial()
		s := faultdb.New("_foreign_keys=false")
		defer s.Close()
		for _, q := range stmts {
			if err := s.Exec(q); err != nil {
				t.Outcome("not SQLite")
				return
			}
		}
		text, c := dbStructs(t, s)
		convert(t, c, text)
		// The whole database as JSON.
		full := &ddl.Catalog{}
		if err := ddl.NewDatabaseIntrospector("sqlite", s.DB()).WriteCatalog(full); err != nil {
			core.Broken("%v", err)
		}
		var cp ddl.Catalog
		if err := full.WriteCatalog(&cp); err != nil {
			t.Fatal("copy", "%v", err)
		}
		if d := sameCatalog(full, &cp); d != "" {
			t.Fail("copy", "the copy of the catalog differs:\n%s", d)
		}
	})
}

func runC10(r *core.Runner) {
	runStructDBs(r)
	runStructCatalogs(r)
	runFullCatalogs(r)
	runTags(r)
	runTableTags(r)
	runTagOrder(r)
	runBadTags(r)
}

// runStructDBs: SQLite databases.
func runStructDBs(r *core.Runner) {
	p := "CREATE TABLE p (a INTEGER PRIMARY KEY, b TEXT UNIQUE, c INT, UNIQUE (b, c))"
	for _, typ := range append([]string{"TIMESTAMP", "DATETIME", "DATE", "BOOLEAN", "BLOB", "UUID", "JSON", "REAL", "INT", "BINARY(16)", "NUMERIC", "TINYINT(1)", "TEXT[]", "BIGINT"}, introTypes...) {
		for _, def := range introDefaults {
			if def != "" {
				def = " DEFAULT " + def
			}
			for _, attr := range []string{"", " NOT NULL", " UNIQUE", " REFERENCES p (a)", " COLLATE NOCASE", " PRIMARY KEY"} {
				if def != "" && attr != "" && !r.Thorough() && attr != " NOT NULL" {
					continue
				}
				convertDB(r, "column", p, "CREATE TABLE t (a "+typ+def+attr+", b TEXT)")
			}
		}
	}
	for _, def := range []string{"'a b'", "'a{b'", "'{}'", "'{a b}'", "'}'", "'a`b'", "'\"'", "'\\'", "'a\nb'", "'a\tb'", "'é'", "'  '", "' a'", "'='", "'a=b c'", "' notnull '", "(1 + 2)", "(f() || 'x y')", "((1) + (2))", "(random() )", "-1", "+1", "1e10", "0x10", "'a:b'", "'$1'", "'%d'"} {
		def = strings.ReplaceAll(def, "f()", "hex(1)")
		convertDB(r, "default", "CREATE TABLE t (a TEXT DEFAULT "+def+" NOT NULL, b INT)")
	}
	names := append([]string{"a-b", "a b", "A", "1a", "é", "a\tb", "a$", "type", "_", "_a", "a__b", "sq", "desc", "description", "a=b", "a:b", "#"}, introNames...)
	for _, n := range names {
		if strings.ContainsAny(n, ",.{}") || n == "sqddl_history" {
			continue // these separate names in tags
		}
		q := qid(n)
		convertDB(r, "table name", "CREATE TABLE "+q+" (id INTEGER PRIMARY KEY, a TEXT)", "CREATE TABLE other (id INT, x INT REFERENCES "+q+" (id))")
		convertDB(r, "column name", "CREATE TABLE t (id INTEGER PRIMARY KEY, "+q+" TEXT NOT NULL UNIQUE)", "CREATE TABLE u (x TEXT REFERENCES t ("+q+"))")
		convertDB(r, "key name", "CREATE TABLE t ("+q+" INT, b INT, PRIMARY KEY ("+q+", b))", "CREATE TABLE u ("+q+" INT, y INT, FOREIGN KEY ("+q+", y) REFERENCES t ("+q+", b) ON DELETE CASCADE)")
		convertDB(r, "index name", "CREATE TABLE t (a INT, "+q+" INT, c INT)", "CREATE INDEX i1 ON t ("+q+")", "CREATE UNIQUE INDEX i2 ON t (a, "+q+")")
	}
	for _, n := range []string{"a b", "a-b"} {
		convertDB(r, "same names", "CREATE TABLE "+qid(n)+" (a INT)", "CREATE TABLE a_b (a INT)")
		convertDB(r, "same names", "CREATE TABLE t ("+qid(n)+" INT, a_b INT)")
	}
	keys := []string{"", ", PRIMARY KEY (a)", ", PRIMARY KEY (a, b)", ", PRIMARY KEY (b, a)"}
	uniques := []string{"", ", UNIQUE (a)", ", UNIQUE (a, b)", ", UNIQUE (b, a)", ", UNIQUE (a), UNIQUE (b)", ", UNIQUE (a), UNIQUE (a, b), UNIQUE (b)"}
	fks := []string{"", ", FOREIGN KEY (a) REFERENCES p (a)", ", FOREIGN KEY (a) REFERENCES p", ", FOREIGN KEY (b, c) REFERENCES p (b, c)", ", FOREIGN KEY (b, c) REFERENCES p (b, c), FOREIGN KEY (b) REFERENCES p (b)", ", FOREIGN KEY (b) REFERENCES p (b), FOREIGN KEY (a) REFERENCES p (a)", ", FOREIGN KEY (a, b) REFERENCES t (a, b)"}
	idxs := [][]string{{}, {"(a)"}, {"(b)"}, {"(b, c)"}, {"(c, b)"}, {"(a)", "(b)"}, {"(b, c)", "(a, c)"}, {"(a DESC)"}, {"(a) WHERE b > 0"}, {"(a + 1)"}, {"(a COLLATE NOCASE)"}}
	for ki, k := range keys {
		for ui, u := range uniques {
			for fi, f := range fks {
				for xi, xs := range idxs {
					if !r.Thorough() && ki != 0 && ui != 0 && fi != 0 && xi != 0 {
						continue
					}
					for _, uniq := range []string{"", "UNIQUE "} {
						if uniq != "" && len(xs) == 0 {
							continue
						}
						stmts := []string{p, "CREATE TABLE t (a INT, b TEXT, c INT" + k + u + f + ")"}
						for i, x := range xs {
							stmts = append(stmts, fmt.Sprintf("CREATE %sINDEX i%d ON t %s", uniq, i, x))
						}
						convertDB(r, "keys", stmts...)
					}
				}
			}
		}
	}
	for _, upd := range []string{"", "NO ACTION", "CASCADE", "RESTRICT", "SET NULL", "SET DEFAULT"} {
		for _, del := range []string{"", "NO ACTION", "CASCADE", "RESTRICT", "SET NULL", "SET DEFAULT"} {
			for _, d := range []string{"", " DEFERRABLE", " DEFERRABLE INITIALLY DEFERRED", " NOT DEFERRABLE"} {
				for _, multi := range []bool{false, true} {
					rule := d
					if del != "" {
						rule = " ON DELETE " + del + rule
					}
					if upd != "" {
						rule = " ON UPDATE " + upd + rule
					}
					fk := "a INT, b TEXT REFERENCES p (b)" + rule
					if multi {
						fk = "b TEXT, c INT, FOREIGN KEY (b, c) REFERENCES p (b, c)" + rule
					}
					convertDB(r, "rules", p, "CREATE TABLE t ("+fk+")", "CREATE INDEX t_b ON t (b)")
				}
			}
		}
	}
	for _, q := range []string{
		"CREATE TABLE t (id INTEGER PRIMARY KEY AUTOINCREMENT, a TEXT)", "CREATE TABLE t (id INTEGER PRIMARY KEY NOT NULL)", "CREATE TABLE t (id INT PRIMARY KEY)", "CREATE TABLE t (id INTEGER PRIMARY KEY DESC)",
		"CREATE TABLE t (id TEXT PRIMARY KEY) WITHOUT ROWID", "CREATE TABLE t (id INT) STRICT", "CREATE TABLE t (a INT, b INT GENERATED ALWAYS AS (a + 1) STORED, c INT AS (a) VIRTUAL)",
		"CREATE TABLE t (a TEXT COLLATE RTRIM, b TEXT COLLATE BINARY, c COLLATE NOCASE)", "CREATE TABLE t (a INT CHECK (a > 0), b INT, CONSTRAINT x CHECK (a < b))",
		"CREATE VIRTUAL TABLE t USING fts5 (a, b)", "CREATE TABLE t (a)", "CREATE TABLE t (a INT REFERENCES t (a))", "CREATE TABLE t (a INTEGER, PRIMARY KEY (a))", "CREATE TABLE t (a INTEGER, b INTEGER, PRIMARY KEY (a, b))",
		"CREATE TABLE sqddl_history (a INT)", "CREATE TABLE t (a INT UNIQUE PRIMARY KEY NOT NULL REFERENCES t (a) ON DELETE CASCADE DEFAULT 1)",
	} {
		if strings.Contains(q, "sqddl_history") {
			continue
		}
		convertDB(r, "special", q)
	}
	r.Wait()
}

// dialectTypes are column types as the introspection of each dialect gives them.
var dialectTypes = map[string][]string{
	"sqlite":    {"INTEGER", "TEXT", "BLOB", "DATETIME", "TIMESTAMP", "BOOLEAN", "JSON", "UUID"},
	"postgres":  {"INT", "BIGINT", "TEXT", "VARCHAR(10)", "VARCHAR", "CHAR(3)", "NUMERIC(5,2)", "NUMERIC", "BOOLEAN", "BYTEA", "UUID", "JSON", "JSONB", "TEXT[]", "INT[]", "TIMESTAMPTZ", "TIMESTAMP", "DATE", "TIME", "TSVECTOR", "DOUBLE PRECISION", "mood", "TIMESTAMP(3)", "TIMESTAMPTZ(3)"},
	"mysql":     {"INT", "BIGINT", "INT UNSIGNED", "TINYINT", "TINYINT(1)", "VARCHAR(255)", "VARCHAR(10)", "CHAR(3)", "TEXT", "MEDIUMTEXT", "DECIMAL(5,2)", "DATETIME", "DATETIME(3)", "TIMESTAMP", "DATE", "JSON", "BLOB", "MEDIUMBLOB", "BINARY(16)", "VARBINARY(8)", "ENUM('a','b c')", "BOOLEAN", "DOUBLE", "YEAR"},
	"sqlserver": {"INT", "BIGINT", "NVARCHAR(255)", "NVARCHAR(MAX)", "NVARCHAR(10)", "VARCHAR(10)", "DECIMAL(5,2)", "BIT", "VARBINARY(MAX)", "VARBINARY(8)", "BINARY(16)", "UNIQUEIDENTIFIER", "DATETIMEOFFSET", "DATETIME2", "DATE", "FLOAT", "XML"},
}

var currentSchema = map[string]string{"sqlite": "", "postgres": "public", "mysql": "db", "sqlserver": "dbo"}

// column changes that a catalog column may have, by dialect.
func columnVariants(dialect string) map[string]func(*ddl.Column) {
	m := map[string]func(*ddl.Column){
		"plain":      func(c *ddl.Column) {},
		"notnull":    func(c *ddl.Column) { c.IsNotNull = true },
		"default":    func(c *ddl.Column) { c.ColumnDefault = "'x y'" },
		"number":     func(c *ddl.Column) { c.ColumnDefault = "-1" },
		"expression": func(c *ddl.Column) { c.ColumnDefault = "(f(1, 2))" },
		"backtick":   func(c *ddl.Column) { c.ColumnDefault = "'a`b'" },
		"collate":    func(c *ddl.Column) { c.CollationName = "C" },
		"generated":  func(c *ddl.Column) { c.IsGenerated, c.GeneratedExpr = true, "1 + 1" },
	}
	switch dialect {
	case "postgres":
		m["identity"] = func(c *ddl.Column) { c.ColumnIdentity, c.IsNotNull = ddl.DEFAULT_IDENTITY, true }
		m["always"] = func(c *ddl.Column) { c.ColumnIdentity, c.IsNotNull = ddl.ALWAYS_IDENTITY, true }
		m["expression"] = func(c *ddl.Column) { c.ColumnDefault = "now() + '1 day'::interval" }
		m["array"] = func(c *ddl.Column) { c.ColumnDefault = "'{}'::text[]" }
		m["enum"] = func(c *ddl.Column) { c.IsEnum, c.ColumnType = true, "public.mood" }
		m["domain"] = func(c *ddl.Column) { c.DomainName = "email" }
	case "mysql":
		m["auto"] = func(c *ddl.Column) { c.IsAutoincrement, c.IsNotNull = true, true }
		m["onupdate"] = func(c *ddl.Column) { c.ColumnDefault, c.OnUpdateCurrentTimestamp = "CURRENT_TIMESTAMP", true }
	case "sqlserver":
		m["identity"] = func(c *ddl.Column) { c.ColumnIdentity, c.IsNotNull = ddl.IDENTITY, true }
	case "sqlite":
		m["auto"] = func(c *ddl.Column) { c.IsAutoincrement, c.ColumnType = true, "INTEGER" }
	}
	return m
}

// runStructCatalogs: catalogs of every dialect.
func runStructCatalogs(r *core.Runner) {
	for _, d := range allDialects {
		cur := currentSchema[d]
		other := "other"
		if d == "sqlite" {
			other = ""
		}
		base := func() *ddl.Catalog {
			c := &ddl.Catalog{Dialect: d, CurrentSchema: cur, VersionNums: ddl.VersionNums{14, 1}, Schemas: []ddl.Schema{{SchemaName: cur}}}
			if other != "" {
				c.Schemas = append(c.Schemas, ddl.Schema{SchemaName: other})
			}
			return c
		}
		table := func(schema, name string, cols ...string) ddl.Table {
			t := ddl.Table{TableSchema: schema, TableName: name}
			for _, c := range cols {
				n, typ, _ := strings.Cut(c, " ")
				t.Columns = append(t.Columns, ddl.Column{TableSchema: schema, TableName: name, ColumnName: n, ColumnType: typ})
			}
			return t
		}
		for _, typ := range dialectTypes[d] {
			vs := columnVariants(d)
			for _, v := range sortedKeys(vs) {
				for _, v2 := range sortedKeys(vs) {
					if v > v2 || v == "plain" && v2 != "plain" {
						continue
					}
					r.Go(fmt.Sprintf("catalog %s column %s %s %s", d, typ, v, v2), func(t *core.T) {
						t.Nontrivial()
						c := base()
						tab := table(cur, "t", "a "+typ, "b INT")
						vs[v](&tab.Columns[0])
						vs[v2](&tab.Columns[0])
						c.Schemas[0].Tables = []ddl.Table{tab}
						convert(t, c, "")
					})
				}
			}
		}
		// Constraints between tables of the same and of different schemas.
		for _, from := range []string{cur, other} {
			for _, to := range []string{cur, other} {
				for _, cols := range [][2][]string{{{"a"}, {"a"}}, {{"a"}, {"b"}}, {{"a", "b"}, {"a", "b"}}, {{"a", "b"}, {"b", "a"}}, {{"b", "c"}, {"a", "b"}}} {
					for _, rule := range []string{"", ddl.CASCADE, ddl.SET_NULL, ddl.NO_ACTION} {
						for _, def := range []int{0, 1, 2} {
							if def > 0 && d != "sqlite" && d != "postgres" {
								continue
							}
							for _, index := range []string{"", "BTREE", "HASH", "UNIQUE", "PART"} {
								if index == "HASH" && d != "postgres" && d != "mysql" {
									continue
								}
								r.Go(fmt.Sprintf("catalog %s fk %s→%s %v %q %d %s", d, from, to, cols, rule, def, index), func(t *core.T) {
									t.Nontrivial()
									c := base()
									p := table(to, "p", "a INT", "b INT")
									p.Constraints = []ddl.Constraint{{TableSchema: to, TableName: "p", ConstraintName: "p_key", ConstraintType: ddl.PRIMARY_KEY, Columns: cols[1]}}
									f := table(from, "f", "a INT", "b INT", "c INT")
									f.Constraints = []ddl.Constraint{
										{TableSchema: from, TableName: "f", ConstraintName: "f_fk", ConstraintType: ddl.FOREIGN_KEY, Columns: cols[0], ReferencesSchema: to, ReferencesTable: "p", ReferencesColumns: cols[1], UpdateRule: rule, DeleteRule: rule, IsDeferrable: def > 0, IsInitiallyDeferred: def > 1},
										{TableSchema: from, TableName: "f", ConstraintName: "f_u", ConstraintType: ddl.UNIQUE, Columns: []string{"c"}, IsDeferrable: def > 0, IsInitiallyDeferred: def > 1},
									}
									if index != "" {
										f.Indexes = []ddl.Index{{TableSchema: from, TableName: "f", IndexName: "f_i", IndexType: index, Columns: cols[0], Descending: []bool{false}},
											{TableSchema: from, TableName: "f", IndexName: "f_j", IndexType: index, IsUnique: true, Columns: []string{"c", "a"}}}
									}
									switch index {
									case "UNIQUE":
										f.Indexes[0].IsUnique = true
									case "PART": // none of them can be written in a tag
										x := f.Indexes[0]
										f.Indexes = []ddl.Index{x, x, x, x}
										f.Indexes[0].Predicate = "a > 0"
										f.Indexes[1].IncludeColumns = []string{"c"}
										f.Indexes[2].Descending = []bool{true}
										f.Indexes[3].Columns = []string{"(a + 1)"}
										for i := range f.Indexes {
											f.Indexes[i].IndexName = fmt.Sprintf("f_x%d", i)
										}
									}
									if index == "UNIQUE" || index == "PART" {
										for i := range f.Indexes {
											f.Indexes[i].IndexType = "BTREE"
										}
									}
									for i := range c.Schemas {
										for _, tab := range []ddl.Table{p, f} {
											if tab.TableSchema == c.Schemas[i].SchemaName {
												c.Schemas[i].Tables = append(c.Schemas[i].Tables, tab)
											}
										}
									}
									convert(t, c, "")
								})
							}
						}
					}
				}
			}
		}
	}
	r.Wait()
}

// fill sets every field of a value to something else than zero.
func fill(v reflect.Value, n *int) {
	*n++
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				fill(v.Field(i), n)
			}
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 2, 2))
		fill(v.Index(0), n)
		fill(v.Index(1), n)
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for i := 0; i < 2; i++ {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			fill(k, n)
			fill(e, n)
			v.SetMapIndex(k, e)
		}
	case reflect.String:
		v.SetString(fmt.Sprintf("s%d", *n))
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int64:
		v.SetInt(int64(*n))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i), n)
		}
	default:
		core.Broken("catalog field of type %v", v.Type())
	}
}

// fieldPaths visits every string and bool of a filled value.
func fieldPaths(v reflect.Value, path string, visit func(path string, v reflect.Value)) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				fieldPaths(v.Field(i), path+"."+v.Type().Field(i).Name, visit)
			}
		}
	case reflect.Slice:
		visit(path, v)
		for i := 0; i < v.Len(); i++ {
			fieldPaths(v.Index(i), fmt.Sprintf("%s[%d]", path, i), visit)
		}
	default:
		visit(path, v)
	}
}

// runFullCatalogs: catalogs with every field set, and with every field set but one.
func runFullCatalogs(r *core.Runner) {
	build := func() *ddl.Catalog {
		c := &ddl.Catalog{}
		n := 0
		fill(reflect.ValueOf(c).Elem(), &n)
		// Objects carry the names of what they belong to.
		for i := range c.Schemas {
			s := &c.Schemas[i]
			for j := range s.Enums {
				s.Enums[j].EnumSchema = s.SchemaName
			}
			for j := range s.Domains {
				s.Domains[j].DomainSchema = s.SchemaName
			}
			for j := range s.Routines {
				s.Routines[j].RoutineSchema = s.SchemaName
			}
			for j := range s.Views {
				v := &s.Views[j]
				v.ViewSchema = s.SchemaName
				for k := range v.Indexes {
					v.Indexes[k].TableSchema, v.Indexes[k].TableName = s.SchemaName, v.ViewName
				}
				for k := range v.Triggers {
					v.Triggers[k].TableSchema, v.Triggers[k].TableName = s.SchemaName, v.ViewName
				}
			}
			for j := range s.Tables {
				t := &s.Tables[j]
				t.TableSchema = s.SchemaName
				for k := range t.Columns {
					t.Columns[k].TableSchema, t.Columns[k].TableName = s.SchemaName, t.TableName
				}
				for k := range t.Constraints {
					t.Constraints[k].TableSchema, t.Constraints[k].TableName = s.SchemaName, t.TableName
				}
				for k := range t.Indexes {
					t.Indexes[k].TableSchema, t.Indexes[k].TableName = s.SchemaName, t.TableName
				}
				for k := range t.Triggers {
					t.Triggers[k].TableSchema, t.Triggers[k].TableName = s.SchemaName, t.TableName
				}
			}
		}
		return c
	}
	names := regexp.MustCompile(`\.(Schema|Table|Column|Constraint|Index|Trigger|View|Enum|Domain|Routine)(Name|Schema)$`)
	var paths []string
	fieldPaths(reflect.ValueOf(build()).Elem(), "", func(p string, _ reflect.Value) {
		if !names.MatchString(p) {
			paths = append(paths, p)
		}
	})
	for _, p := range append([]string{""}, paths...) {
		r.Go("every field but "+p, func(t *core.T) {
			t.Nontrivial()
			c := build()
			fieldPaths(reflect.ValueOf(c).Elem(), "", func(at string, v reflect.Value) {
				if at == p {
					v.Set(reflect.Zero(v.Type()))
				}
			})
			b, err := json.Marshal(c)
			if err != nil {
				t.Fatal("json", "%v", err)
			}
			var j, cp ddl.Catalog
			if err := json.Unmarshal(b, &j); err != nil {
				t.Fatal("json", "%v", err)
			}
			t.State(string(b))
			t.Step(2)
			t.Trace(2)
			if d := sameCatalog(c, &j); d != "" {
				t.Fail("json", "the catalog differs after writing and reading it as JSON:\n%s", d)
			}
			if err := c.WriteCatalog(&cp); err != nil {
				t.Fatal("copy", "%v", err)
			}
			if d := sameCatalog(c, &cp); d != "" {
				t.Fail("copy", "the copy of the catalog differs:\n%s", d)
			}
		})
	}
	r.Wait()
}

// ---- tags ----

// fieldDefault is the column type that the documentation gives each field type.
func fieldDefault(dialect, field string) string {
	pick := func(sqlite, postgres, mysql, sqlserver string) string {
		return map[string]string{"sqlite": sqlite, "postgres": postgres, "mysql": mysql, "sqlserver": sqlserver}[dialect]
	}
	switch field {
	case "NumberField":
		return "INT"
	case "StringField", "EnumField":
		return pick("TEXT", "TEXT", "VARCHAR(255)", "NVARCHAR(255)")
	case "TimeField":
		return pick("DATETIME", "TIMESTAMPTZ", "DATETIME", "DATETIMEOFFSET")
	case "BooleanField":
		return pick("BOOLEAN", "BOOLEAN", "BOOLEAN", "BIT")
	case "BinaryField":
		return pick("BLOB", "BYTEA", "MEDIUMBLOB", "VARBINARY(MAX)")
	case "ArrayField":
		return pick("JSON", "TEXT[]", "JSON", "NVARCHAR(MAX)")
	case "JSONField":
		return pick("JSON", "JSONB", "JSON", "NVARCHAR(MAX)")
	case "UUIDField":
		return pick("UUID", "UUID", "BINARY(16)", "BINARY(16)")
	}
	return ""
}

// A tag is a modifier of column a of table t (a, b) and what it means.
type tag struct {
	text string
	kind string // modifiers of the same kind are not combined
	mean func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column)
}

func addKey(t *ddl.Table, k ddl.Constraint) { t.Constraints = append(t.Constraints, k) }

func tags() []tag {
	type fn = func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column)
	fk := func(cols, refs []string, upd, del string, def int) fn {
		return func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column) {
			rule := func(s string) string {
				if s == ddl.RESTRICT && d == "sqlserver" {
					return ddl.NO_ACTION
				}
				return s
			}
			dd := def
			if d != "sqlite" && d != "postgres" {
				dd = 0
			}
			addKey(t, ddl.Constraint{ConstraintType: ddl.FOREIGN_KEY, Columns: cols, ReferencesSchema: c.CurrentSchema, ReferencesTable: "u", ReferencesColumns: refs, UpdateRule: rule(upd), DeleteRule: rule(del), IsDeferrable: dd > 0, IsInitiallyDeferred: dd > 1})
		}
	}
	key := func(typ string, cols []string, def int) fn {
		return func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column) {
			dd := def
			if d != "sqlite" && d != "postgres" {
				dd = 0
			}
			addKey(t, ddl.Constraint{ConstraintType: typ, Columns: cols, IsDeferrable: dd > 0, IsInitiallyDeferred: dd > 1})
		}
	}
	idx := func(cols []string, unique bool, using string) fn {
		return func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column) {
			u := using
			if d != "postgres" && d != "mysql" {
				u = ""
			}
			t.Indexes = append(t.Indexes, ddl.Index{Columns: cols, IsUnique: unique, IndexType: u})
		}
	}
	both := func(fs ...fn) fn {
		return func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column) {
			for _, f := range fs {
				f(d, c, t, col)
			}
		}
	}
	typ := func(s string) fn {
		return func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column) {
			col.ColumnType, col.Comment = s, "explicit"
		}
	}
	def := func(s string) fn {
		return func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column) {
			col.ColumnDefault = s
			if d == "sqlserver" {
				switch strings.ToUpper(s) {
				case "TRUE":
					col.ColumnDefault = "1"
				case "FALSE":
					col.ColumnDefault = "0"
				}
			}
		}
	}
	notnull := func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column) { col.IsNotNull = true }
	identity := func(pg string) fn {
		return func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column) {
			switch d {
			case "postgres":
				col.ColumnIdentity = pg
			case "sqlserver":
				col.ColumnIdentity = ddl.IDENTITY
			}
		}
	}
	a, b, ab, ba, id := []string{"a"}, []string{"b"}, []string{"a", "b"}, []string{"b", "a"}, []string{"id"}
	return []tag{
		{"type=VARCHAR(10)", "", typ("VARCHAR(10)")},
		{"type={DOUBLE PRECISION}", "", typ("DOUBLE PRECISION")},
		{"type=DECIMAL(4,2)", "", typ("DECIMAL(4,2)")},
		{"type={ENUM('G', 'PG-13')}", "", typ("ENUM('G', 'PG-13')")},
		{"type=INTEGER", "", typ("INTEGER")},
		{"len=20", "", func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column) {
			switch d {
			case "postgres", "mysql":
				col.ColumnType = "VARCHAR(20)"
			case "sqlserver":
				col.ColumnType = "NVARCHAR(20)"
			}
		}},
		{"notnull", "", notnull},
		{"primarykey", "pk", key(ddl.PRIMARY_KEY, a, 0)},
		{"primarykey=b", "pk", key(ddl.PRIMARY_KEY, b, 0)},
		{"primarykey=b,a", "pk", key(ddl.PRIMARY_KEY, ba, 0)},
		{"primarykey={. deferrable}", "pk", key(ddl.PRIMARY_KEY, a, 1)},
		{"unique", "ua", key(ddl.UNIQUE, a, 0)},
		{"unique={a deferred}", "ua", key(ddl.UNIQUE, a, 2)},
		{"unique=a,b", "uab", key(ddl.UNIQUE, ab, 0)},
		{"references=u.id", "fk", fk(a, id, "", "", 0)},
		{"references=u", "fk", fk(a, a, "", "", 0)},
		{"references={u.id onupdate=cascade ondelete=setnull}", "fk", fk(a, id, ddl.CASCADE, ddl.SET_NULL, 0)},
		{"references={u.id ondelete=restrict onupdate=setdefault deferred}", "fk", fk(a, id, ddl.SET_DEFAULT, ddl.RESTRICT, 2)},
		{"references={u.id ondelete=noaction deferrable}", "fk", fk(a, id, "", ddl.NO_ACTION, 1)},
		{"references={u.id index}", "fkia", both(fk(a, id, "", "", 0), idx(a, false, ""))},
		{"references={u.id index={. unique}}", "fkia", both(fk(a, id, "", "", 0), idx(a, true, ""))},
		{"references={u.id sqlite,postgres:onupdate=cascade}", "fk", func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column) {
			upd := ""
			if d == "sqlite" || d == "postgres" {
				upd = ddl.CASCADE
			}
			fk(a, id, upd, "", 0)(d, c, t, col)
		}},
		{"foreignkey={a references=u.id deferred}", "fk", fk(a, id, "", "", 2)},
		{"foreignkey={a references=u.id ondelete=restrict onupdate=restrict}", "fk", fk(a, id, ddl.RESTRICT, ddl.RESTRICT, 0)},
		{"references={u.id onupdate=restrict ondelete=setdefault}", "fk", fk(a, id, ddl.RESTRICT, ddl.SET_DEFAULT, 0)},
		{"foreignkey={a,b references=u.id,a ondelete=cascade}", "fkab", fk(ab, []string{"id", "a"}, "", ddl.CASCADE, 0)},
		{"foreignkey={b,a references=u index}", "fkab2", both(fk(ba, ba, "", "", 0), idx(ba, false, ""))},
		{"index", "ia", idx(a, false, "")},
		{"index={. unique}", "ia", idx(a, true, "")},
		{"index={a using=hash}", "ia", idx(a, false, "hash")},
		{"index=a,b", "iab", idx(ab, false, "")},
		{"index={b,a unique}", "fkab2", idx(ba, true, "")},
		{"default=1", "", def("1")},
		{"default='x'", "", def("'x'")},
		{"default={'x {y} z'}", "", def("'x {y} z'")},
		{"default=TRUE", "", def("TRUE")},
		{"default=false", "", def("false")},
		{"default=f('a')", "", def("f('a')")},
		{"default={f(1, 2)}", "", def("f(1, 2)")},
		{"auto_increment", "", func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column) {
			if d == "mysql" {
				col.IsAutoincrement = true
			}
		}},
		{"autoincrement", "", func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column) {
			if d == "sqlite" {
				col.IsAutoincrement, col.ColumnType = true, "INTEGER"
			}
		}},
		{"identity", "", identity(ddl.DEFAULT_IDENTITY)},
		{"alwaysidentity", "", identity(ddl.ALWAYS_IDENTITY)},
		{"onupdatecurrenttimestamp", "", func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column) {
			if d == "mysql" {
				col.OnUpdateCurrentTimestamp = true
			}
		}},
		{"collate=C", "", func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column) { col.CollationName = "C" }},
		{"collate={a b}", "", func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column) { col.CollationName = "a b" }},
		{"generated", "", func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column) { col.IsGenerated = true }},
	}
}

// prefixes of modifiers and the dialects they select.
var tagPrefixes = map[string][]string{"": nil, "sqlite:": {"sqlite"}, "postgres,mysql:": {"postgres", "mysql"}, "sqlserver:": {"sqlserver"}}

// expectStructs is the catalog of tables t (a, b) and u (id, a, b) with the tags on column a.
func expectStructs(d, field string, use []tag, prefix []string, dialect []string) *ddl.Catalog {
	cur := currentSchema[d]
	c := &ddl.Catalog{Dialect: d, CurrentSchema: cur, Schemas: []ddl.Schema{{SchemaName: cur}}}
	t := ddl.Table{TableSchema: cur, TableName: "t", Columns: []ddl.Column{{ColumnName: "a", ColumnType: fieldDefault(d, field)}, {ColumnName: "b", ColumnType: fieldDefault(d, "NumberField")}}}
	col := &t.Columns[0]
	if len(dialect) > 0 && !has(dialect, d) {
		col.Ignore = true
	}
	for i, tg := range use {
		on := tagPrefixes[prefix[i]]
		if len(on) == 0 {
			on = dialect
		}
		if len(on) == 0 || has(on, d) {
			tg.mean(d, c, &t, col)
		}
	}
	for _, k := range t.Constraints {
		if k.ConstraintType == ddl.PRIMARY_KEY && len(k.Columns) == 1 && d == "sqlite" {
			for i := range t.Columns {
				cc := &t.Columns[i]
				if cc.ColumnName == k.Columns[0] && cc.ColumnType == "INT" && cc.Comment == "" {
					cc.ColumnType = "INTEGER"
				}
			}
		}
	}
	u := ddl.Table{TableSchema: cur, TableName: "u", Columns: []ddl.Column{{ColumnName: "id", ColumnType: "INT"}, {ColumnName: "a", ColumnType: "INT"}, {ColumnName: "b", ColumnType: "INT"}}}
	c.Schemas[0].Tables = []ddl.Table{t, u}
	return c
}

// nullableKeys is the primary key columns that accept NULL. SQLite keys do, unless they are
// NOT NULL or stand for the rowid.
func nullableKeys(c *ddl.Catalog) (out []string) {
	for _, s := range c.Schemas {
		for _, t := range s.Tables {
			for _, k := range t.Constraints {
				if k.ConstraintType != ddl.PRIMARY_KEY || k.Ignore || t.Ignore {
					continue
				}
				for _, col := range t.Columns {
					rowid := c.Dialect == ddl.DialectSQLite && len(k.Columns) == 1 && strings.EqualFold(col.ColumnType, "INTEGER")
					if has(k.Columns, col.ColumnName) && !col.IsNotNull && !col.Ignore && !rowid {
						out = append(out, t.TableName+"."+col.ColumnName)
					}
				}
			}
		}
	}
	return out
}

const tagU = "type U struct {\n\tsq.TableStruct\n\tID sq.NumberField\n\tA sq.NumberField\n\tB sq.NumberField\n}\n"

func tagSource(field string, mods string) string {
	return "package tables\n\nimport \"github.com/bokwoon95/sq\"\n\ntype T struct {\n\tsq.TableStruct\n\tA sq." + field + " `ddl:\"" + mods + "\"`\n\tB sq.NumberField\n}\n\n" + tagU
}

func tagCase(t *core.T, d, field string, use []tag, prefix []string, dialect []string) {
	var mods []string
	if dialect != nil {
		mods = append(mods, "dialect="+strings.Join(dialect, ","))
	}
	for i, tg := range use {
		mods = append(mods, prefix[i]+tg.text)
	}
	src := tagSource(field, strings.Join(mods, " "))
	t.Step(1)
	got, err := parseStructs(d, currentSchema[d], src)
	if err != nil {
		t.Fail("rejected", "%s %s %v: %v", d, field, mods, err)
		return
	}
	t.Trace(1)
	want := structFacts(expectStructs(d, field, use, prefix, dialect))
	t.State(strings.Join(want, "\n"))
	if diff := factDiff(structFacts(got), want); diff != "" {
		t.Fail("meaning", "%s %s %v means something else:\n%s", d, field, mods, diff)
	}
	for _, col := range nullableKeys(got) {
		t.Fail("nullable-key", "%s %s %v: column %s of the primary key is nullable", d, field, mods, col)
	}
	// What was parsed can be written and parsed again.
	p := ddl.NewStructParser(nil)
	f, _ := fstest.MapFS{"tables.go": {Data: []byte(src)}}.Open("tables.go")
	if err := p.ParseFile(f); err != nil {
		t.Fail("rejected", "%v", err)
		return
	}
	text, err := p.TableStructs.MarshalText()
	if err != nil {
		t.Fail("write", "%v", err)
		return
	}
	again, err := parseStructs(d, currentSchema[d], "package tables\n\n"+string(text))
	if err != nil {
		t.Fail("rewritten", "%v written again is rejected: %v\n%s", mods, err, text)
		return
	}
	if diff := factDiff(structFacts(again), want); diff != "" {
		t.Fail("rewritten", "%s %s %v written again means something else:\n%s\n%s", d, field, mods, diff, text)
	}
}

var fieldTypesAll = []string{"NumberField", "StringField", "TimeField", "BooleanField", "BinaryField", "ArrayField", "EnumField", "JSONField", "UUIDField", "AnyField"}

// runTags: every list of up to two modifiers (three in the thorough tier).
func runTags(r *core.Runner) {
	ts := tags()
	for _, d := range allDialects {
		for _, field := range fieldTypesAll {
			for i := -1; i < len(ts); i++ {
				r.Go(fmt.Sprintf("tags %s %s %d", d, field, i), func(t *core.T) {
					t.Nontrivial()
					if i < 0 {
						tagCase(t, d, field, nil, nil, nil)
						return
					}
					for _, p := range sortedKeys(tagPrefixes) {
						for _, dialect := range [][]string{nil, {"sqlite"}, {"postgres", "sqlserver"}, {"mysql"}} {
							if len(dialect) > 0 && !has(dialect, d) && (ts[i].kind != "" || p != "") {
								continue // what a key of an ignored column means is not documented
							}
							tagCase(t, d, field, []tag{ts[i]}, []string{p}, dialect)
						}
					}
					if field != "NumberField" && field != "StringField" && !r.Thorough() {
						return
					}
					for _, tj := range ts {
						if ts[i].kind != "" && tj.kind != "" && (strings.Contains(ts[i].kind, tj.kind) || strings.Contains(tj.kind, ts[i].kind)) {
							continue
						}
						for _, p := range sortedKeys(tagPrefixes) {
							tagCase(t, d, field, []tag{ts[i], tj}, []string{"", p}, nil)
							tagCase(t, d, field, []tag{ts[i], tj}, []string{p, ""}, nil)
						}
						if r.Thorough() && field == "NumberField" {
							for _, tk := range ts {
								if tk.kind == "" {
									tagCase(t, d, field, []tag{ts[i], tj, tk}, []string{"", "", ""}, nil)
								}
							}
						}
					}
				})
			}
		}
	}
	r.Wait()
}

// runTableTags: pairs of modifiers of the table for the same and for different dialects.
func runTableTags(r *core.Runner) {
	var ts []tag
	for _, t := range tags() {
		if strings.HasPrefix(t.text, "foreignkey") || strings.Contains(t.text, "=b") || strings.Contains(t.text, "a,b") || strings.Contains(t.text, "{b,a") {
			ts = append(ts, t)
		}
	}
	ts = append(ts, tag{"virtual", "", func(d string, c *ddl.Catalog, t *ddl.Table, col *ddl.Column) { t.IsVirtual = d == "sqlite" }})
	for _, d := range allDialects {
		for i, a := range ts {
			r.Go(fmt.Sprintf("table tags %s %d", d, i), func(t *core.T) {
				t.Nontrivial()
				for _, b := range ts {
					for _, pa := range sortedKeys(tagPrefixes) {
						for _, pb := range sortedKeys(tagPrefixes) {
							if a.text == "virtual" && pa != "" || b.text == "virtual" && pb != "" {
								continue
							}
							both := (tagPrefixes[pa] == nil || has(tagPrefixes[pa], d)) && (tagPrefixes[pb] == nil || has(tagPrefixes[pb], d))
							if both && (a.kind != "" && b.kind != "" && (strings.Contains(a.kind, b.kind) || strings.Contains(b.kind, a.kind)) || a.text == b.text) {
								continue
							}
							for _, apart := range []bool{false, true} {
								x, y := pa+a.text+" "+pb+b.text, ""
								if apart {
									x, y = pa+a.text, "\t_ struct{} `ddl:\""+pb+b.text+"\"`\n"
								}
								src := "package tables\n\ntype T struct {\n\tsq.TableStruct `ddl:\"" + x + "\"`\n\tA sq.NumberField\n\tB sq.NumberField\n" + y + "}\n\n" + tagU
								t.Step(1)
								got, err := parseStructs(d, currentSchema[d], src)
								if err != nil {
									t.Fail("rejected", "%s %s: %v\n%s", d, x, err, src)
									continue
								}
								t.Trace(1)
								want := structFacts(expectStructs(d, "NumberField", []tag{a, b}, []string{pa, pb}, nil))
								t.State(strings.Join(want, "\n"))
								if diff := factDiff(structFacts(got), want); diff != "" {
									t.Fail("meaning", "%s means something else:\n%s\n%s", d, diff, src)
								}
							}
						}
					}
				}
			})
		}
	}
	r.Wait()
}

// runTagOrder: the order of declarations does not matter.
func runTagOrder(r *core.Runner) {
	fields := []string{
		"A sq.NumberField `ddl:\"notnull references={u.id index}\"`",
		"B sq.StringField `ddl:\"unique len=5\"`",
		"_ struct{} `ddl:\"index={a,b unique}\"`",
		"_ struct{} `ddl:\"foreignkey={a,b references=v.x,y ondelete=cascade}\"`",
		"_ struct{} `ddl:\"primarykey=b,a\"`",
	}
	structs := []string{
		"", // T
		"type U struct {\n\tsq.TableStruct\n\tID sq.NumberField `ddl:\"primarykey references=t.a\"`\n}\n",
		"type V struct {\n\tsq.TableStruct `ddl:\"unique=x,y\"`\n\tX sq.NumberField\n\tY sq.StringField\n}\n",
		"type (\n\tW struct {\n\t\tsq.TableStruct\n\t\tZ sq.NumberField `ddl:\"references=u.id\"`\n\t}\n)\n",
	}
	columns := regexp.MustCompile(` \d+ `)
	facts := func(c *ddl.Catalog) string {
		var out []string
		for _, f := range structFacts(c) {
			if strings.HasPrefix(f, "column") {
				f = columns.ReplaceAllString(f, " ")
			}
			out = append(out, f)
		}
		sort.Strings(out)
		return strings.Join(out, "\n")
	}
	for _, d := range allDialects {
		r.Go("order "+d, func(t *core.T) {
			t.Nontrivial()
			first := ""
			for _, fs := range perms(fields) {
				for _, ss := range perms(structs) {
					if fs[0] != fields[0] && ss[0] != structs[0] && !r.Thorough() {
						continue
					}
					src := "package tables\n\n"
					for _, i := range ss {
						if i != "" {
							src += i
							continue
						}
						src += "type T struct {\n\tsq.TableStruct\n"
						for _, j := range fs {
							src += "\t" + j + "\n"
						}
						src += "}\n"
					}
					t.Step(1)
					c, err := parseStructs(d, currentSchema[d], src)
					if err != nil {
						t.Fail("order", "rejected: %v\n%s", err, src)
						return
					}
					t.Trace(1)
					got := facts(c)
					t.State(got)
					if first == "" {
						first = got
					}
					if got != first {
						t.Fail("order", "the order of declarations matters:\n%s\n%s", diffLines(first, got), src)
						return
					}
				}
			}
			// Several fields in one declaration.
			one, err1 := parseStructs(d, currentSchema[d], "package tables\n\ntype T struct {\n\tsq.TableStruct\n\tA sq.NumberField `ddl:\"notnull index\"`\n\tB sq.NumberField `ddl:\"notnull index\"`\n}\n")
			two, err2 := parseStructs(d, currentSchema[d], "package tables\n\ntype T struct {\n\tsq.TableStruct\n\tA, B sq.NumberField `ddl:\"notnull index\"`\n}\n")
			if err1 != nil || err2 != nil {
				t.Fatal("order", "%v %v", err1, err2)
			}
			if facts(one) != facts(two) {
				t.Fail("order", "fields declared together:\n%s", diffLines(facts(one), facts(two)))
			}
		})
	}
	r.Wait()
}

// runBadTags: mistakes are reported where they are.
func runBadTags(r *core.Runner) {
	bad := []string{
		"nosuch", "nosuch=1", "primarykey=nope", "primarykey=a,nope", "unique=nope", "index=nope", "index={a,nope unique}", "index={a nosuch}", "unique={a nosuch}", "primarykey={. nosuch}",
		"references=nope.id", "references=u.nope", "references=nope.u.id", "references={u.id nosuch}", "references={u.id onupdate=nosuch}", "references={u.id ondelete=drop}", "references=", "references",
		"foreignkey", "foreignkey=a", "foreignkey={a references=nope.id}", "foreignkey={nope references=u.id}", "foreignkey={a references=u.nope}", "foreignkey={a onupdate=cascade}", "foreignkey={a references=u.id nosuch}", "foreignkey={a references=u.id ondelete=x}", "foreignkey={. references=u.id}",
		"default={f(1", "type={VARCHAR", "index={a unique", "references={u.id index={. unique}", "dialect", "dialect=", "references={u.id index={nope}}", "references={u.id index={. nosuch}}", "Primarykey", "not null", "primary key",
	}
	table := []string{"primarykey", "unique", "index", "primarykey=nope", "unique=a,nope", "index=nope", "foreignkey=a", "foreignkey={a references=nope.id}", "foreignkey={a,b references=u.id,nope}", "foreignkey={a,b onupdate=cascade}", "nosuch", "notnull", "default=1", "dialect=", "index={a"}
	for _, d := range allDialects {
		for _, lead := range []string{"", "notnull "} {
			for _, m := range bad {
				r.Go(fmt.Sprintf("bad %s %q", d, lead+m), func(t *core.T) {
					t.Nontrivial()
					badTag(t, d, strings.Replace(tagSource("NumberField", lead+m), "\t", "\t", 1), "tables.go:7:", m)
				})
			}
		}
		for _, m := range table {
			r.Go(fmt.Sprintf("bad table %s %q", d, m), func(t *core.T) {
				t.Nontrivial()
				src := "package tables\n\nimport \"github.com/bokwoon95/sq\"\n\ntype T struct {\n\tsq.TableStruct `ddl:\"" + m + "\"`\n\tA sq.NumberField\n\tB sq.NumberField\n}\n\n" + tagU
				badTag(t, d, src, "tables.go:6:", m)
				src = "package tables\n\nimport \"github.com/bokwoon95/sq\"\n\ntype T struct {\n\tsq.TableStruct\n\tA sq.NumberField\n\tB sq.NumberField\n\t_ struct{} `ddl:\"" + m + "\"`\n}\n\n" + tagU
				badTag(t, d, src, "tables.go:9:", m)
			})
		}
	}
	// Every arrangement of the parts of a tag: no crash, and what is accepted can be written and parsed again.
	parts := []string{"primarykey", "references", "foreignkey", "index", "default", "=", "{", "}", " ", "a", "u.id", ",", ".", "sqlite:"}
	longest := r.Pick(5, 6)
	for _, p1 := range parts {
		for _, p2 := range parts {
			r.Go(fmt.Sprintf("parts %q %q", p1, p2), func(t *core.T) {
				t.Nontrivial()
				var rec func(text string, n int)
				rec = func(text string, n int) {
					t.Step(1)
					t.Logf("tag %q", text)
					ms, err := ddl.NewModifiers(text)
					if err == nil {
						again, err := ddl.NewModifiers(ddl.Modifiers(ms).String())
						if balanced(text) && (err != nil || !sameModifiers(ms, again)) {
							t.Fail("modifiers", "%q is %+v; written as %q it is %+v (%v)", text, ms, ddl.Modifiers(ms).String(), again, err)
						}
					}
					if n < 5 || r.Thorough() {
						parseStructs("sqlite", "", tagSource("NumberField", text))
					}
					if n < longest {
						for _, p := range parts {
							rec(text+p, n+1)
						}
					}
				}
				rec(p1+p2, 2)
				t.State(p1, p2)
			})
		}
	}
	r.Wait()
}

// balanced reports whether modifiers have names and values and braces enclose whole values only.
func balanced(s string) bool {
	if strings.Contains(s, ":=") || strings.Contains(s, "= ") {
		return false // a modifier without a name or a value
	}
	level := 0
	for i, c := range s {
		switch c {
		case '{':
			if i > 0 && !strings.ContainsRune("={ ", rune(s[i-1])) {
				return false
			}
			level++
		case '}':
			level--
			if level < 0 || i+1 < len(s) && !strings.ContainsRune("} ", rune(s[i+1])) {
				return false
			}
		}
	}
	return level == 0
}

func sameModifiers(a, b []ddl.Modifier) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Name != b[i].Name || a[i].RawValue != b[i].RawValue || strings.Join(a[i].Dialects, ",") != strings.Join(b[i].Dialects, ",") {
			return false
		}
	}
	return true
}

func badTag(t *core.T, d, src, pos, what string) {
	t.Step(1)
	t.Trace(1)
	t.State(src)
	_, err := parseStructs(d, currentSchema[d], src)
	if err == nil {
		t.Fail("accepted", "%q is accepted without an error", what)
		return
	}
	if !strings.Contains(err.Error(), pos) {
		t.Fail("position", "the error for %q does not give its position %s: %v", what, pos, err)
	}
}
