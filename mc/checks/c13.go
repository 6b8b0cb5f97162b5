package checks

import (
	"database/sql/driver"
	"encoding/csv"
	"fmt"
	"io"
	"regexp"
	"strings"
	"sync"
	"testing/fstest"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
	"verifmc/faultdb"
)

func init() {
	core.Register(&core.Check{Prop: "C13", Level: "model_checking",
		Rule: "one evaluation = one table, file, setting and set of batch sizes; a transition is one load; a trace is one load compared with loading row by row",
		Run:  runC13,
		Assumptions: []string{
			"for Postgres, MySQL and SQL Server the upsert statements are executed by SQLite after rewriting their upsert syntax; the catalogue query of load is answered by a stand-in",
			"a column that is NOT NULL without default is listed in the file",
		}})
}

// loadTable is a table to load into.
type loadTable struct {
	name, ddl string
	cols, pk  []string
	identity  string
}

var loadTables = []loadTable{
	{name: "t", ddl: "(a INT, b TEXT, c TEXT DEFAULT 'd')"},
	{name: "t", ddl: "(a INTEGER PRIMARY KEY, b TEXT, c TEXT DEFAULT 'd')", pk: []string{"a"}, identity: "a"},
	{name: "t", ddl: "(a TEXT PRIMARY KEY, b TEXT, c TEXT DEFAULT 'd') WITHOUT ROWID", pk: []string{"a"}},
	{name: "t", ddl: "(a INT, b TEXT, c TEXT DEFAULT 'd', PRIMARY KEY (b, a))", pk: []string{"b", "a"}, identity: "c"},
	{name: "t", ddl: "(a INT, b TEXT UNIQUE, c TEXT DEFAULT 'd', PRIMARY KEY (a))", pk: []string{"a"}, identity: "c"},
	{name: "t", ddl: "(a INT PRIMARY KEY, b TEXT NOT NULL DEFAULT 'n' CHECK (b <> 'bad'), c TEXT DEFAULT 'd')", pk: []string{"a"}},
	{name: "t", ddl: "(a INT, b TEXT, c TEXT DEFAULT 'd', PRIMARY KEY (a, b, c))", pk: []string{"a", "b", "c"}},
}

func init() {
	for i := range loadTables {
		loadTables[i].cols = []string{"a", "b", "c"}
	}
	// The same with names that need quoting.
	re := regexp.MustCompile(`\b[abc]\b`)
	names := map[string]string{"a": `Key "1"`, "b": "order", "c": "c,]`"}
	for _, lt := range loadTables[1:4] {
		n := loadTable{name: `My "t]`, ddl: re.ReplaceAllStringFunc(lt.ddl, func(s string) string { return qid(names[s]) })}
		for _, c := range lt.cols {
			n.cols = append(n.cols, names[c])
		}
		for _, c := range lt.pk {
			n.pk = append(n.pk, names[c])
		}
		n.identity = names[lt.identity]
		loadTables = append(loadTables, n)
	}
}

func (lt loadTable) server(existing int) *faultdb.Server {
	s := faultdb.New("_foreign_keys=true")
	s.MustExec("CREATE TABLE " + qid(lt.name) + " " + lt.ddl)
	s.MustExec("CREATE TABLE other (a INTEGER PRIMARY KEY)")
	if existing > 0 {
		s.MustExec("INSERT INTO " + qid(lt.name) + " VALUES (1, 'x', 'e1'), (2, 'y', 'e2')")
		s.MustExec("INSERT INTO other VALUES (7)")
	}
	return s
}

func csvText(header []string, rows [][]string) string {
	var b strings.Builder
	w := csv.NewWriter(&b)
	w.Write(header)
	w.WriteAll(rows)
	return b.String()
}

// reference loads the rows one by one, looking for the key first.
func (lt loadTable) reference(s *faultdb.Server, dialect string, header []string, rows [][]string) error {
	keyed := len(lt.pk) > 0
	pos := map[string]int{}
	for i, c := range header {
		pos[c] = i
	}
	for _, k := range lt.pk {
		if _, ok := pos[k]; !ok {
			keyed = false
		}
	}
	lit := func(v string) string {
		if v == `\N` {
			return "NULL"
		}
		return qlit(v)
	}
	err := s.Exec("BEGIN")
	if err != nil {
		core.Broken("%v", err)
	}
	for _, row := range rows {
		if keyed {
			var where, set []string
			for _, k := range lt.pk {
				where = append(where, qid(k)+" = "+lit(row[pos[k]]))
			}
			for i, c := range header {
				if !has(lt.pk, c) && !(dialect == ddl.DialectSQLServer && c == lt.identity) { // SQL Server cannot update identity columns
					set = append(set, qid(c)+" = "+lit(row[i]))
				}
			}
			if len(s.MustQuery("SELECT 1 FROM "+qid(lt.name)+" WHERE "+strings.Join(where, " AND "))) > 0 {
				if len(set) > 0 {
					err = s.Exec("UPDATE " + qid(lt.name) + " SET " + strings.Join(set, ", ") + " WHERE " + strings.Join(where, " AND "))
				}
				if err != nil {
					break
				}
				continue
			}
		}
		var cols, vals []string
		for i, c := range header {
			cols = append(cols, qid(c))
			vals = append(vals, lit(row[i]))
		}
		err = s.Exec("INSERT INTO " + qid(lt.name) + " (" + strings.Join(cols, ", ") + ") VALUES (" + strings.Join(vals, ", ") + ")")
		if err != nil {
			break
		}
	}
	if err != nil {
		s.Exec("ROLLBACK")
		return err
	}
	if err := s.Exec("COMMIT"); err != nil {
		core.Broken("%v", err)
	}
	return nil
}

// loadDialect makes the SQLite behind s look like a server of another dialect to load.
type loadDialect struct {
	dialect string
	lt      loadTable
	types   []string
	problem string
	fixed   bool // answer the same for every table
}

// catalogues holds the answers of catalogue.
var catalogues sync.Map

// catalogue answers a query about columns from an SQLite copy of the
// information_schema or sys tables it reads; ok is false if SQLite cannot.
func (d *loadDialect) catalogue(q string, args []driver.NamedValue) (ans *faultdb.Answer, ok bool) {
	c := faultdb.New("")
	defer c.Close()
	db := c.DB()
	db.SetMaxOpenConns(1)
	exec := func(q string, a ...any) {
		if _, err := db.Exec(q, a...); err != nil {
			core.Broken("%s: %v", q, err)
		}
	}
	if d.dialect == ddl.DialectMySQL {
		exec("ATTACH ':memory:' AS information_schema")
		exec("CREATE TABLE information_schema.columns (table_schema, table_name, column_name, column_type, data_type, ordinal_position, column_key)")
		exec("CREATE TABLE information_schema.table_constraints (constraint_schema, constraint_name, table_schema, table_name, constraint_type)")
		exec("CREATE TABLE information_schema.key_column_usage (constraint_schema, constraint_name, table_schema, table_name, column_name, ordinal_position)")
		for _, sch := range []string{"sch", "sch2"} {
			if len(d.lt.pk) > 0 {
				exec("INSERT INTO table_constraints VALUES (?, 'PRIMARY', ?, ?, 'PRIMARY KEY')", sch, sch, d.lt.name)
			}
			// Another table with a key over the same columns, and a unique key over everything.
			exec("INSERT INTO table_constraints VALUES (?, 'PRIMARY', ?, 'zz', 'PRIMARY KEY'), (?, 'uq', ?, ?, 'UNIQUE')", sch, sch, sch, sch, d.lt.name)
			for i, c := range d.lt.cols {
				key := ""
				if has(d.lt.pk, c) {
					key = "PRI"
					exec("INSERT INTO key_column_usage VALUES (?, 'PRIMARY', ?, ?, ?, ?)", sch, sch, d.lt.name, c, i+1)
				}
				exec("INSERT INTO columns VALUES (?, ?, ?, ?, ?, ?, ?)", sch, d.lt.name, c, d.types[i], d.types[i], i+1, key)
				exec("INSERT INTO key_column_usage VALUES (?, 'uq', ?, ?, ?, ?), (?, 'PRIMARY', ?, 'zz', ?, ?)", sch, sch, d.lt.name, c, i+1, sch, sch, c, i+1)
			}
		}
	} else {
		q = regexp.MustCompile(`TYPE_NAME\(([\w.]+)\)`).ReplaceAllString(q, "$1")
		q = regexp.MustCompile(`COLUMNPROPERTY\([^()]*\)`).ReplaceAllString(q, "columns.column_id")
		exec("ATTACH ':memory:' AS sys")
		exec("CREATE TABLE sys.schemas (schema_id, name)")
		exec("CREATE TABLE sys.tables (object_id, schema_id, name)")
		exec("CREATE TABLE sys.columns (object_id, column_id, name, system_type_id, user_type_id, is_identity)")
		exec("CREATE TABLE sys.indexes (object_id, index_id, name, is_primary_key, is_unique)")
		exec("CREATE TABLE sys.index_columns (object_id, index_id, index_column_id, column_id)")
		exec("INSERT INTO schemas VALUES (1, 'sch'), (2, 'sch2')")
		for sch := 1; sch <= 2; sch++ {
			exec("INSERT INTO tables VALUES (?, ?, ?)", sch*10, sch, d.lt.name)
			if len(d.lt.pk) > 0 {
				exec("INSERT INTO indexes VALUES (?, 1, 'pk', 1, 1)", sch*10)
			}
			exec("INSERT INTO indexes VALUES (?, 2, 'uq', 0, 1), (99, 1, 'pk', 1, 1)", sch*10)
			for i, c := range d.lt.cols {
				exec("INSERT INTO columns VALUES (?, ?, ?, ?, ?, ?)", sch*10, i+1, c, d.types[i], d.types[i], c == d.lt.identity)
				exec("INSERT INTO index_columns VALUES (?, 2, ?, ?), (99, 1, ?, ?)", sch*10, i+1, i+1, i+1, i+1)
				if has(d.lt.pk, c) {
					exec("INSERT INTO index_columns VALUES (?, 1, ?, ?)", sch*10, i+1, i+1)
				}
			}
		}
	}
	var vals []any
	for _, a := range args {
		vals = append(vals, a.Value)
	}
	rows, err := db.Query(q, vals...)
	if err != nil {
		return nil, false
	}
	defer rows.Close()
	ans = &faultdb.Answer{}
	ans.Cols, _ = rows.Columns()
	for rows.Next() {
		row := make([]driver.Value, len(ans.Cols))
		ptrs := make([]any, len(row))
		for i := range row {
			ptrs[i] = &row[i]
		}
		if rows.Scan(ptrs...) != nil {
			return nil, false
		}
		ans.Rows = append(ans.Rows, row)
	}
	return ans, rows.Err() == nil
}

var (
	reInsertCols = regexp.MustCompile(`(?s)^INSERT INTO .*?\((.*?)\) (?:SELECT|VALUES)`)
	reValuesFn   = regexp.MustCompile("VALUES\\((`(?:[^`]|``)*`|\\w+)\\)")
)

func (d *loadDialect) translate(conn int, q string, args []driver.NamedValue) (string, []driver.NamedValue, *faultdb.Answer) {
	one := func(v driver.Value) (string, []driver.NamedValue, *faultdb.Answer) {
		return "", nil, &faultdb.Answer{Cols: []string{"v"}, Rows: [][]driver.Value{{v}}}
	}
	fail := func(f string, a ...any) (string, []driver.NamedValue, *faultdb.Answer) {
		return "", nil, &faultdb.Answer{Err: syntaxError(d.dialect, fmt.Sprintf(f, a...))}
	}
	limit := map[string]int{ddl.DialectPostgres: 65535, ddl.DialectMySQL: 65535, ddl.DialectSQLServer: 2100}[d.dialect]
	if len(args) > limit {
		return fail("too many parameters: %d", len(args))
	}
	switch {
	case q == "SELECT current_schema()", q == "SELECT database()", q == "SELECT SCHEMA_NAME()":
		return one("sch")
	case strings.HasPrefix(q, "SHOW "):
		return one("Asia/Tokyo")
	case strings.HasPrefix(q, "SELECT @@"):
		return one("1")
	case strings.HasPrefix(q, "SET IDENTITY_INSERT"), strings.HasPrefix(q, "SET timezone"), strings.HasPrefix(q, "SET foreign_key_checks"):
		return "", nil, &faultdb.Answer{}
	case strings.Contains(q, "AS is_key_column"):
		if d.types == nil {
			for i := range d.lt.cols {
				d.types = append(d.types, []string{"int", "text", "text"}[i%3])
			}
		}
		if d.dialect != ddl.DialectPostgres && len(d.lt.cols) < 10 && !d.fixed {
			key := fmt.Sprint(d.dialect, d.lt, d.types, q, args)
			known, ok := catalogues.Load(key)
			if !ok {
				ans, ok := d.catalogue(q, args)
				if !ok {
					ans = nil
				}
				known, _ = catalogues.LoadOrStore(key, ans)
			}
			if ans := known.(*faultdb.Answer); ans != nil {
				return "", nil, ans
			}
		}
		ans := &faultdb.Answer{Cols: []string{"column_name", "column_type", "is_key_column"}}
		ident := d.dialect != ddl.DialectMySQL
		if ident {
			ans.Cols = append(ans.Cols, "is_identity_column")
		}
		for i, c := range d.lt.cols {
			row := []driver.Value{c, d.types[i], has(d.lt.pk, c)}
			if ident {
				row = append(row, c == d.lt.identity)
			}
			ans.Rows = append(ans.Rows, row)
		}
		return "", nil, ans
	case strings.HasPrefix(q, "SELECT setval(pg_get_serial_sequence("):
		if len(args) != 2 || args[1].Value != d.lt.identity {
			d.problem = fmt.Sprintf("pg_get_serial_sequence is asked for column %q, the identity column is %q", args[1].Value, d.lt.identity)
		}
		return one(int64(1))
	}
	for _, p := range []string{"sch.", `"sch".`, "`sch`.", "[sch]."} {
		q = strings.ReplaceAll(q, p, "")
	}
	switch d.dialect {
	case ddl.DialectPostgres:
		q = strings.Replace(q, " OVERRIDING SYSTEM VALUE", "", 1)
		if strings.Contains(q, "DO UPDATE") {
			if m := reInsertCols.FindStringSubmatch(q); m != nil {
				if k, dup := d.duplicate(len(args), args); dup {
					return fail("ON CONFLICT DO UPDATE command cannot affect row a second time (key %s)", k)
				}
			}
		}
	case ddl.DialectMySQL:
		const on = " ON DUPLICATE KEY UPDATE "
		if i := strings.Index(q, on); i >= 0 {
			var pk []string
			for _, c := range d.lt.pk {
				pk = append(pk, qid(c))
			}
			q = q[:i] + " ON CONFLICT (" + strings.Join(pk, ", ") + ") DO UPDATE SET " + reValuesFn.ReplaceAllString(q[i+len(on):], "EXCLUDED.$1")
		}
	case ddl.DialectSQLServer:
		// SQLite's [..] has no escape for a closing bracket: read names as SQL Server does.
		q = reBracket.ReplaceAllStringFunc(q, func(s string) string { return qid(strings.ReplaceAll(s[1:len(s)-1], "]]", "]")) })
		if strings.HasPrefix(q, "UPDATE ") {
			i := strings.Index(q, " FROM ")
			j := strings.Index(q, " JOIN (VALUES ")
			k := strings.LastIndex(q, ") ON ")
			if i < 0 || j < i || k < j {
				return fail("unexpected UPDATE")
			}
			q = q[:i] + " FROM (VALUES " + q[j+len(" JOIN (VALUES "):k] + ") WHERE " + q[k+len(") ON "):]
			q = strings.Replace(q, " WITH (UPDLOCK, SERIALIZABLE)", "", 1)
		}
		if i := strings.Index(q, "(VALUES "); i >= 0 {
			j := strings.Index(q, ") AS tmp_ (")
			end := closingParen(q, j+len(") AS tmp_ "))
			if j < i || end < 0 {
				return fail("unexpected derived table")
			}
			q = q[:i] + "(WITH v_ " + q[j+len(") AS tmp_ "):end+1] + " AS (" + q[i+1:j] + ") SELECT * FROM v_) AS tmp_" + q[end+1:]
		}
	}
	return q, args, nil
}

var reBracket = regexp.MustCompile(`\[(?:[^\]]|\]\])*\]`)

// closingParen finds the parenthesis closing the one at i, outside quotes.
func closingParen(q string, i int) int {
	depth := 0
	for ; i < len(q); i++ {
		switch q[i] {
		case '"', '\'', '`':
			j := strings.IndexByte(q[i+1:], q[i])
			if j < 0 {
				return -1
			}
			i += j + 1
		case '(':
			depth++
		case ')':
			if depth--; depth == 0 {
				return i
			}
		}
	}
	return -1
}

// header of the file being loaded, for finding duplicates.
func (d *loadDialect) duplicate(n int, args []driver.NamedValue) (string, bool) {
	seen := map[string]bool{}
	w := len(d.lt.cols)
	if n%w != 0 {
		return "", false
	}
	pos := map[string]int{}
	for i, c := range d.lt.cols {
		pos[c] = i
	}
	for i := 0; i+w <= n; i += w {
		k := ""
		for _, c := range d.lt.pk {
			if args[i+pos[c]].Value == nil {
				k += fmt.Sprint(i) // NULLs are distinct
			}
			k += fmt.Sprintf("%q", fmt.Sprint(args[i+pos[c]].Value))
		}
		if seen[k] {
			return k, true
		}
		seen[k] = true
	}
	return "", false
}

type loadOpt struct {
	dialect string
	batch   int
}

// loadFiles loads files in the given order.
func loadFiles(s *faultdb.Server, o loadOpt, files fstest.MapFS, names ...string) error {
	cmd := &ddl.LoadCmd{DB: s.DB(), Dialect: o.dialect, DirFS: files, Filenames: names, Stderr: io.Discard, Batchsize: o.batch}
	return cmd.Run()
}

func loadCase(t *core.T, lt loadTable, dialect string, existing int, header []string, rows [][]string, batches []int) {
	t.Nontrivial()
	ref := lt.server(existing)
	defer ref.Close()
	before := cells(ref)
	t.State(before)
	refErr := lt.reference(ref, dialect, header, rows)
	want := cells(ref)
	t.State(want)
	file := lt.name + ".csv"
	text := csvText(header, rows)
	files := fstest.MapFS{file: {Data: []byte(text)}}
	refErr2, want2 := refErr, want
	if refErr == nil {
		refErr2 = lt.reference(ref, dialect, header, rows)
		want2 = cells(ref)
		if refErr2 == nil && want2 != want && !repeats(lt, header, rows) && lt.keyed(header, rows) {
			core.Broken("the reference is not idempotent")
		}
	}
	for _, batch := range batches {
		s := lt.server(existing)
		d := &loadDialect{dialect: dialect, lt: lt}
		d.lt.cols = lt.cols
		if dialect != ddl.DialectSQLite {
			d.lt.cols = header // what duplicate needs; the unlisted columns do not matter to load
			s.Translate = d.translate
		}
		t.Step(1)
		t.Trace(1)
		err := loadFiles(s, loadOpt{dialect, batch}, files, file)
		s.Translate = nil
		got := cells(s)
		switch {
		case d.problem != "":
			t.Fail("identity", "%s", d.problem)
		case refErr != nil && err == nil:
			t.Fail("accepted", "batch %d: loaded although row by row it fails with %v\n%s", batch, refErr, text)
		case refErr != nil && got != before:
			t.Fail("partial", "batch %d: failed (%v) but changed the table\n%s\n%s", batch, err, diffLines(before, got), text)
		case refErr != nil:
			t.Outcome("refused")
		case err != nil:
			t.Fail("refused", "batch %d: %v\n%s", batch, err, text)
		case got != want:
			t.Fail("rows", "batch %d: wrong rows\n%s\n%s", batch, diffLines(want, got), text)
		default:
			t.Outcome("loaded")
			if dialect != ddl.DialectSQLite {
				s.Translate = d.translate
			}
			t.Step(1)
			err := loadFiles(s, loadOpt{dialect, batch}, files, file)
			s.Translate = nil
			if (err != nil) != (refErr2 != nil) {
				t.Fail("again", "batch %d: loading again gives %v, row by row %v", batch, err, refErr2)
			} else if got := cells(s); got != want2 {
				t.Fail("again", "batch %d: loading again gives the wrong rows\n%s\n%s", batch, diffLines(want2, got), text)
			}
		}
		s.Close()
	}
}

// keyed reports whether every row has a key.
func (lt loadTable) keyed(header []string, rows [][]string) bool {
	for _, k := range lt.pk {
		if !has(header, k) {
			return false
		}
	}
	for _, row := range rows {
		for i, c := range header {
			if row[i] == `\N` && has(lt.pk, c) {
				return false
			}
		}
	}
	return len(lt.pk) > 0
}

// repeats reports whether two rows have the same key.
func repeats(lt loadTable, header []string, rows [][]string) bool {
	seen := map[string]bool{}
	for _, row := range rows {
		var key []string
		for i, c := range header {
			if has(lt.pk, c) {
				key = append(key, row[i])
			}
		}
		k := fmt.Sprintf("%q", key)
		if seen[k] {
			return true
		}
		seen[k] = true
	}
	return false
}

// orderedSubsets are the non-empty lists of distinct elements.
func orderedSubsets(xs []string) [][]string {
	var out [][]string
	for _, s := range subsets(xs) {
		if len(s) > 0 {
			out = append(out, permutations(s)...)
		}
	}
	return out
}

func runC13(r *core.Runner) {
	type rw struct{ a, b string }
	var alphabet []rw
	for _, a := range []string{"1", "2", "3"} {
		for _, b := range []string{"x", "y", "z", `\N`, "bad"} {
			alphabet = append(alphabet, rw{a, b})
		}
	}
	var seqs [][]rw
	seqs = append(seqs, nil, []rw{{`\N`, "x"}}, []rw{{`\N`, "x"}, {"1", "y"}, {`\N`, "z"}})
	for _, x := range alphabet {
		seqs = append(seqs, []rw{x})
		for _, y := range alphabet {
			if !r.Thorough() && (x.b == "y" || x.b == "z" || y.b == "z") {
				continue
			}
			seqs = append(seqs, []rw{x, y})
			for _, z := range alphabet {
				if !r.Thorough() && (x.b != "x" || y.b == `\N` || y.b == "bad" || z.b == `\N`) {
					continue
				}
				seqs = append(seqs, []rw{x, y, z})
			}
		}
	}
	dialects := []string{ddl.DialectSQLite, ddl.DialectPostgres, ddl.DialectMySQL, ddl.DialectSQLServer}
	// 1. All short files.
	for _, lt := range loadTables {
		for hi, header := range orderedSubsets(lt.cols) {
			for existing := 0; existing < 2; existing++ {
				if existing == 0 && !r.Thorough() && hi%3 == 1 {
					continue
				}
				for di, dialect := range dialects {
					if di > 0 && (strings.Contains(lt.ddl, "UNIQUE") || (len(header) < 3 || hi%2 == 0) && !r.Thorough()) {
						continue // MySQL and SQLite differ in what another unique key does
					}
					for si, seq := range seqs {
						if r.Stop() {
							return
						}
						if !r.Thorough() && lt.name != "t" && len(seq) == 2 && (hi+si)%3 != 0 {
							continue
						}
						if !r.Thorough() && len(seq) > 2 && (len(header) < 3 || (lt.name != "t" || di > 0) && si%5 != 0) {
							continue
						}
						var rows [][]string
						for n, x := range seq {
							full := map[string]string{lt.cols[0]: x.a, lt.cols[1]: x.b, lt.cols[2]: fmt.Sprint("c", n)}
							var row []string
							for _, h := range header {
								row = append(row, full[h])
							}
							rows = append(rows, row)
						}
						if dialect == ddl.DialectSQLServer && lt.identity == lt.cols[2] && has(header, lt.identity) && repeats(lt, header, rows) {
							continue // which of the rows gives an identity column its value is not specified
						}
						if di > 0 && strings.Contains(lt.ddl, "CHECK") && repeats(lt, header, rows) {
							continue // a refused row that a later one supersedes may be accepted
						}
						batches := []int{1, 2, 0}
						if len(seq) < 3 {
							batches = []int{1, 0}[2-max(1, len(seq)):]
						}
						r.Go(fmt.Sprintf("short %s %s %v existing=%d %v", dialect, lt.ddl, header, existing, seq), func(t *core.T) {
							loadCase(t, lt, dialect, existing, header, rows, batches)
						})
					}
				}
			}
		}
	}
	r.Wait()
	// 2. Every row count around every batch size, wide tables.
	for _, width := range []int{1, 2, 3, 7, 30, 100, 700} {
		lt := loadTable{name: "w", pk: []string{"c0"}, identity: "c0"}
		defs := []string{"c0 INTEGER PRIMARY KEY"}
		lt.cols = []string{"c0"}
		for i := 1; i < width; i++ {
			lt.cols = append(lt.cols, fmt.Sprint("c", i))
			defs = append(defs, fmt.Sprintf("c%d TEXT", i))
		}
		lt.ddl = "(" + strings.Join(defs, ", ") + ")"
		for _, batch := range []int{0, 1, 2, 3, 10, 24, 25, 26, 45, 46, 47, 92, 93, 94, 326, 327, 499, 500, 501, 1000, 5000} {
			eff := batch
			if eff == 0 {
				eff = 1000
			}
			if eff*width > r.Pick(20000, 200000) {
				eff = 32766/width - 1
			}
			counts := map[int]bool{0: true, 1: true}
			for _, c := range []int{eff - 1, eff, eff + 1, 2*eff - 1, 2 * eff, 2*eff + 1} {
				if c >= 0 && c*width < r.Pick(25000, 400000) {
					counts[c] = true
				}
			}
			for n := range counts {
				var rows [][]string
				for i := 0; i < n; i++ {
					row := []string{fmt.Sprint(i + 1)}
					for j := 1; j < width; j++ {
						row = append(row, fmt.Sprintf("%d.%d", i, j))
					}
					rows = append(rows, row)
				}
				for _, dialect := range dialects {
					if dialect != ddl.DialectSQLite && n*width > r.Pick(3000, 50000) {
						continue
					}
					r.Go(fmt.Sprintf("count %s width=%d batch=%d rows=%d", dialect, width, batch, n), func(t *core.T) {
						loadCase(t, lt, dialect, 0, lt.cols, rows, []int{batch})
					})
				}
			}
		}
	}
	r.Wait()
	runC13Bad(r)
	runC13Fields(r)
	runC13Names(r)
	runC13Faults(r)
	r.Wait()
}

// runC13Bad: files that cannot be loaded completely leave no trace.
func runC13Bad(r *core.Runner) {
	lt := loadTables[4]
	good := func(i int, header string) string {
		if header == "a,b" {
			return fmt.Sprintf("%d,v%d\n", i+10, i)
		}
		return fmt.Sprintf("%d,v%d,w\n", i+10, i)
	}
	// The records have to be bad for the one reason only, for three columns and for two.
	bads := map[string][2]string{
		"short": {"50,s\n", "50\n"}, "one field": {"50\n", "50\n"}, "long": {"50,l,y,z\n", "50,l,y\n"}, "longer": {"50,l,y,,\n", "50,l,,\n"},
		"duplicate of a unique column": {"50,x,c\n", "50,x\n"}, "stray quote": {"50,\"q\"\"\"y,c\"z\n", "50,\"q\"\"\"y\n"}, "unclosed quote": {"50,\"q,c\n", "50,\"q\n"},
	}
	for name, bad := range bads {
		for n := 1; n <= 4; n++ {
			for pos := 0; pos < n; pos++ {
				for _, batch := range []int{1, 2, 3, 0} {
					for _, header := range []string{"a,b,c", "a,b,zzz", "a,b"} {
						text := header + "\n"
						for i := 0; i < n; i++ {
							switch {
							case i != pos:
								text += good(i, header)
							case header == "a,b":
								text += bad[1]
							default:
								text += bad[0]
							}
						}
						mustFail := !strings.Contains(name, "quote") || header == "a,b,zzz"
						r.Go(fmt.Sprintf("bad %s n=%d pos=%d batch=%d header=%s", name, n, pos, batch, header), func(t *core.T) {
							t.Nontrivial()
							t.Step(1)
							t.Trace(1)
							s := lt.server(1)
							defer s.Close()
							before := cells(s)
							err := loadFiles(s, loadOpt{"sqlite", batch}, fstest.MapFS{"t.csv": {Data: []byte(text)}, "other.csv": {Data: []byte("a\n9\n")}}, "t.csv", "other.csv")
							t.State(cells(s))
							switch {
							case err == nil && mustFail:
								t.Fail("accepted", "loaded %q", text)
							case err != nil && cells(s) != before:
								t.Fail("partial", "failed (%v) and changed a table:\n%s", err, diffLines(before, cells(s)))
							case err == nil:
								t.Outcome("lenient")
							default:
								t.Outcome("refused")
							}
						})
					}
				}
			}
		}
	}
	for _, c := range []struct{ name, file, text string }{
		{"empty file", "t.csv", ""}, {"no such table", "nope.csv", "a\n1\n"}, {"bad binary", "bl.csv", "a\n0xzz\n"}, {"odd binary", "bl.csv", "a\n0x0\n"}, {"missing file", "gone.csv", ""}, {"bad sql", "x.sql", "SELEC"},
	} {
		r.Go("bad "+c.name, func(t *core.T) {
			t.Nontrivial()
			t.Step(1)
			s := lt.server(1)
			defer s.Close()
			s.MustExec("CREATE TABLE bl (a BLOB)")
			before := content(s)
			files := fstest.MapFS{"other.csv": {Data: []byte("a\n9\n")}}
			if c.file != "gone.csv" {
				files[c.file] = &fstest.MapFile{Data: []byte(c.text)}
			}
			if err := loadFiles(s, loadOpt{"sqlite", 0}, files, c.file, "other.csv"); err == nil {
				t.Fail("accepted", "no error")
			}
			if content(s) != before {
				t.Fail("partial", "%s", diffLines(before, content(s)))
			}
		})
	}
}

// runC13Fields: what a field means.
func runC13Fields(r *core.Runner) {
	type set struct {
		null, bin  string
		noNull     bool
		noBin, tsI bool
	}
	sets := []set{{}, {null: "NULL"}, {bin: `\x`}, {noNull: true}, {noBin: true}, {tsI: true}, {null: "0x", bin: "0x"}, {noNull: true, noBin: true, tsI: true}}
	types := []string{"TEXT", "BLOB", "VARBINARY(9)", "UUID", "TIMESTAMP", "DATETIME", "DATE", "VARCHAR(20)", "INT"}
	fields := []string{"", `\N`, "NULL", "0x", "0x00ff", "0xAB", `\x00ff`, "plain", "5", "2020-01-02 03:04:05", "2020-01-02T03:04:05Z", "2020-01-02", "2020-01-02 03:04", "2020-01-02 03:04:05.5", "2020-01-02 03:04:05+02:00", "yesterday", " x ", "a,b", "q\"q", "l\nl"}
	unix := map[string]int64{"2020-01-02 03:04:05": 1577934245, "2020-01-02T03:04:05Z": 1577934245, "2020-01-02": 1577923200, "2020-01-02 03:04": 1577934240, "2020-01-02 03:04:05.5": 1577934245, "2020-01-02 03:04:05+02:00": 1577927045}
	for _, o := range sets {
		for _, typ := range types {
			for _, f := range fields {
				r.Go(fmt.Sprintf("field %+v %s %q", o, typ, f), func(t *core.T) {
					null, bin := `\N`, "0x"
					if o.null != "" {
						null = o.null
					}
					if o.bin != "" {
						bin = o.bin
					}
					want := qlit(f)
					binary := typ == "BLOB" || typ == "VARBINARY(9)" || typ == "UUID"
					ts := typ == "TIMESTAMP" || typ == "DATETIME" || typ == "DATE"
					switch {
					case !o.noNull && f == null:
						want = "NULL"
					case !o.noBin && binary && strings.HasPrefix(f, bin):
						want = "x'" + strings.TrimPrefix(f, bin) + "'"
					case o.tsI && ts && unix[f] != 0:
						want = fmt.Sprint(unix[f])
					}
					mk := func() *faultdb.Server {
						s := faultdb.New("")
						s.MustExec("CREATE TABLE t (id INTEGER PRIMARY KEY, v " + typ + ")")
						return s
					}
					ref, s := mk(), mk()
					defer ref.Close()
					defer s.Close()
					ref.MustExec("INSERT INTO t VALUES (1, " + want + ")")
					t.Step(1)
					t.Trace(1)
					t.Nontrivial()
					cmd := &ddl.LoadCmd{DB: s.DB(), Dialect: "sqlite", DirFS: fstest.MapFS{"t.csv": {Data: []byte(csvText([]string{"id", "v"}, [][]string{{"1", f}}))}}, Filenames: []string{"t.csv"}, Stderr: io.Discard,
						Nullstring: o.null, Binaryprefix: o.bin, NoNullstring: o.noNull, NoBinaryprefix: o.noBin, TimestampAsInteger: o.tsI}
					if err := cmd.Run(); err != nil {
						t.Fatal("field", "%v", err)
					}
					t.State(cells(s))
					if a, b := cells(ref), cells(s); a != b {
						t.Fail("field", "%s", diffLines(a, b))
					}
				})
			}
		}
	}
	// Binary literals and identity columns of the other dialects, with and without a key.
	for dialect, typ := range map[string]string{ddl.DialectPostgres: "bytea", ddl.DialectMySQL: "varbinary(20)", ddl.DialectSQLServer: "varbinary"} {
		for _, keyed := range []bool{false, true} {
			r.Go(fmt.Sprintf("binary %s keyed=%v", dialect, keyed), func(t *core.T) {
				t.Nontrivial()
				t.Step(1)
				t.Trace(1)
				lt := loadTable{name: "t", ddl: "(a INT, b BLOB, c TEXT)", cols: []string{"a", "b", "c"}, identity: "a"}
				if keyed {
					lt.ddl, lt.pk = "(a INTEGER PRIMARY KEY, b BLOB, c TEXT)", []string{"a"}
				}
				s := lt.server(0)
				defer s.Close()
				d := &loadDialect{dialect: dialect, lt: lt, types: []string{"int", typ, "text"}}
				s.Translate = d.translate
				s.Record()
				err := loadFiles(s, loadOpt{dialect, 0}, fstest.MapFS{"t.csv": {Data: []byte("a,b,c\n1,0x00ff,0x00ff\n")}}, "t.csv")
				s.Translate = nil
				if err != nil {
					t.Fatal("binary", "%v", err)
				}
				t.State(cells(s))
				if got := s.MustQuery("SELECT a, hex(b), typeof(b), c FROM t"); fmt.Sprint(got) != "[[1 00FF blob 0x00ff]]" {
					t.Fail("binary", "%v", got)
				}
				ident := false
				for _, op := range s.Ops() {
					ident = ident || strings.Contains(op.SQL, "IDENTITY_INSERT") || strings.Contains(op.SQL, "pg_get_serial_sequence")
				}
				if dialect != ddl.DialectMySQL && !ident {
					t.Fail("identity", "the identity column is not taken into account")
				}
			})
		}
	}
	// The same file written differently.
	plain := [][]string{{"1", "a", "x y"}, {"2", "", "z"}, {"3", "q\"q", "a,b"}, {"4", `\N`, "l\nl"}}
	quote := func(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }
	must := func(s string) string {
		if strings.ContainsAny(s, ",\"\n") {
			return quote(s)
		}
		return s
	}
	for _, eol := range []string{"\n", "\r\n"} {
		for _, last := range []bool{true, false} {
			for _, blank := range []bool{false, true} {
				for qi, q := range []func(string) string{quote, must} {
					r.Go(fmt.Sprintf("written eol=%q last=%v blank=%v quoting=%d", eol, last, blank, qi), func(t *core.T) {
						t.Nontrivial()
						t.Step(1)
						t.Trace(1)
						var lines []string
						for _, row := range append([][]string{{"a", "b", "c"}}, plain...) {
							var f []string
							for _, v := range row {
								f = append(f, q(v))
							}
							lines = append(lines, strings.Join(f, ","))
							if blank {
								lines = append(lines, "")
							}
						}
						text := strings.Join(lines, eol)
						if last {
							text += eol
						}
						lt := loadTables[1]
						s, ref := lt.server(1), lt.server(1)
						defer s.Close()
						defer ref.Close()
						if err := lt.reference(ref, ddl.DialectSQLite, lt.cols, plain); err != nil {
							core.Broken("%v", err)
						}
						if err := loadFiles(s, loadOpt{"sqlite", 2}, fstest.MapFS{"t.csv": {Data: []byte(text)}}, "t.csv"); err != nil {
							t.Fatal("written", "%v", err)
						}
						t.State(cells(s))
						if a, b := cells(ref), cells(s); a != b {
							t.Fail("written", "%s\n%q", diffLines(a, b), text)
						}
					})
				}
			}
		}
	}
}

// runC13Names: which table a file is loaded into.
func runC13Names(r *core.Runner) {
	tables := []string{"actor", "my table", "_x", "x", "a.b", "b", "01", "csv", "main"}
	files := map[string]string{
		"actor.csv": "actor", "01_actor.csv": "actor", "1_actor.csv": "actor", "main.actor.csv": "actor", "my table.csv": "my table", "main.my table.csv": "my table", "02_my table.csv": "my table",
		"_x.csv": "_x", "3__x.csv": "_x", "x.csv": "x", "3_x.csv": "x", "main.a.b.csv": "a.b", "main.b.csv": "b", "b.csv": "b", "01.csv": "01", "csv.csv": "csv", "main.main.csv": "main", "12_main.actor.csv": "actor",
	}
	dirs := []string{"", "d/", "d/e f/", "1_d/", "d.csv.d/"}
	for f, want := range files {
		for _, d := range dirs {
			r.Go(fmt.Sprintf("file name %q", d+f), func(t *core.T) {
				t.Nontrivial()
				t.Step(1)
				t.Trace(1)
				s := faultdb.New("")
				defer s.Close()
				for _, tb := range tables {
					s.MustExec("CREATE TABLE " + qid(tb) + " (v TEXT)")
				}
				if err := loadFiles(s, loadOpt{"sqlite", 0}, fstest.MapFS{d + f: {Data: []byte("v\nhere\n")}}, d+f); err != nil {
					t.Fatal("name", "%v", err)
				}
				t.State(cells(s))
				for _, tb := range tables {
					n := len(s.MustQuery("SELECT 1 FROM " + qid(tb)))
					if (n > 0) != (tb == want) {
						t.Fail("name", "table %q has %d rows; the file belongs to %q", tb, n, want)
					}
				}
			})
		}
	}
}

// runC13Faults: a failing database call leaves every file loaded or not loaded.
func runC13Faults(r *core.Runner) {
	for ti, lt := range loadTables {
		for _, batch := range []int{1, 2, 0} {
			for _, mode := range []faultdb.Mode{faultdb.ErrBefore, faultdb.ErrAfter, faultdb.Crash, faultdb.CrashPost} {
				for _, n := range []int{1, 2, 3, 4} {
					r.Go(fmt.Sprintf("fault table=%d batch=%d %s rows=%d", ti, batch, mode, n), func(t *core.T) {
						var rows [][]string
						for i := 0; i < n; i++ {
							rows = append(rows, []string{fmt.Sprint(i + 2), fmt.Sprint("v", i), "w"})
						}
						files := fstest.MapFS{lt.name + ".csv": {Data: []byte(csvText(lt.cols, rows))}, "other.csv": {Data: []byte("a\n9\n10\n")}}
						names := []string{lt.name + ".csv", "other.csv"}
						var states []string
						ref := lt.server(1)
						states = append(states, cells(ref))
						for _, f := range names {
							if err := loadFiles(ref, loadOpt{"sqlite", batch}, files, f); err != nil {
								t.Fatal("refused", "%v", err)
							}
							states = append(states, cells(ref))
						}
						ref.Close()
						for at := 0; ; at++ {
							s := lt.server(1)
							s.Reset()
							var hit *faultdb.Op
							s.Hook = func(op faultdb.Op) faultdb.Mode {
								if op.Seq == at && hit == nil {
									hit = &op
									return mode
								}
								return faultdb.OK
							}
							t.Step(1)
							db := s.DB()
							db.SetMaxOpenConns(1)
							cmd := &ddl.LoadCmd{DB: db, Dialect: "sqlite", DirFS: files, Filenames: names, Stderr: io.Discard, Batchsize: batch}
							err := cmd.Run()
							if hit == nil {
								s.Close()
								break
							}
							t.Nontrivial()
							t.Trace(1)
							s.Reset()
							got := cells(s)
							t.State(got)
							k := -1
							for i, st := range states {
								if st == got {
									k = i
								}
							}
							where := fmt.Sprintf("%s at %s", mode, hit)
							switch {
							case k < 0:
								t.Fail("partial", "%s: a file is partly loaded (error %v):\n%s", where, err, diffLines(states[0], got))
							case err == nil && k < len(states)-1:
								t.Fail("hidden", "%s: success reported, but %d of %d files are loaded", where, k, len(names))
							case err == nil && hit.Kind != "rollback" && hit.Kind != "connect" && !strings.Contains(hit.SQL, "PRAGMA") && (hit.Kind == "exec" || hit.Kind == "commit" || hit.Kind == "begin"):
								t.Fail("hidden", "%s: success reported", where)
							}
							if mode == faultdb.ErrBefore && !strings.Contains(hit.SQL, "PRAGMA") && hit.Kind != "connect" {
								var fk int
								if e := db.QueryRow("PRAGMA foreign_keys").Scan(&fk); e == nil && fk != 1 {
									t.Fail("session", "%s: foreign keys stay off on the connection", where)
								}
							}
							s.Close()
						}
					})
				}
			}
		}
	}
}
