package checks

import (
	"context"
	"database/sql/driver"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
	"verifmc/faultdb"
)

var reTypeArgs = regexp.MustCompile(`^([A-Za-z][A-Za-z ]*?)\s*(?:\((\d+|MAX)(?:,\s*(\d+))?\))?\s*([A-Za-z ]*)(\[\])?$`)

// typeOf is how the server of the dialect keeps a column type.
func typeOf(dialect, typ string, next *int64) xType {
	for _, t := range xTypeList(dialect) {
		if canonType(dialect, t.col.ColumnType) == canonType(dialect, typ) {
			return t
		}
	}
	if strings.HasPrefix(typ, "ENUM") {
		return xType{raw: "enum" + typ[4:], size: 3}
	}
	m := reTypeArgs.FindStringSubmatch(typ)
	if m == nil {
		core.Broken("type %q", typ)
	}
	var a, b int64
	fmt.Sscan(m[2], &a)
	fmt.Sscan(m[3], &b)
	name := strings.ToLower(m[1])
	switch dialect {
	case "postgres":
		*next++
		t := xType{oid: *next, mod: -1, raw: strings.ToLower(typ)}
		switch name {
		case "numeric":
			t.oid, t.mod = 1700, (a<<16|b)+4
		case "varchar", "character varying":
			t.oid, t.mod, t.raw = 1043, a+4, fmt.Sprintf("character varying(%d)", a)
		}
		return t
	case "mysql":
		t := xType{raw: strings.ToLower(typ)}
		switch {
		case strings.HasSuffix(name, "char"):
			t.size = a
		case name == "decimal" || strings.HasSuffix(name, "int"):
			t.prec, t.scale = a, b
		}
		return t
	}
	for _, t := range xTypeList(dialect) {
		if t.raw == name {
			switch {
			case strings.HasSuffix(name, "char"):
				t.size = a
			case name == "numeric":
				t.prec, t.scale = a, b
			}
			return t
		}
	}
	core.Broken("type %q", typ)
	return xType{}
}

// served rewrites a schema to what a server makes of it, and gives the content of its
// system catalog.
func served(src *mDB) (*mDB, *xWorld) {
	db := src.clone()
	db.coll = dbCollation
	w := &xWorld{dialect: db.dialect, version: xVersions[db.dialect][0]}
	next := int64(9000)
	used := map[string]bool{db.cur: true}
	for _, t := range db.tables {
		used[t.schema] = true
	}
	var schemas []string
	for _, s := range append([]string{db.cur}, db.schemas...) {
		if used[s] && !has(schemas, s) {
			schemas = append(schemas, s)
			w.schemas = append(w.schemas, xSchema{name: s})
		}
	}
	db.schemas = schemas
	for _, t := range db.tables {
		x := xTable{name: t.name}
		for _, c := range t.cols {
			if c.typ == "BOOLEAN" && db.dialect == "mysql" {
				c.typ = "TINYINT(1)"
			}
			typ := typeOf(db.dialect, c.typ, &next)
			col := xCol{Column: ddl.Column{ColumnName: c.name, IsNotNull: c.notnull, ColumnIdentity: c.ident}, typ: typ, seed: 1, step: 1}
			c.coll = strings.TrimSuffix(c.coll, ".utf8")
			col.CollationName = c.coll
			if c.coll == "" && (typ.oid == 1043 || typ.raw == "text") {
				col.CollationName = "default"
			}
			if c.auto {
				col.extra = "auto_increment"
			}
			if c.def != "" {
				quoted := strings.HasPrefix(c.def, "'")
				switch {
				case db.dialect == "mysql" && quoted:
					col.rawDefault = strings.ReplaceAll(c.def[1:len(c.def)-1], "''", "'")
				case db.dialect == "mysql" && strings.HasPrefix(c.def, "("):
					col.rawDefault, col.extra = c.def, "DEFAULT_GENERATED"
					if c.def == "(now())" {
						col.rawDefault = "now()"
					}
				case db.dialect == "sqlserver":
					if c.def == "(1 + 1)" {
						c.def = "(1)+(1)"
					}
					if c.def == "CURRENT_TIMESTAMP" {
						c.def = "getdate()"
					}
					col.rawDefault = "(" + c.def + ")"
					if !quoted && len(c.def) == 1 {
						col.rawDefault = "((" + c.def + "))"
					}
				default:
					col.rawDefault = c.def
				}
			}
			if c.gen != "" {
				col.rawGen, col.GeneratedExpr, col.GeneratedExprStored = c.gen, c.gen, c.stored
				switch db.dialect {
				case "mysql":
					col.rawGen = "(" + c.gen + ")"
					col.extra = map[bool]string{false: "VIRTUAL GENERATED", true: "STORED GENERATED"}[c.stored]
				case "sqlserver":
					col.rawGen = "(" + c.gen + ")"
					c.typ, c.notnull, c.coll = "", false, ""
				}
			}
			if c.onupd {
				col.extra = "on update CURRENT_TIMESTAMP"
				if c.def != "" {
					col.extra = "DEFAULT_GENERATED " + col.extra
				}
			}
			x.cols = append(x.cols, col)
		}
		for _, k := range t.cons {
			if k.typ == "CHECK" {
				con := xCons{Constraint: ddl.Constraint{ConstraintName: k.name, ConstraintType: k.typ, CheckExpr: k.expr, IsNotValid: k.notvalid}, raw: "(" + k.expr + ")"}
				if db.dialect == "postgres" {
					con.raw = "CHECK (" + k.expr + ")" + map[bool]string{true: " NOT VALID"}[k.notvalid]
				}
				x.cons = append(x.cons, con)
				continue
			}
			if k.typ == "EXCLUDE" {
				x.cons = append(x.cons, xCons{Constraint: ddl.Constraint{ConstraintName: k.name, ConstraintType: k.typ, Columns: k.cols, ExclusionIndexType: "gist", ExclusionOperators: k.exOps, ExclusionPredicate: k.exWhere,
					IsDeferrable: k.deferrable, IsInitiallyDeferred: k.initdefd}})
				k.expr = " using gist"
				for i, c := range k.cols {
					if t.col(c) != nil {
						c = fmt.Sprintf("%q", c)
					}
					k.expr += " " + c + " with " + k.exOps[i]
				}
				if k.exWhere != "" {
					k.expr += " where " + k.exWhere
				}
				k.cols = nil
				continue
			}
			x.cons = append(x.cons, xCons{Constraint: ddl.Constraint{ConstraintName: k.name, ConstraintType: k.typ, Columns: k.cols, ReferencesSchema: k.rschema, ReferencesTable: k.rtable, ReferencesColumns: k.rcols,
				UpdateRule: k.upd, DeleteRule: k.del, IsDeferrable: k.deferrable, IsInitiallyDeferred: k.initdefd, IsNotValid: k.notvalid, IsClustered: k.typ == "PRIMARY KEY"}})
		}
		for _, k := range t.idxs {
			where := ""
			if k.where != "" {
				k.where = map[string]string{"postgres": "(a > 0)", "sqlserver": "(a > (0))"}[db.dialect]
				where = map[string]string{"postgres": "(a > 0)", "sqlserver": "([a]>(0))"}[db.dialect]
			}
			i := ddl.Index{IndexName: k.name, IsUnique: k.unique, IncludeColumns: k.include, Predicate: where, IndexType: map[string]string{"postgres": "btree", "mysql": "BTREE", "sqlserver": "NONCLUSTERED"}[db.dialect]}
			if k.using != "" {
				i.IndexType = strings.ToLower(k.using)
			}
			var text, include []string
			for _, c := range k.cols {
				bare := strings.TrimPrefix(c, "-")
				i.Columns = append(i.Columns, bare)
				i.Descending = append(i.Descending, bare != c)
				text = append(text, pgQuoteIdent(bare)+map[bool]string{true: " DESC"}[bare != c])
			}
			for _, c := range k.include {
				include = append(include, pgQuoteIdent(c))
			}
			if db.dialect == "postgres" {
				i.SQL = "CREATE " + map[bool]string{true: "UNIQUE "}[k.unique] + "INDEX " + pgQuoteIdent(k.name) + " ON " + pgQuoteIdent(t.schema) + "." + pgQuoteIdent(t.name) + " USING " + i.IndexType + " (" + strings.Join(text, ", ") + ")"
				if include != nil {
					i.SQL += " INCLUDE (" + strings.Join(include, ", ") + ")"
				}
				if k.where != "" {
					i.SQL += " WHERE " + where
				}
			}
			x.idx = append(x.idx, i)
		}
		for i := range w.schemas {
			if w.schemas[i].name == t.schema {
				w.schemas[i].tables = append(w.schemas[i].tables, x)
			}
		}
	}
	return db, w
}

// ddlServer answers catalog queries from a system catalog, and executes other
// statements on the DDL model.
type ddlServer struct {
	*faultdb.Server
	mu      sync.Mutex
	cat     *sysCat
	db      *mDB
	unknown string
	n       int
}

var reDDLHead = regexp.MustCompile(`(?i)\b(CREATE|ALTER)\s`)

func (s *ddlServer) answer(conn int, query string, args []driver.NamedValue) (string, []driver.NamedValue, *faultdb.Answer) {
	s.mu.Lock()
	defer s.mu.Unlock()
	reply := func(a faultdb.Answer) (string, []driver.NamedValue, *faultdb.Answer) { return "", nil, &a }
	if regexp.MustCompile(`(?i)^\s*SET\s`).MatchString(query) {
		return reply(faultdb.Answer{})
	}
	if reFKGet.MatchString(query) {
		return reply(faultdb.Answer{Cols: []string{"v"}, Rows: [][]driver.Value{{int64(1)}}})
	}
	if s.db != nil && (strings.TrimSpace(query) == "" || strings.HasPrefix(query, "--") || reDDLHead.MatchString(query)) {
		toks, err := lexSQL(s.db.dialect, query)
		if err != nil {
			return reply(faultdb.Answer{Err: err})
		}
		vars := map[string]bool{}
		for _, st := range splitStatements(toks) {
			next, err := s.db.runStatement(st, false, vars)
			if err != nil {
				return reply(faultdb.Answer{Err: err})
			}
			s.db = next
			s.n++
		}
		return reply(faultdb.Answer{})
	}
	if s.cat == nil {
		s.unknown = query
		return reply(faultdb.Answer{Err: fmt.Errorf("not understood: %s", query)})
	}
	rows, err := s.cat.QueryContext(context.Background(), query)
	if err != nil {
		if untranslatable(err) {
			s.unknown = err.Error() + " in " + query
		}
		return reply(faultdb.Answer{Err: err})
	}
	defer rows.Close()
	a := faultdb.Answer{}
	a.Cols, _ = rows.Columns()
	for rows.Next() {
		vals, ptrs, out := make([]any, len(a.Cols)), make([]any, len(a.Cols)), make([]driver.Value, len(a.Cols))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		if err := rows.Scan(ptrs...); err != nil {
			return reply(faultdb.Answer{Err: err})
		}
		for i := range vals {
			out[i] = vals[i]
		}
		a.Rows = append(a.Rows, out)
	}
	a.Err = rows.Err()
	return reply(a)
}

// exprKey is an expression without blanks, quotes of identifiers and brackets around it.
func exprKey(dialect, s string) string {
	toks, err := lexSQL(dialect, unwrapped(s))
	if err != nil {
		return "?" + s
	}
	var parts []string
	for _, t := range toks {
		if t.kind == tString {
			t.text = "'" + t.text + "'"
		}
		parts = append(parts, t.text)
	}
	return strings.Join(parts, " ")
}

// plainFacts is the facts with defaults and predicates without brackets around them.
func plainFacts(db *mDB) []string {
	out := db.clone()
	for _, t := range out.tables {
		for _, c := range t.cols {
			c.def = unwrapped(c.def)
			c.gen = exprKey(db.dialect, c.gen)
		}
		for _, c := range t.cons {
			if c.typ == "CHECK" {
				c.expr = exprKey(db.dialect, c.expr)
			}
		}
		for _, x := range t.idxs {
			x.where = unwrapped(x.where)
		}
	}
	return out.facts()
}

// schemaTrip dumps the schema of a database and loads it into an empty one.
func schemaTrip(t *core.T, src *mDB, format string) {
	want, w := served(src)
	cat := w.load()
	defer cat.close()
	dir := scratchDir()
	defer os.RemoveAll(dir)
	from := &ddlServer{Server: faultdb.New(""), cat: cat}
	from.Server.Translate = from.answer
	defer from.Close()
	cmd := &ddl.DumpCmd{DB: from.DB(), Dialect: src.dialect, OutputDir: dir, Stderr: io.Discard, SchemaOnly: true}
	var names []string
	switch format {
	case "zip":
		cmd.Zip, names = "d.zip", []string{"d.zip"}
	case "tgz":
		cmd.Tgz, names = "d.tgz", []string{"d.tgz"}
	default:
		names = []string{"."}
	}
	err := cmd.Run()
	t.Step(1)
	if from.unknown != "" {
		t.Logf("not judged: %s", from.unknown)
		t.Outcome("dump query not understood")
		return
	}
	if err != nil {
		t.Fatal("dump", "dump fails: %v", err)
	}
	empty := &mDB{dialect: want.dialect, cur: want.cur, coll: want.coll, version: want.version, schemas: []string{want.cur}}
	to := &ddlServer{Server: faultdb.New(""), db: empty}
	to.Server.Translate = to.answer
	defer to.Close()
	text := ""
	for _, n := range []string{"schema.sql", "indexes.sql", "constraints.sql"} {
		b, _ := os.ReadFile(filepath.Join(dir, n))
		text += "-- " + n + "\n" + string(b)
	}
	err = (&ddl.LoadCmd{DB: to.DB(), Dialect: src.dialect, DirFS: os.DirFS(dir), Filenames: names, Stderr: io.Discard}).Run()
	t.Step(1)
	if to.unknown != "" {
		t.Logf("not judged: %s", to.unknown)
		t.Outcome("load statement not understood")
		return
	}
	t.State(want.facts()...)
	if err != nil {
		t.Fatal("refused", "load fails: %v\n%s\nof:\n%s", err, text, strings.Join(want.facts(), "\n"))
	}
	t.Trace(1)
	if to.n > 0 {
		t.Nontrivial()
	}
	if d := factDiff(plainFacts(to.db), plainFacts(want)); d != "" {
		t.Fatal("schema", "the loaded schema differs:\n%s\n%s", d, text)
	}
}

// columnText is a column in an expression, as the server writes it.
func (w *world7) columnText(name string) string {
	name = w.n(name)
	switch w.dialect {
	case "mysql":
		return "`" + strings.ReplaceAll(name, "`", "``") + "`"
	case "sqlserver":
		return "[" + strings.ReplaceAll(name, "]", "]]") + "]"
	}
	return pgQuoteIdent(name)
}

// exprs11 is expressions over the column a.
func (w *world7) exprs11(op string) []string {
	a := w.columnText("a")
	return []string{
		a + " " + op + " 0",
		"(" + a + " " + op + " 0) = (" + a + " " + op + " 1)",
		"coalesce(" + a + ", 0) " + op + " 1",
		a + " " + op + " length(')(')",
	}
}

// generated11 is tables with a generated column, or one that follows the time of an update.
func generated11(w *world7, schema string) []*mDB {
	var out []*mDB
	_, char := w.types()
	add := func(c *mCol) {
		out = append(out, w.db([]string{w.cur, schema}, w.tbl(schema, "t", icol("a", true), c, icol("d", false), pkeyOf("t_a_pkey", "a"))))
	}
	for _, expr := range w.exprs11("+") {
		for _, typ := range []string{"INT", char[0]} {
			for _, stored := range []bool{true, false} {
				for _, nn := range []bool{false, true} {
					if !stored && w.dialect == "postgres" {
						continue
					}
					add(&mCol{name: "g", typ: typ, gen: expr, stored: stored, notnull: nn})
				}
			}
		}
	}
	if w.dialect == "mysql" {
		for _, nn := range []bool{false, true} {
			for _, def := range []string{"", "CURRENT_TIMESTAMP"} {
				add(&mCol{name: "g", typ: "TIMESTAMP", onupd: true, notnull: nn, def: def})
			}
		}
	}
	return out
}

// checks11 is tables with check constraints and foreign keys, some of which are not enforced
// for the rows that were there before them.
func checks11(w *world7, schema string) []*mDB {
	var out []*mDB
	exprs := append(w.exprs11(">"), "("+w.columnText("a")+" > 0) OR ("+w.columnText("b")+" > 0)")
	for i, expr := range exprs {
		for mode := 0; mode < 8; mode++ {
			if w.dialect == "mysql" && mode%4 > 0 {
				continue
			}
			first := &mCon{name: "t_a_check", typ: "CHECK", expr: expr, notvalid: mode&1 > 0}
			fk := fkOf("t_b_fkey", "b", w.cur, "p", "id")
			fk.notvalid = mode&2 > 0
			var second *mCon
			if mode&4 > 0 {
				second = &mCon{name: "t_b_check", typ: "CHECK", expr: exprs[(i+1)%len(exprs)]}
			}
			out = append(out, w.db([]string{w.cur, schema},
				w.tbl(w.cur, "p", icol("id", true), pkeyOf("p_id_pkey", "id")),
				w.tbl(schema, "t", icol("a", true), icol("b", false), first, second, ixOf("t_b_idx", "b"), fk)))
		}
	}
	return out
}

// exclude11 is tables with an exclusion constraint.
func exclude11(w *world7, schema string) []*mDB {
	var out []*mDB
	a := w.columnText("a")
	for _, where := range []string{"", a + " IS NOT NULL"} {
		for mode := 0; mode < 3; mode++ {
			for _, els := range [][]string{{"a"}, {"b", "a"}, {"b", "!lower(" + a + ")"}, {"!(" + a + " + 1)", "a"}} {
				c := &mCon{name: "t_excl", typ: "EXCLUDE", exWhere: where, deferrable: mode > 0, initdefd: mode > 1}
				t := w.tbl(schema, "t", icol("a", true), icol("b", false), c)
				for i, e := range els {
					if strings.HasPrefix(e, "!") {
						e = e[1:]
					} else {
						e = w.n(e)
					}
					t.cons[0].cols = append(t.cons[0].cols, e)
					t.cons[0].exOps = append(t.cons[0].exOps, []string{"&&", "="}[i])
				}
				out = append(out, w.db([]string{w.cur, schema}, t))
			}
		}
	}
	return out
}

// runDumpServers dumps and loads the schemas of Postgres, MySQL and SQL Server databases.
func runDumpServers(r *core.Runner) {
	formats := []string{"dir", "zip", "tgz"}
	n := 0
	run := func(key string, states []*mDB) {
		for i, src := range states {
			if r.Stop() {
				return
			}
			n++
			format := formats[n%len(formats)]
			r.Count("cases in family server schema", 1)
			r.Go(fmt.Sprintf("server %s %d", key, i), func(t *core.T) { schemaTrip(t, src, format) })
		}
	}
	styles := []string{"plain", "upper", "quotes", "words"}
	for _, style := range styles {
		for _, w := range worlds7(nameStyles7()[style]) {
			w.cur = xSchemas[w.dialect]
			for _, other := range []string{"s1", "S'1 ]x", "a"} {
				w.other = other
				key := fmt.Sprintf("%s %s %s", w.dialect, style, strings.ReplaceAll(other, " ", "_"))
				edges := 1
				if style == "plain" && other == "s1" {
					edges = 2
				}
				if style == "plain" || other != "a" {
					run(key+" graph", graphs7(w, edges))
				}
				if other != "s1" {
					continue
				}
				run(key+" keys", keys7(w, w.cur, r.Thorough()))
				run(key+" keys-elsewhere", keys7(w, w.other, false))
				for kind := 0; kind < 5; kind++ {
					run(fmt.Sprintf("%s shared%d", key, kind), shared7(w, kind))
				}
				if w.dialect == "postgres" {
					run(key+" deferrable", deferrable7(w))
				}
				for _, schema := range []string{w.cur, w.other} {
					run(key+" generated "+schema, generated11(w, schema))
					run(key+" checks "+schema, checks11(w, schema))
					if w.dialect == "postgres" {
						run(key+" exclude "+schema, exclude11(w, schema))
					}
				}
				for _, cc := range columnContexts() {
					var states []*mDB
					for _, c := range w.columnVariants() {
						keyed := cc.name != "alone" && cc.name != "other"
						if keyed && (strings.Contains(c.typ, "[]") || w.dialect == "mysql" && strings.HasPrefix(c.typ, "TEXT")) {
							continue
						}
						states = append(states, cc.make(w, c))
					}
					run(key+" column "+cc.name, states)
				}
			}
		}
	}
}
