package checks

import (
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
)

func init() {
	core.Register(&core.Check{Prop: "C07", Level: "model_checking", Run: runC07,
		Rule: "one evaluation = one ordered pair of schemas in one dialect and drop mode; a state is a schema of the DDL model, a transition one statement executed on it, a trace one generated set of files executed in file name order and compared with the destination",
		Assumptions: []string{
			"no Postgres, MySQL or SQL Server is available: their DDL is executed by a model written from the manuals (ddlmodel.go); MySQL is 8.0.19 or later",
			"whether stored values can be cast to a new type is not judged, nor are other changes of an identity than adding or removing it",
			"constraints and indexes of the same name have the same definition in both schemas, except for deferrability in Postgres and primary keys in MySQL",
			"foreign keys in both schemas are backed by a key that is in both schemas",
			"without drop-objects the union of both schemas is a valid schema",
			"no generated columns, checks, views or routines",
		}})
}

// world7 names what the schemas of one dialect are made of.
type world7 struct {
	dialect, cur, other, coll string
	n                         func(string) string // how objects are named
	version                   []int
}

func (w *world7) db(schemas []string, tables ...*mTable) *mDB {
	return &mDB{dialect: w.dialect, cur: w.cur, coll: w.coll, version: w.version, schemas: schemas, tables: tables}
}

func (w *world7) tbl(schema, name string, items ...any) *mTable {
	t := &mTable{schema: schema, name: w.n(name)}
	for _, it := range items {
		switch it := it.(type) {
		case *mCol:
			c := *it
			c.name = w.n(c.name)
			t.cols = append(t.cols, &c)
		case *mCon:
			if it == nil {
				continue
			}
			c := *it
			c.name = w.n(c.name)
			if c.typ == "PRIMARY KEY" && w.dialect == "mysql" {
				c.name = "PRIMARY"
			}
			c.cols = w.ns(it.cols)
			if c.rtable != "" {
				c.rtable, c.rcols = w.n(c.rtable), w.ns(it.rcols)
			}
			t.cons = append(t.cons, &c)
		case *mIdx:
			if it == nil {
				continue
			}
			x := *it
			x.name = w.n(x.name)
			x.cols, x.include = w.ns(it.cols), w.ns(it.include)
			t.idxs = append(t.idxs, &x)
		}
	}
	if pk := t.pkey(); pk != nil {
		for _, c := range t.cols {
			if has(pk.cols, c.name) {
				c.notnull = true
			}
		}
	}
	return t
}

func (w *world7) ns(names []string) []string {
	var out []string
	for _, n := range names {
		if strings.HasPrefix(n, "-") {
			out = append(out, "-"+w.n(n[1:]))
		} else {
			out = append(out, w.n(n))
		}
	}
	return out
}

func icol(name string, nn bool) *mCol { return &mCol{name: name, typ: "INT", notnull: nn} }
func pkeyOf(name string, cols ...string) *mCon {
	return &mCon{name: name, typ: "PRIMARY KEY", cols: cols}
}
func uqOf(name string, cols ...string) *mCon { return &mCon{name: name, typ: "UNIQUE", cols: cols} }
func ixOf(name string, cols ...string) *mIdx { return &mIdx{name: name, cols: cols} }
func fkOf(name, col, rschema, rtable, rcol string) *mCon {
	return &mCon{name: name, typ: "FOREIGN KEY", cols: []string{col}, rschema: rschema, rtable: rtable, rcols: []string{rcol}}
}

func worlds7(name func(string) string) []*world7 {
	if name == nil {
		name = func(s string) string { return s }
	}
	return []*world7{
		{dialect: "postgres", cur: "public", other: "s1", coll: "en_US.utf8", n: name, version: []int{14, 2}},
		{dialect: "mysql", cur: "db", other: "s1", coll: "utf8mb4_0900_ai_ci", n: name, version: []int{8, 0, 29}},
		{dialect: "sqlserver", cur: "dbo", other: "s1", coll: "SQL_Latin1_General_CP1_CI_AS", n: name, version: []int{16}},
	}
}

// genFiles runs the generator.
func genFiles(t *core.T, src, dest *mDB, drop bool) (names []string, text map[string]string, warnings []string) {
	// Structs need not say that identity columns are NOT NULL, databases do.
	src = src.clone()
	for _, st := range src.tables {
		for _, c := range st.cols {
			c.loose = false
		}
	}
	cmd := &ddl.GenerateCmd{Dialect: src.dialect, SrcCatalog: src.catalog(), DestCatalog: dest.catalog(), Prefix: "p", DropObjects: drop}
	files, warnings, err := cmd.Results()
	if err != nil {
		t.Fatal("generate", "generate fails: %v", err)
	}
	text = map[string]string{}
	for _, f := range files {
		info, err := f.Stat()
		if err != nil {
			core.Broken("stat: %v", err)
		}
		b, err := io.ReadAll(f)
		if err != nil {
			core.Broken("read: %v", err)
		}
		if _, dup := text[info.Name()]; dup {
			t.Fail("same-file", "two files named %q", info.Name())
		}
		names = append(names, info.Name())
		text[info.Name()] = string(b)
	}
	sort.Strings(names)
	return names, text, warnings
}

func showFiles(names []string, text map[string]string) string {
	var b strings.Builder
	for _, n := range names {
		b.WriteString("-- " + n + "\n" + text[n])
	}
	return b.String()
}

// decide7 generates the migration from src to dest, executes it on the model and
// compares.
func decide7(t *core.T, src, dest *mDB, drop bool) {
	want := dest
	if !drop {
		want = union7(src, dest)
	}
	decideTo7(t, src, dest, want, drop)
}

func decideTo7(t *core.T, src, dest, want *mDB, drop bool) {
	names, text, _ := genFiles(t, src, dest, drop)
	sf, df := src.facts(), dest.facts()
	t.State(sf...)
	t.State(df...)
	same := strings.Join(sf, "\n") == strings.Join(want.facts(), "\n")
	if same && len(names) > 0 {
		t.Fatal("not-empty", "the schemas are the same but files are generated:\n%s", showFiles(names, text))
	}
	db := src
	undo := map[string]bool{}
	for _, name := range names {
		if strings.HasSuffix(name, ".undo.sql") {
			undo[strings.TrimSuffix(name, ".undo.sql")] = true
		}
	}
	nstmt := 0
	for _, name := range names {
		if strings.HasSuffix(name, ".undo.sql") {
			continue
		}
		toks, err := lexSQL(src.dialect, text[name])
		if err != nil {
			t.Fatal("text", "%s: %v\n%s", name, err, text[name])
		}
		txoff := strings.HasSuffix(name, ".txoff.sql")
		base := strings.TrimSuffix(strings.TrimSuffix(strings.TrimSuffix(name, ".sql"), ".txoff"), ".tx")
		before := db
		vars := map[string]bool{}
		stmts := splitStatements(toks)
		if txoff && len(stmts) != 1 {
			t.Fail("txoff", "%s: %d statements in a file that runs outside a transaction", name, len(stmts))
		}
		if txoff && !undo[base] {
			t.Fail("no-undo", "%s has no undo script", name)
		}
		for i, st := range stmts {
			next, err := db.runStatement(st, txoff, vars)
			if err != nil {
				sig := "refused"
				if strings.HasPrefix(err.Error(), "ambiguous") {
					sig = "ambiguous"
				}
				if strings.HasPrefix(err.Error(), "cannot change column") {
					sig = "fk-column"
				}
				if strings.Contains(err.Error(), "is needed by foreign key") {
					sig = "needed-key"
				}
				t.Fatal(sig, "%s, statement %d: %v\n%s\nfrom:\n%s\nto:\n%s", name, i+1, err, showFiles(names, text), strings.Join(sf, "\n"), strings.Join(df, "\n"))
			}
			db = next
			nstmt++
			t.State(db.facts()...)
			if undo[base] {
				undo7(t, before, db, base+".undo.sql", text[base+".undo.sql"])
			}
		}
		if undo[base] {
			undo7(t, before, before, base+".undo.sql", text[base+".undo.sql"])
			delete(undo, base)
		}
	}
	for base := range undo {
		t.Fail("stray-undo", "%s.undo.sql belongs to no file", base)
	}
	t.Step(nstmt)
	t.Trace(1)
	if nstmt > 0 {
		t.Nontrivial()
	}
	if d := factDiff(db.facts(), want.facts()); d != "" {
		lost := want.clone()
		for _, dt := range lost.tables {
			st := src.table(dt.schema, dt.name)
			if db.dialect != "sqlserver" || st == nil {
				continue
			}
			for _, c := range dt.cols {
				if o := st.col(c.name); o != nil && !o.notnull && c.notnull && (o.typ != c.typ || c.coll != "" || o.coll != "") {
					c.notnull = false
				}
			}
		}
		if factDiff(db.facts(), lost.facts()) == "" {
			t.Fatal("lost-not-null", "a column that changes otherwise as well does not become NOT NULL:\n%s", d)
		}
		t.Fatal("end", "the files do not end in the destination:\n%s\n%s\nfrom:\n%s", d, showFiles(names, text), strings.Join(sf, "\n"))
	}
	if nstmt > 0 && drop {
		names, text, _ := genFiles(t, db, dest, drop)
		if len(names) > 0 {
			t.Fatal("not-at-rest", "generating again gives\n%s", showFiles(names, text))
		}
	}
	if nstmt > 3 {
		t.Sample(map[string]any{"from": sf, "files": names})
	}
}

// undo7 checks that the undo script, run after part of a file, removes what the file made
// and nothing else.
func undo7(t *core.T, before, after *mDB, name, text string) {
	toks, err := lexSQL(before.dialect, text)
	if err != nil {
		t.Fatal("text", "%s: %v\n%s", name, err, text)
	}
	db := after
	for _, st := range splitStatements(toks) {
		next, err := db.runStatement(st, false, map[string]bool{})
		if err != nil {
			t.Fatal("undo-refused", "%s: %v\n%s", name, err, text)
		}
		db = next
		t.Step(1)
	}
	was := map[string]bool{}
	for _, f := range before.facts() {
		was[f] = true
	}
	left := map[string]bool{}
	for _, f := range db.facts() {
		left[f] = true
		if !was[f] {
			t.Fail("undo-leaves", "%s leaves %s", name, f)
		}
	}
	for _, f := range after.facts() {
		if was[f] && !left[f] {
			t.Fail("undo-removes", "%s removes %s", name, f)
		}
	}
}

// union7 is what a migration without drop-objects ends in: the destination plus what only
// the source has.
func union7(src, dest *mDB) *mDB {
	u := dest.clone()
	for _, s := range src.schemas {
		if !has(u.schemas, s) {
			u.schemas = append(u.schemas, s)
		}
	}
	for _, t := range src.clone().tables {
		d := u.table(t.schema, t.name)
		if d == nil {
			u.tables = append(u.tables, t)
			continue
		}
		for _, c := range t.cols {
			if d.col(c.name) == nil {
				d.cols = append(d.cols, c)
			}
		}
		for _, k := range t.cons {
			if d.con(k.name) == nil && !(k.typ == "PRIMARY KEY" && d.pkey() != nil) {
				d.cons = append(d.cons, k)
			}
		}
		for _, x := range t.idxs {
			if d.idx(x.name) == nil {
				d.idxs = append(d.idxs, x)
			}
		}
	}
	return u
}

// valid7 reports whether a schema can exist.
func valid7(db *mDB) bool {
	for _, t := range db.tables {
		if pk := t.pkey(); pk != nil {
			for _, c := range pk.cols {
				if t.col(c) == nil || !t.col(c).notnull {
					return false
				}
			}
		}
		for _, k := range t.cons {
			if k.typ != "FOREIGN KEY" {
				continue
			}
			r := db.table(k.rschema, k.rtable)
			if r == nil || !db.backed(r, k.rcols) {
				return false
			}
			for i, c := range k.cols {
				if r.col(k.rcols[i]) == nil || canonType(db.dialect, r.col(k.rcols[i]).typ) != canonType(db.dialect, t.col(c).typ) {
					return false
				}
			}
		}
		autos := 0
		for _, c := range t.cols {
			if c.auto {
				autos++
				if !db.backed(t, []string{c.name}) {
					return false
				}
			}
		}
		if autos > 1 {
			return false
		}
	}
	return true
}

// pairs7 decides every ordered pair of the states.
func pairs7(r *core.Runner, key string, states []*mDB, dests []*mDB) {
	if dests == nil {
		dests = states
	}
	for i, src := range states {
		for j, dest := range dests {
			for _, drop := range []bool{true, false} {
				if r.Stop() {
					return
				}
				if !drop && !valid7(union7(src, dest)) {
					continue
				}
				r.Go(fmt.Sprintf("%s drop=%v %d>%d", key, drop, i, j), func(t *core.T) { decide7(t, src, dest, drop) })
			}
		}
	}
}

// ---- P1: one column

func (w *world7) types() (plain, char []string) {
	switch w.dialect {
	case "postgres":
		return []string{"BIGINT", "NUMERIC(5,2)", "INT[]", "VARCHAR(10)[]", "TIMESTAMP(3)", "TIMESTAMP(3) WITH TIME ZONE"}, []string{"VARCHAR(10)", "VARCHAR(20)", "TEXT"}
	case "mysql":
		return []string{"BIGINT", "DECIMAL(5,2)", "INT UNSIGNED", "DECIMAL(5,2) UNSIGNED", "INT(11) UNSIGNED", "BOOLEAN", "DATETIME(6)"}, []string{"VARCHAR(10)", "VARCHAR(300)", "ENUM('a','b')"}
	}
	return []string{"BIGINT", "NUMERIC(5,2)", "DATETIMEOFFSET", "UNIQUEIDENTIFIER"}, []string{"VARCHAR(10)", "VARCHAR(20)", "NVARCHAR(10)"}
}

func (w *world7) collations() []string {
	switch w.dialect {
	case "postgres":
		return []string{"", "C", "de_DE.utf8"}
	case "mysql":
		return []string{"", "utf8mb4_bin"}
	}
	return []string{"", "Latin1_General_100_BIN2_UTF8"}
}

func (w *world7) columnVariants() []*mCol {
	var out []*mCol
	add := func(c mCol) {
		c.name = "c"
		out = append(out, &c)
	}
	now := "CURRENT_TIMESTAMP"
	if w.dialect == "mysql" {
		now = "(now())"
	}
	plain, char := w.types()
	for _, nn := range []bool{false, true} {
		for _, def := range []string{"", "1", "2", "(1 + 1)"} {
			add(mCol{typ: "INT", notnull: nn, def: def})
		}
		for _, typ := range plain {
			add(mCol{typ: typ, notnull: nn})
		}
		add(mCol{typ: plain[0], notnull: nn, def: "2"})
		for _, typ := range char {
			for _, coll := range w.collations() {
				add(mCol{typ: typ, notnull: nn, coll: coll})
			}
		}
		for _, def := range []string{"'x'", "'it''s -- ; a'", now} {
			add(mCol{typ: char[0], notnull: nn, def: def})
		}
		add(mCol{typ: char[0], notnull: nn, def: "'x'", coll: w.collations()[1]})
	}
	switch w.dialect {
	case "postgres":
		add(mCol{typ: "INT", notnull: true, ident: ddl.DEFAULT_IDENTITY})
		add(mCol{typ: "INT", notnull: true, loose: true, ident: ddl.DEFAULT_IDENTITY})
		add(mCol{typ: "BIGINT", notnull: true, ident: ddl.ALWAYS_IDENTITY})
		add(mCol{typ: "INTEGER"})
		add(mCol{typ: "CHARACTER VARYING(10)", def: "'x'::character varying"})
		add(mCol{typ: "timestamp (3) with time zone"})
		add(mCol{typ: "VARCHAR(10)", def: "'a::b'"})
		add(mCol{typ: "VARCHAR(10)", def: "'a::c'"})
	case "mysql":
		add(mCol{typ: "INTEGER"})
		add(mCol{typ: "TINYINT(1)"})
		add(mCol{typ: "ENUM('A','b')"})
		add(mCol{typ: "ENUM('a','b','c')"})
	case "sqlserver":
		add(mCol{typ: "INTEGER"})
	}
	return out
}

// columnContext puts the column c into a schema.
type columnContext struct {
	name string
	make func(w *world7, c *mCol) *mDB
}

func columnContexts() []columnContext {
	one := func(items ...any) func(w *world7, c *mCol) *mDB {
		return func(w *world7, c *mCol) *mDB {
			return w.db([]string{w.cur}, w.tbl(w.cur, "t", append([]any{icol("a", true), c}, items...)...))
		}
	}
	return []columnContext{
		{"alone", one()},
		{"index", one(ixOf("t_c_idx", "c"))},
		{"index2", one(ixOf("t_a_c_idx", "a", "-c"))},
		{"include", func(w *world7, c *mCol) *mDB {
			x := ixOf("t_a_idx", "a")
			if w.dialect != "mysql" {
				x.include = []string{"c"}
			}
			return one(x)(w, c)
		}},
		{"unique", one(uqOf("t_c_key", "c"))},
		{"pk", one(pkeyOf("t_c_pkey", "c"))},
		{"pk2", one(pkeyOf("t_a_c_pkey", "a", "c"), ixOf("t_c_idx", "c"))},
		{"other", func(w *world7, c *mCol) *mDB {
			return w.db([]string{w.cur, w.other}, w.tbl(w.other, "t", icol("a", true), c, uqOf("t_c_key", "c")))
		}},
		{"child", func(w *world7, c *mCol) *mDB {
			return w.db([]string{w.cur},
				w.tbl(w.cur, "p", &mCol{name: "k", typ: c.typ, coll: c.coll, notnull: true}, pkeyOf("p_k_pkey", "k")),
				w.tbl(w.cur, "t", icol("a", true), c, fkOf("t_c_fkey", "c", w.cur, "p", "k"), ixOf("t_c_idx", "c")))
		}},
		{"parent", func(w *world7, c *mCol) *mDB {
			return w.db([]string{w.cur},
				w.tbl(w.cur, "q", &mCol{name: "k", typ: c.typ, coll: c.coll}, ixOf("q_k_idx", "k"), fkOf("q_k_fkey", "k", w.cur, "t", "c")),
				w.tbl(w.cur, "t", icol("a", true), c, uqOf("t_c_key", "c")))
		}},
		{"self", func(w *world7, c *mCol) *mDB {
			return w.db([]string{w.cur},
				w.tbl(w.cur, "t", icol("a", true), c, &mCol{name: "d", typ: c.typ, coll: c.coll}, uqOf("t_c_key", "c"), ixOf("t_d_idx", "d"), fkOf("t_d_fkey", "d", w.cur, "t", "c")))
		}},
	}
}

func columns7(r *core.Runner) {
	for _, w := range worlds7(nil) {
		versions := [][]int{w.version}
		if w.dialect == "postgres" {
			versions = append(versions, []int{10, 23}, []int{11, 18}, []int{12, 13}, []int{13, 9})
		}
		for vi, v := range versions {
			w.version = v
			for _, cc := range columnContexts() {
				if vi > 0 && cc.name != "alone" && cc.name != "pk" && !r.Thorough() {
					continue
				}
				var states []*mDB
				for _, c := range w.columnVariants() {
					keyed := cc.name != "alone" && cc.name != "other"
					if keyed && (strings.Contains(c.typ, "[]") || w.dialect == "mysql" && strings.HasPrefix(c.typ, "TEXT")) {
						continue
					}
					states = append(states, cc.make(w, c))
				}
				pairs7(r, fmt.Sprintf("column %s %v %s", w.dialect, v, cc.name), states, nil)
			}
		}
	}
}

// identity7 is SQL Server's columns that are identity columns before and after.
func identity7(r *core.Runner) {
	for _, w := range worlds7(nil) {
		if w.dialect != "sqlserver" {
			continue
		}
		for _, cc := range columnContexts() {
			var states []*mDB
			for _, typ := range []string{"INT", "BIGINT"} {
				for _, loose := range []bool{false, true} {
					states = append(states, cc.make(w, &mCol{name: "c", typ: typ, notnull: true, ident: ddl.IDENTITY, loose: loose}))
				}
			}
			pairs7(r, "column sqlserver identity "+cc.name, states, nil)
		}
	}
}

// shifted7 has columns with defaults whose namesakes in another table are at other
// positions.
func shifted7(r *core.Runner) {
	for _, w := range worlds7(nil) {
		var states []*mDB
		for _, d := range []string{"", "1", "2"} {
			for _, c := range []string{"", "1", "2"} {
				dc, cc := icol("d", false), icol("c", false)
				dc.def, cc.def = d, c
				states = append(states, w.db([]string{w.cur}, w.tbl(w.cur, "t", icol("a", true), dc, cc), w.tbl(w.cur, "u", icol("a", true), icol("c", false))))
			}
		}
		pairs7(r, "shifted "+w.dialect, states, nil)
	}
}

// ---- P2: tables and foreign keys

func graphs7(w *world7, maxEdges int) []*mDB {
	type node struct{ schema, name string }
	nodes := []node{{w.cur, "a"}, {w.cur, "b"}, {w.other, "a"}}
	var out []*mDB
	for mask := 0; mask < 1<<len(nodes); mask++ {
		var in []int
		for i := range nodes {
			if mask&(1<<i) != 0 {
				in = append(in, i)
			}
		}
		var edges [][2]int
		for _, i := range in {
			for _, j := range in {
				edges = append(edges, [2]int{i, j})
			}
		}
		for _, es := range subsets(edges) {
			if len(es) > maxEdges {
				continue
			}
			schemaSets := [][]string{{w.cur, w.other}}
			if mask&4 == 0 {
				schemaSets = append(schemaSets, []string{w.cur})
			}
			if mask&3 == 0 && mask != 0 {
				schemaSets = append(schemaSets, []string{w.other})
			}
			for _, schemas := range schemaSets {
				var tables []*mTable
				for _, i := range in {
					items := []any{icol("id", true), pkeyOf(nodes[i].name+"_id_pkey", "id")}
					for _, e := range es {
						if e[0] != i {
							continue
						}
						col := fmt.Sprintf("r%d", e[1])
						name := fmt.Sprintf("%s_%s_fkey", nodes[i].name, col)
						fk := fkOf(name, col, nodes[e[1]].schema, nodes[e[1]].name, "id")
						if e[1] == 1 {
							fk.upd, fk.del = "CASCADE", "SET NULL"
						}
						items = append(items, icol(col, false), fk, ixOf(fmt.Sprintf("%s_%s_idx", nodes[i].name, col), col))
					}
					tables = append(tables, w.tbl(nodes[i].schema, nodes[i].name, items...))
				}
				out = append(out, w.db(schemas, tables...))
			}
		}
	}
	return out
}

// ---- P3: keys, uniques, indexes and columns of one table

func keys7(w *world7, schema string, full bool) []*mDB {
	var out []*mDB
	ms := []*mCon{nil, pkeyOf("t_a_pkey", "a"), pkeyOf("t_a_b_pkey", "a", "b")}
	for ncols := 1; ncols <= 3; ncols++ {
		names := []string{"a", "b", "c"}[:ncols]
		usable := func(cols []string) bool {
			for _, c := range cols {
				if !has(names, strings.TrimPrefix(c, "-")) {
					return false
				}
			}
			return true
		}
		for _, pk := range ms {
			if pk != nil && !usable(pk.cols) {
				continue
			}
			var extras []any
			list := []*mIdx{ixOf("t_b_idx", "b"), {name: "t_c_b_idx", cols: []string{"c", "-b"}, unique: true}}
			if w.dialect != "sqlserver" {
				list = append(list, &mIdx{name: "t_hash_idx", cols: []string{"a"}, using: "HASH"})
			}
			if w.dialect != "mysql" && ncols > 1 {
				list = append(list, &mIdx{name: "t_a_idx", cols: []string{"a"}, include: []string{"b"}, where: "a > 0"})
			}
			for _, x := range list {
				if usable(x.cols) {
					extras = append(extras, x)
				}
			}
			for _, k := range []*mCon{uqOf("t_b_key", "b"), uqOf("t_a_c_key", "a", "c")} {
				if usable(k.cols) {
					extras = append(extras, k)
				}
			}
			for _, sub := range subsets(extras) {
				if len(sub) > 2 && !full {
					continue
				}
				items := []any{}
				for i, n := range names {
					c := icol(n, i == 0)
					if i == 2 {
						c.def = "1"
					}
					items = append(items, c)
				}
				items = append(append(items, pk), sub...)
				schemas := []string{w.cur}
				if schema != w.cur {
					schemas = append(schemas, schema)
				}
				out = append(out, w.db(schemas, w.tbl(schema, "t", items...)))
			}
		}
	}
	return out
}

// deferrable7 are the deferrability states of the constraints of Postgres.
func deferrable7(w *world7) []*mDB {
	var out []*mDB
	modes := func(c *mCon, m int) *mCon {
		if m == 3 {
			return nil
		}
		c.deferrable, c.initdefd = m > 0, m == 2
		return c
	}
	for pk := 0; pk < 4; pk++ {
		for uq := 0; uq < 4; uq++ {
			for fk := 0; fk < 4; fk++ {
				out = append(out, w.db([]string{w.cur},
					w.tbl(w.cur, "p", icol("id", true), pkeyOf("p_id_pkey", "id")),
					w.tbl(w.cur, "t", icol("a", true), icol("b", false), icol("c", false), modes(pkeyOf("t_a_pkey", "a"), pk), modes(uqOf("t_b_key", "b"), uq), modes(fkOf("t_c_fkey", "c", w.cur, "p", "id"), fk))))
			}
		}
	}
	return out
}

// ---- P4: two altered columns that share an object

func shared7(w *world7, kind int) []*mDB {
	_, char := w.types()
	vars := []mCol{{typ: "INT"}, {typ: "INT", notnull: true}, {typ: "INT", notnull: true, def: "2"}, {typ: "BIGINT", notnull: true, def: "2"}, {typ: char[0], def: "'x'"}}
	var out []*mDB
	for _, va := range vars {
		for _, vb := range vars {
			a, b := va, vb
			a.name, b.name = "a", "b"
			items := []any{&a, &b}
			var more []*mTable
			switch kind {
			case 0:
				items = append(items, ixOf("t_a_b_idx", "a", "b"), ixOf("t_b_idx", "b"))
			case 1:
				items = append(items, uqOf("t_a_b_key", "a", "b"))
			case 2:
				items = append(items, pkeyOf("t_a_b_pkey", "a", "b"))
			case 3:
				if w.dialect == "mysql" && (a.typ != "INT" || b.typ != "INT") {
					continue
				}
				items = append(items, &mCon{name: "t_a_b_fkey", typ: "FOREIGN KEY", cols: []string{"a", "b"}, rschema: w.other, rtable: "p", rcols: []string{"x", "y"}}, ixOf("t_a_b_idx", "a", "b"))
				more = append(more, w.tbl(w.other, "p", &mCol{name: "x", typ: a.typ, notnull: true}, &mCol{name: "y", typ: b.typ, notnull: true}, pkeyOf("p_x_y_pkey", "x", "y")))
			case 4: // two foreign keys between the same tables, in both directions
				if w.dialect == "mysql" && (a.typ != "INT" || b.typ != "INT") {
					continue
				}
				items = append(items, fkOf("t_a_fkey", "a", w.cur, "p", "x"), fkOf("t_b_fkey", "b", w.cur, "p", "y"), ixOf("t_a_idx", "a"), uqOf("t_b_key", "b"))
				more = append(more, w.tbl(w.cur, "p", &mCol{name: "x", typ: a.typ, notnull: true}, &mCol{name: "y", typ: b.typ, notnull: true}, pkeyOf("p_x_pkey", "x"), uqOf("p_y_key", "y"),
					fkOf("p_y_fkey", "y", w.cur, "t", "b")))
			}
			out = append(out, w.db([]string{w.cur, w.other}, append(more, w.tbl(w.cur, "t", items...))...))
		}
	}
	return out
}

func runC07(r *core.Runner) {
	for _, w := range worlds7(nil) {
		pairs7(r, "graph "+w.dialect, graphs7(w, r.Pick(2, 2)), nil)
		pairs7(r, "keys "+w.dialect, keys7(w, w.cur, r.Thorough()), nil)
		pairs7(r, "keys elsewhere "+w.dialect, keys7(w, w.other, false), nil)
		for kind := 0; kind < 5; kind++ {
			pairs7(r, fmt.Sprintf("shared %s %d", w.dialect, kind), shared7(w, kind), nil)
		}
		bare := *w
		bare.cur = ""
		pairs7(r, "bare "+w.dialect, keys7(&bare, "", false), nil)
		if w.dialect == "postgres" {
			pairs7(r, "deferrable", deferrable7(w), nil)
		}
	}
	columns7(r)
	identity7(r)
	shifted7(r)
	hostile7(r)
	many7(r)
	ignore7(r)
	r.Wait()
}

// nameStyles7 are ways of naming objects that need quoting.
func nameStyles7() map[string]func(string) string {
	return map[string]func(string) string{
		"upper":  func(s string) string { return "T " + s + " Q" },
		"quotes": func(s string) string { return s + `"x'y` + "`z]w[v" },
		"words": func(s string) string {
			if w := map[string]string{"a": "select", "b": "order", "c": "table", "t": "group", "p": "user"}[s]; w != "" {
				return w
			}
			return s
		},
	}
}

// hostile7 repeats some families with names that need quoting.
func hostile7(r *core.Runner) {
	styles := nameStyles7()
	for _, style := range sortedKeys(styles) {
		for _, w := range worlds7(styles[style]) {
			key := "names " + style + " " + w.dialect
			pairs7(r, key+" graph", graphs7(w, 1), nil)
			for kind := 0; kind < 4; kind++ {
				pairs7(r, fmt.Sprintf("%s shared %d", key, kind), shared7(w, kind), nil)
			}
			var states []*mDB
			for _, cc := range columnContexts() {
				if cc.name == "alone" || cc.name == "other" {
					for i, c := range w.columnVariants() {
						if i%4 == 0 || c.ident != "" {
							states = append(states, cc.make(w, c))
						}
					}
					pairs7(r, key+" column "+cc.name, states, nil)
				}
			}
			other := *w
			other.other = "S'1 ]x"
			pairs7(r, key+" schema", graphs7(&other, 1), nil)
		}
	}
}

// many7 has migrations of more than a hundred files.
func many7(r *core.Runner) {
	for _, w := range worlds7(nil) {
		small, big := w.db([]string{w.cur}), w.db([]string{w.cur})
		for i := 0; i < 60; i++ {
			name := fmt.Sprintf("t%02d", i)
			ref := fmt.Sprintf("t%02d", (i+7)%60)
			small.tables = append(small.tables, w.tbl(w.cur, name, icol("id", true), pkeyOf(name+"_pkey", "id"), icol("r", false), icol("d", true), icol("e", false)))
			big.tables = append(big.tables, w.tbl(w.cur, name, icol("id", true), pkeyOf(name+"_pkey", "id"), icol("r", false), icol("d", true), icol("e", true), uqOf(name+"_d_key", "d"), ixOf(name+"_r_idx", "r"), fkOf(name+"_fkey", "r", w.cur, ref, "d")))
		}
		empty := w.db([]string{w.cur})
		pairs7(r, "many "+w.dialect, []*mDB{small, big, empty}, nil)
	}
}

// ignore7 marks objects of the destination as ignored because they belong to other
// dialects: the destination is what it would be without them.
func ignore7(r *core.Runner) {
	for _, w := range worlds7(nil) {
		// parts: a column, an index, a key, a foreign key, a table
		build := func(present, ignored int, table bool) *mDB {
			p := w.tbl(w.cur, "p", icol("id", true), pkeyOf("p_id_pkey", "id"))
			t := w.tbl(w.cur, "t", icol("a", true), icol("b", false), ixOf("t_b_idx", "b"))
			q := w.tbl(w.cur, "q", icol("id", true), pkeyOf("q_id_pkey", "id"))
			t.cons = append(t.cons, w.tbl(w.cur, "t", uqOf("t_a_b_key", "a", "b")).cons...)
			db := w.db([]string{w.cur}, p)
			part := func(bit int, add func(ignore bool)) {
				if present&(1<<bit) != 0 {
					add(ignored&(1<<bit) != 0)
				}
			}
			part(0, func(ig bool) {
				c := w.tbl(w.cur, "t", icol("c", false)).cols[0]
				c.ignore = ig
				t.cols = append(t.cols, c)
			})
			part(1, func(ig bool) {
				x := w.tbl(w.cur, "t", ixOf("t_a_idx", "a")).idxs[0]
				x.ignore = ig
				t.idxs = append(t.idxs, x)
			})
			part(2, func(ig bool) {
				k := w.tbl(w.cur, "t", uqOf("t_a_key", "a")).cons[0]
				k.ignore = ig
				t.cons = append(t.cons, k)
			})
			part(3, func(ig bool) {
				k := w.tbl(w.cur, "t", fkOf("t_b_fkey", "b", w.cur, "p", "id")).cons[0]
				k.ignore = ig
				t.cons = append(t.cons, k)
			})
			if table {
				db.tables = append(db.tables, t)
			}
			part(4, func(ig bool) {
				q.ignore = ig
				db.tables = append(db.tables, q)
			})
			return db
		}
		for ignored := 1; ignored < 32; ignored++ {
			for present := 0; present < 32; present++ {
				for _, table := range []bool{true, false} {
					if !table && present&15 != 0 {
						continue
					}
					src, dest := build(present, 0, table), build(31, ignored, true)
					for _, drop := range []bool{true, false} {
						if r.Stop() {
							return
						}
						want := build(31&^ignored, 0, true)
						if !drop {
							want = build(31&^ignored|present, 0, true)
						}
						r.Go(fmt.Sprintf("ignore %s drop=%v %05b in %05b %v", w.dialect, drop, ignored, present, table), func(t *core.T) { decideTo7(t, src, dest, want, drop) })
					}
				}
			}
		}
	}
}
