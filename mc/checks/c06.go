package checks

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"verifmc/core"
	"verifmc/faultdb"
)

func init() {
	core.Register(&core.Check{Prop: "C06", Level: "model_checking",
		Rule: "one evaluation = one populated schema pair; states are database contents, transitions generated statements executed; a trace is one migration whose rows were compared with a reference copy",
		Run:  runC06})
}

// C06 populates the source database, applies the generated migration and compares every
// row with a reference made without sqddl: with drop-objects the destination schema filled
// with the values of the columns both have, without it the source changed by hand-written
// ADD COLUMN and CREATE INDEX statements. If SQLite refuses to build the reference the
// destination cannot hold the data, and the migration has to fail and change nothing.

// row is one row of table t: SQL texts of b, c and z (id is the position).
type row struct{ b, c, z string }

// population is the content of t; table p always has the rows 1 and 2.
type population []row

func (p population) String() string {
	var out []string
	for _, r := range p {
		out = append(out, r.b+","+r.c+","+r.z)
	}
	return "{" + strings.Join(out, " ") + "}"
}

var rowDomain = []row{
	{"'5'", "1", "'a'"},
	{"NULL", "NULL", "'b'"},
	{"'it''s'", "2", "NULL"},
	{"x'00ff'", "1", "'d'"},
	{"'5'", "99", "'e'"}, // refers to nothing
	{"9223372036854775807", "NULL", "'a'"},
}

func populations(n int) []population {
	out := []population{nil}
	last := []population{nil}
	for i := 0; i < n; i++ {
		var next []population
		for _, p := range last {
			for _, r := range rowDomain {
				next = append(next, append(append(population{}, p...), r))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// inserts are the statements that fill a schema as far as it has the columns.
func (p population) inserts(s sSchema, tn, bn string) []string {
	var out []string
	add := func(table string, vals ...string) { // column, value, column, value...
		t := s.table(table)
		if t == nil {
			return
		}
		var cols, vs []string
		for i := 0; i < len(vals); i += 2 {
			if c := t.col(vals[i]); c != nil && c.gen == "" {
				cols = append(cols, qid(vals[i]))
				vs = append(vs, vals[i+1])
			}
		}
		if len(cols) > 0 {
			out = append(out, "INSERT INTO "+qid(table)+" ("+strings.Join(cols, ", ")+") VALUES ("+strings.Join(vs, ", ")+")")
		}
	}
	add("p", "id", "1", "v", "'one'")
	add("p", "id", "2", "v", "NULL")
	add("pp", "x", "1", "y", "'k'")
	for i, r := range p {
		up, q, rr := "NULL", "1", "'k'"
		if i > 0 {
			up = r.z
			q, rr = "NULL", "'m'"
		}
		if i == 1 && p[0].z != "NULL" {
			up = p[0].z
		}
		if t := s.table(tn); t != nil && t.col("q") != nil && t.col("q").typ == "TEXT" {
			q = "'Q'"
		}
		add(tn, "id", fmt.Sprint(i+1), bn, r.b, "c", r.c, "z", r.z, "up", up, "q", q, "r", rr)
	}
	for i, r := range p {
		add("ch", "id", fmt.Sprint(i+1), "t_id", r.z)
	}
	return out
}

// netInserts fills a network of tables: every table has two rows that refer to row 1.
func netInserts(s sSchema) []string {
	var out []string
	for i := 1; i <= 2; i++ {
		for _, t := range s.tables {
			cols, vals := []string{}, []string{}
			for _, c := range t.cols {
				cols = append(cols, qid(c.name))
				if c.name == "id" {
					vals = append(vals, fmt.Sprint(i))
				} else {
					vals = append(vals, "1")
				}
			}
			out = append(out, "INSERT INTO "+qid(t.name)+" ("+strings.Join(cols, ", ")+") VALUES ("+strings.Join(vals, ", ")+")")
		}
	}
	if len(out) == 0 {
		return nil
	}
	return []string{"BEGIN; PRAGMA defer_foreign_keys = ON; " + strings.Join(out, "; ") + "; COMMIT"}
}

var timestampRe = regexp.MustCompile(`^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d$`)

// dbRows lists every row of every table with the types of its values.
func dbRows(s *faultdb.Server, skip ...string) map[string][]string {
	out := map[string][]string{}
	for n, t := range shapeOf(s, skip...).tables {
		cols := append([]string{}, t.order...)
		sort.Strings(cols)
		var sel []string
		for _, c := range cols {
			sel = append(sel, "typeof("+qid(c)+")", qid(c))
		}
		rows := []string{}
		for _, r := range s.MustQuery("SELECT " + strings.Join(sel, ", ") + " FROM " + qid(n)) {
			var b strings.Builder
			for i := 0; i < len(r); i += 2 {
				v := str(r[i+1])
				if timestampRe.MatchString(v) {
					v = "<now>"
				}
				fmt.Fprintf(&b, "%s=%s:%q ", cols[i/2], str(r[i]), v)
			}
			rows = append(rows, b.String())
		}
		sort.Strings(rows)
		out[n] = rows
	}
	return out
}

func rowsText(m map[string][]string) string {
	var b strings.Builder
	for _, n := range sortedKeys(m) {
		fmt.Fprintf(&b, "table %q\n", n)
		for _, r := range m[n] {
			b.WriteString("  " + r + "\n")
		}
	}
	return b.String()
}

// dataPair is a pair with its data.
type dataPair struct {
	pair
	fill func(s sSchema) []string
}

// reference builds the expected database, or returns nil if it cannot exist. mayRefuse
// tells that SQLite cannot get there without rebuilding a table.
func (p dataPair) reference(src *faultdb.Server) (ref *faultdb.Server, mayRefuse bool) {
	params := fmt.Sprintf("_foreign_keys=%v", p.fkOn)
	if p.drop {
		ref = p.dest.server(p.dSt, params)
		if copyRows(src, ref, p.src.common(p.dest)) != nil {
			ref.Close()
			return nil, false
		}
		if !emptyNew(ref, p.src, p.dest) {
			core.Broken("reference has rows in new tables")
		}
		return ref, false
	}
	ref = p.src.server(p.sSt, params)
	for _, q := range p.fill(p.src) {
		ref.MustExec(q)
	}
	for _, d := range p.dest.tables {
		s := p.src.table(d.name)
		if s == nil {
			for _, q := range d.ddl(p.dSt) {
				ref.MustExec(q)
			}
			continue
		}
		for _, c := range d.cols {
			if s.col(c.name) != nil {
				continue
			}
			one := sTable{name: d.name, cols: []sCol{c}}
			for _, f := range d.fks {
				if len(f.cols) == 1 && f.cols[0] == c.name {
					one.fks = append(one.fks, f)
				}
			}
			for _, u := range d.uniques {
				if len(u) == 1 && u[0] == c.name {
					one.uniques = append(one.uniques, u)
				}
			}
			if len(d.pk) == 1 && d.pk[0] == c.name {
				one.pk = d.pk
			}
			def := one.ddl(styleInline)[0]
			def = strings.TrimSuffix(strings.TrimPrefix(def, "CREATE TABLE "+styleInline.id(d.name)+" ("), ")")
			if ref.Exec("ALTER TABLE "+qid(d.name)+" ADD COLUMN "+def) != nil {
				ref.Close()
				return nil, true
			}
		}
		for _, ix := range d.idx {
			have := false
			for _, o := range s.idx {
				have = have || o.name == ix.name
			}
			if have {
				continue
			}
			if ref.Exec(ix.ddl(styleInline, d.name)) != nil {
				ref.Close()
				return nil, false
			}
		}
	}
	return ref, false
}

// copyRows inserts the values of the given tables and columns as they are stored in src.
func copyRows(src, ref *faultdb.Server, s sSchema) error {
	stmts := []string{"BEGIN", "PRAGMA defer_foreign_keys = ON"}
	for _, t := range s.tables {
		var cols, quoted []string
		for _, c := range t.cols {
			if c.gen == "" {
				cols = append(cols, qid(c.name))
				quoted = append(quoted, "quote("+qid(c.name)+")")
			}
		}
		if len(cols) == 0 {
			continue
		}
		for _, r := range src.MustQuery("SELECT " + strings.Join(quoted, ", ") + " FROM " + qid(t.name)) {
			var vals []string
			for _, v := range r {
				vals = append(vals, str(v))
			}
			stmts = append(stmts, "INSERT INTO "+qid(t.name)+" ("+strings.Join(cols, ", ")+") VALUES ("+strings.Join(vals, ", ")+")")
		}
	}
	return ref.Exec(strings.Join(append(stmts, "COMMIT"), "; "))
}

func emptyNew(ref *faultdb.Server, src, dest sSchema) bool {
	for _, d := range dest.tables {
		if src.table(d.name) == nil && len(ref.MustQuery("SELECT 1 FROM "+qid(d.name))) > 0 {
			return false
		}
	}
	return true
}

// common is the part of s that o has too: tables and columns by name.
func (s sSchema) common(o sSchema) sSchema {
	var out sSchema
	for _, t := range s.tables {
		d := o.table(t.name)
		if d == nil {
			continue
		}
		c := sTable{name: t.name}
		for _, col := range t.cols {
			if dc := d.col(col.name); dc != nil {
				col.gen = dc.gen
				c.cols = append(c.cols, col)
			}
		}
		out.tables = append(out.tables, c)
	}
	return out
}

// plain is s with ordinary columns in place of generated ones.
func (s sSchema) plain() sSchema {
	out := sSchema{views: s.views}
	for _, t := range s.tables {
		t.cols = append([]sCol{}, t.cols...)
		for i := range t.cols {
			t.cols[i].gen = ""
		}
		out.tables = append(out.tables, t)
	}
	return out
}

func fkProblems(s *faultdb.Server) map[string]bool {
	out := map[string]bool{}
	rows, err := s.Query("PRAGMA foreign_key_check")
	if err != nil {
		return out // some parent key is not unique; nothing to compare
	}
	for _, r := range rows {
		out[str(r[0])+" -> "+str(r[2])] = true
	}
	return out
}

// dropReaches lists the tables from which foreign keys lead to a table the migration drops.
func dropReaches(text string, s ...sSchema) map[string]bool {
	out := map[string]bool{}
	for n := -1; n != len(out); {
		n = len(out)
		for _, x := range s {
			for _, t := range x.tables {
				for _, f := range t.fks {
					if strings.Contains(text, "DROP TABLE "+qid(f.ref)+";") || strings.Contains(text, "DROP TABLE "+f.ref+";") || out[f.ref] {
						out[t.name] = true
					}
				}
			}
		}
	}
	return out
}

func runDataPair(t *core.T, p dataPair) {
	_, srcCat, err := readSchema(p.src, p.sSt, formDB)
	if err != nil {
		t.Fatal("introspect", "source: %v", err)
	}
	_, destCat, err := readSchema(p.dest, p.dSt, p.form)
	if err != nil {
		t.Fatal("introspect", "destination: %v", err)
	}
	files, _, err := generateFiles(srcCat, destCat, p.drop)
	if err != nil {
		t.Fatal("generate", "%v", err)
	}
	if len(files) == 0 {
		t.Outcome("nothing")
		return
	}
	text := fileText(files)
	src := p.src.server(p.sSt, fmt.Sprintf("_foreign_keys=%v", p.fkOn))
	defer src.Close()
	for _, q := range p.fill(p.src) {
		if src.Exec(q) != nil {
			t.Outcome("impossible source") // the source itself cannot hold these rows
			return
		}
	}
	t.Nontrivial()
	before := sqliteDump(src, "sqddl_history")
	t.State("db", before)
	problems := fkProblems(src)
	ref, mayRefuse := p.reference(src)
	if ref != nil {
		defer ref.Close()
	}
	err = migrateFiles(src, files)
	after := sqliteDump(src, "sqddl_history")
	t.Step(strings.Count(text, ";\n"))
	t.Trace(1)
	t.State("db", after)
	// With foreign keys enforced, DROP TABLE deletes the rows of the table first, which
	// acts on the tables that refer to it; only those may be affected by it.
	var reached map[string]bool
	if p.fkOn {
		reached = dropReaches(text, p.src, p.dest)
	}
	if err != nil {
		if after != before {
			t.Fail("half-applied", "failed migration changed the database: %v\n%s", err, text)
			return
		}
		if ref != nil {
			class := ""
			if len(reached) > 0 && strings.Contains(err.Error(), "FOREIGN KEY constraint failed") {
				class = "fk-drop-"
			}
			t.Fail(class+"refused", "the destination can hold the data but the migration fails: %v\n%s", err, text)
			return
		}
		t.Outcome("refused: the destination cannot hold the data")
		return
	}
	if ref == nil {
		if mayRefuse {
			t.Outcome("accepted")
			return
		}
		t.Fail("accepted", "the destination cannot hold the data but the migration succeeds; now:\n%s\n%s", rowsText(dbRows(src, "sqddl_history")), text)
		return
	}
	wantRows, gotRows := dbRows(ref), dbRows(src, "sqddl_history")
	want, got := rowsText(wantRows), rowsText(gotRows)
	if want != got {
		class := "fk-drop-"
		for n := range wantRows {
			if !reached[n] && strings.Join(wantRows[n], "\n") != strings.Join(gotRows[n], "\n") {
				class = ""
			}
		}
		if len(wantRows) != len(gotRows) {
			class = ""
		}
		t.Fail(class+"lost", "rows differ:\n%s\nmigration:\n%s", diffLines(want, got), text)
		return
	}
	for k := range fkProblems(src) {
		if !problems[k] {
			t.Fail("fk", "new foreign key violation %s\n%s", k, text)
			return
		}
	}
	t.Outcome(classify(files))
	t.Sample(map[string]any{"source": p.src.key(), "destination": p.dest.key(), "drop": p.drop, "foreign_keys": p.fkOn, "rows": got})
}

func runC06(r *core.Runner) {
	n := 0
	run := func(family string, k common, f, g feat, pop population, drop, fkOn bool) {
		n++
		src, dest := f.build(k), g.build(k)
		if strings.HasPrefix(family, "former ") {
			dest = dest.plain()
		}
		tn, bn := k.tname, k.bname
		if tn == "" {
			tn = "t"
		}
		if bn == "" {
			bn = "b"
		}
		form := formDB
		if n%2 == 0 && dest.structable() {
			form, dest = formStruct, dest.structPK()
		}
		p := dataPair{
			pair: pair{src: src, dest: dest, drop: drop, form: form, fkOn: fkOn, sSt: style(n % int(numStyles)), dSt: style(n / int(numStyles) % int(numStyles))},
			fill: func(s sSchema) []string { return pop.inserts(s, tn, bn) },
		}
		r.Count("pairs in family "+family, 1)
		r.Go(p.key(family+" "+pop.String()), func(t *core.T) { runDataPair(t, p) })
	}
	bools := []bool{true, false}
	// 1. Every pair of table definitions differing in one feature, three fixed populations.
	fixed := []population{
		{rowDomain[0]},
		{rowDomain[0], rowDomain[1]},
		{rowDomain[0], rowDomain[2], rowDomain[3]},
	}
	feats := allFeats(common{})
	for _, f := range feats {
		for _, g := range feats {
			d := f.distance(g)
			if d == 0 || d > r.Pick(1, 2) || !r.Thorough() && (f.ix > 1 || g.ix > 1 || f.pk > 1 && f.uq > 1 || g.pk > 1 && g.uq > 1) {
				continue
			}
			for pi, pop := range fixed {
				if r.Stop() {
					break
				}
				run("features", common{}, f, g, pop, true, (pi+n)%2 == 0)
				if r.Thorough() || pi == 1 {
					run("features", common{}, f, g, pop, false, true)
				}
			}
		}
	}
	// 2. Fewer definitions with every population of up to two (three) rows.
	small := func(f feat) bool {
		return f.pk < 2 && f.uq < 2 && (f.ix == 0 || r.Thorough() && f.ix == 3) && f.c != 1 && (f.b < 6 || r.Thorough())
	}
	for _, pop := range populations(r.Pick(2, 3)) {
		for _, f := range feats {
			for _, g := range feats {
				if !small(f) || !small(g) || f.distance(g) != 1 {
					continue
				}
				for _, fk := range bools {
					if r.Stop() {
						break
					}
					run("rows", common{}, f, g, pop, true, fk)
				}
			}
		}
	}
	// 3. Further objects in or around the table.
	for _, extra := range []string{"virtual", "stored", "check", "auto", "strict", "trigger", "view", "child", "self", "implicit", "collate", "rowid", "composite"} {
		for _, cascade := range bools {
			if cascade && extra != "child" && !r.Thorough() {
				continue
			}
			k := common{cascade: cascade, extra: extra}
			for _, f := range feats {
				for _, g := range feats {
					if f.distance(g) != 1 || f.ix > 1 || g.ix > 1 || f.uq > 1 || g.uq > 1 || f.b > 4 || g.b > 4 {
						continue
					}
					if extra == "auto" && (f.pk == 0) != (g.pk == 0) || extra == "rowid" && (f.pk == 1) != (g.pk == 1) {
						continue
					}
					for _, fk := range bools {
						if fk && (extra == "child" || extra == "self") && (f.pk != 3 || g.pk != 3) {
							continue // the parent key is not unique: SQLite refuses to use it
						}
						if r.Stop() {
							break
						}
						run(extra, k, f, g, fixed[1], true, fk)
						if extra == "virtual" || extra == "stored" {
							run("former "+extra, k, f, g, fixed[1], true, fk)
						}
						if r.Thorough() {
							run(extra, k, f, g, fixed[1], false, fk)
							run(extra, k, f, g, fixed[2], true, fk)
						}
					}
				}
			}
		}
	}
	for fi, list := range [][]sSchema{columnSchemas(), twoColumnSchemas()} {
		fam := []string{"column", "two columns"}[fi]
		for i, src := range list {
			for j, dest := range list {
				for _, drop := range bools {
					if r.Stop() {
						break
					}
					form := formDB
					if (i+j)%2 == 0 && dest.structable() {
						form = formStruct
					}
					pop := fixed[1+(i+j)/2%2]
					p := dataPair{
						pair: pair{src: src, dest: dest, drop: drop, form: form, fkOn: j%2 == 0, sSt: style((i + j) % int(numStyles)), dSt: style(j % int(numStyles))},
						fill: func(s sSchema) []string { return pop.inserts(s, "t", "b") },
					}
					if form == formStruct {
						p.dest = dest.structPK()
					}
					r.Count("pairs in family "+fam, 1)
					r.Go(p.key(fam+" "+pop.String()), func(t *core.T) { runDataPair(t, p) })
				}
			}
		}
	}
	// 4. Sets of tables that refer to each other.
	nets := networks(true)
	for i, a := range nets {
		for j, b := range nets {
			if i == j {
				continue
			}
			for _, fk := range bools {
				if r.Stop() {
					break
				}
				form := formDB
				if (i+j)%2 == 0 {
					form = formStruct
				}
				a := a
				p := dataPair{
					pair: pair{src: a, dest: b, drop: true, form: form, fkOn: fk, sSt: style((i + j) % int(numStyles)), dSt: style(j % int(numStyles))},
					fill: netInserts,
				}
				r.Count("pairs in family network", 1)
				r.Go(p.key("network"), func(t *core.T) { runDataPair(t, p) })
				p.drop = false
				r.Go(p.key("network"), func(t *core.T) { runDataPair(t, p) })
			}
		}
	}
	r.Wait()
}
