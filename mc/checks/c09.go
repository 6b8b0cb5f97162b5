package checks

import (
	"database/sql"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing/fstest"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
	"verifmc/faultdb"
)

func init() {
	core.Register(&core.Check{Prop: "C09", Level: "model_checking",
		Rule: "one evaluation = one schema pair with one setting; a transition is one automigrate, generate or migrate run, with or without one failing or crashing database call; a trace is one run compared with generate followed by migrate",
		Run:  runC09,
		Assumptions: []string{
			"the database is SQLite; automigrate on the other dialects reads their catalogues, which cannot be done offline",
			"that the reached schema and the kept rows are the right ones is decided by C05 and C06; here automigrate is compared with generate followed by migrate",
		}})
}

// C09: states are databases (schema, rows, migration history), a transition is one run of
// automigrate to some destination.

// content is everything in the database apart from the moment it was made.
func content(s *faultdb.Server, skip ...string) string {
	return shapeOf(s, skip...).String() + rowsText(dbRows(s, skip...))
}

type autoCase struct {
	pair
	fill   []string
	hist   bool // the source already has a migration history
	faults bool
}

func (a autoCase) dest2(t *core.T) (cat *ddl.Catalog, files fstest.MapFS) {
	if a.form == formStruct {
		return nil, fstest.MapFS{"tables.go": {Data: []byte(a.dest.structs())}}
	}
	_, cat, err := readSchema(a.dest, a.dSt, a.form)
	if err != nil {
		t.Fatal("introspect", "destination: %v", err)
	}
	return cat, nil
}

func (a autoCase) auto(t *core.T, s *faultdb.Server, dry bool) (string, error) {
	var out syncBuf
	cmd := &ddl.AutomigrateCmd{DB: s.DB(), Dialect: "sqlite", DropObjects: a.drop, DryRun: dry, Stdout: &out, Stderr: io.Discard}
	var files fstest.MapFS
	cmd.DestCatalog, files = a.dest2(t)
	if files != nil {
		cmd.DirFS, cmd.Filenames = files, []string{"tables.go"}
	}
	err := cmd.Run()
	return out.String(), err
}

// changes are the calls of the last run that are not mere reading.
func changes(s *faultdb.Server) []string {
	var out []string
	for _, op := range s.Ops() {
		if op.Kind == "exec" || op.Kind == "begin" || op.Kind == "commit" {
			out = append(out, op.String())
		}
	}
	return out
}

// statements is SQL without comments and layout.
func statements(sql string) string { return joinTokens(sqlTokens(sql)) }

func runAuto(t *core.T, a autoCase) {
	params := "_foreign_keys=false"
	if a.fkOn {
		params = "_foreign_keys=true"
	}
	src := a.src.server(a.sSt, params)
	defer src.Close()
	for _, q := range a.fill {
		if src.Exec(q) != nil {
			return // the rows do not fit this schema
		}
	}
	if a.hist {
		src.MustExec("CREATE TABLE sqddl_history (filename TEXT PRIMARY KEY, checksum TEXT, started_at DATETIME, time_taken_ns INT, success BOOLEAN)")
		src.MustExec("INSERT INTO sqddl_history VALUES ('automigrate.sql', NULL, '2020-01-01', 1, FALSE), ('1.sql', NULL, '2020-01-01', 1, TRUE)")
	}
	before := content(src)
	t.State(before)
	// generate and migrate.
	ref := src.Clone(params)
	defer ref.Close()
	ref.Exec("DROP TABLE IF EXISTS sqddl_history")
	cat, err := introspect(ref)
	if err != nil {
		t.Fatal("introspect", "source: %v", err)
	}
	dest, files := a.dest2(t)
	if files != nil {
		if dest, err = structCatalog(a.dest.structs()); err != nil {
			t.Fatal("structs", "%v", err)
		}
	}
	migration, _, err := generateFiles(cat, dest, a.drop)
	if err != nil {
		t.Fatal("generate", "%v", err)
	}
	refErr := migrateFiles(ref, migration)
	want := content(ref, "sqddl_history")
	// automigrate.
	s := src.Clone(params)
	defer s.Close()
	t.Step(1)
	_, err = a.auto(t, s, false)
	t.Trace(1)
	t.State(content(s))
	switch {
	case (err != nil) != (refErr != nil):
		t.Fail("differs", "automigrate: %v; generate and migrate: %v\n%s", err, refErr, fileText(migration))
	case err != nil:
		t.Outcome("refused")
		if after := content(s); after != before {
			t.Fail("half-applied", "automigrate failed (%v) and changed the database:\n%s", err, diffLines(before, after))
		}
	default:
		t.Outcome(classify(migration))
		if got := content(s, "sqddl_history"); got != want {
			t.Fail("differs", "automigrate does not lead where generate and migrate do:\n%s", diffLines(want, got))
		}
		if h := historyText(s); h != historyText(src) {
			t.Fail("history", "automigrate changed the migration history from %q to %q", historyText(src), h)
		}
		// Again.
		after := content(s)
		t.Step(1)
		s.Reset()
		s.Record()
		if _, err := a.auto(t, s, false); err != nil {
			t.Fail("again", "running it again fails: %v", err)
		} else if c := changes(s); len(c) > 0 {
			t.Fail("again", "running it again executes %q", c)
		} else if content(s) != after {
			t.Fail("again", "running it again changed the database")
		}
	}
	if t.Failed() {
		return
	}
	if len(migration) > 0 {
		t.Nontrivial()
	}
	// The dry run.
	d := src.Clone(params)
	defer d.Close()
	t.Step(1)
	d.Reset()
	d.Record()
	out, err := a.auto(t, d, true)
	if err != nil {
		t.Fail("dry-run", "dry run fails: %v", err)
	} else if c := changes(d); len(c) > 0 {
		t.Fail("dry-run", "the dry run executes %q", c)
	} else if content(d) != before {
		t.Fail("dry-run", "the dry run changed the database")
	} else if statements(out) != statements(fileText(migration)) {
		t.Fail("dry-run", "the dry run prints\n%s\nbut it does\n%s", out, fileText(migration))
	}
	if !a.faults || t.Failed() || refErr != nil || len(migration) == 0 {
		return
	}
	for _, mode := range []faultdb.Mode{faultdb.ErrBefore, faultdb.ErrAfter, faultdb.Crash, faultdb.CrashPost} {
		for n := 0; ; n++ {
			f := src.Clone(params)
			f.Reset()
			var hit *faultdb.Op
			f.Hook = func(op faultdb.Op) faultdb.Mode {
				if op.Seq == n && hit == nil {
					hit = &op
					return mode
				}
				return faultdb.OK
			}
			t.Step(1)
			_, err := a.auto(t, f, false)
			if hit == nil {
				f.Close()
				break
			}
			f.Reset()
			after := content(f)
			got := content(f, "sqddl_history")
			f.Close()
			t.State(after)
			where := fmt.Sprintf("%s at %s", mode, hit)
			switch {
			case after != before && got != want:
				t.Fail("half-applied", "%s: automigrate (%v) leaves neither the old nor the new database:\n%s", where, err, diffLines(before, after))
			case err == nil && got != want:
				t.Fail("failure-hidden", "%s: automigrate reports success but nothing was done", where)
			case err == nil && (hit.Kind == "exec" || hit.Kind == "commit" || hit.Kind == "query" || hit.Kind == "begin"):
				t.Fail("failure-hidden", "%s: automigrate reports success", where)
			}
		}
	}
}

func historyText(s *faultdb.Server) string {
	if len(s.MustQuery("SELECT 1 FROM sqlite_schema WHERE name = 'sqddl_history'")) == 0 {
		return "none"
	}
	return tableRows(s, "sqddl_history")
}

func runC09(r *core.Runner) {
	n := 0
	run := func(family string, a autoCase) {
		n++
		a.sSt, a.dSt = style(n%int(numStyles)), style(n/int(numStyles)%int(numStyles))
		a.hist = n%2 == 0
		if a.form == formStruct {
			a.dest = a.dest.structPK()
		}
		r.Count("pairs in family "+family, 1)
		r.Go(a.key(family)+fmt.Sprintf(" hist=%v", a.hist), func(t *core.T) { runAuto(t, a) })
	}
	forms := func(dest sSchema, i int) destForm {
		switch {
		case dest.structable() && i%3 == 0:
			return formStruct
		case i%3 == 1:
			return formJSON
		}
		return formDB
	}
	pop := population{rowDomain[0], rowDomain[2]}
	k := common{}
	feats := allFeats(k)
	for _, f := range feats {
		for _, g := range feats {
			d := f.distance(g)
			if d > r.Pick(1, 2) || !r.Thorough() && (f.pk > 1 && f.uq > 1 || g.pk > 1 && g.uq > 1 || f.b > 5 || g.b > 5 || f.ix > 2 || g.ix > 2) {
				continue
			}
			for _, drop := range []bool{true, false} {
				if r.Stop() {
					break
				}
				src, dest := f.build(k), g.build(k)
				small := drop && f.b < 4 && g.b < 4 && f.c == g.c && f.pk < 2 && g.pk < 2 && f.uq < 2 && g.uq < 2 && f.ix < 2 && g.ix < 2 && (f.c == 0 || f.ix+f.uq == 0)
				run("features", autoCase{pair: pair{src: src, dest: dest, drop: drop, form: forms(dest, n), fkOn: n%2 == 1}, fill: pop.inserts(src, "t", "b"), faults: small || r.Thorough() && d == 1})
			}
		}
	}
	for _, extra := range []string{"virtual", "stored", "check", "auto", "strict", "trigger", "view", "child", "self", "implicit", "collate", "rowid", "composite", "neighbour", "moved"} {
		k := common{cascade: true, extra: extra}
		for _, f := range feats {
			for _, g := range feats {
				if !r.Thorough() && (f.ix > 0 || f.pk > 1 || g.ix > 0 || g.pk > 1) || f.ix > 1 || f.uq > 1 || f.b > 3 || g.ix > 1 || g.uq > 1 || g.b > 3 || f.distance(g) > 1 || extra == "auto" && (f.pk == 0) != (g.pk == 0) || extra == "rowid" && (f.pk == 1) != (g.pk == 1) {
					continue
				}
				if r.Stop() {
					break
				}
				src, dest := f.build(k), g.build(k)
				run(extra, autoCase{pair: pair{src: src, dest: dest, drop: n%4 > 0, form: formDB, fkOn: n%3 == 1}, fill: pop.inserts(src, "t", "b"), faults: r.Thorough()})
			}
		}
	}
	nets := networks(true)
	for i, a := range nets {
		for j, b := range nets {
			for _, drop := range []bool{true, false} {
				if r.Stop() {
					break
				}
				run("network", autoCase{pair: pair{src: a, dest: b, drop: drop, form: forms(b, n), fkOn: (i+j)%2 == 0}, fill: netInserts(a), faults: r.Thorough() || drop && (i%6 == 0 && j%6 == 0 || i == 0 || j == 0)})
			}
		}
	}
	r.Wait()
	// The command line, with database files.
	base := scratchDir()
	defer os.RemoveAll(base)
	for i, a := range nets {
		for j, b := range nets {
			if i%5 > 0 || j%7 > 0 || r.Stop() {
				continue
			}
			r.Go(fmt.Sprintf("command line [%s] => [%s]", a.key(), b.key()), func(t *core.T) {
				autoCLI(t, filepath.Join(base, fmt.Sprintf("%d_%d", i, j)), a, b)
			})
		}
	}
	r.Wait()
}

func autoCLI(t *core.T, dir string, a, b sSchema) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		core.Broken("%v", err)
	}
	defer os.RemoveAll(dir)
	db := filepath.Join(dir, "db.sqlite3")
	makeFile(db, a)
	writeFile(filepath.Join(dir, "tables.go"), b.structPK().structs())
	run := func(extra ...string) (string, error) {
		args := append([]string{"-db", "sqlite:" + db, "-dir", dir, "-dest", "tables.go", "-drop-objects"}, extra...)
		c, err := ddl.AutomigrateCommand(args...)
		if err != nil {
			return "", err
		}
		var out syncBuf
		c.Stdout, c.Stderr = &out, &out
		err = c.Run()
		return out.String(), err
	}
	t.Step(3)
	t.Trace(1)
	was := fileShape(db)
	out, err := run("-dry-run")
	if err != nil || fileShape(db) != was {
		t.Fatal("cli", "dry run: %v", err)
	}
	log, err := run()
	if err != nil {
		t.Fatal("cli", "automigrate: %v\n%s", err, log)
	}
	makeFile(filepath.Join(dir, "ref.sqlite3"), b.structPK())
	if got, want := fileShape(db), fileShape(filepath.Join(dir, "ref.sqlite3")); got != want {
		t.Fatal("cli", "the database differs from the declared one:\n%s\n%s", diffLines(want, got), out)
	}
	again, err := run("-dry-run")
	if err != nil || strings.TrimSpace(again) != "" {
		t.Fatal("cli", "again: %v %s", err, again)
	}
	if (strings.TrimSpace(out) == "") != (was == fileShape(db)) {
		t.Fatal("cli", "the dry run printed %q but the schema changed=%v", out, was != fileShape(db))
	}
}

// makeFile creates a database file with the schema.
func makeFile(path string, s sSchema) {
	db, err := sql.Open("sqlite3", path)
	if err != nil {
		core.Broken("%v", err)
	}
	defer db.Close()
	for _, q := range s.ddl(styleInline) {
		if _, err := db.Exec(q); err != nil {
			core.Broken("%v", err)
		}
	}
}

// fileShape reads the schema of a database file.
func fileShape(path string) string {
	db, err := sql.Open("sqlite3", path)
	if err != nil {
		core.Broken("%v", err)
	}
	defer db.Close()
	rows, err := db.Query("SELECT sql FROM sqlite_schema WHERE sql IS NOT NULL AND name NOT LIKE 'sqlite_%' ORDER BY rowid")
	if err != nil {
		core.Broken("%v", err)
	}
	defer rows.Close()
	s := faultdb.New("_foreign_keys=false")
	defer s.Close()
	for rows.Next() {
		var q string
		if err := rows.Scan(&q); err != nil {
			core.Broken("%v", err)
		}
		s.MustExec(q)
	}
	return shapeOf(s).String()
}
