package checks

import (
	"fmt"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
	"verifmc/faultdb"
)

func init() {
	core.Register(&core.Check{Prop: "C15", Level: "fault_enumeration", Run: runC15,
		Rule: "every foreign key graph over 3 tables with rows (self references and cycles included) for every delete rule, every subset of 9 further kinds of objects, every special name; on Postgres, MySQL and SQL Server every foreign key graph over 3 tables and every subset of 7 to 11 kinds of objects (cycles, a second schema, views on views, routines, overloads, aggregates, materialized views, types, an extension owning objects of every kind, special names, system objects); each wiped, dry run, and with every database call failing or the server crashing at it; non-trivial when the database held something and the fault was reached",
		Assumptions: []string{
			"SQLite is opened the way the command line tool opens it; the other servers are models: their catalog queries run on emulated system catalogs, their drop statements on a model of objects and dependencies written from the manuals (Postgres 10 to 15, MySQL from 8.0.19, MariaDB, SQL Server from 2016)",
			"on those servers subsets of more than three kinds are only run on the first version listed and faults only with at most two or all but one kinds (all of them in the thorough tier)",
			"tables SQLite keeps for itself (sqlite_sequence, sqlite_stat1) are not objects of the database",
			"every view can be read (a view on a dropped table makes wipe report an error and change nothing)",
		}})
}

// own counts what is left in the database apart from SQLite's own tables.
func own(s *faultdb.Server) []string {
	return s.Strings(`SELECT type || ' ' || name FROM sqlite_schema WHERE substr(name, 1, 7) <> 'sqlite_' ORDER BY 1`)
}

func wipe(s *faultdb.Server, dry bool) (string, error) {
	var out syncBuf
	c := &ddl.WipeCmd{DB: s.DB(), Dialect: "sqlite", DryRun: dry, Stdout: &out}
	err := c.Run()
	return out.String(), err
}

func wipeCase(r *core.Runner, key string, faults bool, stmts []string) {
	if r.Stop() {
		return
	}
	r.Go(key, func(t *core.T) {
		src := faultdb.New("_foreign_keys=1")
		defer src.Close()
		for _, q := range stmts {
			src.MustExec(q)
		}
		if bad := src.MustQuery("PRAGMA foreign_key_check"); len(bad) > 0 {
			core.Broken("inconsistent rows in %s: %v", key, bad)
		}
		before := sqliteDump(src)
		// The whole command.
		s := src.Clone("_foreign_keys=1")
		t.Step(1)
		t.Nontrivial()
		db := s.DB()
		db.SetMaxOpenConns(1)
		err := (&ddl.WipeCmd{DB: db, Dialect: "sqlite", Stdout: &syncBuf{}}).Run()
		var fk int
		if e := db.QueryRow("PRAGMA foreign_keys").Scan(&fk); e != nil || fk != 1 {
			t.Fail("session", "after wipe foreign keys are no longer enforced on the connection (%v)", e)
		}
		if err != nil {
			t.Fail("refused", "wipe of a sound database fails: %v", err)
			if sqliteDump(s) != before {
				t.Fail("not-atomic", "wipe failed and changed the database")
			}
		} else {
			if left := own(s); len(left) > 0 {
				t.Fail("left", "still there after wipe: %v", left)
			}
			s.Record()
			if _, err := wipe(s, false); err != nil {
				t.Fail("refused", "wipe of an empty database fails: %v", err)
			}
		}
		s.Close()
		// The dry run.
		s = src.Clone("_foreign_keys=1")
		t.Step(1)
		out, err := wipe(s, true)
		if err != nil {
			t.Fail("dry-run", "dry run fails: %v", err)
		}
		if after := sqliteDump(s); after != before {
			t.Fail("dry-run", "the dry run changed the database:\n%s", after)
		}
		if !t.Failed() {
			if err := s.Exec("PRAGMA foreign_keys = 0;BEGIN;" + out + ";COMMIT"); err != nil {
				t.Fail("dry-run", "the printed statements fail: %v\n%s", err, out)
			} else if left := own(s); len(left) > 0 {
				t.Fail("dry-run", "still there after the printed statements: %v", left)
			}
		}
		s.Close()
		if !faults || t.Failed() {
			return
		}
		for _, dry := range []bool{false, true} {
			for _, mode := range []faultdb.Mode{faultdb.ErrBefore, faultdb.ErrAfter, faultdb.Crash, faultdb.CrashPost} {
				for n := 0; ; n++ {
					s := src.Clone("_foreign_keys=1")
					var hit *faultdb.Op
					s.Hook = func(op faultdb.Op) faultdb.Mode {
						if op.Seq == n {
							hit = &op
							return mode
						}
						return faultdb.OK
					}
					db := s.DB()
					s.Reset()
					var out syncBuf
					t.Step(1)
					err := (&ddl.WipeCmd{DB: db, Dialect: "sqlite", DryRun: dry, Stdout: &out}).Run()
					s.Hook = nil
					if hit == nil {
						s.Close()
						break
					}
					t.Nontrivial()
					s.Reset()
					after := sqliteDump(s)
					left := own(s)
					s.Close()
					where := fmt.Sprintf("%s at %s", mode, hit)
					took := hit.Kind == "commit" && (mode == faultdb.ErrAfter || mode == faultdb.CrashPost)
					switch {
					case err == nil && hit.Kind != "rollback" && hit.Kind != "connect" && !(hit.Kind == "next" && mode == faultdb.CrashPost):
						t.Fail("failure-hidden", "%s: wipe (dry run %v) reports success, left: %v", where, dry, left)
					case err == nil && !dry && len(left) > 0:
						t.Fail("left", "%s: success reported but still there: %v", where, left)
					case err != nil && after != before && !(took && len(left) == 0):
						t.Fail("not-atomic", "%s: wipe failed (%v) and changed the database, left: %v", where, err, left)
					case dry && after != before:
						t.Fail("dry-run", "%s: the dry run changed the database", where)
					}
				}
			}
		}
	})
}

func runC15(r *core.Runner) {
	// 1. Foreign keys.
	actions := []string{"", " ON DELETE CASCADE", " ON DELETE RESTRICT", " ON DELETE SET NULL", " ON DELETE RESTRICT DEFERRABLE INITIALLY DEFERRED", " DEFERRABLE INITIALLY DEFERRED"}
	names := []string{"a", "b", "c"}
	for m := 0; m < 1<<9; m++ {
		for k, act := range actions {
			if m == 0 && k > 0 {
				continue
			}
			var stmts []string
			for i, n := range names {
				q := "CREATE TABLE " + n + " (id INTEGER PRIMARY KEY, UNIQUE (id)"
				cols := ""
				for j, p := range names {
					if m>>(3*i+j)&1 == 1 {
						cols += ", r" + p + " INT"
						q += fmt.Sprintf(", FOREIGN KEY (r%s) REFERENCES %s (id)%s", p, p, act)
					}
				}
				stmts = append(stmts, strings.Replace(q, ", UNIQUE", cols+", UNIQUE", 1)+")")
			}
			stmts = append(stmts, "PRAGMA foreign_keys = 0")
			for i, n := range names {
				vals := "1"
				for j := range names {
					if m>>(3*i+j)&1 == 1 {
						vals += ", 1"
					}
				}
				stmts = append(stmts, fmt.Sprintf("INSERT INTO %s VALUES (%s)", n, vals))
			}
			stmts = append(stmts, "PRAGMA foreign_keys = 1")
			wipeCase(r, fmt.Sprintf("foreign keys %09b%s", m, act), true, stmts)
		}
	}
	// 2. Other objects.
	pieces := [][]string{
		{"CREATE VIEW v AS SELECT a, b FROM t", "CREATE VIEW a_first AS SELECT * FROM v"},
		{"CREATE VIEW iv AS SELECT 1 AS x", "CREATE TRIGGER ivt INSTEAD OF INSERT ON iv BEGIN DELETE FROM t; END"},
		{"CREATE TRIGGER g AFTER DELETE ON t BEGIN INSERT INTO log VALUES (1); END", "CREATE TABLE log (x)"},
		{"CREATE TRIGGER keep BEFORE DELETE ON t BEGIN SELECT RAISE(ABORT, 'no'); END"},
		{"CREATE VIRTUAL TABLE mail USING fts5(subject, body)", "INSERT INTO mail VALUES ('x', 'y')"},
		{"CREATE VIRTUAL TABLE geo USING rtree(id, x0, x1)", "CREATE VIRTUAL TABLE ext USING fts5(b, content='t', content_rowid='rowid')"},
		{"CREATE TABLE au (id INTEGER PRIMARY KEY AUTOINCREMENT)", "INSERT INTO au DEFAULT VALUES"},
		{"CREATE INDEX ti ON t (a)", "ANALYZE"},
		{"CREATE TABLE sqddl_history (filename TEXT PRIMARY KEY)", "CREATE TABLE wr (a PRIMARY KEY, b REFERENCES wr (a)) WITHOUT ROWID"},
	}
	for m := 0; m < 1<<len(pieces); m++ {
		stmts := []string{"CREATE TABLE t (a INT, b TEXT)", "INSERT INTO t VALUES (1, 'x'), (2, NULL)"}
		for i, p := range pieces {
			if m>>i&1 == 1 {
				stmts = append(stmts, p...)
			}
		}
		wipeCase(r, "objects "+strings.Join(stmts, "; "), true, stmts)
	}
	// 3. Names.
	for _, n := range introNames {
		wipeCase(r, fmt.Sprintf("name %q", n), false, []string{
			"CREATE TABLE " + qid(n) + " (id INTEGER PRIMARY KEY)",
			"CREATE VIEW " + qid("v "+n) + " AS SELECT 1 AS x",
			"CREATE TRIGGER " + qid(n) + " AFTER INSERT ON " + qid(n) + " BEGIN SELECT 1; END",
			"CREATE INDEX " + qid("i"+n) + " ON " + qid(n) + " (id)",
			"CREATE VIRTUAL TABLE " + qid("f "+n) + " USING fts5(x)",
		})
	}
	wipeCase(r, "empty", true, []string{"SELECT 1"})
	wipeCase(r, "literal names", false, []string{"CREATE TABLE 't' (a)", "CREATE VIEW 'v' AS SELECT 1"})
	runC15Servers(r)
	r.Wait()
}
