package checks

import (
	"context"
	"fmt"
	"runtime/debug"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
	"verifmc/faultdb"
)

func init() {
	core.Register(&core.Check{
		Prop:  "C02",
		Level: "fault_enumeration",
		Rule:  "one evaluation = one migrate run on one directory with one fault schedule (database call k answered with an error, executed and then reported as failed, connection lost before or after it, or the context cancelled at it, or the k-th file of the directory unreadable; thorough: pairs of such faults), followed by a healthy run and an idle run; distinct = distinct (log, history) after the faulty run; non-trivial = the fault struck while scripts were pending",
		Assumptions: []string{
			"the database is SQLite behind a database/sql driver that injects the faults; a lost connection rolls back its open transaction",
			"a COMMIT or an autocommitted history write that took effect but is answered with an error on a healthy connection is not a modelled fault (losing the connection right after it is)",
		},
		Run: runC02,
	})
}

const modeCancel = faultdb.Mode(100)

func modeName(m faultdb.Mode) string {
	if m == modeCancel {
		return "cancel"
	}
	return m.String()
}

// mixedDirs enumerates directories of n files over all kinds, with at most one broken file.
func mixedDirs(n int) []migDir {
	kinds := []string{"%d.sql", "%d.tx.sql", "%d.txoff.sql", "repeatable/%d.sql"}
	var out []migDir
	total := 1
	for i := 0; i < n; i++ {
		total *= len(kinds)
	}
	for c := 0; c < total; c++ {
		var names []string
		x := c
		for i := 0; i < n; i++ {
			names = append(names, fmt.Sprintf(kinds[x%len(kinds)], i+1))
			x /= len(kinds)
		}
		for bad := -1; bad < n; bad++ {
			d := mkDir(names)
			d.extras = ""
			if bad >= 0 {
				d.st[bad] = fBad
			}
			out = append(out, d)
		}
	}
	return out
}

func runC02(r *core.Runner) {
	var dirs []migDir
	for n := 1; n <= r.Pick(3, 4); n++ {
		dirs = append(dirs, mixedDirs(n)...)
	}
	hddl := histDDL("sqddl_history")
	modes := []faultdb.Mode{faultdb.ErrBefore, faultdb.ErrAfter, faultdb.Crash, faultdb.CrashPost, modeCancel}
	for _, d := range dirs {
		d := d
		// Histories: nothing yet; first file applied; last file failed before.
		n := len(d.files)
		hs := []int{0}
		if n >= 2 {
			hs = append(hs, 1, 2)
		}
		for _, h := range hs {
			h := h
			if d.st[0] == fBad && h == 1 {
				continue
			}
			mk := func() *faultdb.Server {
				s := faultdb.New("")
				s.MustExec(logDDL)
				switch h {
				case 1:
					c := ""
					if d.files[0].rep {
						c = checksum(contents(d.files[0].name, fGood))
					}
					s.MustExec(hddl + "; INSERT INTO sqddl_history (filename, checksum, started_at, time_taken_ns, success) VALUES (" + qlit(d.files[0].name) + "," + qlit(c) + ",'2020-01-01 00:00:00',5,1)")
				case 2:
					s.MustExec(hddl + "; INSERT INTO sqddl_history (filename, checksum, started_at, time_taken_ns, success) VALUES (" + qlit(d.files[n-1].name) + ",'','2020-01-01 00:00:00',5,0)")
				}
				return s
			}
			base := fmt.Sprintf("%shist=%d", d.key(), h)
			r.Go(base, func(t *core.T) {
				s := mk()
				ref := &faultFS{FS: d.fs(), k: -1}
				ops := faultyRun(t, d, s, nil, ref, true)
				s.Close()
				for k := range ref.names {
					for _, read := range []bool{false, true} {
						s := mk()
						faultyRun(t, d, s, nil, &faultFS{FS: d.fs(), k: k, read: read}, false)
						s.Close()
					}
				}
				for _, op := range ops {
					if r.Expired() {
						break
					}
					for _, m := range modes {
						if m == faultdb.ErrAfter && falseNegative(op) {
							continue
						}
						s := mk()
						t.Logf("fault %s at %s", modeName(m), op)
						ops2 := faultyRun(t, d, s, map[int]faultdb.Mode{op.Seq: m}, nil, false)
						s.Close()
						if !r.Thorough() && n > 2 || m == faultdb.Crash || m == faultdb.CrashPost || m == modeCancel || n > 3 {
							continue
						}
						// A second fault in what the run does after the first.
						for _, op2 := range ops2 {
							if op2.Seq <= op.Seq {
								continue
							}
							for _, m2 := range modes {
								if m2 == faultdb.ErrAfter && falseNegative(op2) {
									continue
								}
								s := mk()
								faultyRun(t, d, s, map[int]faultdb.Mode{op.Seq: m, op2.Seq: m2}, nil, false)
								s.Close()
							}
						}
					}
				}
			})
		}
	}
	r.Wait()
}

// falseNegative reports whether reporting a failure after the operation took effect would
// be a lie no client could see through.
func falseNegative(op faultdb.Op) bool {
	return op.Kind == "commit" || op.Kind == "exec" && !op.InTx && strings.Contains(op.SQL, "sqddl_history")
}

// faultyRun migrates with the given faults, judges the result, repairs the cause and
// migrates again. It returns the database calls of the first run.
func faultyRun(t *core.T, d migDir, s *faultdb.Server, faults map[int]faultdb.Mode, ffs *faultFS, healthy bool) []faultdb.Op {
	before := readHist(s, "sqddl_history")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var struck []string
	soft := true // only faults the run may legitimately ignore
	s.Hook = func(op faultdb.Op) faultdb.Mode {
		m, ok := faults[op.Seq]
		if !ok {
			return faultdb.OK
		}
		struck = append(struck, modeName(m)+" at "+op.String())
		if m == modeCancel {
			cancel()
			return faultdb.OK
		}
		if op.Kind != "rollback" && op.Kind != "ping" {
			soft = false
		}
		return m
	}
	s.Record()
	db := s.DB()
	var out syncBuf
	if ffs == nil {
		ffs = &faultFS{FS: d.fs(), k: -1}
	}
	err := cancelSafe(ctx, (&ddl.MigrateCmd{DB: db, Dialect: ddl.DialectSQLite, DirFS: ffs, Stderr: &out, Ctx: ctx}).Run)
	db.Close()
	ops := s.Ops()
	s.Reset()
	t.Step(1)
	if ffs.hit {
		struck = append(struck, fmt.Sprintf("file error (read=%v) at %s", ffs.read, ffs.names[ffs.k]))
		soft = false
	}
	what := fmt.Sprintf("[%s] faults %v", d.key(), struck)
	e := d.expect(ddl.DialectSQLite, nil, before, false)
	if len(e.groups) > 0 && len(struck) > 0 {
		t.Nontrivial()
	}
	log := readLog(s)
	after := readHist(s, "sqddl_history")
	t.State(d.key(), strings.Join(log, ","), histKey(after))
	complete := strings.Join(log, ",") == strings.Join(e.log, ",")
	if healthy {
		d.checkMigrate(t, e, before, after, log, err, false)
	}
	if err == nil && (e.fails || !soft) {
		t.Fail("unreported", "%s: migrate reported success", what)
	}
	if err == nil && !complete {
		t.Fail("unreported", "%s: migrate reported success but executed %v", what, log)
	}
	applied := func(f migFile) bool {
		row, ok := after[f.name]
		return ok && row.success && (!f.rep || row.checksum == checksum(contents(f.name, d.st[d.idx(f.name)])))
	}
	// The log must be whole groups followed by at most one unfinished non-transactional script.
	rest := log
	stopped := ""
	for _, g := range e.groups {
		var eff []string
		ok := true
		for _, f := range g {
			x, good := effects(f.name, d.st[d.idx(f.name)])
			eff = append(eff, x...)
			ok = ok && good
		}
		if len(g) == 1 && g[0].nontx(ddl.DialectSQLite) {
			f := g[0]
			n := 0
			for n < len(eff) && n < len(rest) && rest[n] == eff[n] {
				n++
			}
			rest = rest[n:]
			if stopped != "" && n > 0 {
				t.Fail("ran-after-failure", "%s: %s ran after %s failed; log %v", what, f.name, stopped, log)
			}
			undone := false
			if len(rest) > 0 && rest[0] == f.undo() {
				rest = rest[1:]
				undone = true
				if len(rest) > 0 && rest[0] == "undo done" {
					rest = rest[1:]
				}
			}
			if applied(f) && (n < len(eff) || !ok || undone) {
				t.Fail("history-lies", "%s: %s is recorded as applied; log %v", what, f.name, log)
			}
			if !applied(f) {
				stopped = f.name
			}
			continue
		}
		present := len(rest) >= len(eff) && strings.Join(rest[:len(eff)], ",") == strings.Join(eff, ",")
		if present {
			rest = rest[len(eff):]
			if stopped != "" {
				t.Fail("ran-after-failure", "%s: group %v took effect after %s failed; log %v", what, g, stopped, log)
			}
		} else {
			stopped = g[0].name
		}
		for _, f := range g {
			if applied(f) != present {
				t.Fail("not-atomic", "%s: effects of group %v present=%v but history says %s applied=%v; log %v", what, g, present, f.name, applied(f), log)
			}
		}
	}
	if len(rest) > 0 {
		t.Fail("half-applied", "%s: log %v has unexplained effects %v", what, log, rest)
	}
	for n, row := range before {
		r2, ok := after[n]
		if !ok || (row.success && r2 != row) {
			t.Fail("history-lost", "%s: history row %s changed from %+v to %+v", what, n, row, r2)
		}
	}
	t.Outcome(fmt.Sprintf("err=%v complete=%v", err != nil, complete))
	// Repair the cause and run again.
	fixed := d.clone()
	for i := range fixed.st {
		fixed.st[i] = fGood
	}
	db = s.DB()
	err2 := (&ddl.MigrateCmd{DB: db, Dialect: ddl.DialectSQLite, DirFS: fixed.fs(), Stderr: &out}).Run()
	if err2 != nil {
		t.Fail("rerun", "%s: running again failed: %s", what, errStr(err2))
	}
	log2 := readLog(s)
	count := map[string]int{}
	for _, x := range log2 {
		count[x]++
	}
	final := readHist(s, "sqddl_history")
	for _, f := range fixed.selectFiles(nil) {
		row, ok := final[f.name]
		if !ok || !row.success || f.rep && row.checksum != checksum(contents(f.name, fGood)) {
			t.Fail("rerun-history", "%s: after running again %s is recorded as %+v", what, f.name, row)
		}
		if b, ok := before[f.name]; ok && b.success && (!f.rep || b.checksum == checksum(contents(f.name, fGood))) {
			if count[f.name+"#1"] != 0 {
				t.Fail("rerun-applied", "%s: %s was already applied but ran: %v", what, f.name, log2)
			}
			continue
		}
		for _, x := range []string{f.name + "#1", f.name + "#2"} {
			if count[x] == 0 || count[x] > 1 && !f.nontx(ddl.DialectSQLite) {
				t.Fail("rerun-effects", "%s: after running again %s took effect %d times: %v", what, x, count[x], log2)
			}
		}
	}
	err3 := (&ddl.MigrateCmd{DB: db, Dialect: ddl.DialectSQLite, DirFS: fixed.fs(), Stderr: &out}).Run()
	if log3 := readLog(s); err3 != nil || len(log3) != len(log2) {
		t.Fail("idle-run", "%s: a third run did %v (err %s)", what, log3[len(log2):], errStr(err3))
	}
	db.Close()
	t.Trace(1)
	if t.R.Only == "" {
		t.Sample(map[string]any{"dir": d.key(), "faults": struck, "error": errStr(err), "log": log, "history": histKey(after), "log_after_rerun": log2})
	}
	return ops
}

// cancelSafe runs f. database/sql itself has a rare race when a connection is used while
// a cancelled transaction is being taken off it (Conn.grabConn against Conn.close);
// the resulting nil dereference inside database/sql is not the code under test's.
func cancelSafe(ctx context.Context, f func() error) (err error) {
	defer func() {
		if v := recover(); v != nil {
			if ctx.Err() != nil && strings.Contains(string(debug.Stack()), "database/sql.(*driverConn).Lock") {
				err = ctx.Err()
				return
			}
			panic(v)
		}
	}()
	return f()
}
