package checks

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing/fstest"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
	"verifmc/faultdb"
)

func init() {
	core.Register(&core.Check{
		Prop:  "C01",
		Level: "model_checking",
		Rule:  "state = (contents of every migration file, every history row); every reachable state of each small world is expanded with every command; a transition is one command executed on the real code and compared with the reference model; non-trivial = the command had at least one script to run or row to change",
		Assumptions: []string{
			"scripts are observed through a log table they append to",
			"worlds of 3 (quick) to 4 (thorough) migration files of every kind; file contents from {absent, two good versions, CRLF variant, two broken versions}",
		},
		Run: func(r *core.Runner) { migBFS(r, false) },
	})
	core.Register(&core.Check{
		Prop:  "C04",
		Level: "model_checking",
		Rule:  "state = (contents of every migration file, every history row); at every reachable state every ls view is compared with the reference model and with what a migrate on a copy executes, and every touch/rm/mv is compared with the model; then every database call of each command is failed",
		Assumptions: []string{
			"same worlds as C01",
		},
		Run: func(r *core.Runner) { migBFS(r, true); c04Faults(r) },
	})
}

type migWorld struct {
	name  string
	files []string
	hist  string
	ddl   string
}

func migWorlds(thorough bool) []migWorld {
	w := []migWorld{
		{name: "plain-txoff-rep", files: []string{"01.sql", "02.txoff.sql", "repeatable/r.sql"}, hist: "sqddl_history"},
		{name: "order", files: []string{"10.sql", "9.sql", "repeatable/sub/a.sql"}, hist: "sqddl_history"},
		{name: "tx", files: []string{"01.sql", "02.tx.sql", "03.sql"}, hist: "sqddl_history"},
		{name: "quotes", files: []string{"it's a 1.sql", `b"c.tx.sql`, "repeatable/o'r.sql"}, hist: `hist "x"`},
	}
	if thorough {
		w = append(w,
			migWorld{name: "rep2", files: []string{"repeatable/a.sql", "repeatable/b.tx.sql", "zz.sql"}, hist: "sqddl_history"},
			migWorld{name: "rep3", files: []string{"repeatable/a.sql", "repeatable/d/b.txoff.sql", "zz.txoff.sql"}, hist: "sqddl_history"},
			migWorld{name: "txoff2", files: []string{"01.txoff.sql", "02.txoff.sql", "03.sql"}, hist: "sqddl_history"},
			migWorld{name: "dots", files: []string{"01.tx.tx.sql", "02.a.b.sql", "03.txoff.tx.sql"}, hist: "select"},
			migWorld{name: "four", files: []string{"01.sql", "02.sql", "03.txoff.sql", "repeatable/r.sql"}, hist: "sqddl_history"},
			migWorld{name: "four2", files: []string{"01.sql", "02.tx.sql", "03.sql", "repeatable/r.sql"}, hist: "sqddl_history"},
		)
	}
	return w
}

type migAction struct {
	kind  string // migrate, migrate-skip, touch, rm, mv
	args  []string
	files map[int]int // edit
}

func (a migAction) String() string { return a.kind + "(" + strings.Join(a.args, ",") + ")" }

// migState is a state of a world as plain data; databases are rebuilt from it.
type migState struct {
	dir   migDir
	table bool // the history table exists
	hist  map[string]histRow
}

func (s *migState) key() string {
	k := s.dir.key() + "| " + histKey(s.hist)
	if !s.table {
		k += "(no table)"
	}
	return k
}

// histDDL returns the statements with which the code under test creates its history table.
func histDDL(table string) string {
	s := faultdb.New("")
	defer s.Close()
	db := s.DB()
	defer db.Close()
	err := (&ddl.MigrateCmd{DB: db, Dialect: ddl.DialectSQLite, DirFS: fstest.MapFS{}, HistoryTable: table, Stderr: &syncBuf{}}).Run()
	if err != nil {
		core.Broken("creating the history table: %v", err)
	}
	return strings.Join(s.Strings("SELECT sql FROM sqlite_schema WHERE sql IS NOT NULL"), ";")
}

// server builds a database in the state.
func (s *migState) server(w *migWorld) *faultdb.Server {
	srv := faultdb.New("")
	script := "BEGIN;" + logDDL + ";"
	if s.table {
		script += w.ddl + ";"
		for _, row := range s.hist {
			script += "INSERT INTO " + qid(w.hist) + " (filename, checksum, started_at, time_taken_ns, success) VALUES (" + row.raw + ");"
		}
	}
	srv.MustExec(script + "COMMIT")
	return srv
}

func hasTable(s *faultdb.Server, table string) bool {
	return len(s.MustQuery(`SELECT 1 FROM sqlite_schema WHERE type='table' AND name=?`, table)) > 0
}

func migBFS(r *core.Runner, c04 bool) {
	for _, w := range migWorlds(r.Thorough()) {
		if r.Stop() {
			return
		}
		w := w
		runWorld(r, &w, c04)
	}
	if !c04 && (r.Only == "" || strings.HasPrefix(r.Only, "cli")) {
		migCLI(r)
	}
}

func mkDir(names []string) migDir {
	d := migDir{undo: true, extras: "noise"}
	for _, n := range names {
		d.files = append(d.files, migFile{n, strings.HasPrefix(n, "repeatable/")})
		d.st = append(d.st, fGood)
	}
	return d
}

func runWorld(r *core.Runner, w *migWorld, c04 bool) {
	if r.Only != "" && !strings.HasPrefix(r.Only, w.name+":") {
		return
	}
	w.ddl = histDDL(w.hist)
	var mu sync.Mutex
	seen := map[string]bool{}
	var frontier, next []*migState
	add := func(s *migState) {
		k := s.key()
		mu.Lock()
		defer mu.Unlock()
		if !seen[k] {
			seen[k] = true
			next = append(next, s)
		}
	}
	add(&migState{dir: mkDir(w.files), hist: map[string]histRow{}})
	depth := 0
	for len(next) > 0 && !r.Stop() {
		frontier, next = next, nil
		sort.Slice(frontier, func(i, j int) bool { return frontier[i].key() < frontier[j].key() })
		depth++
		for _, s := range frontier {
			s := s
			// File edits are steps of the user, not of the code.
			for _, d2 := range editsOf(s.dir) {
				add(&migState{dir: d2, table: s.table, hist: s.hist})
			}
			for _, a := range actionsOf(s.dir, s.hist) {
				a := a
				r.Go2(w.name+": "+s.key()+" => "+a.String(), func(t *core.T) {
					if succ := applyAction(t, w, s, a); succ != nil {
						add(succ)
					}
				})
			}
			if c04 {
				r.Go(w.name+": "+s.key()+" => ls", func(t *core.T) { checkLs(t, w, s) })
			}
		}
		r.Wait()
	}
	r.Count("worlds", 1)
	r.Count("states in "+w.name, int64(len(seen)))
	r.Count("depth of "+w.name, int64(depth))
}

func editsOf(d migDir) []migDir {
	var out []migDir
	for i, f := range d.files {
		sts := []int{fAbsent, fGood, fBad}
		if f.rep {
			sts = []int{fAbsent, fGood, fGood2, fCRLF, fBad}
		}
		for _, st := range sts {
			if st != d.st[i] {
				e := d.clone()
				e.st[i] = st
				out = append(out, e)
			}
		}
	}
	return out
}

func actionsOf(d migDir, h map[string]histRow) []migAction {
	var names, present []string
	for i, f := range d.files {
		names = append(names, f.name)
		if d.st[i] != fAbsent {
			present = append(present, f.name)
		}
	}
	acts := []migAction{{kind: "migrate"}, {kind: "migrate-skip"}, {kind: "touch"}}
	if len(present) > 0 {
		rev := append([]string(nil), present...)
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		acts = append(acts, migAction{kind: "migrate", args: rev})
		acts = append(acts, migAction{kind: "migrate", args: []string{present[0], present[0]}})
		acts = append(acts, migAction{kind: "touch", args: rev})
		acts = append(acts, migAction{kind: "rm", args: rev})
	}
	for _, n := range names {
		if d.st[d.idx(n)] == fAbsent {
			acts = append(acts, migAction{kind: "migrate", args: []string{n}})
			acts = append(acts, migAction{kind: "touch", args: []string{n}})
		} else {
			acts = append(acts, migAction{kind: "migrate", args: []string{n}})
			acts = append(acts, migAction{kind: "touch", args: []string{n}})
		}
		acts = append(acts, migAction{kind: "rm", args: []string{n}})
	}
	for i := range names {
		acts = append(acts, migAction{kind: "mv", args: []string{names[i], names[(i+1)%len(names)]}})
	}
	acts = append(acts, migAction{kind: "mv", args: []string{"nosuch.sql", names[0]}})
	return acts
}

var affectedRe = regexp.MustCompile(`(?m)^(\d+) rows? affected\b`)

func applyAction(t *core.T, w *migWorld, s *migState, a migAction) *migState {
	srv := s.server(w)
	defer srv.Close()
	db := srv.DB()
	defer db.Close()
	t.Step(1)
	t.State(w.name, s.key())
	var out syncBuf
	var err error
	before := s.hist
	dumpBefore := ""
	if a.kind != "migrate" && a.kind != "migrate-skip" {
		dumpBefore = sqliteDump(srv, w.hist)
	}
	switch a.kind {
	case "migrate", "migrate-skip":
		missing := false
		for _, n := range a.args {
			if s.dir.st[s.dir.idx(n)] == fAbsent {
				missing = true
			}
		}
		cmd := &ddl.MigrateCmd{DB: db, Dialect: ddl.DialectSQLite, DirFS: s.dir.fs(), Filenames: append([]string(nil), a.args...), Stderr: &out, HistoryTable: w.hist, SkipHistoryTable: a.kind == "migrate-skip", Ctx: context.Background()}
		err = cmd.Run()
		after := readHist(srv, w.hist)
		log := readLog(srv)
		if missing {
			if err == nil {
				t.Fail("missing-file", "migrate %v with a missing file reported success", a.args)
			}
			if len(log) > 0 {
				t.Fail("missing-file", "migrate %v with a missing file executed %v", a.args, log)
			}
			if histKey(after) != histKey(before) {
				t.Fail("missing-file", "history changed: %s -> %s", histKey(before), histKey(after))
			}
		} else {
			var args []string
			if len(a.args) > 0 {
				args = a.args
			}
			e := s.dir.expect(ddl.DialectSQLite, args, before, a.kind == "migrate-skip")
			if len(e.groups) > 0 {
				t.Nontrivial()
			}
			s.dir.checkMigrate(t, e, before, after, log, err, a.kind == "migrate-skip")
			if a.kind == "migrate-skip" && histKey(after) != histKey(before) {
				t.Fail("skip-history", "history changed with -skip-history-table: %s -> %s", histKey(before), histKey(after))
			}
			t.Trace(1)
			t.Outcome(fmt.Sprintf("%s run=%d fail=%v", a.kind, len(e.done)+len(e.attempted), e.fails))
		}
	case "touch":
		missing := false
		for _, n := range a.args {
			if s.dir.st[s.dir.idx(n)] == fAbsent {
				missing = true
			}
		}
		cmd := &ddl.TouchCmd{DB: db, Dialect: ddl.DialectSQLite, DirFS: s.dir.fs(), Filenames: append([]string(nil), a.args...), Stderr: &out, HistoryTable: w.hist}
		err = cmd.Run()
		after := readHist(srv, w.hist)
		var args []string
		if len(a.args) > 0 {
			args = a.args
		}
		want := map[string]histRow{}
		for k, v := range before {
			want[k] = v
		}
		n := 0
		if missing {
			if err == nil {
				t.Fail("missing-file", "touch %v with a missing file reported success", a.args)
			}
		} else {
			if err != nil {
				t.Fail("error", "touch failed: %s", errStr(err))
			}
			for _, f := range s.dir.selectFiles(args) {
				n++
				row := histRow{success: true}
				if f.rep {
					row.checksum = checksum(contents(f.name, s.dir.st[s.dir.idx(f.name)]))
				}
				want[f.name] = row
			}
			checkAffected(t, out.String(), n)
		}
		for k, v := range after {
			x, ok := want[k]
			f := migFile{name: k, rep: strings.HasPrefix(k, "repeatable/")}
			if !ok || x.success != v.success || (f.rep && x.checksum != v.checksum) {
				t.Fail("touch-history", "touch %v: row %s is %+v, expected %+v", a.args, k, v, x)
			}
			if ok && x.raw != "" && x.raw != v.raw {
				t.Fail("touch-other", "touch %v changed row %s: %s -> %s", a.args, k, x.raw, v.raw)
			}
		}
		for k := range want {
			if _, ok := after[k]; !ok {
				t.Fail("touch-history", "touch %v: row %s missing", a.args, k)
			}
		}
		t.Trace(1)
		t.Outcome("touch")
	case "rm":
		cmd := &ddl.RmCmd{DB: db, Dialect: ddl.DialectSQLite, Filenames: append([]string(nil), a.args...), Stderr: &out, HistoryTable: w.hist}
		err = cmd.Run()
		after := readHist(srv, w.hist)
		if err != nil {
			t.Fail("error", "rm failed: %s", errStr(err))
		}
		want := map[string]histRow{}
		n := 0
		for k, v := range before {
			del := false
			for _, x := range a.args {
				if x == k {
					del = true
				}
			}
			if del {
				n++
			} else {
				want[k] = v
			}
		}
		checkAffected(t, out.String(), n)
		compareHist(t, "rm", want, after)
		t.Trace(1)
		t.Outcome("rm")
	case "mv":
		cmd := &ddl.MvCmd{DB: db, Dialect: ddl.DialectSQLite, SrcFilename: a.args[0], DestFilename: a.args[1], Stderr: &out, HistoryTable: w.hist}
		err = cmd.Run()
		after := readHist(srv, w.hist)
		want := map[string]histRow{}
		for k, v := range before {
			want[k] = v
		}
		src, ok := before[a.args[0]]
		_, clash := before[a.args[1]]
		if ok && clash {
			if err == nil {
				t.Fail("mv-clash", "mv %v onto an existing row reported success: %q", a.args, out.String())
			}
		} else {
			if err != nil {
				t.Fail("error", "mv failed: %s", errStr(err))
			}
			n := 0
			if ok {
				n = 1
				delete(want, a.args[0])
				src.raw = ""
				want[a.args[1]] = src
			}
			checkAffected(t, out.String(), n)
		}
		compareHist(t, "mv", want, after)
		t.Trace(1)
		t.Outcome("mv")
	}
	if dumpBefore != "" {
		if d := sqliteDump(srv, w.hist); d != dumpBefore {
			t.Fail("other-tables", "%s changed something besides the history:\n%s", a, diff(strings.Split(dumpBefore, "\n"), strings.Split(d, "\n")))
		}
	}
	t.Sample(map[string]string{"world": w.name, "state": s.key(), "command": a.String(), "history_after": histKey(readHist(srv, w.hist)), "executed": strings.Join(readLog(srv), " "), "error": errStr(err)})
	return &migState{dir: s.dir, table: hasTable(srv, w.hist), hist: readHist(srv, w.hist)}
}

func checkAffected(t *core.T, out string, n int) {
	m := affectedRe.FindStringSubmatch(out)
	if m == nil || m[1] != fmt.Sprint(n) {
		t.Fail("rows-affected", "printed %q, %d rows were affected", out, n)
	}
}

func compareHist(t *core.T, what string, want, got map[string]histRow) {
	for k, v := range got {
		x, ok := want[k]
		if !ok || x.success != v.success || x.checksum != v.checksum || (x.raw != "" && x.raw != v.raw) {
			t.Fail(what+"-history", "row %s is %+v, expected %+v (present %v)", k, v, x, ok)
		}
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			t.Fail(what+"-history", "row %s missing", k)
		}
	}
}

// checkLs compares every view of ls with the model and with a real migrate.
func checkLs(t *core.T, w *migWorld, s *migState) {
	status := map[string]string{}
	var order []string
	pend := map[string]bool{}
	for _, f := range s.dir.pending(nil, s.hist, false) {
		pend[f.name] = true
	}
	for _, f := range s.dir.selectFiles(nil) {
		order = append(order, f.name)
		switch row, ok := s.hist[f.name]; {
		case !pend[f.name]:
			status[f.name] = "applied"
		case ok && !row.success:
			status[f.name] = "failed"
		default:
			status[f.name] = "pending"
		}
	}
	var missing []string
	for k := range s.hist {
		if status[k] == "" {
			missing = append(missing, k)
		}
	}
	sort.Slice(missing, func(i, j int) bool {
		ri, rj := strings.HasPrefix(missing[i], "repeatable/"), strings.HasPrefix(missing[j], "repeatable/")
		if ri != rj {
			return rj
		}
		return missing[i] < missing[j]
	})
	srv := s.server(w)
	defer srv.Close()
	db := srv.DB()
	defer db.Close()
	dump := sqliteDump(srv)
	for mask := 0; mask < 32; mask++ {
		inc := map[string]bool{"pending": mask&1 != 0, "applied": mask&2 != 0, "failed": mask&4 != 0, "missing": mask&8 != 0}
		all := mask&16 != 0
		if all && mask != 16 && mask != 31 {
			continue
		}
		var out syncBuf
		cmd := &ddl.LsCmd{DB: db, Dialect: ddl.DialectSQLite, DirFS: s.dir.fs(), Stdout: &out, HistoryTable: w.hist, IncludePending: inc["pending"], IncludeApplied: inc["applied"], IncludeFailed: inc["failed"], IncludeMissing: inc["missing"], IncludeAll: all}
		if err := cmd.Run(); err != nil {
			t.Fail("ls-error", "ls failed: %s", errStr(err))
			continue
		}
		t.Step(1)
		if all {
			inc = map[string]bool{"pending": true, "applied": true, "failed": true, "missing": true}
		} else if mask == 0 {
			inc["pending"], inc["failed"] = true, true
		}
		var want []string
		for _, n := range order {
			if inc[status[n]] {
				want = append(want, "["+status[n]+"] "+n)
			}
		}
		if inc["missing"] {
			for _, n := range missing {
				want = append(want, "[missing] "+n)
			}
		}
		var got []string
		for _, l := range strings.Split(strings.TrimSuffix(out.String(), "\n"), "\n") {
			if l != "" {
				got = append(got, lsTail.ReplaceAllString(l, ""))
			}
		}
		if strings.Join(want, "\n") != strings.Join(got, "\n") {
			t.Fail("ls", "view mask=%05b\nwant %q\ngot  %q", mask, want, got)
		}
		if mask == 0 {
			if len(want) > 0 {
				t.Nontrivial()
			}
			// Differential: what does migrate execute from here?
			c := s.server(w)
			c.Record()
			cdb := c.DB()
			var o syncBuf
			m := &ddl.MigrateCmd{DB: cdb, Dialect: ddl.DialectSQLite, DirFS: s.dir.fs(), Stderr: &o, HistoryTable: w.hist}
			runErr := m.Run()
			ran := map[string]bool{}
			for _, op := range c.Ops() {
				if op.Kind == "exec" {
					for i, f := range s.dir.files {
						if s.dir.st[i] != fAbsent && op.SQL == contents(f.name, s.dir.st[i]) {
							ran[f.name] = true
						}
					}
				}
			}
			listed := map[string]bool{}
			for _, g := range got {
				if _, n, ok := strings.Cut(g, "] "); ok {
					listed[n] = true
				}
			}
			for n := range ran {
				if !listed[n] {
					t.Fail("ls-vs-migrate", "migrate executed %s which ls did not list", n)
				}
			}
			if runErr == nil {
				for n := range listed {
					if !ran[n] {
						t.Fail("ls-vs-migrate", "ls listed %s but migrate did not execute it", n)
					}
				}
			}
			cdb.Close()
			c.Close()
			t.Trace(1)
		}
	}
	if sqliteDump(srv) != dump {
		t.Fail("ls-writes", "ls changed the database")
	}
}

var lsTail = regexp.MustCompile(` \(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d [^()]*\)$`)

// migCLI explores how file arguments on the command line select files.
func migCLI(r *core.Runner) {
	base, err := os.MkdirTemp("", "c01cli")
	if err != nil {
		core.Broken("%v", err)
	}
	defer os.RemoveAll(base)
	old, _ := os.Getwd()
	if err := os.Chdir(base); err != nil {
		core.Broken("%v", err)
	}
	defer os.Chdir(old)
	files := []string{"01.sql", "mig.sql", "mig01.sql", "mig_01.sql", "_01.sql", ".sql.sql", "repeatable/r.sql", "repeatable/mig.sql"}
	dirs := []string{"mig", "a.b/mig", "mig/mig"}
	n := 0
	for _, dir := range dirs {
		for _, spell := range []string{dir, "./" + dir, dir + "/", filepath.Join(base, dir)} {
			for _, f := range files {
				prefixes := map[string]string{"bare": "", "dir": strings.TrimSuffix(spell, "/") + "/"}
				if !filepath.IsAbs(spell) {
					prefixes["dot"] = "./" + dir + "/"
					prefixes["nodot"] = dir + "/"
				}
				pk := make([]string, 0)
				for k := range prefixes {
					pk = append(pk, k)
				}
				sort.Strings(pk)
				for _, k := range pk {
					arg := prefixes[k] + f
					for _, command := range []string{"migrate", "touch", "rm"} {
						n++
						name := fmt.Sprintf("cli%d.db", n)
						r.Do(fmt.Sprintf("cli: %s -dir %s %s [%s]", command, strings.ReplaceAll(spell, base, "$BASE"), f, k), func(t *core.T) {
							os.RemoveAll(filepath.Join(base, dir))
							for _, g := range files {
								p := filepath.Join(base, dir, g)
								os.MkdirAll(filepath.Dir(p), 0755)
								os.WriteFile(p, []byte(contents(g, fGood)), 0644)
							}
							srv := faultdb.New("")
							_ = name
							defer srv.Close()
							srv.MustExec(logDDL)
							var out syncBuf
							dsn := "sqlite:" + strings.Replace(srv.DSN(), "?", "?x=.db&", 1)
							var err error
							switch command {
							case "migrate":
								var cmd *ddl.MigrateCmd
								cmd, err = ddl.MigrateCommand("-db", dsn, "-dir", spell, arg)
								if err == nil {
									cmd.Stderr = &out
									err = cmd.Run()
								}
							case "touch":
								var cmd *ddl.TouchCmd
								cmd, err = ddl.TouchCommand("-db", dsn, "-dir", spell, arg)
								if err == nil {
									cmd.Stderr = &out
									err = cmd.Run()
								}
							case "rm":
								db := srv.DB()
								tc := &ddl.TouchCmd{DB: db, Dialect: ddl.DialectSQLite, DirFS: os.DirFS(dir), Stderr: &out}
								if err = tc.Run(); err != nil {
									core.Broken("%v", err)
								}
								db.Close()
								var cmd *ddl.RmCmd
								cmd, err = ddl.RmCommand("-db", dsn, "-dir", spell, arg)
								if err == nil {
									cmd.Stderr = &out
									err = cmd.Run()
								}
							}
							t.Step(1)
							t.Nontrivial()
							t.State("cli", command, spell, arg)
							if err != nil {
								t.Fail("cli-args", "%s -dir %s %s: %s", command, spell, arg, errStr(err))
								return
							}
							h := readHist(srv, "sqddl_history")
							var got []string
							for k := range h {
								got = append(got, k)
							}
							sort.Strings(got)
							want := []string{f}
							if command == "rm" {
								want = nil
								for _, g := range files {
									if g != f {
										want = append(want, g)
									}
								}
								sort.Strings(want)
							}
							if strings.Join(got, ",") != strings.Join(want, ",") {
								t.Fail("cli-args", "%s -dir %s %s: history has %v, expected %v", command, spell, arg, got, want)
							}
							log := readLog(srv)
							wl, _ := effects(f, fGood)
							if command != "migrate" {
								wl = nil
							}
							if strings.Join(log, ",") != strings.Join(wl, ",") {
								t.Fail("cli-args", "%s -dir %s %s executed %v, expected %v", command, spell, arg, log, wl)
							}
							t.Trace(1)
						})
					}
				}
			}
		}
	}
}

// c04Faults fails every database call of ls, touch, rm and mv.
func c04Faults(r *core.Runner) {
	dir := mkDir([]string{"01.sql", "02.sql", "03.txoff.sql", "repeatable/r.sql"})
	type cmdT struct {
		name string
		run  func(s *faultdb.Server, out *syncBuf) error
	}
	cmds := []cmdT{
		{"ls", func(s *faultdb.Server, out *syncBuf) error {
			db := s.DB()
			defer db.Close()
			return (&ddl.LsCmd{DB: db, Dialect: ddl.DialectSQLite, DirFS: dir.fs(), Stdout: out, IncludeAll: true}).Run()
		}},
		{"touch", func(s *faultdb.Server, out *syncBuf) error {
			db := s.DB()
			defer db.Close()
			return (&ddl.TouchCmd{DB: db, Dialect: ddl.DialectSQLite, DirFS: dir.fs(), Stderr: out}).Run()
		}},
		{"rm", func(s *faultdb.Server, out *syncBuf) error {
			db := s.DB()
			defer db.Close()
			return (&ddl.RmCmd{DB: db, Dialect: ddl.DialectSQLite, Filenames: []string{"01.sql", "gone.sql"}, Stderr: out}).Run()
		}},
		{"mv", func(s *faultdb.Server, out *syncBuf) error {
			db := s.DB()
			defer db.Close()
			return (&ddl.MvCmd{DB: db, Dialect: ddl.DialectSQLite, SrcFilename: "01.sql", DestFilename: "02.sql", Stderr: out}).Run()
		}},
	}
	for _, withHist := range []bool{false, true} {
		mk := func() *faultdb.Server {
			s := faultdb.New("")
			s.MustExec(logDDL)
			if withHist {
				db := s.DB()
				(&ddl.TouchCmd{DB: db, Dialect: ddl.DialectSQLite, DirFS: dir.fs(), Filenames: []string{"01.sql", "03.txoff.sql", "repeatable/r.sql"}, Stderr: &syncBuf{}}).Run()
				db.Close()
				s.MustExec("INSERT INTO sqddl_history (filename, success) VALUES ('gone.sql', 1), ('gone2.sql', 0)")
			}
			s.Reset()
			return s
		}
		for _, c := range cmds {
			c := c
			ref := mk()
			before := histNames(ref)
			ref.Record()
			var refOut syncBuf
			if err := c.run(ref, &refOut); err != nil {
				core.Broken("%s: %v", c.name, err)
			}
			ops := ref.Ops()
			after := histNames(ref)
			ref.Close()
			for k := range ops {
				for _, mode := range []faultdb.Mode{faultdb.ErrBefore, faultdb.ErrAfter, faultdb.Crash, faultdb.CrashPost} {
					k, mode := k, mode
					r.Go(fmt.Sprintf("fault: %s hist=%v op=%d %s %s", c.name, withHist, k, ops[k].Kind, mode), func(t *core.T) {
						s := mk()
						defer s.Close()
						s.Hook = func(op faultdb.Op) faultdb.Mode {
							if op.Seq == k {
								return mode
							}
							return faultdb.OK
						}
						s.Record()
						var out syncBuf
						err := c.run(s, &out)
						s.Reset()
						t.Step(1)
						t.State("fault", c.name, fmt.Sprint(withHist, k, mode))
						got := histNames(s)
						t.Outcome(fmt.Sprintf("fault %s err=%v", c.name, err != nil))
						if ops[k].Kind == "rollback" || ops[k].Kind == "ping" {
							return
						}
						if err == nil {
							t.Fail("swallowed", "%s: %s at %s, but the command reported success (output %q)", c.name, mode, ops[k], out.String())
						}
						if c.name == "ls" && got != before {
							t.Fail("ls-writes", "ls changed the history")
						}
						if got != before && got != after && got != "" {
							t.Fail("half-done", "%s: %s at %s left history %q", c.name, mode, ops[k], got)
						}
						t.Trace(1)
					})
				}
			}
		}
	}
	r.Wait()
}

func histNames(s *faultdb.Server) string {
	h := readHist(s, "sqddl_history")
	return histKey(h)
}
