package checks

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"compress/gzip"
	"database/sql/driver"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing/fstest"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
	"verifmc/faultdb"
)

func init() {
	core.Register(&core.Check{Prop: "C12", Level: "model_checking",
		Rule: "one evaluation = one database, archive, fault position or schedule family; a transition is one dump or load or, under a schedule, one database call; a trace is one complete run; a schedule is one order of the database calls of the concurrent workers",
		Run:  runC12,
		Assumptions: []string{
			"dumped databases are SQLite; concurrent loading, which SQLite does not do, is observed with a stand-in for Postgres, MySQL and SQL Server that keeps rows per transaction",
			"table names contain no slash",
		}})
}

func readZip(path string) (map[string]string, []string) {
	z, err := zip.OpenReader(path)
	if err != nil {
		core.Broken("%v", err)
	}
	defer z.Close()
	out := map[string]string{}
	var order []string
	for _, f := range z.File {
		rc, err := f.Open()
		if err != nil {
			core.Broken("%v", err)
		}
		b, err := io.ReadAll(rc)
		if err != nil {
			core.Broken("%v", err)
		}
		rc.Close()
		out[f.Name] = string(b)
		order = append(order, f.Name)
	}
	return out, order
}

func readTgz(path string) (map[string]string, []string) {
	f, err := os.Open(path)
	if err != nil {
		core.Broken("%v", err)
	}
	defer f.Close()
	g, err := gzip.NewReader(f)
	if err != nil {
		core.Broken("%v", err)
	}
	out := map[string]string{}
	var order []string
	for tr := tar.NewReader(g); ; {
		h, err := tr.Next()
		if err == io.EOF {
			return out, order
		}
		if err != nil {
			core.Broken("%v", err)
		}
		b, err := io.ReadAll(tr)
		if err != nil {
			core.Broken("%v", err)
		}
		out[h.Name] = string(b)
		order = append(order, h.Name)
	}
}

type entry struct{ name, text string }

func makeZip(es []entry) []byte {
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	for _, e := range es {
		w, err := z.Create(e.name)
		if err != nil {
			core.Broken("%v", err)
		}
		io.WriteString(w, e.text)
	}
	z.Close()
	return b.Bytes()
}

func makeTgz(es []entry) []byte {
	var b bytes.Buffer
	g := gzip.NewWriter(&b)
	w := tar.NewWriter(g)
	for _, e := range es {
		h := &tar.Header{Name: e.name, Mode: 0o644, Size: int64(len(e.text))}
		if strings.HasSuffix(e.name, "/") {
			h.Mode, h.Typeflag = 0o755, tar.TypeDir
		}
		if err := w.WriteHeader(h); err != nil {
			core.Broken("%v", err)
		}
		io.WriteString(w, e.text)
	}
	w.Close()
	g.Close()
	return b.Bytes()
}

func listing(m map[string]string) string {
	var b strings.Builder
	for _, n := range sortedKeys(m) {
		fmt.Fprintf(&b, "== %s\n%s\n", n, m[n])
	}
	return b.String()
}

// archiveWorlds are the databases of this check.
var archiveWorlds = map[string][]string{
	"empty":     {},
	"no rows":   {"CREATE TABLE a (x INT)", "CREATE TABLE b (y TEXT PRIMARY KEY)"},
	"one":       {"CREATE TABLE a (x INTEGER PRIMARY KEY, v TEXT)", "INSERT INTO a VALUES (1, 'x'), (2, NULL)"},
	"keys":      {"CREATE TABLE p (id INTEGER PRIMARY KEY, v TEXT UNIQUE)", "CREATE TABLE c (id INTEGER PRIMARY KEY, p INT REFERENCES p (id))", "CREATE INDEX ci ON c (p)", "CREATE UNIQUE INDEX pi ON p (v, id)", "INSERT INTO p VALUES (1, 'a'), (2, 'b')", "INSERT INTO c VALUES (5, 1), (6, 2), (7, NULL)"},
	"backwards": {"CREATE TABLE a (id INTEGER PRIMARY KEY, z INT REFERENCES z (id))", "CREATE TABLE z (id INTEGER PRIMARY KEY, a INT REFERENCES a (id))", "INSERT INTO a VALUES (1, 1)", "INSERT INTO z VALUES (1, 1)"},
	"names":     {`CREATE TABLE "my table" ("a b" TEXT, "c,d" TEXT)`, `CREATE TABLE "select" (x BLOB)`, `CREATE TABLE "_u" (x INT)`, `CREATE TABLE "a.b" (x INT)`, `CREATE TABLE "7_x" (x INT)`, `CREATE TABLE "Ünïcode" (x TEXT)`, `INSERT INTO "my table" VALUES ('1', '2')`, `INSERT INTO "select" VALUES (x'00ff')`, `INSERT INTO "_u" VALUES (1)`, `INSERT INTO "a.b" VALUES (2)`, `INSERT INTO "7_x" VALUES (3)`, `INSERT INTO "Ünïcode" VALUES ('é')`},
	"big":       {"CREATE TABLE a (id INTEGER PRIMARY KEY, v TEXT)", "WITH RECURSIVE n(i) AS (SELECT 1 UNION ALL SELECT i+1 FROM n WHERE i < 3000) INSERT INTO a SELECT i, printf('%0200d', i*7919) FROM n", "CREATE TABLE b (id INTEGER PRIMARY KEY, v TEXT)", "INSERT INTO b VALUES (1, 'x')"},
	"sqlnames":  {"CREATE TABLE schema (x INT)", "CREATE TABLE indexes (x INT)", "CREATE TABLE dump (x INT)", "INSERT INTO schema VALUES (1)", "INSERT INTO indexes VALUES (2)", "INSERT INTO dump VALUES (3)"},
}

func worldServer(name string) *faultdb.Server {
	s := faultdb.New("_foreign_keys=false")
	for _, q := range archiveWorlds[name] {
		s.MustExec(q)
	}
	return s
}

func runC12(r *core.Runner) {
	base := scratchDir()
	defer os.RemoveAll(base)
	n := 0
	mk := func() string { n++; return filepath.Join(base, fmt.Sprint(n)) }
	runArchives(r, mk)
	runDumpSchedules(r, mk)
	runDumpFaults(r, mk)
	runLoadFaults(r, mk)
	runLoadSchedules(r)
	r.Wait()
}

// runArchives: the three formats hold the same files and load the same, however they were packed.
func runArchives(r *core.Runner, mk func() string) {
	for _, world := range sortedKeys(archiveWorlds) {
		for _, mode := range []string{"", "schema", "data"} {
			dir := mk()
			r.Go2(fmt.Sprintf("formats %s mode=%s", world, mode), func(t *core.T) {
				t.Nontrivial()
				defer os.RemoveAll(dir)
				s := worldServer(world)
				defer s.Close()
				got := map[string]map[string]string{}
				for _, f := range []string{"dir", "zip", "tgz"} {
					t.Step(1)
					name, err := dump(s, dir, "dump", dumpSet{format: f, mode: mode})
					if err != nil {
						t.Fatal("dump", "%s: %v", f, err)
					}
					switch p := filepath.Join(dir, name); f {
					case "dir":
						got[f] = files(p)
					case "zip":
						got[f], _ = readZip(p)
					default:
						got[f], _ = readTgz(p)
					}
					t.State(listing(got[f]))
				}
				for _, f := range []string{"zip", "tgz"} {
					if a, b := listing(got["dir"]), listing(got[f]); a != b {
						t.Fail("files", "the %s file differs from the directory:\n%s", f, diffLines(a, b))
					}
				}
				if t.Failed() || mode == "data" {
					return
				}
				for _, f := range []string{"dump", "dump.zip", "dump.tgz"} {
					d := faultdb.New("")
					t.Step(1)
					t.Trace(1)
					if err := load(d, dir, dumpSet{}, f); err != nil {
						t.Fatal("load", "%s: %v", f, err)
					}
					if a, b := tablesOnly(s), tablesOnly(d); a != b {
						t.Fail("schema", "%s: %s", f, diffLines(a, b))
					}
					if a, b := cells(s), cells(d); mode == "" && a != b {
						t.Fail("rows", "%s: %s", f, diffLines(a, b))
					}
					d.Close()
				}
			})
		}
	}
	r.Wait()
	// Repacked archives.
	for _, world := range []string{"keys", "names", "one"} {
		s := worldServer(world)
		dir := mk()
		if _, err := dump(s, dir, "dump", dumpSet{format: "dir"}); err != nil {
			r.Do("repacked "+world, func(t *core.T) { t.Fatal("dump", "%v", err) })
			continue
		}
		fs := files(filepath.Join(dir, "dump"))
		os.RemoveAll(dir)
		wantSchema, wantRows := tablesOnly(s), cells(s)
		s.Close()
		orders := [][]string{sortedKeys(fs)}
		if len(fs) <= 6 {
			orders = permutations(sortedKeys(fs))
		} else {
			o := append([]string(nil), orders[0]...)
			sort.Sort(sort.Reverse(sort.StringSlice(o)))
			orders = append(orders, o)
		}
		junk := []entry{{"README.md", "x"}, {"deep/nested/a.csv", "nope\n1\n"}, {"other/p.csv", "id\n99\n"}, {"__MACOSX/._p.csv", "\x00"}, {"zz.sql", "syntax error"}, {"repeatable/zz.sql", "syntax error"}}
		for oi, order := range orders {
			for _, name := range []string{"dump.zip", "dump.tgz", "dump.tar.gz", "sub dir/my.dump.zip", "sub dir/my.dump.tgz", "dump"} {
				for _, prefix := range []string{"", "NAME/", "./"} {
					for _, j := range []bool{false, true} {
						if oi%7 != 0 && (j || name != "dump.zip" && name != "dump.tgz") && !r.Thorough() {
							continue
						}
						isZip, isDir := strings.HasSuffix(name, ".zip"), name == "dump"
						if isZip && prefix == "./" || isDir && (prefix != "" || oi > 0) {
							continue
						}
						r.Go2(fmt.Sprintf("repacked %s as %s prefix=%q junk=%v order=%v", world, name, prefix, j, order), func(t *core.T) {
							t.Nontrivial()
							t.Step(1)
							t.Trace(1)
							p := strings.ReplaceAll(prefix, "NAME", strings.TrimSuffix(strings.TrimSuffix(strings.TrimSuffix(filepath.Base(name), ".zip"), ".tgz"), ".tar.gz"))
							var es []entry
							if p != "" && !isZip {
								es = append(es, entry{p, ""})
							}
							if j {
								for _, x := range junk[:3] {
									es = append(es, entry{p + x.name, x.text})
								}
							}
							for _, f := range order {
								es = append(es, entry{p + f, fs[f]})
							}
							if j {
								for _, x := range junk[3:] {
									es = append(es, entry{p + x.name, x.text})
								}
							}
							m := fstest.MapFS{}
							switch {
							case isDir:
								for _, e := range es {
									m["dump/"+e.name] = &fstest.MapFile{Data: []byte(e.text)}
								}
							case isZip:
								m[name] = &fstest.MapFile{Data: makeZip(es)}
							default:
								m[name] = &fstest.MapFile{Data: makeTgz(es)}
							}
							d := faultdb.New("")
							defer d.Close()
							if err := loadFiles(d, loadOpt{"sqlite", 0}, m, name); err != nil {
								t.Fatal("load", "%v", err)
							}
							t.State(cells(d))
							if b := tablesOnly(d); wantSchema != b {
								t.Fail("schema", "%s", diffLines(wantSchema, b))
							}
							if b := cells(d); wantRows != b {
								t.Fail("rows", "%s", diffLines(wantRows, b))
							}
						})
					}
				}
			}
		}
	}
}

var reWorker = regexp.MustCompile(`(?is)^\s*SELECT\b.*\bFROM\W+(w\d)\b`)

// runDumpSchedules: the order in which concurrent table dumps advance does not matter.
func runDumpSchedules(r *core.Runner, mk func() string) {
	shapes := [][]int{{1, 1}, {3, 3}, {0, 4}, {1, 1, 1}, {2, 1, 0}, {0, 0, 0, 0}}
	if r.Thorough() {
		shapes = append(shapes, []int{2, 2, 2}, []int{3, 2, 1}, []int{1, 1, 1, 0})
	}
	for _, shape := range shapes {
		for _, failing := range []int{-1, 0, len(shape) - 1} {
			dir := mk()
			r.Go2(fmt.Sprintf("dump schedules rows=%v failing=%d", shape, failing), func(t *core.T) {
				t.Nontrivial()
				defer os.RemoveAll(dir)
				s := faultdb.New("")
				defer s.Close()
				for i, k := range shape {
					s.MustExec(fmt.Sprintf("CREATE TABLE w%d (id INTEGER PRIMARY KEY, v%d TEXT, x BLOB)", i, i))
					for j := 0; j < k; j++ {
						s.MustExec(fmt.Sprintf("INSERT INTO w%d VALUES (%d, 'row %d of %d', x'%02x')", i, j, j, i, i*16+j))
					}
				}
				if _, err := dump(s, dir, "ref", dumpSet{format: "zip"}); err != nil {
					t.Fatal("dump", "%v", err)
				}
				ref, _ := readZip(filepath.Join(dir, "ref.zip"))
				want := listing(ref)
				db := s.DB()
				db.SetMaxIdleConns(10)
				timeouts := 0
				k := explore(r, -1, func(pick func(n, last int) int) bool {
					out := filepath.Join(dir, "out")
					os.RemoveAll(out)
					sc := newSched(len(shape))
					var mu sync.Mutex
					left := map[string]int{}
					for i, k := range shape {
						left[fmt.Sprint("w", i)] = k + 1
					}
					s.Reset()
					s.Gate = func(op faultdb.Op) {
						m := reWorker.FindStringSubmatch(op.SQL)
						if m == nil || op.Kind != "query" && op.Kind != "next" {
							return
						}
						t.Step(1)
						sc.stop(m[1])
						if op.Kind == "next" {
							mu.Lock()
							left[m[1]]--
							last := left[m[1]] == 0
							mu.Unlock()
							if last && m[1] != fmt.Sprint("w", failing) {
								sc.ended()
							}
						}
					}
					broke := false
					if failing >= 0 {
						s.Hook = func(op faultdb.Op) faultdb.Mode {
							if m := reWorker.FindStringSubmatch(op.SQL); m != nil && m[1] == fmt.Sprint("w", failing) && op.Kind == "next" && !broke {
								broke = true
								sc.ended()
								return faultdb.ErrBefore
							}
							return faultdb.OK
						}
					}
					cmd := &ddl.DumpCmd{DB: db, Dialect: "sqlite", OutputDir: out, Stderr: io.Discard}
					var err error
					sc.run(func() { err = cmd.Run() }, pick)
					timeouts += sc.timeouts
					t.Trace(1)
					if failing >= 0 {
						if err == nil {
							t.Fail("hidden", "a failing row fetch is not reported")
						}
						return !t.Failed()
					}
					if err != nil {
						t.Fail("dump", "%v", err)
						return false
					}
					if got := listing(files(out)); got != want {
						t.Fail("files", "the dump depends on the schedule:\n%s", diffLines(want, got))
					}
					return !t.Failed()
				})
				t.State(want, fmt.Sprint(shape, failing))
				r.Count("dump schedules", int64(k))
				r.Count("scheduler timeouts", int64(timeouts))
			})
		}
	}
	r.Wait()
}

// runDumpFaults: a dump that reports success is complete.
func runDumpFaults(r *core.Runner, mk func() string) {
	for _, world := range []string{"one", "keys", "names"} {
		for _, format := range []string{"dir", "zip", "tgz"} {
			for _, mode := range []faultdb.Mode{faultdb.ErrBefore, faultdb.ErrAfter, faultdb.Crash} {
				dir := mk()
				r.Go2(fmt.Sprintf("dump fault %s %s %s", world, format, mode), func(t *core.T) {
					defer os.RemoveAll(dir)
					s := worldServer(world)
					defer s.Close()
					if _, err := dump(s, dir, "ref", dumpSet{format: "dir"}); err != nil {
						t.Fatal("dump", "%v", err)
					}
					want := listing(files(filepath.Join(dir, "ref")))
					for at := 0; ; at++ {
						s.Reset()
						var hit *faultdb.Op
						s.Hook = func(op faultdb.Op) faultdb.Mode {
							if op.Seq == at && hit == nil {
								hit = &op
								return mode
							}
							return faultdb.OK
						}
						os.RemoveAll(filepath.Join(dir, "dump"))
						t.Step(1)
						name, err := dump(s, dir, "dump", dumpSet{format: format})
						s.Reset()
						if hit == nil {
							break
						}
						t.Nontrivial()
						t.Trace(1)
						if err != nil {
							t.Outcome("reported")
							continue
						}
						var got string
						switch p := filepath.Join(dir, name); format {
						case "dir":
							got = listing(files(p))
						case "zip":
							m, _ := readZip(p)
							got = listing(m)
						default:
							m, _ := readTgz(p)
							got = listing(m)
						}
						t.State(got)
						if got != want {
							t.Fail("hidden", "%s at %s: success, but the dump is not complete:\n%s", mode, hit, diffLines(want, got))
						}
						t.Outcome("harmless")
					}
				})
			}
		}
		// A file that cannot be written.
		for _, format := range []string{"dir", "zip", "tgz"} {
			dir := mk()
			r.Go2(fmt.Sprintf("file fault %s %s", world, format), func(t *core.T) {
				t.Nontrivial()
				defer os.RemoveAll(dir)
				s := worldServer(world)
				defer s.Close()
				name, err := dump(s, dir, "dump", dumpSet{format: format})
				if err != nil {
					t.Fatal("dump", "%v", err)
				}
				names := []string{name}
				if format == "dir" {
					names = nil
					for f, text := range files(filepath.Join(dir, name)) {
						if text != "" {
							names = append(names, filepath.Join(name, f))
						}
					}
				}
				for _, f := range names {
					for _, how := range []string{"full", "directory", "dangling"} {
						p := filepath.Join(dir, f)
						os.RemoveAll(p)
						var err error
						switch how {
						case "full":
							err = os.Symlink("/dev/full", p)
						case "directory":
							err = os.Mkdir(p, 0o755)
						case "dangling":
							err = os.Symlink(filepath.Join(dir, "no", "such", "dir"), p)
						}
						if err != nil {
							core.Broken("%v", err)
						}
						t.Step(1)
						t.Trace(1)
						t.State(f, how)
						if _, err := dump(s, dir, "dump", dumpSet{format: format}); err == nil {
							t.Fail("hidden", "%s (%s) could not be written, but the dump reports success", f, how)
						}
						os.RemoveAll(p)
					}
				}
			})
		}
	}
	r.Wait()
}

// runLoadFaults: a load that reports success loaded everything.
func runLoadFaults(r *core.Runner, mk func() string) {
	for _, world := range []string{"one", "keys"} {
		for _, format := range []string{"dump", "dump.zip", "dump.tgz"} {
			s := worldServer(world)
			dir := mk()
			if _, err := dump(s, dir, "dump", dumpSet{format: map[string]string{"dump": "dir", "dump.zip": "zip", "dump.tgz": "tgz"}[format]}); err != nil {
				r.Do("load fault "+world, func(t *core.T) { t.Fatal("dump", "%v", err) })
				continue
			}
			m := fstest.MapFS{}
			if format == "dump" {
				for n, text := range files(filepath.Join(dir, "dump")) {
					m["dump/"+n] = &fstest.MapFile{Data: []byte(text)}
				}
			} else {
				b, err := os.ReadFile(filepath.Join(dir, format))
				if err != nil {
					core.Broken("%v", err)
				}
				m[format] = &fstest.MapFile{Data: b}
			}
			os.RemoveAll(dir)
			want := tablesOnly(s) + "\n" + cells(s)
			s.Close()
			judge := func(t *core.T, d *faultdb.Server, err error, what string) {
				t.Nontrivial()
				t.Trace(1)
				got := tablesOnly(d) + "\n" + cells(d)
				t.State(got)
				if err == nil && got != want {
					t.Fail("hidden", "%s: success, but not everything is loaded:\n%s", what, diffLines(want, got))
				}
			}
			for _, mode := range []faultdb.Mode{faultdb.ErrBefore, faultdb.ErrAfter, faultdb.Crash, faultdb.CrashPost} {
				r.Go2(fmt.Sprintf("load fault %s %s %s", world, format, mode), func(t *core.T) {
					for at := 0; ; at++ {
						d := faultdb.New("_foreign_keys=true")
						d.Reset()
						var hit *faultdb.Op
						d.Hook = func(op faultdb.Op) faultdb.Mode {
							if op.Seq == at && hit == nil {
								hit = &op
								return mode
							}
							return faultdb.OK
						}
						t.Step(1)
						err := loadFiles(d, loadOpt{"sqlite", 1}, m, format)
						d.Reset()
						if hit == nil {
							d.Close()
							break
						}
						judge(t, d, err, fmt.Sprintf("%s at %s", mode, hit))
						d.Close()
					}
				})
			}
			if format == "dump" {
				for _, read := range []bool{false, true} {
					r.Go2(fmt.Sprintf("load file fault %s read=%v", world, read), func(t *core.T) {
						for k := 0; ; k++ {
							f := &faultFS{FS: m, k: k, read: read}
							d := faultdb.New("")
							t.Step(1)
							err := (&ddl.LoadCmd{DB: d.DB(), Dialect: "sqlite", DirFS: f, Filenames: []string{"dump"}, Stderr: io.Discard}).Run()
							if f.n <= k {
								d.Close()
								break
							}
							judge(t, d, err, fmt.Sprintf("opening or reading %s fails", f.names[k]))
							d.Close()
						}
					})
				}
				continue
			}
			whole := m[format].Data
			const parts = 16
			for p := 0; p < parts; p++ {
				r.Go2(fmt.Sprintf("truncated %s %s part %d", world, format, p), func(t *core.T) {
					for k := p; k < len(whole); k += parts {
						d := faultdb.New("")
						t.Step(1)
						err := loadFiles(d, loadOpt{"sqlite", 0}, fstest.MapFS{format: {Data: whole[:k]}}, format)
						judge(t, d, err, fmt.Sprintf("cut after %d of %d bytes", k, len(whole)))
						d.Close()
					}
				})
			}
		}
	}
	r.Wait()
}

// rowServer stands for a server of another dialect: it keeps inserted rows per transaction.
type rowServer struct {
	mu        sync.Mutex
	d         *loadDialect
	pending   map[int][]string
	committed []string
	scripts   []string // with the rows committed at that time
}

var reInsertInto = regexp.MustCompile(`^INSERT INTO (?:\W?sch\W?\.)?\W?(w\d)\b`)

func (w *rowServer) translate(conn int, q string, args []driver.NamedValue) (string, []driver.NamedValue, *faultdb.Answer) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if m := reInsertInto.FindStringSubmatch(q); m != nil {
		for i := 0; i < len(args); i += 3 {
			w.pending[conn] = append(w.pending[conn], fmt.Sprint(m[1], " ", args[i].Value, " ", args[i+1].Value, " ", args[i+2].Value))
		}
		return "", nil, &faultdb.Answer{}
	}
	if strings.HasPrefix(q, "UPDATE ") {
		return "", nil, &faultdb.Answer{}
	}
	if strings.Contains(q, "script ") {
		sort.Strings(w.committed)
		w.scripts = append(w.scripts, strings.TrimSpace(q)+" after "+strings.Join(w.committed, ", "))
		return "", nil, &faultdb.Answer{}
	}
	_, _, ans := w.d.translate(conn, q, args)
	if ans == nil {
		ans = &faultdb.Answer{}
	}
	return "", nil, ans
}

func (w *rowServer) end(conn int, commit bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if commit {
		w.committed = append(w.committed, w.pending[conn]...)
	}
	delete(w.pending, conn)
}

func runLoadSchedules(r *core.Runner) {
	type scenario struct{ files, rows, bound int }
	scenarios := []scenario{{1, 2, 0}, {2, 1, 2}, {2, 3, 1}, {3, 1, 1}}
	if r.Thorough() {
		scenarios = append(scenarios, scenario{2, 1, 4}, scenario{3, 2, 2}, scenario{4, 1, 2})
	}
	for _, dialect := range []string{ddl.DialectPostgres, ddl.DialectMySQL, ddl.DialectSQLServer} {
		for _, name := range []string{"dump", "dump.zip", "dump.tgz"} {
			for _, sn := range scenarios {
				var es []entry
				var want []string
				es = append(es, entry{"schema.sql", "script schema"}, entry{"indexes.sql", "script indexes"}, entry{"constraints.sql", "script constraints"})
				for i := 0; i < sn.files; i++ {
					text := "a,b,c\n"
					for j := 0; j < sn.rows; j++ {
						text += fmt.Sprintf("%d,b%d%d,c\n", j, i, j)
						want = append(want, fmt.Sprintf("w%d %d b%d%d c", i, j, i, j))
					}
					es = append(es, entry{fmt.Sprintf("w%d.csv", i), text})
				}
				m := fstest.MapFS{}
				switch name {
				case "dump":
					for _, e := range es {
						m["dump/"+e.name] = &fstest.MapFile{Data: []byte(e.text)}
					}
				case "dump.zip":
					m[name] = &fstest.MapFile{Data: makeZip(es)}
				default:
					m[name] = &fstest.MapFile{Data: makeTgz(es)}
				}
				all := strings.Join(want, ", ")
				wantScripts := []string{"script schema after ", "script indexes after " + all, "script constraints after " + all}
				start := func() (*faultdb.Server, *rowServer) {
					s := faultdb.New("")
					w := &rowServer{d: &loadDialect{dialect: dialect, lt: loadTable{name: "w", cols: []string{"a", "b", "c"}, pk: []string{"a"}, identity: "a"}, fixed: true}, pending: map[int][]string{}}
					s.Translate = w.translate
					return s, w
				}
				workers := sn.files
				if name == "dump.tgz" {
					workers = 1
				}
				r.Go2(fmt.Sprintf("load schedules %s %s %+v", dialect, name, sn), func(t *core.T) {
					t.Nontrivial()
					timeouts := 0
					k := explore(r, sn.bound, func(pick func(n, last int) int) bool {
						s, w := start()
						defer s.Close()
						db := s.DB()
						db.SetMaxIdleConns(20)
						sc := newSched(workers)
						s.Gate = func(op faultdb.Op) {
							if op.Kind != "begin" && !op.InTx {
								return
							}
							t.Step(1)
							sc.stop(fmt.Sprintf("conn%03d", op.Conn))
							if op.Kind == "commit" && name != "dump.tgz" {
								sc.ended()
							}
						}
						s.Hook = func(op faultdb.Op) faultdb.Mode {
							if op.Kind == "commit" || op.Kind == "rollback" {
								w.end(op.Conn, op.Kind == "commit")
							}
							return faultdb.OK
						}
						var err error
						sc.run(func() {
							err = (&ddl.LoadCmd{DB: db, Dialect: dialect, DirFS: m, Filenames: []string{name}, Stderr: io.Discard, Batchsize: 1}).Run()
						}, pick)
						timeouts += sc.timeouts
						t.Trace(1)
						sort.Strings(w.committed)
						switch {
						case err != nil:
							t.Fail("load", "%v", err)
						case strings.Join(w.committed, ", ") != all:
							t.Fail("rows", "loaded %v, want %v", w.committed, want)
						case strings.Join(w.scripts, "\n") != strings.Join(wantScripts, "\n"):
							t.Fail("order", "%s", diffLines(strings.Join(wantScripts, "\n"), strings.Join(w.scripts, "\n")))
						}
						return !t.Failed()
					})
					t.State(dialect, name, fmt.Sprint(sn))
					r.Count("load schedules", int64(k))
					r.Count("scheduler timeouts", int64(timeouts))
				})
				if sn.files > 2 {
					continue
				}
				r.Go2(fmt.Sprintf("load faults %s %s %+v", dialect, name, sn), func(t *core.T) {
					for _, mode := range []faultdb.Mode{faultdb.ErrBefore, faultdb.ErrAfter} {
						for at := 0; ; at++ {
							s, w := start()
							var hit *faultdb.Op
							s.Hook = func(op faultdb.Op) faultdb.Mode {
								m := faultdb.OK
								if op.Seq == at {
									hit, m = &op, mode
								}
								if op.Kind == "rollback" || op.Kind == "commit" && m == faultdb.OK {
									w.end(op.Conn, op.Kind == "commit")
								}
								return m
							}
							t.Step(1)
							err := (&ddl.LoadCmd{DB: s.DB(), Dialect: dialect, DirFS: m, Filenames: []string{name}, Stderr: io.Discard, Batchsize: 1}).Run()
							s.Close()
							if hit == nil {
								break
							}
							t.Nontrivial()
							t.Trace(1)
							where := fmt.Sprintf("%s at %s", mode, hit)
							sort.Strings(w.committed)
							t.State(fmt.Sprint(w.committed, w.scripts))
							if err == nil && (strings.Join(w.committed, ", ") != all || len(w.scripts) != 3) {
								t.Fail("hidden", "%s: success, but loaded %v, scripts %v", where, w.committed, w.scripts)
							}
							per := map[string]int{}
							for _, x := range w.committed {
								per[x[:2]]++
							}
							for f, n := range per {
								if n != sn.rows {
									t.Fail("partial", "%s: %d of %d rows of %s are loaded", where, n, sn.rows, f)
								}
							}
							for _, x := range w.scripts {
								if !strings.HasPrefix(x, "script schema") && !strings.HasSuffix(x, "after "+all) {
									t.Fail("order", "%s: %s", where, x)
								}
							}
						}
					}
				})
			}
		}
	}
	r.Wait()
}
