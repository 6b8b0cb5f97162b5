package checks

import (
	"encoding/csv"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
	"verifmc/faultdb"
)

func init() {
	core.Register(&core.Check{Prop: "C14", Level: "model_checking",
		Rule: "one evaluation = one database, with every table and selection as the subset; a transition is one subset dump; a trace is one dump compared row by row with the closure computed from the stored rows",
		Run:  runC14,
		Assumptions: []string{
			"the database is SQLite",
			"every table has a primary key, which is neither a date nor a time",
		}})
}

// subsetDump dumps the subset below dir and gives the records of each CSV file.
func subsetDump(s *faultdb.Server, dir string, plain, extended []string, edit func(*ddl.DumpCmd)) (map[string][]string, error) {
	cmd := &ddl.DumpCmd{DB: s.DB(), Dialect: "sqlite", OutputDir: dir, Stderr: io.Discard, DataOnly: true, SubsetQueries: plain, ExtendedSubsetQueries: extended}
	if edit != nil {
		edit(cmd)
	}
	os.RemoveAll(dir)
	if err := cmd.Run(); err != nil {
		return nil, err
	}
	return csvRecords(dir), nil
}

// csvRecords is the records of all CSV files in dir, by file name.
func csvRecords(dir string) map[string][]string {
	recs := map[string][]string{}
	for n, text := range files(dir) {
		if !strings.HasSuffix(n, ".csv") {
			continue
		}
		rs, err := csv.NewReader(strings.NewReader(text)).ReadAll()
		if err != nil {
			core.Broken("%s: %v", n, err)
		}
		n = strings.TrimSuffix(n, ".csv")
		recs[n] = []string{}
		for i, rec := range rs {
			if i > 0 {
				recs[n] = append(recs[n], fmt.Sprintf("%q", rec))
			}
		}
	}
	return recs
}

// A subRow is a row of a table, by its position in the order of its rowid.
type subRow struct {
	table string
	row   int
}

type subEdge struct {
	fk   string // table and number of the foreign key
	to   subRow
	back bool
}

// subWorld is a database with the references between its rows.
type subWorld struct {
	s      *faultdb.Server
	tables []string
	rec    map[subRow]string // as in a dump of everything
	out    map[subRow][]subEdge
	in     map[subRow][]subEdge
	fks    []subFK
}

type subFK struct{ name, from, to string }

// newSubWorld reads the rows and references. Every table has a column tag that tells its rows apart.
func newSubWorld(s *faultdb.Server, dir string) *subWorld {
	w := &subWorld{s: s, rec: map[subRow]string{}, out: map[subRow][]subEdge{}, in: map[subRow][]subEdge{}}
	cmd := &ddl.DumpCmd{DB: s.DB(), Dialect: "sqlite", OutputDir: dir, Stderr: io.Discard, DataOnly: true}
	os.RemoveAll(dir)
	if err := cmd.Run(); err != nil {
		core.Broken("%v", err)
	}
	all := csvRecords(dir)
	pos := map[string]map[string]subRow{}
	for _, r := range s.MustQuery("SELECT name FROM sqlite_master WHERE type = 'table' AND name NOT LIKE 'sqlite%' ORDER BY name") {
		n := str(r[0])
		w.tables = append(w.tables, n)
		pos[n] = map[string]subRow{}
		for i, v := range s.MustQuery("SELECT tag FROM " + qid(n) + " ORDER BY tag") {
			row := subRow{n, i}
			pos[n][str(v[0])] = row
			for _, rec := range all[n] {
				if strings.Contains(rec, fmt.Sprintf("%q", str(v[0]))) {
					w.rec[row] = rec
				}
			}
			if w.rec[row] == "" {
				core.Broken("row %v is not in the dump", row)
			}
		}
	}
	for _, n := range w.tables {
		byID := map[string][]string{}
		target := map[string]string{}
		for _, r := range s.MustQuery("SELECT id, \"table\", \"from\", coalesce(\"to\", (SELECT name FROM pragma_table_info(\"table\") WHERE pk = seq + 1)) FROM pragma_foreign_key_list(" + qlit(n) + ")") {
			id := str(r[0])
			target[id] = str(r[1])
			byID[id] = append(byID[id], "c."+qid(str(r[2]))+" = p."+qid(str(r[3])))
		}
		for _, id := range sortedKeys(byID) {
			to := ""
			for _, m := range w.tables {
				if strings.EqualFold(m, target[id]) {
					to = m
				}
			}
			if to == "" {
				continue
			}
			fk := subFK{n + " " + id, n, to}
			w.fks = append(w.fks, fk)
			for _, r := range s.MustQuery("SELECT c.tag, p.tag FROM " + qid(n) + " c JOIN " + qid(to) + " p ON " + strings.Join(byID[id], " AND ")) {
				a, b := pos[n][str(r[0])], pos[to][str(r[1])]
				w.out[a] = append(w.out[a], subEdge{fk.name, b, false})
				w.in[b] = append(w.in[b], subEdge{fk.name, a, true})
			}
		}
	}
	return w
}

func closure(from map[subRow]bool, edges map[subRow][]subEdge) map[subRow]bool {
	seen := map[subRow]bool{}
	var todo []subRow
	for r := range from {
		seen[r] = true
		todo = append(todo, r)
	}
	for len(todo) > 0 {
		r := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, e := range edges[r] {
			if !seen[e.to] {
				seen[e.to] = true
				todo = append(todo, e.to)
			}
		}
	}
	return seen
}

// simple is the rows found along chains that visit no table twice.
func simple(from map[subRow]bool, edges map[subRow][]subEdge) map[subRow]bool {
	found := map[subRow]bool{}
	var walk func(r subRow, tables map[string]bool)
	walk = func(r subRow, tables map[string]bool) {
		found[r] = true
		for _, e := range edges[r] {
			if !tables[e.to.table] {
				tables[e.to.table] = true
				walk(e.to, tables)
				delete(tables, e.to.table)
			}
		}
	}
	for r := range from {
		walk(r, map[string]bool{r.table: true})
	}
	return found
}

// cyclic reports whether a chain of foreign keys leads from a table to itself.
func (w *subWorld) cyclic() bool {
	reach := map[[2]string]bool{}
	for _, f := range w.fks {
		reach[[2]string{f.from, f.to}] = true
	}
	for _, k := range w.tables {
		for _, i := range w.tables {
			for _, j := range w.tables {
				if reach[[2]string{i, k}] && reach[[2]string{k, j}] {
					reach[[2]string{i, j}] = true
				}
			}
		}
	}
	for _, t := range w.tables {
		if reach[[2]string{t, t}] {
			return true
		}
	}
	return false
}

// routes is the largest number of foreign key chains, first from referenced to
// referencing tables and then back, that lead from base to one table. Only for
// acyclic foreign keys.
func (w *subWorld) routes(base string) int {
	n := map[string]int{}
	var walk func(t, last string, up bool)
	walk = func(t, last string, up bool) {
		n[t]++
		for _, f := range w.fks {
			if up && f.to == t {
				walk(f.from, f.name, true)
			}
			if f.from == t && f.name != last {
				walk(f.to, f.name, false)
			}
		}
	}
	walk(base, "", true)
	most := 0
	for _, c := range n {
		most = max(most, c)
	}
	return most
}

// subQuery selects rows of a table.
type subQuery struct {
	table    string
	rows     []int
	extended bool
	text     string
}

func (q subQuery) String() string {
	if q.extended {
		return "extended " + q.text
	}
	return q.text
}

// selectRows is the query for the rows with these positions.
func selectRows(w *subWorld, table string, rows []int, extended bool) subQuery {
	var tags []string
	all := 0
	for r := range w.rec {
		if r.table == table {
			all++
		}
	}
	for i, v := range w.s.MustQuery("SELECT tag FROM " + qid(table) + " ORDER BY tag") {
		for _, x := range rows {
			if x == i {
				tags = append(tags, qlit(str(v[0])))
			}
		}
	}
	text := "SELECT {*} FROM {" + table + "} WHERE tag IN (" + strings.Join(tags, ", ") + ")"
	if len(rows) == all && all > 0 {
		text = "SELECT {*} FROM {" + table + "}"
	}
	return subQuery{table, rows, extended, text}
}

// judge compares a subset dump with the rows that the queries ask for.
func (w *subWorld) judge(t *core.T, dir string, edit func(*ddl.DumpCmd), qs ...subQuery) {
	t.Step(1)
	var plain, extended []string
	most, must, selected := map[subRow]bool{}, map[subRow]bool{}, map[subRow]bool{}
	add := func(to, from map[subRow]bool) {
		for r := range from {
			to[r] = true
		}
	}
	cyclic := w.cyclic()
	loose := cyclic
	for _, q := range qs {
		base := map[subRow]bool{}
		for _, i := range q.rows {
			base[subRow{q.table, i}] = true
		}
		add(selected, base)
		if !q.extended {
			plain = append(plain, q.text)
			add(most, closure(base, w.out))
			add(must, simple(base, w.out))
			continue
		}
		extended = append(extended, q.text)
		add(most, closure(closure(base, w.in), w.out))
		add(must, simple(base, w.in))
		if !cyclic && w.routes(q.table) > 1 {
			loose = true
		}
	}
	if !loose {
		must = most
	}
	got, err := subsetDump(w.s, dir, plain, extended, edit)
	if err != nil {
		t.Fail("dump", "dump of subset %v fails: %v", qs, err)
		return
	}
	t.Trace(1)
	byRec := map[string]subRow{}
	for r, rec := range w.rec {
		byRec[r.table+" "+rec] = r
	}
	have := map[subRow]bool{}
	var text []string
	for n, recs := range got {
		for _, rec := range recs {
			text = append(text, n+" "+rec)
			r, ok := byRec[n+" "+rec]
			switch {
			case !ok:
				t.Fail("foreign", "subset %v: %s %s is not a row of the source", qs, n, rec)
			case have[r]:
				t.Fail("twice", "subset %v: %s %s is dumped twice", qs, n, rec)
			case !most[r]:
				t.Fail("more", "subset %v: %s %s is neither selected nor connected with a selected row", qs, n, rec)
			}
			have[r] = true
		}
	}
	sort.Strings(text)
	t.State(strings.Join(text, "\n"))
	if len(text) > 0 && len(text) < len(w.rec) {
		t.Nontrivial()
	}
	var open []string
	for r := range most {
		switch {
		case have[r]:
		case selected[r]:
			t.Fail("selected", "subset %v: the selected row %s %s is missing", qs, r.table, w.rec[r])
		case must[r]:
			t.Fail("missing", "subset %v: %s %s is missing from\n%s", qs, r.table, w.rec[r], strings.Join(text, "\n"))
		default:
			open = append(open, r.table+" "+w.rec[r])
		}
	}
	if len(open) > 0 {
		sort.Strings(open)
		if cyclic {
			t.Fail("cycle-open", "subset %v: %s missing", qs, open)
		} else {
			t.Fail("extended-open", "subset %v: %s missing", qs, open)
		}
	}
}

// loadable loads a complete subset dump into an empty database.
func (w *subWorld) loadable(t *core.T, dir string, qs ...subQuery) {
	var plain, extended []string
	for _, q := range qs {
		if q.extended {
			extended = append(extended, q.text)
		} else {
			plain = append(plain, q.text)
		}
	}
	t.Step(2)
	recs, err := subsetDump(w.s, filepath.Join(dir, "dump"), plain, extended, func(c *ddl.DumpCmd) { c.DataOnly = false })
	if err != nil {
		t.Fail("dump", "dump of subset %v fails: %v", qs, err)
		return
	}
	d := faultdb.New("_foreign_keys=true")
	defer d.Close()
	if err := load(d, dir, dumpSet{}, "dump"); err != nil {
		t.Fail("load", "subset %v cannot be loaded: %v", qs, err)
		return
	}
	t.Trace(1)
	for _, r := range d.MustQuery("PRAGMA foreign_key_check") {
		t.Fail("dangling", "subset %v: foreign key violated after loading: %q", qs, r)
	}
	for _, n := range w.tables {
		if got := str(d.MustQuery("SELECT count(*) FROM " + qid(n))[0][0]); got != fmt.Sprint(len(recs[n])) {
			t.Fail("load", "subset %v: %s rows of %s loaded, %d dumped", qs, got, n, len(recs[n]))
		}
	}
}

// graphServer has the tables t0, t1, … of the given number of rows and the
// given foreign keys; refs gives the row that row r refers to through edge e,
// or -1.
func graphServer(tables, rows int, edges [][2]int, refs func(e, r int) int) *faultdb.Server {
	s := faultdb.New("_foreign_keys=false")
	for i := 0; i < tables; i++ {
		def := fmt.Sprintf("CREATE TABLE t%d (id INTEGER PRIMARY KEY, tag TEXT", i)
		for e, p := range edges {
			if p[0] == i {
				def += fmt.Sprintf(", r%d INTEGER REFERENCES t%d (id)", e, p[1])
			}
		}
		s.MustExec(def + ")")
		for r := 0; r < rows; r++ {
			cols, vals := "id, tag", fmt.Sprintf("%d, 't%d-%d'", r+10*i+1, i, r)
			for e, p := range edges {
				if p[0] == i {
					cols += fmt.Sprintf(", r%d", e)
					if to := refs(e, r); to < 0 {
						vals += ", NULL"
					} else {
						vals += fmt.Sprintf(", %d", to+10*p[1]+1)
					}
				}
			}
			s.MustExec(fmt.Sprintf("INSERT INTO t%d (%s) VALUES (%s)", i, cols, vals))
		}
	}
	return s
}

func runC14(r *core.Runner) {
	base := scratchDir()
	defer os.RemoveAll(base)
	dirs := 0
	mk := func() string {
		dirs++
		return filepath.Join(base, fmt.Sprint(dirs))
	}
	runSubsetGraphs(r, mk)
	runSubsetValues(r, mk)
	runSubsetKeys(r, mk)
	runSubsetQueries(r, mk)
	runSubsetFaults(r, mk)
}

// acyclicEdges reports whether the edges have no cycle.
func acyclicEdges(n int, edges [][2]int) bool {
	deg := make([]int, n)
	for _, e := range edges {
		deg[e[1]]++
	}
	done := make([]bool, n)
	for k := 0; k < n; k++ {
		v := -1
		for i := range deg {
			if !done[i] && deg[i] == 0 {
				v = i
				break
			}
		}
		if v < 0 {
			return false
		}
		done[v] = true
		for _, e := range edges {
			if e[0] == v {
				deg[e[1]]--
			}
		}
	}
	return true
}

// graphs is every list of edges over n tables with at most multi parallel ones.
func graphs(n, multi int, self, cycles bool) [][][2]int {
	var pairs [][2]int
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i != j || self {
				pairs = append(pairs, [2]int{i, j})
			}
		}
	}
	var out [][][2]int
	var rec func(i int, es [][2]int)
	rec = func(i int, es [][2]int) {
		if !cycles && !acyclicEdges(n, es) {
			return
		}
		if i == len(pairs) {
			out = append(out, append([][2]int(nil), es...))
			return
		}
		for k := 0; k <= multi; k++ {
			rec(i+1, es)
			es = append(es[:len(es):len(es)], pairs[i])
		}
	}
	rec(0, nil)
	return out
}

// runSubsetGraphs: every foreign key graph with rows whose references differ
// from one foreign key to the other.
func runSubsetGraphs(r *core.Runner, mk func() string) {
	type family struct {
		name         string
		tables, rows int
		graphs       [][][2]int
	}
	fams := []family{
		{"acyclic", 4, 4, graphs(4, 1, false, false)},
		{"double", 3, 4, graphs(3, 2, false, false)},
		{"cyclic", 2, 3, graphs(2, 2, true, true)},
	}
	if r.Thorough() {
		fams = append(fams, family{"cyclic", 3, 3, graphs(3, 1, true, true)}, family{"acyclic", 5, 3, graphs(5, 1, false, false)})
	}
	for _, f := range fams {
		for _, g := range f.graphs {
			if f.name == "cyclic" && acyclicEdges(f.tables, g) {
				continue
			}
			dir := mk()
			r.Go2(fmt.Sprintf("%s %d %v", f.name, f.tables, g), func(t *core.T) {
				defer os.RemoveAll(dir)
				s := graphServer(f.tables, f.rows, g, func(e, r int) int {
					if e%3 == 1 && r == f.rows-1 {
						return -1
					}
					return (r + e) % f.rows
				})
				defer s.Close()
				w := newSubWorld(s, dir)
				all := make([]int, f.rows)
				for i := range all {
					all[i] = i
				}
				sels := [][]int{nil, {0}, {1, 2}, all}
				few := f.tables == 4 && !r.Thorough()
				if few {
					sels = [][]int{{0}, {1, 2}}
				}
				if f.tables == 5 {
					sels = [][]int{{1}}
				}
				for i := 0; i < f.tables; i++ {
					n := fmt.Sprintf("t%d", i)
					for _, sel := range sels {
						for _, ext := range []bool{false, true} {
							w.judge(t, dir, nil, selectRows(w, n, sel, ext))
						}
					}
					if f.name == "cyclic" {
						continue
					}
					q := selectRows(w, n, []int{0}, false)
					w.loadable(t, dir, q)
					if f.tables == 5 {
						continue
					}
					if !few {
						w.loadable(t, dir, selectRows(w, n, nil, false))
					}
					for j := 0; j < f.tables; j++ {
						if few && j != (i+1)%f.tables {
							continue
						}
						w.judge(t, dir, nil, q, selectRows(w, fmt.Sprintf("t%d", j), []int{1}, false))
						if i != j {
							w.judge(t, dir, nil, q, selectRows(w, fmt.Sprintf("t%d", j), []int{1}, true))
						}
					}
				}
			})
		}
	}
	r.Wait()
}

// runSubsetValues: every value of every reference between two rows of three tables.
func runSubsetValues(r *core.Runner, mk func() string) {
	for _, g := range graphs(3, 1, false, false) {
		ordered := true
		for _, e := range g {
			ordered = ordered && e[0] < e[1]
		}
		if !ordered && !r.Thorough() {
			continue
		}
		worlds := 1
		for range g {
			worlds *= 9
		}
		for first := 0; first < worlds; first += 27 {
			dir := mk()
			r.Go2(fmt.Sprintf("values %v %d", g, first), func(t *core.T) {
				defer os.RemoveAll(dir)
				for v := first; v < min(worlds, first+27); v++ {
					func() {
						s := graphServer(3, 2, g, func(e, r int) int {
							x := v
							for i := 0; i < e; i++ {
								x /= 9
							}
							x %= 9
							if r == 1 {
								x /= 3
							}
							return x%3 - 1
						})
						defer s.Close()
						w := newSubWorld(s, dir)
						for i := 0; i < 3; i++ {
							for _, ext := range []bool{false, true} {
								w.judge(t, dir, nil, selectRows(w, fmt.Sprintf("t%d", i), []int{0}, ext))
							}
						}
					}()
				}
			})
		}
	}
	r.Wait()
}

// keyWorlds have keys and references of different shapes; every table has a tag.
var keyWorlds = map[string][]string{
	"composite": {
		"CREATE TABLE p (a INTEGER, b TEXT, tag TEXT, PRIMARY KEY (a, b))",
		"CREATE TABLE c (x INTEGER PRIMARY KEY, pb TEXT, pa INTEGER, tag TEXT, FOREIGN KEY (pa, pb) REFERENCES p (a, b))",
		"INSERT INTO p VALUES (1, 'x', 'p1'), (1, 'y', 'p2'), (2, 'x', 'p3')",
		"INSERT INTO c VALUES (1, 'x', 1, 'c1'), (2, 'y', 1, 'c2'), (3, 'x', 2, 'c3'), (4, NULL, 1, 'c4'), (5, 'x', NULL, 'c5')",
	},
	"composite reordered": {
		"CREATE TABLE p (tag TEXT, a INTEGER, b INTEGER, PRIMARY KEY (b, a))",
		"CREATE TABLE c (a INTEGER, b INTEGER, d INTEGER, tag TEXT, PRIMARY KEY (d, a), FOREIGN KEY (a, b) REFERENCES p (b, a))",
		"INSERT INTO p VALUES ('p1', 1, 2), ('p2', 2, 1), ('p3', 1, 1)",
		"INSERT INTO c VALUES (1, 2, 1, 'c1'), (2, 1, 1, 'c2'), (1, 1, 2, 'c3')",
	},
	"composite implied": {
		"CREATE TABLE p (a INTEGER, b INTEGER, tag TEXT, PRIMARY KEY (b, a))",
		"CREATE TABLE c (x INTEGER PRIMARY KEY, u INTEGER, v INTEGER, tag TEXT, FOREIGN KEY (u, v) REFERENCES p)",
		"INSERT INTO p VALUES (1, 2, 'p1'), (2, 1, 'p2')",
		"INSERT INTO c VALUES (1, 1, 2, 'c1'), (2, 2, 1, 'c2')",
	},
	"shared column": {
		"CREATE TABLE p (a INTEGER, b INTEGER, tag TEXT, PRIMARY KEY (a, b))",
		"CREATE TABLE q (a INTEGER, b INTEGER, tag TEXT, PRIMARY KEY (a, b))",
		"CREATE TABLE c (a INTEGER, pb INTEGER, qb INTEGER, tag TEXT, PRIMARY KEY (a, pb, qb), FOREIGN KEY (a, pb) REFERENCES p (a, b), FOREIGN KEY (a, qb) REFERENCES q (a, b))",
		"INSERT INTO p VALUES (1, 1, 'p1'), (1, 2, 'p2'), (2, 1, 'p3')",
		"INSERT INTO q VALUES (1, 1, 'q1'), (1, 2, 'q2'), (2, 1, 'q3')",
		"INSERT INTO c VALUES (1, 1, 2, 'c1'), (1, 2, 1, 'c2'), (2, 1, 1, 'c3')",
	},
	"unique": {
		"CREATE TABLE p (id INTEGER PRIMARY KEY, code TEXT UNIQUE, tag TEXT)",
		"CREATE TABLE c (id INTEGER PRIMARY KEY, code TEXT REFERENCES p (code), tag TEXT)",
		"CREATE TABLE d (id INTEGER PRIMARY KEY, c INTEGER REFERENCES c (id), p INTEGER REFERENCES p (id), tag TEXT)",
		"INSERT INTO p VALUES (1, 'a', 'p1'), (2, 'b', 'p2'), (3, NULL, 'p3')",
		"INSERT INTO c VALUES (1, 'b', 'c1'), (2, 'a', 'c2'), (3, NULL, 'c3')",
		"INSERT INTO d VALUES (1, 1, 3, 'd1'), (2, 3, 2, 'd2')",
	},
	"implied": {
		"CREATE TABLE p (id INTEGER PRIMARY KEY, tag TEXT)",
		"CREATE TABLE c (id INTEGER PRIMARY KEY, p INTEGER REFERENCES p, tag TEXT)",
		"INSERT INTO p VALUES (1, 'p1'), (2, 'p2')",
		"INSERT INTO c VALUES (1, 2, 'c1'), (2, 1, 'c2'), (3, NULL, 'c3')",
	},
	"text": {
		"CREATE TABLE p (id TEXT PRIMARY KEY NOT NULL, tag TEXT)",
		"CREATE TABLE c (id VARCHAR(10) PRIMARY KEY NOT NULL, p TEXT REFERENCES p (id), tag TEXT)",
		`INSERT INTO p VALUES ('it''s', 'p1'), ('"', 'p2'), ('', 'p3'), ('1', 'p4'), ('x''; --', 'p5'), ('a\b', 'p6'), ('NULL', 'p7'), ('é', 'p8'), ('{x}', 'p9'), (' ', 'p0')`,
		`INSERT INTO c VALUES ('''', 'it''s', 'c1'), ('', '"', 'c2'), ('a,b', '', 'c3'), ('1', '1', 'c4'), ('01', 'x''; --', 'c5'), ('$1', 'a\b', 'c6'), ('?', 'NULL', 'c7'), ('A', 'é', 'c8'), ('a', '{x}', 'c9'), (' a', ' ', 'c0')`,
	},
	"blob": {
		"CREATE TABLE p (id BLOB PRIMARY KEY NOT NULL, tag TEXT)",
		"CREATE TABLE c (id VARBINARY(4) PRIMARY KEY NOT NULL, p BLOB REFERENCES p (id), tag TEXT)",
		"INSERT INTO p VALUES (x'00', 'p1'), (x'ff00', 'p2'), (x'27', 'p3')",
		"INSERT INTO c VALUES (x'01', x'00', 'c1'), (x'02', x'ff00', 'c2'), (x'2700', x'27', 'c3')",
	},
	"uuid": {
		"CREATE TABLE p (id UUID PRIMARY KEY NOT NULL, tag TEXT)",
		"CREATE TABLE c (id UUID PRIMARY KEY NOT NULL, p UUID REFERENCES p (id), tag TEXT)",
		"INSERT INTO p VALUES (x'00112233445566778899aabbccddeeff', 'p1'), (x'27272727272727272727272727272727', 'p2'), ('00112233-4455-6677-8899-aabbccddeeff', 'p3')",
		"INSERT INTO c VALUES (x'01112233445566778899aabbccddeeff', x'00112233445566778899aabbccddeeff', 'c1'), ('c', x'27272727272727272727272727272727', 'c2'), (x'02112233445566778899aabbccddeeff', '00112233-4455-6677-8899-aabbccddeeff', 'c3')",
	},
	"numbers": {
		"CREATE TABLE p (id REAL PRIMARY KEY NOT NULL, tag TEXT)",
		"CREATE TABLE q (id BOOLEAN PRIMARY KEY NOT NULL, tag TEXT)",
		"CREATE TABLE c (id BIGINT PRIMARY KEY NOT NULL, p REAL REFERENCES p (id), q BOOLEAN REFERENCES q (id), tag TEXT)",
		"INSERT INTO p VALUES (0.5, 'p1'), (-1.25, 'p2'), (1e20, 'p3'), (0.1, 'p4')",
		"INSERT INTO q VALUES (0, 'q1'), (1, 'q2')",
		"INSERT INTO c VALUES (9223372036854775807, 0.5, 1, 'c1'), (-9223372036854775808, -1.25, 0, 'c2'), (0, 1e20, NULL, 'c3'), (-1, 0.1, 1, 'c4')",
	},
	"names": {
		`CREATE TABLE "p p" ("i""d" INTEGER PRIMARY KEY, tag TEXT)`,
		`CREATE TABLE "order" ("select" INTEGER PRIMARY KEY, "from" INTEGER REFERENCES "p p" ("i""d"), tag TEXT)`,
		`CREATE TABLE "c'c" ("a b" INTEGER PRIMARY KEY, "WHERE" INTEGER REFERENCES "order" ("select"), "x" INTEGER REFERENCES "p p", tag TEXT)`,
		`INSERT INTO "p p" VALUES (1, 'p1'), (2, 'p2'), (3, 'p3')`,
		`INSERT INTO "order" VALUES (1, 2, 'o1'), (2, 1, 'o2')`,
		`INSERT INTO "c'c" VALUES (1, 2, 3, 'c1'), (2, 1, NULL, 'c2')`,
	},
	"generated": {
		"CREATE TABLE p (id INTEGER PRIMARY KEY, tag TEXT, g INTEGER GENERATED ALWAYS AS (id + 1) STORED)",
		"CREATE TABLE c (g TEXT GENERATED ALWAYS AS (tag) VIRTUAL, id INTEGER PRIMARY KEY, p INTEGER REFERENCES p (id), tag TEXT)",
		"INSERT INTO p (id, tag) VALUES (1, 'p1'), (2, 'p2')",
		"INSERT INTO c (id, p, tag) VALUES (1, 2, 'c1'), (2, 1, 'c2')",
	},
	"same names": {
		"CREATE TABLE p (id INTEGER PRIMARY KEY, tag TEXT)",
		"CREATE TABLE c (id INTEGER PRIMARY KEY REFERENCES p (id), tag TEXT)",
		"CREATE TABLE d (id INTEGER PRIMARY KEY REFERENCES c (id), tag TEXT)",
		"INSERT INTO p VALUES (1, 'p1'), (2, 'p2'), (3, 'p3')",
		"INSERT INTO c VALUES (1, 'c1'), (2, 'c2')",
		"INSERT INTO d VALUES (2, 'd2')",
	},
	"missing table": {
		"CREATE TABLE p (id INTEGER PRIMARY KEY, tag TEXT)",
		"CREATE TABLE c (id INTEGER PRIMARY KEY, gone INTEGER REFERENCES gone (id), p INTEGER REFERENCES p (id), tag TEXT)",
		"INSERT INTO p VALUES (1, 'p1'), (2, 'p2')",
		"INSERT INTO c VALUES (1, NULL, 1, 'c1'), (2, NULL, 2, 'c2')",
	},
	"junction": {
		"CREATE TABLE a (id INTEGER PRIMARY KEY, tag TEXT)",
		"CREATE TABLE b (id INTEGER PRIMARY KEY, tag TEXT)",
		"CREATE TABLE ab (a INTEGER REFERENCES a (id), b INTEGER REFERENCES b (id), tag TEXT, PRIMARY KEY (a, b))",
		"INSERT INTO a VALUES (1, 'a1'), (2, 'a2'), (3, 'a3')",
		"INSERT INTO b VALUES (1, 'b1'), (2, 'b2'), (3, 'b3')",
		"INSERT INTO ab VALUES (1, 1, 'ab1'), (1, 2, 'ab2'), (2, 2, 'ab3'), (3, 1, 'ab4')",
	},
}

func keyServer(name string) *faultdb.Server {
	s := faultdb.New("_foreign_keys=false")
	for _, q := range keyWorlds[name] {
		s.MustExec(q)
	}
	return s
}

// runSubsetKeys: keys of every shape, each subset of the rows of each table.
func runSubsetKeys(r *core.Runner, mk func() string) {
	for _, name := range sortedKeys(keyWorlds) {
		dir := mk()
		r.Go2("keys "+name, func(t *core.T) {
			defer os.RemoveAll(dir)
			s := keyServer(name)
			defer s.Close()
			w := newSubWorld(s, dir)
			for _, n := range w.tables {
				var rows []int
				for i := range s.MustQuery("SELECT 1 FROM " + qid(n)) {
					rows = append(rows, i)
				}
				for _, set := range subsets(rows) {
					if len(set) > 3 && len(set) < len(rows) {
						continue
					}
					for _, ext := range []bool{false, true} {
						w.judge(t, dir, nil, selectRows(w, n, set, ext))
					}
				}
				if name != "missing table" {
					w.loadable(t, dir, selectRows(w, n, rows, false))
				}
			}
		})
	}
	// Tables left out of the dump.
	tables := []string{"t0", "t1", "t2", "t3"}
	for _, g := range [][][2]int{{{0, 1}, {1, 2}, {2, 3}}, {{0, 1}, {0, 2}, {1, 3}, {2, 3}}, {{3, 0}, {3, 1}, {2, 1}, {1, 0}}} {
		for _, keep := range subsets(tables) {
			for _, exclude := range []bool{false, true} {
				if len(keep) == 0 {
					continue
				}
				dir := mk()
				r.Go2(fmt.Sprintf("filter %v %v exclude=%v", g, keep, exclude), func(t *core.T) {
					t.Nontrivial()
					defer os.RemoveAll(dir)
					s := graphServer(4, 3, g, func(e, r int) int { return (r + e) % 3 })
					defer s.Close()
					w := newSubWorld(s, dir)
					in := func(n string) bool { return has(keep, n) != exclude }
					var fks []subFK
					for _, f := range w.fks {
						if in(f.from) && in(f.to) {
							fks = append(fks, f)
						}
					}
					w.fks = fks
					for _, edges := range []map[subRow][]subEdge{w.out, w.in} {
						for r, es := range edges {
							var kept []subEdge
							for _, e := range es {
								if in(e.to.table) && in(r.table) {
									kept = append(kept, e)
								}
							}
							edges[r] = kept
						}
					}
					edit := func(c *ddl.DumpCmd) {
						if exclude {
							c.ExcludeTables = keep
						} else {
							c.Tables = keep
						}
					}
					for _, n := range tables {
						for _, ext := range []bool{false, true} {
							q := selectRows(w, n, []int{0}, ext)
							if in(n) {
								w.judge(t, dir, edit, q)
								continue
							}
							t.Step(1)
							if _, err := subsetDump(s, dir, []string{q.text}, nil, edit); err == nil {
								t.Fail("excluded", "a subset of the excluded table %s is dumped", n)
							}
						}
					}
				})
			}
		}
	}
	r.Wait()
}

// runSubsetQueries: the forms of a subset query.
func runSubsetQueries(r *core.Runner, mk func() string) {
	for _, c := range []struct {
		query string
		table string
		cond  string // the selected tags
	}{
		{"SELECT {*} FROM {c}", "c", "SELECT tag FROM c"},
		{"select {*} from {c}", "c", "SELECT tag FROM c"},
		{"SELECT {*}\nFROM\n{c}\nWHERE x > 2\n", "c", "SELECT tag FROM c WHERE x > 2"},
		{"SELECT {*} FROM {c} ORDER BY x DESC LIMIT 2", "c", "SELECT tag FROM c ORDER BY x DESC LIMIT 2"},
		{"SELECT {*} FROM {c} LIMIT 0", "c", "SELECT tag FROM c LIMIT 0"},
		{"SELECT {*} FROM {c} WHERE x = (SELECT max(x) FROM c)", "c", "SELECT tag FROM c WHERE x = 5"},
		{"SELECT {*} FROM {p} JOIN c ON c.pa = p.a", "p", "SELECT tag FROM p"},
		{"SELECT {*} FROM c JOIN {p} ON c.pa = p.a AND c.pb = p.b WHERE c.x < 3", "p", "SELECT tag FROM p WHERE a = 1"},
		{"SELECT {*}, {*} FROM {p}", "", ""},
		{"SELECT DISTINCT {*} FROM {p} WHERE b = 'x'", "p", "SELECT tag FROM p WHERE b = 'x'"},
		{"SELECT {*} FROM {c} WHERE pb = '}'", "c", "SELECT tag FROM c WHERE 0"},
		{"SELECT {*} FROM {c} UNION SELECT x FROM c WHERE x < 3", "c", "SELECT tag FROM c"},
		{"WITH w AS (SELECT 1 AS n) SELECT {*} FROM w, {c} WHERE x = n", "c", "SELECT tag FROM c WHERE x = 1"},
		{"SELECT {*} FROM {nope}", "", ""},
		{"SELECT {*} FROM {}", "", ""},
		{"SELECT {*} FROM {c} WHERE", "", ""},
		{"SELECT {*} FROM {c} WHERE nope = 1", "", ""},
		{"SELECT {*}, 1 FROM {c}", "", ""},
		{"SELECT {*} FROM {x.c}", "", ""},
		{"SELECT * FROM {c}", "", ""},
		{"SELECT {*} FROM c", "", ""},
		{"SELECT x FROM c", "", ""},
		{"", "", ""},
	} {
		for _, ext := range []bool{false, true} {
			dir := mk()
			r.Go2(fmt.Sprintf("query %q extended=%v", c.query, ext), func(t *core.T) {
				t.Nontrivial()
				defer os.RemoveAll(dir)
				s := keyServer("composite")
				defer s.Close()
				w := newSubWorld(s, dir)
				if c.table == "" {
					t.Step(1)
					queries := [2][]string{}
					if ext {
						queries[1] = []string{c.query}
					} else {
						queries[0] = []string{c.query}
					}
					if _, err := subsetDump(s, dir, queries[0], queries[1], nil); err == nil {
						t.Fail("accepted", "the query is accepted")
					}
					return
				}
				tags := map[string]bool{}
				for _, r := range s.MustQuery(c.cond) {
					tags[str(r[0])] = true
				}
				var rows []int
				for i, r := range s.MustQuery("SELECT tag FROM " + c.table + " ORDER BY tag") {
					if tags[str(r[0])] {
						rows = append(rows, i)
					}
				}
				w.judge(t, dir, nil, subQuery{c.table, rows, ext, c.query})
			})
		}
	}
	// Every arrangement of the parts of a query: no crash.
	parts := []string{"{*}", "{c}", "{", "}", "{{", "SELECT ", " FROM ", "x"}
	longest := r.Pick(4, 5)
	for _, first := range parts {
		dir := mk()
		r.Go2(fmt.Sprintf("parts %q", first), func(t *core.T) {
			t.Nontrivial()
			defer os.RemoveAll(dir)
			s := keyServer("composite")
			defer s.Close()
			var rec func(text string, n int)
			rec = func(text string, n int) {
				ss, err := ddl.NewInMemorySubsetter("sqlite", s.DB(), ddl.Filter{})
				if err != nil {
					t.Fatal("subsetter", "%v", err)
				}
				t.Step(1)
				t.State(text)
				t.Logf("query %q", text)
				err = ss.Subset(text)
				if valid := text == "SELECT {*} FROM {c}" || text == "SELECT {*}x FROM {c}"; valid != (err == nil) && strings.Count(text, "SELECT") == 1 {
					t.Fail("query", "%q gives %v", text, err)
				}
				if n < longest {
					for _, p := range parts {
						rec(text+p, n+1)
					}
				}
			}
			rec(first, 1)
		})
	}
	r.Wait()
}

// runSubsetFaults: a failing database call is reported, or does no harm.
func runSubsetFaults(r *core.Runner, mk func() string) {
	for _, world := range []string{"composite", "unique", "junction"} {
		for _, ext := range []bool{false, true} {
			for _, mode := range []faultdb.Mode{faultdb.ErrBefore, faultdb.ErrAfter, faultdb.Crash} {
				dir := mk()
				r.Go2(fmt.Sprintf("fault %s extended=%v %s", world, ext, mode), func(t *core.T) {
					defer os.RemoveAll(dir)
					s := keyServer(world)
					defer s.Close()
					queries := [2][]string{}
					which := 0
					if ext {
						which = 1
					}
					for _, n := range sortedKeys(shapeOf(s).tables) {
						queries[which] = append(queries[which], "SELECT {*} FROM {"+n+"}")
					}
					ref, err := subsetDump(s, dir, queries[0], queries[1], nil)
					if err != nil {
						t.Fatal("dump", "%v", err)
					}
					want := fmt.Sprint(ref)
					for at := 0; ; at++ {
						s.Reset()
						var hit *faultdb.Op
						s.Hook = func(op faultdb.Op) faultdb.Mode {
							if op.Seq == at && hit == nil {
								hit = &op
								return mode
							}
							return faultdb.OK
						}
						t.Step(1)
						got, err := subsetDump(s, dir, queries[0], queries[1], nil)
						s.Reset()
						if hit == nil {
							break
						}
						t.Nontrivial()
						t.Trace(1)
						if err != nil {
							t.Outcome("reported")
							continue
						}
						t.State(fmt.Sprint(got))
						if fmt.Sprint(got) != want {
							t.Fail("hidden", "%s at %s: success, but the dump is not complete:\n%v\nwant %v", mode, hit, got, want)
						}
						t.Outcome("harmless")
					}
				})
			}
		}
	}
	r.Wait()
}
