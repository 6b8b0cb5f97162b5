package checks

import (
	"fmt"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
	"verifmc/faultdb"
)

// A migration world: a directory of scripts whose only effect is to append to a log
// table, a database, and a reference notion of what must run.

const (
	fAbsent = iota
	fGood
	fGood2 // other contents
	fCRLF  // same contents as fGood with CRLF line ends
	fBad   // first statement works, second fails
	fBad2  // broken with other contents
)

var fNames = [...]string{"absent", "good", "good2", "crlf", "bad", "bad2"}

type migFile struct {
	name string
	rep  bool
}

func (f migFile) nontx(dialect string) bool {
	if strings.HasSuffix(f.name, ".tx.sql") {
		return false
	}
	return strings.HasSuffix(f.name, ".txoff.sql") || dialect == ddl.DialectMySQL
}

func (f migFile) solo(dialect string) bool {
	return strings.HasSuffix(f.name, ".tx.sql") || f.nontx(dialect)
}

func (f migFile) undo() string {
	return strings.TrimSuffix(strings.TrimSuffix(f.name, ".sql"), ".txoff") + ".undo.sql"
}

func contents(name string, st int) string {
	n := strings.ReplaceAll(name, "'", "''")
	good := "INSERT INTO log (x) VALUES ('" + n + "#1');\nINSERT INTO log (x) VALUES ('" + n + "#2');\n"
	switch st {
	case fGood:
		return good
	case fGood2:
		return "INSERT INTO log (x) VALUES ('" + n + "#3');\n-- second version\n"
	case fCRLF:
		return strings.ReplaceAll(good, "\n", "\r\n")
	case fBad:
		return "INSERT INTO log (x) VALUES ('" + n + "#b1');\nINSERT INTO nosuchtable (x) VALUES (1);\n"
	case fBad2:
		return "INSERT INTO log (x) VALUES ('" + n + "#b2');\nINSERT INTO nosuchtable2 (x) VALUES (1);\n"
	}
	return ""
}

// effects lists what a completely executed script appends to the log, and what a failing
// one appends before it fails.
func effects(name string, st int) (done []string, ok bool) {
	switch st {
	case fGood, fCRLF:
		return []string{name + "#1", name + "#2"}, true
	case fGood2:
		return []string{name + "#3"}, true
	case fBad:
		return []string{name + "#b1"}, false
	case fBad2:
		return []string{name + "#b2"}, false
	}
	return nil, true
}

type migDir struct {
	files  []migFile
	st     []int
	undo   bool   // undo scripts exist
	extras string // "" or "noise": files that must never run
}

func (d migDir) key() string {
	var b strings.Builder
	for i, f := range d.files {
		fmt.Fprintf(&b, "%s=%s ", f.name, fNames[d.st[i]])
	}
	return b.String()
}

func (d migDir) clone() migDir {
	d.st = append([]int(nil), d.st...)
	return d
}

func (d migDir) idx(name string) int {
	for i, f := range d.files {
		if f.name == name {
			return i
		}
	}
	return -1
}

func (d migDir) fs() fstest.MapFS {
	m := fstest.MapFS{}
	for i, f := range d.files {
		if d.st[i] != fAbsent {
			m[f.name] = &fstest.MapFile{Data: []byte(contents(f.name, d.st[i]))}
		}
		if d.undo && !strings.HasSuffix(f.name, ".tx.sql") {
			m[f.undo()] = &fstest.MapFile{Data: []byte("INSERT INTO log (x) VALUES ('" + strings.ReplaceAll(f.undo(), "'", "''") + "');\nINSERT INTO log (x) VALUES ('undo done');\n")}
		}
	}
	if d.extras != "" {
		noise := []byte("INSERT INTO log (x) VALUES ('NOISE');")
		for _, n := range []string{"schema.sql", "indexes.sql", "constraints.sql", "notes.txt", "data.csv", "00.undo.sql", "sub/01.sql", "sub/repeatable/x.sql", "repeatable/schema.sql", "repeatable/z.undo.sql", "01_sql", "01.sql.bak", "repeatable.md"} {
			m[n] = &fstest.MapFile{Data: noise}
		}
	}
	return m
}

// histRow is a row of the history table.
type histRow struct {
	checksum string
	success  bool
	raw      string
}

func readHist(s *faultdb.Server, table string) map[string]histRow {
	out := map[string]histRow{}
	if len(s.MustQuery(`SELECT 1 FROM sqlite_schema WHERE type='table' AND name=?`, table)) == 0 {
		return out
	}
	for _, r := range s.MustQuery(`SELECT filename, coalesce(checksum,''), coalesce(success,0), quote(filename)||','||quote(checksum)||','||quote(started_at)||','||quote(time_taken_ns)||','||quote(success) FROM ` + qid(table)) {
		ok := false
		switch v := r[2].(type) {
		case int64:
			ok = v != 0
		case bool:
			ok = v
		}
		out[str(r[0])] = histRow{str(r[1]), ok, str(r[3])}
	}
	return out
}

func histKey(h map[string]histRow) string {
	var ks []string
	for k, v := range h {
		c := v.checksum
		if !strings.HasPrefix(k, "repeatable/") || !v.success {
			c = "" // not part of the contract
		}
		if len(c) > 6 {
			c = c[:6]
		}
		ks = append(ks, fmt.Sprintf("%s:%s:%v", k, c, v.success))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func readLog(s *faultdb.Server) []string {
	return s.Strings(`SELECT x FROM log ORDER BY id`)
}

const logDDL = `CREATE TABLE log (id INTEGER PRIMARY KEY AUTOINCREMENT, x TEXT)`

// selectFiles is the specification of file selection and order.
func (d migDir) selectFiles(explicit []string) []migFile {
	var plain, rep []migFile
	add := func(f migFile) {
		for _, g := range append(append([]migFile{}, plain...), rep...) {
			if g.name == f.name {
				return
			}
		}
		if f.rep {
			rep = append(rep, f)
		} else {
			plain = append(plain, f)
		}
	}
	if explicit == nil {
		fs := append([]migFile(nil), d.files...)
		sort.SliceStable(fs, func(i, j int) bool { return fs[i].name < fs[j].name })
		for _, f := range fs {
			if d.st[d.idx(f.name)] != fAbsent {
				add(f)
			}
		}
	} else {
		for _, n := range explicit {
			if i := d.idx(n); i >= 0 {
				add(d.files[i])
			}
		}
	}
	return append(plain, rep...)
}

// pending is the specification of what must run.
func (d migDir) pending(explicit []string, h map[string]histRow, skipHistory bool) []migFile {
	var out []migFile
	for _, f := range d.selectFiles(explicit) {
		row, ok := h[f.name]
		if !skipHistory && ok && row.success {
			if !f.rep || row.checksum == checksum(contents(f.name, d.st[d.idx(f.name)])) {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

// groups is the specification of transaction grouping.
func groups(dialect string, pend []migFile) [][]migFile {
	var out [][]migFile
	for _, f := range pend {
		n := len(out)
		if n > 0 && !f.solo(dialect) && !out[n-1][0].solo(dialect) {
			out[n-1] = append(out[n-1], f)
		} else {
			out = append(out, []migFile{f})
		}
	}
	return out
}

// expectation of a migrate run on a healthy database.
type expectation struct {
	log       []string  // effects that must be there
	done      []migFile // must be recorded as applied
	attempted []migFile // may be recorded as failed
	fails     bool      // the run must report an error
	groups    [][]migFile
}

func (d migDir) expect(dialect string, explicit []string, h map[string]histRow, skipHistory bool) expectation {
	var e expectation
	e.groups = groups(dialect, d.pending(explicit, h, skipHistory))
	for _, g := range e.groups {
		var eff []string
		ok := true
		for i, f := range g {
			x, good := effects(f.name, d.st[d.idx(f.name)])
			eff = append(eff, x...)
			if !good {
				ok = false
				e.attempted = append(e.attempted, g[:i+1]...)
				if f.nontx(dialect) {
					// Statements before the failing one stay; the undo script runs.
					e.log = append(e.log, eff...)
					if d.undo {
						e.log = append(e.log, f.undo(), "undo done")
					}
				}
				break
			}
		}
		if !ok {
			e.fails = true
			return e
		}
		e.log = append(e.log, eff...)
		e.done = append(e.done, g...)
	}
	return e
}

// checkMigrate compares what a run did with the expectation.
func (d migDir) checkMigrate(t *core.T, e expectation, before, after map[string]histRow, log []string, err error, skipHistory bool) {
	if (err != nil) != e.fails {
		t.Fail("error", "migrate returned %s, expected failure=%v", errStr(err), e.fails)
	}
	if strings.Join(log, ",") != strings.Join(e.log, ",") {
		t.Fail("executed", "scripts executed: %v\nexpected:         %v", log, e.log)
	}
	touched := map[string]bool{}
	if !skipHistory {
		for _, f := range e.done {
			touched[f.name] = true
			row, ok := after[f.name]
			if !ok || !row.success {
				t.Fail("history", "%s was applied but the history says %+v", f.name, row)
			} else if f.rep && row.checksum != checksum(contents(f.name, d.st[d.idx(f.name)])) {
				t.Fail("checksum", "%s was applied but the recorded checksum is %q", f.name, row.checksum)
			}
		}
		for _, f := range e.attempted {
			touched[f.name] = true
			row, ok := after[f.name]
			if ok && row.success && (!f.rep || row.checksum == checksum(contents(f.name, d.st[d.idx(f.name)]))) {
				t.Fail("history", "%s was not applied but the history says it was", f.name)
			}
		}
	}
	for n, row := range after {
		if !touched[n] && before[n] != row {
			t.Fail("history-other", "history row of %s changed: %q -> %q", n, before[n].raw, row.raw)
		}
	}
	for n := range before {
		if _, ok := after[n]; !ok {
			t.Fail("history-other", "history row of %s disappeared", n)
		}
	}
}
