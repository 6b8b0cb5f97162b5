package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
)

func init() {
	core.Register(&core.Check{Prop: "C08", Level: "model_checking", Run: runC08,
		Rule: "one evaluation = one pair of schemas given to the generator, or one run of the generate command with one combination of switches; a state is a (dialect, version, table, column before, column after), a transition one column change classified by the reference and compared with the warnings, a trace one call of the generator or the command",
		Assumptions: []string{
			"a change counts as safe if the manual of the server says so: CIDR to INET, text to a limit that is not smaller, NUMERIC to more precision with the same scale or to no limits (Postgres), VARCHAR to a larger limit on the same side of 255 (MySQL)",
			"changes of collation, default and identity are not judged except where the documentation promises a warning",
			"only that a warning names table and column is judged, not its wording",
		}})
}

// change8 is one column before and after; before is nil for new columns.
type change8 struct{ before, after *mCol }

func limits8(canon string) (base string, args []int, array bool) {
	canon, array = strings.CutSuffix(canon, "[]")
	base, rest, found := strings.Cut(canon, "(")
	if !found {
		return canon, nil, array
	}
	in, suffix, _ := strings.Cut(rest, ")")
	for _, s := range strings.Split(in, ",") {
		n, err := strconv.Atoi(strings.TrimSpace(s))
		if err != nil {
			return canon, nil, array // members of an enum, MAX
		}
		args = append(args, n)
	}
	if base == "NUMERIC" && len(args) == 1 {
		args = append(args, 0)
	}
	return base + suffix, args, array
}

// safeType8 reports whether a value of one type always fits the other without the table
// being rewritten.
func safeType8(dialect, from, to string) bool {
	a, alim, aarr := limits8(canonType(dialect, from))
	b, blim, barr := limits8(canonType(dialect, to))
	if a == b && aarr == barr && fmt.Sprint(alim) == fmt.Sprint(blim) {
		return true
	}
	if aarr || barr {
		return false
	}
	switch dialect {
	case "postgres":
		text := func(s string) bool { return s == "TEXT" || s == "VARCHAR" }
		switch {
		case a == "CIDR" && b == "INET":
			return true
		case text(a) && text(b):
			return len(blim) == 0 || len(alim) > 0 && alim[0] <= blim[0]
		case a == "NUMERIC" && b == "NUMERIC":
			return len(blim) == 0 || len(alim) > 0 && alim[1] == blim[1] && alim[0] <= blim[0]
		}
	case "mysql":
		if a == "VARCHAR" && b == "VARCHAR" {
			return alim[0] <= blim[0] && (alim[0] <= 255) == (blim[0] <= 255)
		}
	}
	return false
}

// warns8 reports whether the change must be warned about.
func warns8(w *world7, c change8) bool {
	old := func(major int) bool { return w.dialect == "postgres" && w.version[0] < major }
	if c.before == nil {
		if old(11) && (c.after.def != "" || c.after.ident != "") {
			return true
		}
		// MySQL fills in the implicit default of the type.
		return w.dialect != "mysql" && c.after.notnull && c.after.def == "" && c.after.ident == "" && !c.after.auto
	}
	if !safeType8(w.dialect, c.before.typ, c.after.typ) {
		return true
	}
	if old(12) && !c.before.notnull && c.after.notnull {
		return true
	}
	return w.dialect == "sqlserver" && c.before.ident == "" && c.after.ident != ""
}

// table8 is a table with its changes.
type table8 struct {
	schema, name string
	changes      []change8
}

func build8(w *world7, tables []table8) (src, dest *mDB) {
	src, dest = w.db([]string{w.cur, w.other}), w.db([]string{w.cur, w.other})
	for _, tb := range tables {
		s := w.tbl(tb.schema, tb.name, icol("id", true), pkeyOf(tb.name+"_pkey", "id"))
		d := w.tbl(tb.schema, tb.name, icol("id", true), pkeyOf(tb.name+"_pkey", "id"))
		for i, c := range tb.changes {
			name := w.n(fmt.Sprintf("colx%d", i))
			if c.before != nil {
				b := *c.before
				b.name = name
				s.cols = append(s.cols, &b)
			}
			a := *c.after
			a.name = name
			d.cols = append(d.cols, &a)
		}
		src.tables, dest.tables = append(src.tables, s), append(dest.tables, d)
	}
	return src, dest
}

func decide8(t *core.T, w *world7, tables []table8) {
	src, dest := build8(w, tables)
	_, _, warnings := genFiles(t, src, dest, false)
	t.Trace(1)
	used := make([]bool, len(warnings))
	for _, tb := range tables {
		for i, c := range tb.changes {
			name := w.n(fmt.Sprintf("colx%d", i))
			t.Step(1)
			t.State(w.dialect, fmt.Sprint(w.version), tb.schema, fmt.Sprintf("%+v", c.before), fmt.Sprintf("%+v", *c.after))
			found := false
			for k, msg := range warnings {
				table, rest, _ := strings.Cut(msg, ": ")
				if !strings.Contains(table, w.n(tb.name)) || !strings.Contains(rest, name) || !strings.Contains(rest, "column") {
					continue
				}
				if tb.schema != w.cur && !strings.Contains(table, tb.schema) || tb.schema == w.cur && strings.Contains(table, w.other) {
					continue
				}
				found, used[k] = true, true
			}
			want := warns8(w, c)
			if want {
				t.Nontrivial()
			}
			if want != found {
				sig := "missing"
				if found {
					sig = "superfluous"
				} else if w.dialect == "mysql" && c.before != nil && shorter8(c) {
					sig = "shorter"
				}
				t.Fail(sig, "%s %v: %s.%s column %s: from %s to %s: warning wanted %v, got\n%s", w.dialect, w.version, tb.schema, w.n(tb.name), name, show8(c.before), show8(c.after), want, strings.Join(warnings, "\n"))
			}
		}
	}
	for k, u := range used {
		if !u {
			t.Fail("superfluous", "%s %v: a warning about nothing that changes: %s", w.dialect, w.version, warnings[k])
		}
	}
}

// shorter8 tells whether a VARCHAR loses length without crossing MySQL's 255.
func shorter8(c change8) bool {
	a, alim, _ := limits8(canonType("mysql", c.before.typ))
	b, blim, _ := limits8(canonType("mysql", c.after.typ))
	return a == "VARCHAR" && b == "VARCHAR" && blim[0] < alim[0] && (alim[0] <= 255) == (blim[0] <= 255)
}

func show8(c *mCol) string {
	if c == nil {
		return "nothing"
	}
	s := c.typ
	if c.notnull {
		s += " NOT NULL"
	}
	if c.def != "" {
		s += " DEFAULT " + c.def
	}
	return strings.TrimSpace(s + " " + c.ident)
}

func types8(dialect string) []string {
	switch dialect {
	case "postgres":
		return []string{"INT", "INTEGER", "BIGINT", "SMALLINT", "TEXT", "VARCHAR", "VARCHAR(10)", "VARCHAR(20)", "VARCHAR(3)", "CHARACTER VARYING(10)", "character varying", "CHAR(10)", "CHAR(20)",
			"NUMERIC", "NUMERIC(5)", "NUMERIC(5,0)", "NUMERIC(5,2)", "NUMERIC(6,2)", "NUMERIC(5,3)", "NUMERIC(10,3)", "NUMERIC(10)", "DECIMAL(5,2)", "DECIMAL", "REAL", "DOUBLE PRECISION",
			"CIDR", "INET", "TIMESTAMP", "TIMESTAMPTZ", "TIMESTAMP(3)", "TIMESTAMP WITH TIME ZONE", "DATE", "BYTEA", "BOOLEAN", "UUID", "JSONB", "VARCHAR(10)[]", "VARCHAR(20)[]", "TEXT[]", "INT[]"}
	case "mysql":
		return []string{"INT", "INTEGER", "INT(11)", "BIGINT", "INT UNSIGNED", "INT(11) UNSIGNED", "TINYINT", "TINYINT(1)", "BOOLEAN", "VARCHAR(10)", "VARCHAR(200)", "VARCHAR(255)", "VARCHAR(256)", "VARCHAR(300)", "VARCHAR(3)",
			"CHAR(10)", "TEXT", "LONGTEXT", "DECIMAL(5,2)", "NUMERIC(5,2)", "DECIMAL(6,2)", "DECIMAL(5,2) UNSIGNED", "DATETIME", "DATETIME(6)", "TIMESTAMP", "ENUM('a','b')", "ENUM('a','b','c')", "JSON", "BINARY(16)", "DOUBLE", "FLOAT"}
	}
	return []string{"INT", "INTEGER", "BIGINT", "VARCHAR(10)", "VARCHAR(20)", "VARCHAR(MAX)", "NVARCHAR(10)", "NVARCHAR(255)", "CHAR(10)", "TEXT", "NUMERIC(5,2)", "DECIMAL(5,2)", "DECIMAL(6,2)", "DATETIME", "DATETIME2", "DATETIMEOFFSET", "BIT", "UNIQUEIDENTIFIER", "BINARY(16)", "VARBINARY(MAX)", "FLOAT"}
}

func worlds8() []*world7 {
	var out []*world7
	for _, w := range worlds7(nil) {
		out = append(out, w)
		if w.dialect == "postgres" {
			for _, v := range [][]int{{9, 6, 24}, {10}, {10, 23}, {11, 0}, {11, 18}, {12}, {12, 1}, {15}} {
				o := *w
				o.version = v
				out = append(out, &o)
			}
		}
	}
	return out
}

func runC08(r *core.Runner) {
	for _, w := range worlds8() {
		key := fmt.Sprintf("%s %v ", w.dialect, w.version)
		types := types8(w.dialect)
		modern := w.dialect != "postgres" || w.version[0] == 14
		// every ordered pair of types, every change of nullability along with it
		for _, a := range types {
			for _, b := range types {
				for nn := 0; nn < 4; nn++ {
					for _, schema := range []string{w.cur, w.other} {
						if !modern && !r.Thorough() && (a != b && schema != w.cur) {
							continue
						}
						if r.Stop() {
							return
						}
						c := change8{&mCol{typ: a, notnull: nn&1 != 0}, &mCol{typ: b, notnull: nn&2 != 0}}
						r.Go(fmt.Sprintf("types %s %s %s>%s %d", key, schema, a, b, nn), func(t *core.T) {
							decide8(t, w, []table8{{schema, "tabx", []change8{c}}})
						})
					}
				}
			}
		}
		// new columns
		adds := adds8(w)
		for i, c := range adds {
			for _, schema := range []string{w.cur, w.other} {
				r.Go(fmt.Sprintf("add %s %s %d", key, schema, i), func(t *core.T) {
					decide8(t, w, []table8{{schema, "tabx", []change8{c}}})
				})
			}
		}
		// no warning hides another: every arrangement of some changes over one or two tables
		some := some8(w)
		n := r.Pick(3, 4)
		var walk func(seq []int)
		walk = func(seq []int) {
			if r.Stop() {
				return
			}
			if len(seq) > 1 {
				seq := append([]int(nil), seq...)
				r.Go(fmt.Sprintf("several %s %v", key, seq), func(t *core.T) {
					for cut := 0; cut < len(seq); cut++ {
						one, two := table8{w.cur, "tabx", nil}, table8{w.other, "taby", nil}
						for i, k := range seq {
							if i < cut {
								one.changes = append(one.changes, some[k])
							} else {
								two.changes = append(two.changes, some[k])
							}
						}
						decide8(t, w, []table8{one, two})
					}
				})
			}
			if len(seq) == n {
				return
			}
			for k := range some {
				walk(append(seq, k))
			}
		}
		walk(nil)
	}
	gate8(r)
	r.Wait()
}

func adds8(w *world7) []change8 {
	var out []change8
	idents := []string{""}
	switch w.dialect {
	case "postgres":
		idents = []string{"", ddl.DEFAULT_IDENTITY, ddl.ALWAYS_IDENTITY}
	case "sqlserver":
		idents = []string{"", ddl.IDENTITY}
	}
	for _, typ := range []string{"INT", types8(w.dialect)[5]} {
		for _, nn := range []bool{false, true} {
			for _, def := range []string{"", "1", "'x'", "CURRENT_TIMESTAMP"} {
				for _, id := range idents {
					if id != "" && (def != "" || !nn) {
						continue
					}
					out = append(out, change8{nil, &mCol{typ: typ, notnull: nn, def: def, ident: id}})
				}
			}
		}
	}
	return out
}

// some8 is a handful of changes, safe and unsafe ones.
func some8(w *world7) []change8 {
	out := []change8{
		{&mCol{typ: "INT"}, &mCol{typ: "INT"}},
		{&mCol{typ: "INT"}, &mCol{typ: "BIGINT"}},
		{&mCol{typ: "VARCHAR(20)"}, &mCol{typ: "VARCHAR(10)"}},
		{&mCol{typ: "VARCHAR(10)"}, &mCol{typ: "VARCHAR(20)"}},
		{&mCol{typ: "INT"}, &mCol{typ: "INT", notnull: true}},
		{&mCol{typ: "INT", def: "1"}, &mCol{typ: "INT", def: "2"}},
		{nil, &mCol{typ: "INT", def: "1"}},
		{nil, &mCol{typ: "INT"}},
		{nil, &mCol{typ: "INT", notnull: true}},
	}
	if w.dialect == "postgres" {
		out = append(out, change8{&mCol{typ: "NUMERIC(5,2)"}, &mCol{typ: "NUMERIC(5,3)"}})
	}
	if w.dialect == "sqlserver" {
		out = append(out, change8{&mCol{typ: "INT", notnull: true}, &mCol{typ: "INT", notnull: true, ident: ddl.IDENTITY}})
	}
	return out
}

// ---- the gate of the generate command

func gate8(r *core.Runner) {
	names := map[string]func(string) string{
		"plain":   func(s string) string { return s },
		"percent": func(s string) string { return s + "%d%s%" },
	}
	for _, style := range sortedKeys(names) {
		for _, w := range worlds7(names[style]) {
			some := some8(w)
			for _, set := range [][]int{{}, {0}, {7}, {3, 6}, {1}, {1, 2, 4}, {1, 7, 2, 3}} {
				var changes []change8
				for _, k := range set {
					changes = append(changes, some[k])
				}
				for sw := 0; sw < 16; sw++ {
					if r.Stop() {
						return
					}
					r.Go(fmt.Sprintf("gate %s %s %v %04b", style, w.dialect, set, sw), func(t *core.T) { decideGate8(t, w, changes, sw) })
				}
			}
		}
	}
}

func decideGate8(t *core.T, w *world7, changes []change8, sw int) {
	accept, dry, drop, created := sw&1 != 0, sw&2 != 0, sw&4 != 0, sw&8 != 0
	src, dest := build8(w, []table8{{w.cur, "tabx", changes}})
	if created {
		// a new table and an index on an existing one: files with undo scripts
		dest.tables = append(dest.tables, w.tbl(w.other, "tabn", icol("id", true), pkeyOf("tabn_pkey", "id"), ixOf("tabn_idx", "id")))
		dest.tables[0].idxs = append(dest.tables[0].idxs, w.tbl(w.cur, "tabx", ixOf("tabx_idx", "id")).idxs...)
		src.tables = append(src.tables, w.tbl(w.cur, "tabo", icol("id", true)))
	}
	names, text, warnings := genFiles(t, src, dest, drop)
	dir := scratchDir()
	defer os.RemoveAll(dir)
	other := filepath.Join(dir, "other.sql")
	if err := os.WriteFile(other, []byte("kept"), 0644); err != nil {
		core.Broken("%v", err)
	}
	if len(names) > 0 {
		// an older, longer file of the same name
		if err := os.WriteFile(filepath.Join(dir, names[0]), []byte(strings.Repeat("old\n", 2000)), 0644); err != nil {
			core.Broken("%v", err)
		}
	}
	before := dirText(dir)
	var stdout, stderr bytes.Buffer
	cmd := &ddl.GenerateCmd{Dialect: w.dialect, SrcCatalog: src.catalog(), DestCatalog: dest.catalog(), Prefix: "p", DropObjects: drop, AcceptWarnings: accept, DryRun: dry, OutputDir: dir, Stdout: &stdout, Stderr: &stderr}
	err := cmd.Run()
	t.Trace(1)
	t.Step(1)
	t.State("gate", w.dialect, fmt.Sprint(sw), fmt.Sprint(len(warnings)), strings.Join(names, " "))
	after := dirText(dir)
	blocked := len(warnings) > 0 && !accept && !dry
	if len(warnings) > 0 {
		t.Nontrivial()
	}
	if blocked != (err != nil) {
		t.Fatal("gate", "%d warnings, accepted %v, dry run %v: Run returns %v", len(warnings), accept, dry, err)
	}
	shown := stderr.String()
	if blocked {
		shown = err.Error()
	}
	for _, msg := range warnings {
		if !strings.Contains(shown, msg) {
			t.Fail("hidden", "the warning %q is not shown in\n%s", msg, shown)
		}
	}
	if blocked || dry {
		if after != before {
			t.Fail("written", "files are written (blocked %v, dry run %v):\n%s", blocked, dry, after)
		}
		if blocked {
			if stdout.Len() > 0 {
				t.Fail("written", "statements are printed although there are warnings:\n%s", stdout.String())
			}
			return
		}
		// what is printed is the files in order, with headings
		var want []string
		for _, name := range names {
			if !strings.HasSuffix(name, ".undo.sql") {
				want = append(want, text[name])
			}
		}
		clean := func(s string) string {
			var out []string
			for _, line := range strings.Split(s, "\n") {
				if line == "" || strings.HasPrefix(line, "-- "+dir) {
					continue
				}
				out = append(out, line)
			}
			return strings.Join(out, "\n")
		}
		if got, want := clean(stdout.String()), clean(strings.Join(want, "\n")); got != want {
			t.Fail("dry-run", "a dry run prints\n%s\ninstead of\n%s", got, want)
		}
		return
	}
	if stdout.Len() > 0 {
		t.Fail("dry-run", "statements are printed as well as written:\n%s", stdout.String())
	}
	entries, err := os.ReadDir(dir)
	if err != nil {
		core.Broken("%v", err)
	}
	var got []string
	for _, e := range entries {
		if e.Name() == "other.sql" {
			continue
		}
		got = append(got, e.Name())
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			core.Broken("%v", err)
		}
		if string(b) != text[e.Name()] {
			t.Fail("file", "%s contains\n%s\ninstead of\n%s", e.Name(), b, text[e.Name()])
		}
	}
	sort.Strings(got)
	if strings.Join(got, "\n") != strings.Join(names, "\n") {
		t.Fail("files", "written: %v\nwanted: %v", got, names)
	}
	if b, err := os.ReadFile(other); err != nil || string(b) != "kept" {
		t.Fail("files", "another file of the directory changed")
	}
	t.Sample(map[string]any{"warnings": warnings, "files": names, "accept": accept})
}
