package checks

import (
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"testing/fstest"
	"time"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
	"verifmc/faultdb"
)

func init() {
	core.Register(&core.Check{Prop: "C17", Level: "exploration", Run: runC17,
		Rule: "every string of up to 5 (thorough 6) symbols of an alphabet of 17 special symbols, every reserved word of every dialect in 7 forms, every value type, every sequence of up to 4 (thorough 5) query pieces with 0 to 3 arguments; an evaluation is one call whose text is read back by the reference lexer of the dialect or executed; all are distinct and counted non-trivial when the text was read back",
		Assumptions: []string{
			"strings contain no NUL, times are whole seconds, floats are finite",
			"MySQL runs without ANSI_QUOTES and NO_BACKSLASH_ESCAPES, Postgres with standard_conforming_strings",
			"file names contain no backslash on MySQL; parameters are separated from quotes and words by a blank or operator; comments in query texts are not considered",
			"the lexers of Postgres, MySQL and SQL Server are written from their manuals; SQLite's is compared with SQLite itself",
		}})
}

// C17 reads what the quoting functions produce with a reference lexer of each dialect and
// asks whether it denotes the string (value) that went in. For SQLite the lexer itself is
// validated by executing the text.

var allDialects = []string{ddl.DialectSQLite, ddl.DialectPostgres, ddl.DialectMySQL, ddl.DialectSQLServer}

var quoteAlphabet = []string{"a", "A", "0", "_", `"`, "`", "[", "]", "'", `\`, " ", ".", ";", "-", "$", "ü", "\n"}
var valueAlphabet = []string{"a", "'", `\`, "\n", "\r", `"`, "%", "-", ";", "n", "ü", "0"}

// words calls f for every string of 1 to n symbols that starts with prefix.
func words(alphabet []string, n int, prefix string, f func(string)) {
	if prefix != "" {
		f(prefix)
	}
	if n == 0 {
		return
	}
	for _, a := range alphabet {
		words(alphabet, n-1, prefix+a, f)
	}
}

func runC17(r *core.Runner) {
	// 1. Identifiers.
	n := r.Pick(5, 6)
	for _, d := range allDialects {
		for _, a := range quoteAlphabet {
			for _, b := range quoteAlphabet {
				if r.Stop() {
					break
				}
				r.Go(fmt.Sprintf("identifiers %s %q", d, a+b), func(t *core.T) {
					if b == quoteAlphabet[0] {
						checkIdentifier(t, d, a)
					}
					words(quoteAlphabet, n-2, a+b, func(s string) { checkIdentifier(t, d, s) })
				})
				r.Go(fmt.Sprintf("escape %s %q", d, a+b), func(t *core.T) {
					words(quoteAlphabet, n-2, a+b, func(s string) { checkEscape(t, d, s) })
				})
			}
		}
		// Every keyword of any dialect, as it is, capitalised and within other words.
		var all []string
		for w := range keywords() {
			all = append(all, w)
		}
		sort.Strings(all)
		r.Go("keywords "+d, func(t *core.T) {
			for _, w := range all {
				for _, s := range []string{w, strings.ToUpper(w), strings.ToUpper(w[:1]) + w[1:], w + "_", w + "s", "_" + w, w + " " + w} {
					if s != "EXCLUDED" && s != "INSERTED" && s != "DELETED" && s != "NEW" && s != "OLD" {
						checkIdentifier(t, d, s)
					}
				}
			}
		})
	}
	// 2. The same executed by SQLite.
	for _, a := range append([]string{""}, quoteAlphabet...) {
		r.Go(fmt.Sprintf("executed identifiers %q", a), func(t *core.T) {
			s := faultdb.New("")
			defer s.Close()
			words(quoteAlphabet, r.Pick(1, 2), a, func(name string) { executeIdentifier(t, s, name) })
			if a == "" {
				for w := range keywords() {
					executeIdentifier(t, s, w)
				}
			}
		})
	}
	// 3. Strings as values.
	for _, d := range allDialects {
		for _, a := range valueAlphabet {
			for _, b := range valueAlphabet {
				if r.Stop() {
					break
				}
				r.Go(fmt.Sprintf("values %s %q", d, a+b), func(t *core.T) {
					if b == valueAlphabet[0] {
						checkValue(t, d, nil, a, token{tString, a})
					}
					words(valueAlphabet, n-2, a+b, func(s string) { checkValue(t, d, nil, s, token{tString, s}) })
				})
			}
		}
		r.Go("values of other types "+d, func(t *core.T) { otherValues(t, d) })
	}
	for _, a := range valueAlphabet {
		r.Go(fmt.Sprintf("executed values %q", a), func(t *core.T) {
			s := faultdb.New("")
			defer s.Close()
			words(valueAlphabet, r.Pick(2, 3), a, func(v string) { checkValue(t, "sqlite", s, v, token{tString, v}) })
		})
	}
	// 4. File names and history table names in the statements of the commands.
	for _, d := range allDialects {
		for _, a := range quoteAlphabet {
			if r.Stop() {
				break
			}
			r.Go(fmt.Sprintf("file names %s %q", d, a), func(t *core.T) {
				words(quoteAlphabet, r.Pick(1, 2), a, func(name string) { fileName(t, d, name, "sqddl_history") })
				if d == ddl.DialectSQLite {
					fileName(t, d, "a", a)
					words(quoteAlphabet, 1, a, func(name string) { fileName(t, d, name, name) })
				}
			})
		}
	}
	// 5. Queries with placeholders.
	for _, d := range allDialects {
		pieces := queryPieces[d]
		for _, a := range pieces {
			for _, b := range pieces {
				if r.Stop() {
					break
				}
				r.Go(fmt.Sprintf("query %s %q %q", d, a, b), func(t *core.T) {
					queryWords(pieces, r.Pick(2, 3), []string{a, b}, func(q []string) { checkQuery(t, d, q) })
				})
			}
		}
	}
	r.Wait()
}

func keywords() map[string]bool {
	out := map[string]bool{}
	for _, m := range []map[string]bool{sqliteReserved, pgReserved, mysqlReserved, mssqlReserved} {
		for w := range m {
			out[w] = true
		}
	}
	// SQLite words that are keywords only in some places.
	for w := range wordSet("abort action after always analyze before begin cascade cast column conflict current database desc do each end exclude explain filter first following generated glob groups if ignore indexed initially inner instead key last left like match materialized natural no nulls of offset others outer over partition plan pragma preceding query raise range recursive regexp reindex release rename replace restrict right rollback row rows savepoint temp temporary ties trigger unbounded vacuum view virtual window with without") {
		out[w] = true
	}
	return out
}

func checkIdentifier(t *core.T, dialect, name string) {
	q := ddl.QuoteIdentifier(dialect, name)
	t.Step(1)
	t.Nontrivial()
	toks, err := lexSQL(dialect, q)
	if err != nil || len(toks) != 1 {
		t.Fail("identifier", "%s: %q is quoted as %s, which is not one token: %v", dialect, name, q, toks)
		return
	}
	got, ok := identifierValue(dialect, toks[0])
	if !ok {
		t.Fail("identifier", "%s: %q is quoted as %s, which cannot be used as a name", dialect, name, q)
		return
	}
	if got != name {
		t.Fail("identifier", "%s: %q is quoted as %s, which denotes %q", dialect, name, q, got)
	}
	if q == name {
		t.Sample(name)
		t.Outcome("bare identifier")
	} else {
		t.Outcome("quoted identifier")
	}
}

// executeIdentifier creates a table and a column of that name and reads the names back.
func executeIdentifier(t *core.T, s *faultdb.Server, name string) {
	q := ddl.QuoteIdentifier("sqlite", name)
	t.Step(1)
	t.Trace(1)
	// x keeps the table from clashing with SQLite's own names.
	if err := s.Exec("CREATE TABLE " + q + " (" + q + " INT, CONSTRAINT " + q + " UNIQUE (" + q + "))"); err != nil {
		t.Fail("executed", "CREATE TABLE %s: %v", q, err)
		return
	}
	rows := s.MustQuery("SELECT name FROM sqlite_schema WHERE type = 'table' AND name NOT LIKE 'sqlite_%'")
	cols := s.MustQuery("SELECT name FROM pragma_table_info(" + sqlString(name) + ")")
	if len(rows) != 1 || str(rows[0][0]) != name || len(cols) != 1 || str(cols[0][0]) != name {
		t.Fail("executed", "%q quoted as %s made table %v with columns %v", name, q, rows, cols)
	}
	if err := s.Exec("DROP TABLE " + q); err != nil {
		t.Fail("executed", "DROP TABLE %s: %v", q, err)
	}
	t.Outcome("executed identifier")
}

// fileName runs the commands that write file names into SQL.
func fileName(t *core.T, dialect, name, hist string) {
	if dialect == ddl.DialectMySQL && strings.Contains(name, `\`) {
		return // see the assumptions
	}
	f, g := name+".sql", "z"+name+".sql"
	s := newDialectServer(dialect, "10")
	defer s.Close()
	db := s.DB()
	defer db.Close()
	if dialect != ddl.DialectSQLite {
		// A column type whose values the SQLite driver returns as times.
		s.MustExec("CREATE TABLE " + qid(hist) + " (filename VARCHAR(255) NOT NULL PRIMARY KEY, checksum VARCHAR(64), started_at DATETIME, time_taken_ns BIGINT, success BOOLEAN)")
	}
	fsys := fstest.MapFS{f: &fstest.MapFile{Data: []byte("CREATE TABLE t_ (a INT);")}, "b.sql": &fstest.MapFile{Data: []byte("CREATE TABLE b_ (a INT);")}}
	var out syncBuf
	history := func() string {
		h := readHist(s.Server, hist)
		var l []string
		for k, v := range h {
			l = append(l, fmt.Sprintf("%q %v", k, v.success))
		}
		sort.Strings(l)
		return strings.Join(l, ", ")
	}
	expect := func(what string, err error, want ...string) bool {
		var l []string
		for _, w := range want {
			l = append(l, fmt.Sprintf("%q true", w))
		}
		sort.Strings(l)
		t.Step(1)
		t.Trace(1)
		if got := history(); err != nil || got != strings.Join(l, ", ") {
			t.Fail("filename", "%s %s with file %q and table %q: history is %s, want %v (%v)", dialect, what, f, hist, got, l, err)
			return false
		}
		return true
	}
	ls := func() string {
		var o syncBuf
		if err := (&ddl.LsCmd{DB: db, Dialect: dialect, DirFS: fsys, Stdout: &o, HistoryTable: hist}).Run(); err != nil {
			return err.Error()
		}
		return o.String()
	}
	err := (&ddl.TouchCmd{DB: db, Dialect: dialect, DirFS: fsys, Filenames: []string{f}, Stderr: &out, HistoryTable: hist}).Run()
	if !expect("touch", err, f) {
		return
	}
	if got := ls(); strings.Contains(got, f) || !strings.Contains(got, "b.sql") {
		t.Fail("filename", "%s ls after touch of %q (table %q): %s", dialect, f, hist, got)
	}
	err = (&ddl.MigrateCmd{DB: db, Dialect: dialect, DirFS: fsys, Stderr: &out, HistoryTable: hist}).Run()
	if !expect("migrate", err, f, "b.sql") {
		return
	}
	err = (&ddl.MvCmd{DB: db, Dialect: dialect, SrcFilename: f, DestFilename: g, Stderr: &out, HistoryTable: hist}).Run()
	if !expect("mv", err, g, "b.sql") {
		return
	}
	err = (&ddl.MigrateCmd{DB: db, Dialect: dialect, DirFS: fsys, Filenames: []string{f}, Stderr: &out, HistoryTable: hist}).Run()
	if !expect("migrate", err, f, g, "b.sql") {
		return
	}
	err = (&ddl.RmCmd{DB: db, Dialect: dialect, Filenames: []string{g, f}, Stderr: &out, HistoryTable: hist}).Run()
	if !expect("rm", err, "b.sql") {
		return
	}
	t.Nontrivial()
	t.Outcome("file name")
}

func sqlString(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

// checkEscape checks EscapeQuote for the quotes a dialect closes tokens with.
func checkEscape(t *core.T, dialect, s string) {
	open, end := `"`, `"`
	switch dialect {
	case "mysql":
		open, end = "`", "`"
	case "sqlserver":
		open, end = "[", "]"
	}
	for _, q := range [][2]string{{open, end}, {"'", "'"}} {
		if q[0] == "'" && dialect == "mysql" && strings.Contains(s, `\`) {
			continue // EscapeQuote does not know about backslashes
		}
		text := q[0] + ddl.EscapeQuote(s, q[1][0]) + q[1]
		t.Step(1)
		toks, err := lexSQL(dialect, text)
		if err != nil || len(toks) != 1 || toks[0].text != s {
			t.Fail("escape", "%s: %q escaped as %s reads as %v %v", dialect, s, text, toks, err)
		}
	}
	t.Outcome("escaped")
}

// readValue evaluates the text of a value by the rules of the dialect.
func readValue(dialect, text string) (token, error) {
	toks, err := lexSQL(dialect, text)
	if err != nil {
		return token{}, err
	}
	return evalConcat(dialect, toks)
}

// evalConcat evaluates a literal or a concatenation of string literals and CHAR(n).
func evalConcat(dialect string, toks []token) (token, error) {
	op := "||"
	if dialect == "mysql" || dialect == "sqlserver" {
		op = ","
		if len(toks) > 3 && toks[0].kind == tWord && strings.EqualFold(toks[0].text, "CONCAT") && toks[1].text == "(" && toks[len(toks)-1].text == ")" {
			parts := toks[2 : len(toks)-1]
			v, n, err := concat(dialect, parts, op)
			if err == nil && n < 2 && dialect == "sqlserver" {
				err = fmt.Errorf("CONCAT needs two arguments")
			}
			return v, err
		}
	}
	if len(toks) > 0 && (toks[0].kind == tString || toks[0].kind == tWord && len(toks) > 1) && len(toks) > 1 {
		v, _, err := concat(dialect, toks, op)
		return v, err
	}
	neg := ""
	if len(toks) == 2 && toks[0].text == "-" && toks[1].kind == tNumber {
		neg, toks = "-", toks[1:]
	}
	if len(toks) != 1 {
		return token{}, fmt.Errorf("not a value: %v", toks)
	}
	v := toks[0]
	v.text = neg + v.text
	return v, nil
}

func concat(dialect string, toks []token, op string) (token, int, error) {
	var b strings.Builder
	n := 0
	for i := 0; i < len(toks); {
		if n > 0 {
			for _, c := range op {
				if i >= len(toks) || toks[i].text != string(c) {
					return token{}, 0, fmt.Errorf("no %s in %v", op, toks)
				}
				i++
			}
			if i >= len(toks) {
				return token{}, 0, fmt.Errorf("nothing after %s in %v", op, toks)
			}
		}
		n++
		switch {
		case toks[i].kind == tString:
			b.WriteString(toks[i].text)
			i++
		case toks[i].kind == tWord && i+3 < len(toks) && toks[i+1].text == "(" && toks[i+3].text == ")":
			name := "CHAR"
			if dialect == "postgres" {
				name = "CHR"
			}
			code, err := strconv.Atoi(toks[i+2].text)
			if !strings.EqualFold(toks[i].text, name) || err != nil {
				return token{}, 0, fmt.Errorf("unknown function in %v", toks)
			}
			b.WriteRune(rune(code))
			i += 4
		default:
			return token{}, 0, fmt.Errorf("not a value: %v", toks)
		}
	}
	return token{tString, b.String()}, n, nil
}

// checkValue renders v with Sprint and reads it back. With a server SQLite reads it.
func checkValue(t *core.T, dialect string, s *faultdb.Server, v any, want token) {
	text, err := ddl.Sprint(dialect, v)
	t.Step(1)
	t.Nontrivial()
	if err != nil {
		t.Fail("value", "%s: %#v: %v", dialect, v, err)
		return
	}
	if s == nil {
		got, err := readValue(dialect, text)
		if err != nil || got.kind != want.kind || !sameToken(got, want) {
			t.Fail("value", "%s: %#v is written as %s, which reads as %v %v (want %v)", dialect, v, text, got, err, want)
		}
		t.Outcome("value")
		return
	}
	t.Trace(1)
	rows, err := s.Query("SELECT " + text + ", typeof(" + text + ")")
	if err != nil || len(rows) != 1 || str(rows[0][0]) != want.text || str(rows[0][1]) != "text" {
		t.Fail("value", "SQLite reads %#v written as %s as %v %v", v, text, rows, err)
	}
	t.Outcome("executed value")
}

func sameToken(a, b token) bool {
	if a.kind == tNumber {
		x, e1 := strconv.ParseFloat(a.text, 64)
		y, e2 := strconv.ParseFloat(b.text, 64)
		if strings.ContainsAny(a.text+b.text, ".eE") {
			return e1 == nil && e2 == nil && x == y
		}
		return a.text == b.text
	}
	if a.kind == tWord {
		return strings.EqualFold(a.text, b.text)
	}
	return a.text == b.text
}

type valuer struct{ v driver.Value }

func (v valuer) Value() (driver.Value, error) { return v.v, nil }

func otherValues(t *core.T, d string) {
	num := func(s string) token { return token{tNumber, s} }
	null := token{tWord, "NULL"}
	check := func(v any, want token) { checkValue(t, d, nil, v, want) }
	for _, i := range []int64{0, 1, -1, 127, -128, 255, 32767, 65535, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64} {
		s := strconv.FormatInt(i, 10)
		check(i, num(s))
		check(int(i), num(s))
		check(&i, num(s))
		check(sql.NullInt64{Int64: i, Valid: true}, num(s))
		check(valuer{i}, num(s))
		check(sql.NamedArg{Name: "x", Value: i}, num(s))
		check(int8(i), num(strconv.Itoa(int(int8(i)))))
		check(int16(i), num(strconv.Itoa(int(int16(i)))))
		check(int32(i), num(strconv.Itoa(int(int32(i)))))
		check(sql.NullInt32{Int32: int32(i), Valid: true}, num(strconv.Itoa(int(int32(i)))))
		check(uint8(i), num(strconv.Itoa(int(uint8(i)))))
		check(uint16(i), num(strconv.Itoa(int(uint16(i)))))
		check(uint32(i), num(strconv.Itoa(int(uint32(i)))))
		check(uint64(i), num(strconv.FormatUint(uint64(i), 10)))
		check(uint(i), num(strconv.FormatUint(uint64(i), 10)))
	}
	for _, f := range []float64{0, 1.5, -2.25, 0.1, 1e21, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, 123456789.125} {
		s := strconv.FormatFloat(f, 'g', 17, 64)
		check(f, num(s))
		check(&f, num(s))
		check(sql.NullFloat64{Float64: f, Valid: true}, num(s))
		check(valuer{f}, num(s))
		if float64(float32(f)) == f {
			check(float32(f), num(s))
		}
	}
	for _, b := range []bool{true, false} {
		want := token{tWord, strconv.FormatBool(b)}
		if d == "sqlserver" {
			want = num(map[bool]string{true: "1", false: "0"}[b])
		}
		check(b, want)
		check(&b, want)
		check(valuer{b}, want)
		check(sql.NullBool{Bool: b, Valid: true}, want)
	}
	for _, b := range []string{"", "\x00", "a'b", "\xff\x00\n", `\`} {
		h := hex.EncodeToString([]byte(b))
		want := token{tBlob, h}
		if d == "postgres" {
			want = token{tString, `\x` + h}
		}
		check([]byte(b), want)
		check(valuer{[]byte(b)}, want)
	}
	for _, s := range []string{"", "it's", "a\nb", "\n", "\r\n", `\`, `\'`} {
		want := token{tString, s}
		check(s, want)
		check(&s, want)
		check(valuer{s}, want)
		check(sql.NullString{String: s, Valid: true}, want)
		check(sql.NamedArg{Name: "x", Value: s}, want)
	}
	for _, zone := range []*time.Location{time.UTC, time.FixedZone("x", 5400), time.FixedZone("y", -8*3600)} {
		tm := time.Date(2022, 2, 3, 4, 5, 6, 0, zone)
		want := token{tString, tm.UTC().Format("2006-01-02 15:04:05")}
		if d == "postgres" || d == "sqlserver" {
			want = token{tString, tm.Format("2006-01-02 15:04:05-07:00")}
		}
		check(tm, want)
		check(&tm, want)
		check(valuer{tm}, want)
		check(sql.NullTime{Time: tm, Valid: true}, want)
	}
	var np *int64
	for _, v := range []any{nil, np, sql.NullInt64{}, sql.NullString{}, sql.NullBool{}, sql.NullFloat64{}, sql.NullTime{}, sql.NullInt32{}, valuer{nil}} {
		check(v, null)
	}
	for _, v := range []any{struct{}{}, []int{1}, map[string]int{}, make(chan int)} {
		if text, err := ddl.Sprint(d, v); err == nil {
			t.Fail("value", "%s: %T is written as %s", d, v, text)
		}
	}
}

// queryPieces are the tokens queries are put together from; "_" stands for a blank.
var queryPieces = map[string][]string{
	"sqlite":    {"a", "?", "?1", "?2", "$1", "$nm", ":nm", "@nm", "'x?1'", "'it''s ?'", `"c?"`, `"c""?"`, "`q?`", "[b?]", "_", ",", "(", ")", "=", "||", "ü", "'ü?'"},
	"postgres":  {"a", "$1", "$2", "$3", "'x$1'", "'it''s $1'", `"c$1"`, `"c""$2"`, "?", "_", ",", "(", ")", "=", "::text", "ü", `'\'`, "'ü$1'"},
	"mysql":     {"a", "?", "'x?'", "'it''s ?'", `'it\'s ?'`, `"c?"`, "`q?`", "`q``?`", "$1", "_", ",", "(", ")", "=", "@v", "ü", `'\\'`, `"it\"s ?"`, "'ü?'"},
	"sqlserver": {"a", "@p1", "@p2", "@P1", "@nm", "?", "'x@p1'", "'it''s @p1'", `"c@p1"`, "[b@p1]", "[b]]@p1]", "_", ",", "(", ")", "=", "ü", "$1", "'ü@p1'"},
}

func queryWords(pieces []string, n int, q []string, f func([]string)) {
	f(q)
	if n == 0 {
		return
	}
	for _, p := range pieces {
		queryWords(pieces, n-1, append(append([]string{}, q...), p), f)
	}
}

var queryArgs = []any{"it's $1 ?", sql.NamedArg{Name: "nm", Value: int64(7)}, nil}

// checkQuery substitutes the parameters of a query and compares with the substitution of
// the parameter tokens.
func checkQuery(t *core.T, dialect string, pieces []string) {
	for i := 1; i < len(pieces); i++ {
		// Words, parameters and literals are separated from each other in any real query.
		if !separator(pieces[i-1]) && !separator(pieces[i]) && pieces[i] != "::text" {
			return
		}
	}
	q := strings.ReplaceAll(strings.Join(pieces, ""), "_", " ")
	toks, err := lexSQL(dialect, q)
	if err != nil {
		core.Broken("bad query %q: %v", q, err)
	}
	for nargs := 0; nargs <= len(queryArgs); nargs++ {
		args := queryArgs[:nargs]
		var want []token
		running, missing := 0, false
		for _, tok := range toks {
			if tok.kind != tParam || nargs == 0 {
				want = append(want, tok)
				continue
			}
			idx := -1
			name := tok.text[1:]
			if dialect == "sqlserver" && len(name) > 1 && (name[0] == 'p' || name[0] == 'P') {
				name = name[1:]
			}
			if tok.text == "?" {
				idx = running
				running++
			} else if n, err := strconv.Atoi(name); err == nil {
				idx = n - 1
			} else if name == "nm" {
				idx = 1
			}
			if idx < 0 || idx >= nargs {
				missing = true
				break
			}
			v, err := ddl.Sprint(dialect, args[idx])
			if err != nil {
				core.Broken("%v", err)
			}
			vt, err := lexSQL(dialect, v)
			if err != nil {
				core.Broken("%v", err)
			}
			want = append(want, vt...)
		}
		got, err := sprintf(dialect, q, args)
		t.Step(1)
		if missing {
			if err == nil {
				t.Fail("query", "%s: %q with %d arguments gives %q although an argument is missing", dialect, q, nargs, got)
			} else if strings.HasPrefix(err.Error(), "panic") {
				t.Fail("query", "%s: %q with %d arguments: %v", dialect, q, nargs, err)
			}
			t.Outcome("query lacking arguments")
			continue
		}
		if err != nil {
			t.Fail("query", "%s: %q with %d arguments: %v", dialect, q, nargs, err)
			continue
		}
		gt, lerr := lexSQL(dialect, got)
		if lerr != nil || fmt.Sprint(gt) != fmt.Sprint(want) {
			t.Fail("query", "%s: %q with %d arguments gives %q, read as %v, want %v (%v)", dialect, q, nargs, got, gt, want, lerr)
		}
		t.Nontrivial()
		t.Outcome("query")
	}
}

func separator(p string) bool {
	return p == "_" || p == "," || p == "(" || p == ")" || p == "=" || p == "||"
}

func sprintf(dialect, q string, args []any) (s string, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	return ddl.Sprintf(dialect, q, args)
}
