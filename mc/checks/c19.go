package checks

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"compress/gzip"
	"database/sql"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
)

func init() {
	core.Register(&core.Check{
		Prop:  "C19",
		Level: "model_checking",
		Rule: "a case is a subcommand, a set of its flags and file arguments, and a way of writing them on the command line; " +
			"non-trivial when the program changed a file or a row, printed something, or failed",
		Assumptions: []string{
			"the program is built from the working tree and executed on SQLite files; the expected effect of a command line is the effect of the documented struct fields set directly, on an identical copy of the files",
			"flags: every set of at most two (thorough: three) of each subcommand's flags; durations and times are compared for presence only",
		},
		Run: runC19,
	})
}

// cliOpt is one flag (or file argument) and the documented fields it stands for.
type cliOpt struct {
	args   []string
	tail   []string // positional arguments
	fields map[string]any
	noDB   bool
}

func (o cliOpt) word() string {
	return strings.Join(append(append([]string{}, o.args...), o.tail...), " ")
}

type cliCmd struct {
	name string
	base cliOpt
	opts []cliOpt
	// lib makes the command from the database and the world directory.
	lib func(w string, db *sql.DB) any
}

// inDir marks a field whose value is a path of the world.
type inDir string

// fsDir marks a field whose value is a file system of the world.
type fsDir string

func flagOpt(arg, field string, v any) cliOpt {
	return cliOpt{args: strings.Split(arg, " "), fields: map[string]any{field: v}}
}

func cliCommands() []cliCmd {
	hist := flagOpt("-history-table hist2", "HistoryTable", "hist2")
	args := func(spelled []string, meant []string) cliOpt {
		return cliOpt{tail: spelled, fields: map[string]any{"Filenames": meant}}
	}
	dir := func(d string) cliOpt {
		return cliOpt{args: []string{"-dir", d}, fields: map[string]any{"DirFS": fsDir(d)}}
	}
	return []cliCmd{
		{name: "migrate", base: dir("migrations"),
			lib: func(w string, db *sql.DB) any { return &ddl.MigrateCmd{DB: db, Dialect: "sqlite"} },
			opts: []cliOpt{hist,
				flagOpt("-verbose", "Verbose", true),
				flagOpt("-skip-history-table", "SkipHistoryTable", true),
				flagOpt("-lock-timeout 2s", "LockTimeout", 2*time.Second),
				flagOpt("-max-attempts 3", "MaxAttempts", 3),
				flagOpt("-max-delay 7s", "MaxDelay", 7*time.Second),
				flagOpt("-base-delay 30ms", "BaseDelay", 30*time.Millisecond),
				dir("badmig"),
				args([]string{"02.sql"}, []string{"02.sql"}),
				args([]string{"repeatable/r.sql", "migrations/03.txoff.sql"}, []string{"repeatable/r.sql", "03.txoff.sql"}),
				args([]string{"nosuch.sql"}, []string{"nosuch.sql"}),
			}},
		{name: "ls", base: dir("migrations"),
			lib: func(w string, db *sql.DB) any { return &ddl.LsCmd{DB: db, Dialect: "sqlite"} },
			opts: []cliOpt{hist,
				flagOpt("-pending", "IncludePending", true),
				flagOpt("-applied", "IncludeApplied", true),
				flagOpt("-failed", "IncludeFailed", true),
				flagOpt("-missing", "IncludeMissing", true),
				flagOpt("-all", "IncludeAll", true),
				dir("badmig"),
			}},
		{name: "touch", base: dir("migrations"),
			lib: func(w string, db *sql.DB) any { return &ddl.TouchCmd{DB: db, Dialect: "sqlite"} },
			opts: []cliOpt{hist, dir("badmig"),
				args([]string{"02.sql"}, []string{"02.sql"}),
				args([]string{"./migrations/02.sql", "repeatable/r.sql"}, []string{"02.sql", "repeatable/r.sql"}),
				args([]string{"nosuch.sql"}, []string{"nosuch.sql"}),
			}},
		{name: "rm",
			lib: func(w string, db *sql.DB) any { return &ddl.RmCmd{DB: db, Dialect: "sqlite"} },
			opts: []cliOpt{hist,
				args([]string{"01.sql"}, []string{"01.sql"}),
				args([]string{"old.sql", "02.sql"}, []string{"old.sql", "02.sql"}),
				args([]string{"nosuch.sql"}, []string{"nosuch.sql"}),
				{args: []string{"-dir", "migrations"}, tail: []string{"migrations/01.sql"}, fields: map[string]any{"Filenames": []string{"01.sql"}}},
			}},
		{name: "mv",
			lib: func(w string, db *sql.DB) any { return &ddl.MvCmd{DB: db, Dialect: "sqlite"} },
			opts: []cliOpt{hist,
				{tail: []string{"01.sql", "new.sql"}, fields: map[string]any{"SrcFilename": "01.sql", "DestFilename": "new.sql"}},
				{tail: []string{"02.sql", "01.sql"}, fields: map[string]any{"SrcFilename": "02.sql", "DestFilename": "01.sql"}},
				{tail: []string{"01.sql"}, fields: map[string]any{"SrcFilename": "01.sql"}},
				{args: []string{"-dir", "./migrations"}, tail: []string{"migrations/01.sql", "migrations/sub/new.sql"}, fields: map[string]any{"SrcFilename": "01.sql", "DestFilename": "sub/new.sql"}},
			}},
		{name: "tables",
			lib: func(w string, db *sql.DB) any { return &ddl.TablesCmd{DB: db, Dialect: "sqlite", PackageName: "_"} },
			opts: []cliOpt{hist,
				flagOpt("-pkg mypkg", "PackageName", "mypkg"),
				flagOpt("-file out/t.go", "Filename", inDir("out/t.go")),
				flagOpt("-schema-qualified-structs", "SchemaQualifiedStructs", true),
				flagOpt("-schemas public,other", "Schemas", []string{"public", "other"}),
				flagOpt("-exclude-schemas public", "ExcludeSchemas", []string{"public"}),
				flagOpt("-tables parent,extra", "Tables", []string{"parent", "extra"}),
				flagOpt("-tables child", "Tables", []string{"child"}),
				flagOpt("-exclude-tables parent", "ExcludeTables", []string{"parent"}),
			}},
		{name: "views",
			lib: func(w string, db *sql.DB) any { return &ddl.ViewsCmd{DB: db, Dialect: "sqlite", PackageName: "_"} },
			opts: []cliOpt{{args: hist.args},
				flagOpt("-pkg mypkg", "PackageName", "mypkg"),
				flagOpt("-file out/v.go", "Filename", inDir("out/v.go")),
				flagOpt("-schemas public,other", "Schemas", []string{"public", "other"}),
				flagOpt("-exclude-schemas public", "ExcludeSchemas", []string{"public"}),
				flagOpt("-views v1", "Views", []string{"v1"}),
				flagOpt("-views v2,v3", "Views", []string{"v2", "v3"}),
				flagOpt("-exclude-views v1,v3", "ExcludeViews", []string{"v1", "v3"}),
			}},
		{name: "generate", base: cliOpt{args: []string{"-dest", "tables.go"}, fields: map[string]any{"DirFS": fsDir("."), "Filenames": []string{"tables.go"}}},
			lib: func(w string, db *sql.DB) any {
				return &ddl.GenerateCmd{Dialect: "sqlite", OutputDir: w}
			},
			opts: []cliOpt{hist,
				flagOpt("-dest t2.go,t3.go", "Filenames", []string{"t2.go", "t3.go"}),
				flagOpt("-output-dir out", "OutputDir", inDir("out")),
				flagOpt("-output-dir nosuchdir", "OutputDir", inDir("nosuchdir")),
				flagOpt("-prefix pre", "Prefix", "pre"),
				flagOpt("-drop-objects", "DropObjects", true),
				flagOpt("-accept-warnings", "AcceptWarnings", true),
				flagOpt("-dry-run", "DryRun", true),
				{args: []string{"-dialect", "sqlite"}},
				{args: []string{"-src", "schema.json"}, fields: map[string]any{"src": "schema.json"}},
				{args: []string{"-src", "other.db"}, fields: map[string]any{"src": "other.db"}, noDB: true},
			}},
		{name: "wipe",
			lib: func(w string, db *sql.DB) any { return &ddl.WipeCmd{DB: db, Dialect: "sqlite"} },
			opts: []cliOpt{{args: hist.args},
				flagOpt("-dry-run", "DryRun", true),
				flagOpt("-dry-run=false", "DryRun", false),
			}},
		{name: "dump",
			lib: func(w string, db *sql.DB) any { return &ddl.DumpCmd{DB: db, Dialect: "sqlite", OutputDir: w} },
			opts: []cliOpt{hist,
				flagOpt("-output-dir out", "OutputDir", inDir("out")),
				flagOpt("-output-dir new/dir", "OutputDir", inDir("new/dir")),
				flagOpt("-zip d", "Zip", "d"),
				flagOpt("-tgz d.tgz", "Tgz", "d.tgz"),
				flagOpt("-schema-only", "SchemaOnly", true),
				flagOpt("-data-only", "DataOnly", true),
				flagOpt("-nullstring nil", "Nullstring", "nil"),
				flagOpt("-binaryprefix hex:", "Binaryprefix", "hex:"),
				flagOpt("-schemas public", "Schemas", []string{"public"}),
				flagOpt("-exclude-schemas public", "ExcludeSchemas", []string{"public"}),
				flagOpt("-tables parent,extra", "Tables", []string{"parent", "extra"}),
				flagOpt("-exclude-tables child,extra", "ExcludeTables", []string{"child", "extra"}),
				{args: []string{"-subset", "SELECT {*} FROM {child} WHERE id = 2"}, fields: map[string]any{"SubsetQueries": []string{"SELECT {*} FROM {child} WHERE id = 2"}}},
				{args: []string{"-subset", "SELECT {*} FROM {extra}", "-subset", "SELECT {*} FROM {parent} WHERE id = 3"},
					fields: map[string]any{"SubsetQueries": []string{"SELECT {*} FROM {extra}", "SELECT {*} FROM {parent} WHERE id = 3"}}},
				{args: []string{"-extended-subset", "SELECT {*} FROM {parent} WHERE id = 1"}, fields: map[string]any{"ExtendedSubsetQueries": []string{"SELECT {*} FROM {parent} WHERE id = 1"}}},
				flagOpt("-array-as-json", "ArrayAsJSON", true),
				flagOpt("-uuid-as-bytes", "UUIDAsBytes", true),
			}},
		{name: "load", base: cliOpt{tail: []string{"csv/parent.csv"}, fields: map[string]any{"DirFS": fsDir("."), "Filenames": []string{"csv/parent.csv"}}},
			lib: func(w string, db *sql.DB) any { return &ddl.LoadCmd{DB: db, Dialect: "sqlite"} },
			opts: []cliOpt{hist,
				flagOpt("-nullstring nil", "Nullstring", "nil"),
				flagOpt("-binaryprefix hex:", "Binaryprefix", "hex:"),
				flagOpt("-batchsize 1", "Batchsize", 1),
				flagOpt("-no-nullstring", "NoNullstring", true),
				flagOpt("-no-binaryprefix", "NoBinaryprefix", true),
				flagOpt("-verbose", "Verbose", true),
				flagOpt("-timestamp-as-integer", "TimestampAsInteger", true),
				args([]string{"csv/parent.csv", "./csv/child.csv", "more.sql"}, []string{"csv/parent.csv", "csv/child.csv", "more.sql"}),
				args([]string{"csv"}, []string{"csv"}),
				args([]string{"csv/bad.csv"}, []string{"csv/bad.csv"}),
				{args: []string{"-dir", "csv"}, tail: []string{"child.csv", "csv/parent.csv"}, fields: map[string]any{"DirFS": fsDir("csv"), "Filenames": []string{"child.csv", "parent.csv"}}},
			}},
		{name: "automigrate", base: cliOpt{args: []string{"-dest", "tables.go"}, fields: map[string]any{"DirFS": fsDir("."), "Filenames": []string{"tables.go"}}},
			lib: func(w string, db *sql.DB) any { return &ddl.AutomigrateCmd{DB: db, Dialect: "sqlite"} },
			opts: []cliOpt{hist,
				flagOpt("-dest t2.go,t3.go", "Filenames", []string{"t2.go", "t3.go"}),
				flagOpt("-drop-objects", "DropObjects", true),
				flagOpt("-accept-warnings", "AcceptWarnings", true),
				flagOpt("-dry-run", "DryRun", true),
				flagOpt("-lock-timeout 2s", "LockTimeout", 2*time.Second),
				flagOpt("-max-attempts 3", "MaxAttempts", 3),
				flagOpt("-max-delay 7s", "MaxDelay", 7*time.Second),
				flagOpt("-base-delay 30ms", "BaseDelay", 30*time.Millisecond),
				{args: []string{"-dir", "dst", "-dest", "t4.go"}, fields: map[string]any{"DirFS": fsDir("dst"), "Filenames": []string{"t4.go"}}},
			}},
	}
}

const cliSchema = `
CREATE TABLE parent (id INTEGER PRIMARY KEY, name TEXT, data BLOB, at DATETIME);
CREATE TABLE child (id INTEGER PRIMARY KEY, parent_id INT REFERENCES parent (id), note TEXT);
CREATE TABLE extra (id INTEGER PRIMARY KEY);
CREATE INDEX child_note_idx ON child (note);
CREATE VIEW v1 AS SELECT id, name FROM parent;
CREATE VIEW v2 AS SELECT id, note FROM child;
CREATE VIEW v3 AS SELECT count(*) AS n FROM extra;
CREATE TABLE log (id INTEGER PRIMARY KEY, what TEXT);
INSERT INTO parent VALUES (1, 'one', x'00ff', '2022-02-03 04:05:06'), (2, NULL, NULL, NULL), (3, '\N', x'61', NULL), (4, 'nil', NULL, NULL);
INSERT INTO child VALUES (1, 1, 'x'), (2, 2, NULL), (3, NULL, 'hex:00');
INSERT INTO extra VALUES (7);
`

func cliHistory(table string, rows ...string) string {
	s := "CREATE TABLE " + table + " (filename VARCHAR(255) PRIMARY KEY NOT NULL, checksum VARCHAR(64), started_at DATETIME, time_taken_ns BIGINT, success BOOLEAN);\n"
	for _, r := range rows {
		s += "INSERT INTO " + table + " VALUES (" + r + ");\n"
	}
	return s
}

var cliFiles = map[string]string{
	"migrations/01.sql":           "INSERT INTO log (what) VALUES ('01');",
	"migrations/02.sql":           "INSERT INTO log (what) VALUES ('02');",
	"migrations/03.txoff.sql":     "INSERT INTO log (what) VALUES ('03');",
	"migrations/repeatable/r.sql": "INSERT INTO log (what) VALUES ('r');",
	"badmig/01.sql":               "INSERT INTO log (what) VALUES ('bad 01');",
	"badmig/04.sql":               "INSERT INTO log (what) VALUES ('bad 04');",
	"badmig/05.sql":               "INSERT INTO nosuchtable VALUES (1);",
	"tables.go":                   "package t\n\nimport \"github.com/bokwoon95/sq\"\n\ntype PARENT struct {\n\tsq.TableStruct\n\tID sq.NumberField `ddl:\"primarykey\"`\n\tNAME sq.StringField\n\tDATA sq.BinaryField\n\tADDED sq.NumberField `ddl:\"index\"`\n}\n\ntype FRESH struct {\n\tsq.TableStruct\n\tID sq.NumberField `ddl:\"primarykey\"`\n}\n",
	"t2.go":                       "package t\n\nimport \"github.com/bokwoon95/sq\"\n\ntype TWO struct {\n\tsq.TableStruct\n\tID sq.NumberField `ddl:\"primarykey\"`\n}\n",
	"t3.go":                       "package t\n\nimport \"github.com/bokwoon95/sq\"\n\ntype THREE struct {\n\tsq.TableStruct\n\tID sq.NumberField `ddl:\"primarykey\"`\n}\n",
	"dst/t4.go":                   "package t\n\nimport \"github.com/bokwoon95/sq\"\n\ntype FOUR struct {\n\tsq.TableStruct\n\tID sq.NumberField `ddl:\"primarykey\"`\n}\n",
	"csv/parent.csv":              "id,name,data,at\n1,\\N,0x6162,2001-02-03 04:05:06\n9,nil,hex:63,2022-02-03 04:05:06\n10,0x41,\\N,nil\n",
	"csv/child.csv":               "id,parent_id,note\n8,1,eight\n2,\\N,0x42\n",
	"csv/bad.csv":                 "id\n1\n",
	"more.sql":                    "INSERT INTO log (what) VALUES ('more');",
	"out/.keep":                   "",
}

// cliWorld is the files every case starts from.
type cliWorld struct {
	files map[string][]byte
	bin   string
}

func (w *cliWorld) copy() string {
	dir := scratchDir()
	for name, data := range w.files {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			core.Broken("%v", err)
		}
		data = bytes.ReplaceAll(data, []byte("@W"), []byte(dir))
		if err := os.WriteFile(p, data, 0644); err != nil {
			core.Broken("%v", err)
		}
	}
	return dir
}

func newCLIWorld(r *core.Runner) *cliWorld {
	w := &cliWorld{files: map[string][]byte{}}
	base := scratchDir()
	// Removed with TMPDIR; the program has to outlive this function.
	w.bin = filepath.Join(base, "sqddl")
	list := exec.Command("go", "list", "-mod=readonly", "-m", "-f", "{{.Dir}}", "github.com/bokwoon95/sqddl")
	list.Dir = filepath.Join(r.Verif, "mc")
	mod, err := list.Output()
	if err != nil {
		core.Broken("finding the repository: %v", err)
	}
	repo := strings.TrimSpace(string(mod))
	build := exec.Command("go", "build", "-mod=readonly", "-tags=fts5", "-o", w.bin, ".")
	build.Dir = repo
	if out, err := build.CombinedOutput(); err != nil {
		core.Broken("building the program in %s: %v\n%s", repo, err, out)
	}
	mk := func(name, script string) {
		p := filepath.Join(base, name)
		db, err := sql.Open("sqlite3", p)
		if err == nil {
			_, err = db.Exec(script)
			db.Close()
		}
		if err != nil {
			core.Broken("%v", err)
		}
		data, err := os.ReadFile(p)
		if err != nil {
			core.Broken("%v", err)
		}
		w.files[name] = data
	}
	at := "'2022-01-02 03:04:05'"
	mk("app.db", cliSchema+
		cliHistory("sqddl_history", "'01.sql', NULL, "+at+", 5, 1", "'old.sql', NULL, "+at+", 5, 1", "'02.sql', NULL, "+at+", 5, 0")+
		cliHistory("hist2", "'02.sql', NULL, "+at+", 5, 1", "'repeatable/r.sql', 'x', "+at+", 5, 1"))
	mk("other.db", "CREATE TABLE parent (id INTEGER PRIMARY KEY); CREATE TABLE fresh (id INTEGER PRIMARY KEY, gone TEXT);")
	for name, text := range cliFiles {
		w.files[name] = []byte(text)
	}
	w.files["url.txt"] = []byte("@W/app.db")
	// schema.json is what dump writes for another database.
	srv, dir := filepath.Join(base, "other.db"), filepath.Join(base, "json")
	db, err := sql.Open("sqlite3", srv)
	if err != nil {
		core.Broken("%v", err)
	}
	defer db.Close()
	if err := (&ddl.DumpCmd{DB: db, Dialect: "sqlite", OutputDir: dir, SchemaOnly: true, Stderr: io.Discard}).Run(); err != nil {
		core.Broken("%v", err)
	}
	if w.files["schema.json"], err = os.ReadFile(filepath.Join(dir, "schema.json")); err != nil {
		core.Broken("%v", err)
	}
	return w
}

var (
	cliDur   = regexp.MustCompile(`\([0-9.]+(ns|µs|ms|s)\)`)
	cliStamp = regexp.MustCompile(`\d{4}[-/]\d\d[-/]\d\d[ T]\d\d:\d\d:\d\d(\.\d+)?( ?[-+Z][0-9:]*)?( [A-Z]+)?`)
	cliOpen  = regexp.MustCompile(`\b(open|stat|lstat|mkdir) \S*/`)
	cliPre   = regexp.MustCompile(`20\d{12}`)
)

// cliOutcome is everything a command left behind.
type cliOutcome struct {
	ok             bool
	stdout, stderr string
	state          string
}

func (o cliOutcome) String() string {
	return fmt.Sprintf("success: %v\nstdout:\n%s\nstderr:\n%s\nafterwards:\n%s", o.ok, o.stdout, o.stderr, o.state)
}

func cliText(text, dir string, sorted bool) string {
	text = strings.ReplaceAll(text, dir+"/", "")
	text = strings.ReplaceAll(text, dir, ".")
	text = strings.ReplaceAll(text, " ./", " ")
	text = cliDur.ReplaceAllString(text, "(time)")
	text = cliStamp.ReplaceAllString(text, "stamp")
	text = cliPre.ReplaceAllString(text, "PREFIX")
	lines := strings.Split(text, "\n")
	if sorted {
		sort.Strings(lines)
	}
	return strings.Join(lines, "\n")
}

// cliState renders the databases and the files of a directory.
func cliState(dir string) string {
	var out []string
	err := filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		data, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		name := cliText(strings.TrimPrefix(path, dir), dir, false)
		text := string(data)
		switch {
		case strings.HasSuffix(name, ".db"):
			if strings.HasPrefix(text, "SQLite format 3") {
				text = cliDBText(path)
			}
		case strings.HasSuffix(name, ".zip"):
			text = ""
			zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
			if err != nil {
				return err
			}
			var parts []string
			for _, f := range zr.File {
				rc, err := f.Open()
				if err != nil {
					return err
				}
				b, err := io.ReadAll(rc)
				rc.Close()
				if err != nil {
					return err
				}
				parts = append(parts, "> "+f.Name+"\n"+string(b))
			}
			sort.Strings(parts)
			text = strings.Join(parts, "")
		case strings.HasSuffix(name, ".tgz"):
			gz, err := gzip.NewReader(bytes.NewReader(data))
			if err != nil {
				return err
			}
			tr := tar.NewReader(gz)
			var parts []string
			for {
				h, err := tr.Next()
				if err == io.EOF {
					break
				}
				if err != nil {
					return err
				}
				b, err := io.ReadAll(tr)
				if err != nil {
					return err
				}
				parts = append(parts, "> "+h.Name+"\n"+string(b))
			}
			sort.Strings(parts)
			text = strings.Join(parts, "")
		default:
			text = strings.ReplaceAll(text, dir, "@W")
		}
		out = append(out, "-- "+name+"\n"+text+"\n")
		return nil
	})
	if err != nil {
		return "unreadable: " + err.Error()
	}
	sort.Strings(out)
	return strings.Join(out, "")
}

func cliDBText(path string) string {
	db, err := sql.Open("sqlite3", "file:"+path+"?mode=ro")
	if err != nil {
		core.Broken("%v", err)
	}
	defer db.Close()
	query := func(q string) [][]string {
		rows, err := db.Query(q)
		if err != nil {
			return [][]string{{"error", err.Error()}}
		}
		defer rows.Close()
		cols, _ := rows.Columns()
		var out [][]string
		for rows.Next() {
			vals, ptrs := make([]any, len(cols)), make([]any, len(cols))
			for i := range vals {
				ptrs[i] = &vals[i]
			}
			if err := rows.Scan(ptrs...); err != nil {
				core.Broken("%v", err)
			}
			var line []string
			for _, v := range vals {
				line = append(line, str(v))
			}
			out = append(out, line)
		}
		return out
	}
	var b strings.Builder
	for _, r := range query("SELECT type, name, coalesce(sql, '') FROM sqlite_schema ORDER BY 1, 2") {
		fmt.Fprintf(&b, "%s\n", strings.Join(r, " "))
		if r[0] != "table" {
			continue
		}
		var exprs []string
		history := false
		cols := query("SELECT name FROM pragma_table_info(" + qlit(r[1]) + ") ORDER BY cid")
		for _, c := range cols {
			history = history || c[0] == "time_taken_ns"
		}
		for _, c := range cols {
			e := "typeof(" + qid(c[0]) + ")||':'||quote(" + qid(c[0]) + ")"
			if history && (c[0] == "started_at" || c[0] == "time_taken_ns") {
				old := "'2022-01-02 03:04:05'"
				if c[0] == "time_taken_ns" {
					old = "5"
				}
				e = "CASE WHEN " + qid(c[0]) + " = " + old + " THEN 'old' WHEN " + qid(c[0]) + " IS NULL THEN 'null' ELSE 'new' END"
			}
			exprs = append(exprs, e)
		}
		if len(exprs) == 0 {
			continue
		}
		var lines []string
		for _, row := range query("SELECT " + strings.Join(exprs, ", ") + " FROM " + qid(r[1])) {
			lines = append(lines, "  "+strings.Join(row, " | ")+"\n")
		}
		sort.Strings(lines)
		b.WriteString(strings.Join(lines, ""))
	}
	return b.String()
}

// exec runs the program in a fresh copy of the world.
func (w *cliWorld) exec(args func(dir string) []string, sorted bool) cliOutcome {
	dir := w.copy()
	defer os.RemoveAll(dir)
	cmd := exec.Command(w.bin, args(dir)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "TMPDIR="+dir)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	timer := time.AfterFunc(60*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	defer timer.Stop()
	err := cmd.Run()
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			core.Broken("%v", err)
		}
	}
	return cliOutcome{
		ok:     err == nil,
		stdout: cliText(stdout.String(), dir, sorted),
		stderr: cliText(stderr.String(), dir, sorted),
		state:  cliState(dir),
	}
}

// library does the same through the struct fields.
func (w *cliWorld) library(c cliCmd, sel []cliOpt, sorted bool) (cliOutcome, any, string) {
	dir := w.copy()
	defer os.RemoveAll(dir)
	_, driver, dsn := ddl.NormalizeDSN(filepath.Join(dir, "app.db"))
	db, err := sql.Open(driver, dsn)
	if err != nil {
		core.Broken("%v", err)
	}
	defer db.Close()
	cmd := c.lib(dir, db)
	v := reflect.ValueOf(cmd).Elem()
	var stdout, stderr syncBuf
	if f := v.FieldByName("Stdout"); f.IsValid() {
		f.Set(reflect.ValueOf(io.Writer(&stdout)))
	}
	if f := v.FieldByName("Stderr"); f.IsValid() {
		f.Set(reflect.ValueOf(io.Writer(&stderr)))
	}
	src := "app.db"
	for _, o := range append([]cliOpt{c.base}, sel...) {
		for name, val := range o.fields {
			switch x := val.(type) {
			case inDir:
				val = filepath.Join(dir, string(x))
			case fsDir:
				val = os.DirFS(filepath.Join(dir, string(x)))
			}
			if name == "src" {
				src = val.(string)
				continue
			}
			f := v.FieldByName(name)
			if !f.IsValid() {
				core.Broken("%s has no field %s", c.name, name)
			}
			if s, ok := val.([]string); ok {
				val = append([]string(nil), s...)
			}
			if val == nil || reflect.ValueOf(val).IsZero() {
				f.SetZero()
				continue
			}
			f.Set(reflect.ValueOf(val))
		}
	}
	if g, ok := cmd.(*ddl.GenerateCmd); ok {
		// The source is read from a database or schema.json by the command line; here with
		// the documented introspector and decoder.
		g.SrcCatalog = &ddl.Catalog{Dialect: "sqlite"}
		if err := cliSource(g.SrcCatalog, dir, src, g.HistoryTable); err != nil {
			core.Broken("%v", err)
		}
	}
	err = cmd.(interface{ Run() error }).Run()
	errText := ""
	if err != nil {
		errText = cliText(err.Error(), dir, false)
	}
	return cliOutcome{
		ok:     err == nil,
		stdout: cliText(stdout.String(), dir, sorted),
		stderr: cliText(stderr.String(), dir, sorted),
		state:  cliState(dir),
	}, cmd, errText
}

func cliSource(catalog *ddl.Catalog, dir, src, historyTable string) error {
	path := filepath.Join(dir, src)
	if strings.HasSuffix(src, ".json") {
		data, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		return json.Unmarshal(data, catalog)
	}
	_, driver, dsn := ddl.NormalizeDSN(path)
	db, err := sql.Open(driver, dsn)
	if err != nil {
		return err
	}
	defer db.Close()
	if historyTable == "" {
		historyTable = "sqddl_history"
	}
	dbi := ddl.NewDatabaseIntrospector("sqlite", db)
	dbi.ObjectTypes = []string{"TABLES"}
	dbi.ExcludeTables = []string{historyTable}
	return dbi.WriteCatalog(catalog)
}

// cliLayouts are the ways of writing the same command line.
var cliLayouts = []string{"after", "before", "equals", "split", "reversed", "dashes"}

func cliArgs(layout string, c cliCmd, sel []cliOpt, db string) []string {
	var flags [][]string
	var tail, global []string
	noDB := false
	for _, o := range append([]cliOpt{c.base}, sel...) {
		noDB = noDB || o.noDB
		if len(o.tail) > 0 {
			tail = o.tail
		}
		if len(o.args) == 0 {
			continue
		}
		flags = append(flags, o.args)
	}
	hasDB := db != "" && !noDB
	dbArgs := []string{"-db", db}
	switch layout {
	case "equals":
		dbArgs = []string{"-db=" + db}
	case "dashes":
		dbArgs = []string{"--db", db}
	}
	var out []string
	put := func(a []string) {
		if layout == "dashes" && strings.HasPrefix(a[0], "-") {
			a = append([]string{"-" + a[0]}, a[1:]...)
		}
		out = append(out, a...)
	}
	isHist := func(a []string) bool { return a[0] == "-history-table" }
	switch layout {
	case "before", "split":
		// The global flags come before the subcommand: both, or only one of them.
		if hasDB && layout == "before" {
			global = append(global, dbArgs...)
		}
		for _, f := range flags {
			if isHist(f) {
				global = append(global, f...)
			}
		}
		out = append(global, c.name)
		if hasDB && layout == "split" {
			out = append(out, dbArgs...)
		}
		for _, f := range flags {
			if !isHist(f) {
				put(f)
			}
		}
	case "equals":
		out = append(out, c.name)
		if hasDB {
			out = append(out, dbArgs...)
		}
		for _, f := range flags {
			if len(f) == 2 {
				f = []string{f[0] + "=" + f[1]}
			}
			put(f)
		}
	case "reversed":
		out = append(out, c.name)
		// The base comes first so that a repeated flag keeps its last value.
		n := 0
		if len(c.base.args) > 0 {
			put(flags[0])
			n = 1
		}
		for i := len(flags) - 1; i >= n; i-- {
			put(flags[i])
		}
		if hasDB {
			out = append(out, dbArgs...)
		}
	default:
		out = append(out, c.name)
		if hasDB {
			out = append(out, dbArgs...)
		}
		for _, f := range flags {
			put(f)
		}
	}
	return append(out, tail...)
}

// conflict reports whether two options are two values of the same thing.
func cliConflict(sel []cliOpt) bool {
	seen := map[string]bool{}
	tails := 0
	for _, o := range sel {
		if len(o.tail) > 0 {
			tails++
		}
		for i := 0; i < len(o.args); i++ {
			if strings.HasPrefix(o.args[i], "-") {
				name, _, _ := strings.Cut(o.args[i], "=")
				if seen[name] && !(i > 0 && o.args[i] == o.args[0]) {
					return true
				}
				seen[name] = true
			}
		}
	}
	return tails > 1
}

func runC19(r *core.Runner) {
	w := newCLIWorld(r)
	defer os.RemoveAll(filepath.Dir(w.bin))
	depth := r.Pick(2, 3)
	for _, c := range cliCommands() {
		var sets [][]cliOpt
		var rec func(i int, sel []cliOpt)
		rec = func(i int, sel []cliOpt) {
			if cliConflict(sel) {
				return
			}
			sets = append(sets, append([]cliOpt(nil), sel...))
			if len(sel) == depth {
				return
			}
			for j := i; j < len(c.opts); j++ {
				rec(j+1, append(sel[:len(sel):len(sel)], c.opts[j]))
			}
		}
		rec(0, nil)
		for _, sel := range sets {
			if r.Stop() {
				break
			}
			r.Go(cliKey(c, sel), func(t *core.T) { w.compare(t, c, sel) })
		}
		cliForms19(r, w, c)
		cliErrors(r, w, c)
	}
	cliUnknown(r, w)
	r.Wait()
}

func cliKey(c cliCmd, sel []cliOpt) string {
	key := c.name
	for _, o := range sel {
		key += " " + o.word()
	}
	return key
}

// unordered commands print their files in the order concurrent work finishes.
func cliUnordered(name string) bool { return name == "dump" || name == "load" }

func (w *cliWorld) compare(t *core.T, c cliCmd, sel []cliOpt) {
	sorted := cliUnordered(c.name)
	want, cmd, errText := w.library(c, sel, sorted)
	before := w.initial()
	if want.state != before || want.stdout != "" || !want.ok {
		t.Nontrivial()
	}
	t.State(c.name, want.String())
	for _, layout := range cliLayouts {
		got := w.exec(func(dir string) []string { return cliArgs(layout, c, sel, "app.db") }, sorted)
		t.Step(1)
		line := strings.Join(cliArgs(layout, c, sel, "app.db"), " ")
		t.Outcome(fmt.Sprintf("%s ok=%v", c.name, got.ok))
		if got.ok != want.ok {
			t.Fail("status", "sqddl %s: success %v, with the fields set success %v (%s)\n%s", line, got.ok, want.ok, errText, got.stderr)
			continue
		}
		if got.state != want.state {
			t.Fail("effect", "sqddl %s leaves something else than the command with its fields set:\n%s", line, diff(strings.Split(want.state, "\n"), strings.Split(got.state, "\n")))
		}
		if got.stdout != want.stdout {
			t.Fail("stdout", "sqddl %s prints\n%s\nwith the fields set\n%s", line, got.stdout, want.stdout)
		}
		if want.ok && got.stderr != want.stderr {
			t.Fail("stderr", "sqddl %s reports\n%s\nwith the fields set\n%s", line, got.stderr, want.stderr)
		}
		if !want.ok {
			for _, l := range strings.Split(errText, "\n") {
				if !strings.Contains(cliOpen.ReplaceAllString(got.stderr, "$1 "), cliOpen.ReplaceAllString(l, "$1 ")) {
					t.Fail("message", "sqddl %s does not report %q:\n%s", line, l, got.stderr)
					break
				}
			}
		}
		t.Trace(1)
	}
	cliRetryFields(t, w, c, sel, cmd)
	t.Sample(map[string]any{"command": cliKey(c, sel), "ok": want.ok, "stdout": want.stdout})
}

var cliInitial struct {
	once sync.Once
	s    string
}

func (w *cliWorld) initial() string {
	cliInitial.once.Do(func() {
		dir := w.copy()
		defer os.RemoveAll(dir)
		cliInitial.s = cliState(dir)
	})
	return cliInitial.s
}

// cliRetryFields compares the fields that only show in how long a command waits.
func cliRetryFields(t *core.T, w *cliWorld, c cliCmd, sel []cliOpt, lib any) {
	if c.name != "migrate" && c.name != "automigrate" {
		return
	}
	dir := w.copy()
	defer os.RemoveAll(dir)
	args := cliArgs("after", c, sel, filepath.Join(dir, "app.db"))[1:]
	for i, a := range args {
		if a == "-dest" || a == "-dir" {
			parts := strings.Split(args[i+1], ",")
			for j := range parts {
				parts[j] = filepath.Join(dir, parts[j])
			}
			if a == "-dest" {
				for j := range parts {
					if !strings.Contains(strings.Join(args, " "), "-dir ") {
						continue
					}
					parts[j] = strings.TrimPrefix(parts[j], dir+"/")
				}
			}
			args[i+1] = strings.Join(parts, ",")
		}
	}
	var parsed any
	var err error
	if c.name == "migrate" {
		var cmd *ddl.MigrateCmd
		cmd, err = ddl.MigrateCommand(args...)
		if cmd != nil {
			defer cmd.DB.Close()
		}
		parsed = cmd
	} else {
		var cmd *ddl.AutomigrateCmd
		cmd, err = ddl.AutomigrateCommand(args...)
		if cmd != nil {
			defer cmd.DB.Close()
		}
		parsed = cmd
	}
	if err != nil {
		t.Fail("parse", "%s: %s", strings.Join(args, " "), errStr(err))
		return
	}
	defaults := map[string]any{"LockTimeout": time.Second, "MaxAttempts": 10, "MaxDelay": 5 * time.Minute, "BaseDelay": time.Second}
	for name, dflt := range defaults {
		want := any(nil)
		for _, o := range sel {
			if v, ok := o.fields[name]; ok {
				want = v
			}
		}
		got := reflect.ValueOf(parsed).Elem().FieldByName(name)
		if want == nil {
			want = dflt
			if got.IsZero() {
				continue // the documented default
			}
		}
		if fmt.Sprint(got.Interface()) != fmt.Sprint(want) {
			t.Fail("retry-field", "%s: %s is %v, expected %v", strings.Join(args, " "), name, got.Interface(), want)
		}
	}
}

// cliForms19 passes the database in every documented form for a SQLite file.
func cliForms19(r *core.Runner, w *cliWorld, c cliCmd) {
	forms := []string{"app.db", "./app.db", "@/app.db", "file:@/app.db", "sqlite:app.db", "sqlite:./app.db", "sqlite:@/app.db", "sqlite:file:@/app.db", "file:url.txt", "file:./url.txt", "file:@/url.txt"}
	r.Go(c.name+": forms of -db", func(t *core.T) {
		t.Nontrivial()
		sorted := cliUnordered(c.name)
		want, _, _ := w.library(c, nil, sorted)
		for _, form := range forms {
			for _, layout := range []string{"after", "before"} {
				var line []string
				got := w.exec(func(dir string) []string {
					line = cliArgs(layout, c, nil, form)
					return cliArgs(layout, c, nil, strings.ReplaceAll(form, "@", dir))
				}, sorted)
				t.Step(1)
				t.State(c.name, form, layout)
				if got.ok != want.ok || got.state != want.state || got.stdout != want.stdout {
					t.Fail("db-form", "sqddl %s: does something else than with the database given directly: success %v, expected %v\n%s\n%s", strings.Join(line, " "), got.ok, want.ok, got.stderr,
						diff(strings.Split(want.state, "\n"), strings.Split(got.state, "\n")))
				}
				t.Trace(1)
			}
		}
	})
}

// cliErrors gives every subcommand what it cannot work with: it has to fail, say why and
// change nothing.
func cliErrors(r *core.Runner, w *cliWorld, c cliCmd) {
	type bad struct {
		name string
		args []string
		help bool
	}
	flags := append([]string{}, c.base.args...)
	tail := c.base.tail
	if c.name == "rm" || c.name == "mv" {
		tail = []string{"01.sql", "new.sql"}
	}
	mk := func(db []string, extra ...string) []string {
		return append(append(append(append([]string{c.name}, db...), flags...), extra...), tail...)
	}
	db := []string{"-db", "app.db"}
	bads := []bad{
		{name: "unrecognisable -db", args: mk([]string{"-db", "nonsense"})},
		{name: "-db naming a missing text file", args: mk([]string{"-db", "file:nosuch.txt"})},
		{name: "a database that is not one", args: mk([]string{"-db", "broken.db"})},
		{name: "unknown flag", args: mk(db, "-nosuchflag")},
		{name: "unknown flag before the subcommand", args: append([]string{"-nosuchflag"}, mk(db)...)},
		{name: "flag without value", args: append(append([]string{c.name}, db...), "-history-table")},
		{name: "help", args: []string{c.name, "-h"}, help: true},
		{name: "help with database", args: mk(db, "-help"), help: true},
		{name: "help before the subcommand", args: append([]string{"-h"}, mk(db)...), help: true},
	}
	if c.name != "generate" {
		bads = append(bads, bad{name: "no -db", args: mk(nil)}, bad{name: "empty -db", args: mk([]string{"-db", ""})})
	}
	boolFlag := map[string]string{"ls": "-all", "wipe": "-dry-run", "dump": "-data-only", "load": "-verbose", "generate": "-dry-run", "automigrate": "-dry-run", "migrate": "-verbose"}[c.name]
	if boolFlag != "" {
		bads = append(bads, bad{name: "bad bool", args: mk(db, boolFlag+"=perhaps")})
	}
	if c.name == "migrate" || c.name == "automigrate" {
		for _, f := range []string{"-lock-timeout", "-max-delay", "-base-delay", "-max-attempts"} {
			bads = append(bads, bad{name: "bad " + f, args: mk(db, f, "soon")})
		}
	}
	if c.name == "migrate" || c.name == "ls" || c.name == "touch" {
		bads = append(bads, bad{name: "missing -dir", args: append(append([]string{c.name}, db...), "-dir", "nosuchdir")})
	}
	if c.name == "migrate" || c.name == "ls" {
		bads = append(bads, bad{name: "no -dir", args: append([]string{c.name}, db...)})
	}
	if c.name == "generate" || c.name == "automigrate" {
		bads = append(bads, bad{name: "missing -dest", args: append(append([]string{c.name}, db...), "-dest", "nosuch.go")},
			bad{name: "second -dest missing", args: append(append([]string{c.name}, db...), "-dest", "t2.go,nosuch.go")})
	}
	if c.name == "generate" {
		bads = append(bads, bad{name: "missing -src", args: mk(nil, "-src", "nosuch.json")}, bad{name: "no dialect", args: mk(nil)}, bad{name: "bad dialect", args: mk(nil, "-dialect", "db2")})
	}
	if c.name == "load" {
		bads = append(bads, bad{name: "missing file", args: append(append([]string{c.name}, db...), "nosuch.csv")}, bad{name: "bad batch size", args: mk(db, "-batchsize", "many")})
	}
	if c.name == "dump" {
		bads = append(bads, bad{name: "bad subset", args: mk(db, "-subset", "SELECT {*} FROM {nosuch}")},
			bad{name: "output directory is a file", args: mk(db, "-output-dir", "url.txt")})
	}
	if c.name == "tables" || c.name == "views" {
		bads = append(bads, bad{name: "output file in a file", args: mk(db, "-file", "url.txt/x.go")})
	}
	for _, b := range bads {
		r.Go(c.name+": "+b.name, func(t *core.T) {
			t.Nontrivial()
			got := w.exec(func(dir string) []string {
				if err := os.WriteFile(filepath.Join(dir, "broken.db"), []byte("this is not a database, but long enough to be taken for one by its name, which is all there is"), 0644); err != nil {
					core.Broken("%v", err)
				}
				return b.args
			}, false)
			t.Step(1)
			t.State(c.name, b.name, fmt.Sprint(got.ok))
			line := "sqddl " + strings.Join(b.args, " ")
			if got.ok != b.help {
				t.Fail("bad-status", "%s: success %v, expected %v\n%s", line, got.ok, b.help, got.stderr)
			}
			if strings.TrimSpace(got.stderr) == "" {
				t.Fail("bad-silent", "%s reports nothing", line)
			}
			if strings.Contains(got.stderr, "goroutine ") || strings.Contains(got.stderr, "panic:") {
				t.Fail("bad-crash", "%s crashes:\n%s", line, got.stderr)
			}
			state := strings.Replace(got.state, "-- /broken.db\nthis is not a database, but long enough to be taken for one by its name, which is all there is\n", "", 1)
			if state != w.initial() {
				t.Fail("bad-changes", "%s changes something:\n%s", line, diff(strings.Split(w.initial(), "\n"), strings.Split(state, "\n")))
			}
			t.Trace(1)
		})
	}
}

// cliUnknown runs subcommands that do not exist.
func cliUnknown(r *core.Runner, w *cliWorld) {
	for _, name := range []string{"migrat", "Migrate", "migrate ", "", "help", "status", "wip", "automigrates"} {
		for _, args := range [][]string{{name}, {name, "-db", "app.db"}, {"-db", "app.db", name}, {"-db", "app.db", "-history-table", "hist2", name, "-dir", "migrations"}} {
			r.Go(fmt.Sprintf("unknown subcommand: %q", args), func(t *core.T) {
				t.Nontrivial()
				got := w.exec(func(string) []string { return args }, false)
				t.Step(1)
				t.State(fmt.Sprintf("%q", args))
				if got.ok {
					t.Fail("unknown-subcommand", "sqddl %q succeeds: %s", args, got.stderr)
				}
				if strings.TrimSpace(got.stderr) == "" {
					t.Fail("unknown-silent", "sqddl %q reports nothing", args)
				}
				if got.state != w.initial() {
					t.Fail("unknown-changes", "sqddl %q changes something", args)
				}
				t.Trace(1)
			})
		}
	}
}
