package checks

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	gotoken "go/token"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
	"verifmc/faultdb"
)

func init() {
	core.Register(&core.Check{
		Prop:  "C20",
		Level: "model_checking",
		Rule: "a case is a set of views (names, schemas, columns and their types) in one dialect and a filter; " +
			"non-trivial when at least one struct is written",
		Assumptions: []string{
			"names that become the same Go identifier are not combined; a Go identifier starts with a letter or underscore",
			"databases are SQLite; views of the other dialects are given as catalogs",
			"column and view names contain no dot; include and exclude filters are not combined",
		},
		Run: runC20,
	})
}

// goView is a view struct as the sq package reads it.
type goView struct {
	schema, name string
	cols, types  []string
}

func (v goView) String() string {
	s := fmt.Sprintf("%q.%q", v.schema, v.name)
	for i := range v.cols {
		s += fmt.Sprintf(" %q %s", v.cols[i], v.types[i])
	}
	return s
}

// readViews reads Go source the way the documentation describes it: names are lowercased
// struct and field names unless the sq tag says otherwise.
func readViews(text string) (pkg string, views []goView, err error) {
	fset := gotoken.NewFileSet()
	file, err := parser.ParseFile(fset, "views.go", text, parser.AllErrors)
	if err != nil {
		return "", nil, err
	}
	imported := false
	for _, i := range file.Imports {
		imported = imported || i.Path.Value == `"github.com/bokwoon95/sq"`
	}
	if !imported {
		return "", nil, fmt.Errorf("sq is not imported")
	}
	seen := map[string]bool{}
	for _, d := range file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != gotoken.TYPE {
			continue
		}
		for _, spec := range g.Specs {
			ts := spec.(*ast.TypeSpec)
			st, ok := ts.Type.(*ast.StructType)
			if !ok {
				return "", nil, fmt.Errorf("%s is not a struct", ts.Name.Name)
			}
			if seen[ts.Name.Name] {
				return "", nil, fmt.Errorf("%s is declared twice", ts.Name.Name)
			}
			seen[ts.Name.Name] = true
			v := goView{name: strings.ToLower(ts.Name.Name)}
			fields := map[string]bool{}
			for i, f := range st.Fields.List {
				tag := ""
				if f.Tag != nil {
					raw, err := strconv.Unquote(f.Tag.Value)
					if err != nil {
						return "", nil, err
					}
					tag = reflect.StructTag(raw).Get("sq")
				}
				sel, ok := f.Type.(*ast.SelectorExpr)
				if !ok {
					return "", nil, fmt.Errorf("%s has a field of an unknown type", ts.Name.Name)
				}
				typ := fmt.Sprint(sel.X) + "." + sel.Sel.Name
				if i == 0 {
					if len(f.Names) != 0 || typ != "sq.ViewStruct" {
						return "", nil, fmt.Errorf("%s does not embed sq.ViewStruct first", ts.Name.Name)
					}
					if tag != "" {
						v.name = tag
						if schema, name, ok := strings.Cut(tag, "."); ok {
							v.schema, v.name = schema, name
						}
					}
					continue
				}
				if len(f.Names) != 1 {
					return "", nil, fmt.Errorf("%s: field without a name", ts.Name.Name)
				}
				name := f.Names[0].Name
				if fields[name] || name == "ViewStruct" {
					return "", nil, fmt.Errorf("%s: field %s is declared twice", ts.Name.Name, name)
				}
				fields[name] = true
				if tag == "" {
					tag = strings.ToLower(name)
				}
				v.cols = append(v.cols, tag)
				v.types = append(v.types, typ)
			}
			views = append(views, v)
		}
	}
	return file.Name.Name, views, nil
}

func checkViews(t *core.T, what, text string, want []goView, ordered bool) {
	if text == "" && len(want) == 0 {
		return
	}
	_, got, err := readViews(text)
	if err != nil {
		t.Fail("source", "%s: the source cannot be used: %s\n%s", what, errStr(err), text)
		return
	}
	// A column whose name is not that of its field is reported by itself.
	for i := range got {
		for _, v := range want {
			if v.schema != got[i].schema || v.name != got[i].name || len(v.cols) != len(got[i].cols) {
				continue
			}
			for k, col := range v.cols {
				if have := got[i].cols[k]; have != col && !plainName(col) && goIdent(col) == goIdent(have) {
					t.Fail("column-name", "%s: column %q of view %q is called %q in the struct\n%s", what, col, v.name, have, text)
					got[i].cols[k] = col
				}
			}
		}
	}
	g, w := make([]string, len(got)), make([]string, len(want))
	for i := range got {
		g[i] = got[i].String()
	}
	for i := range want {
		w[i] = want[i].String()
	}
	if !ordered {
		sort.Strings(g)
		sort.Strings(w)
	}
	if strings.Join(g, "\n") != strings.Join(w, "\n") {
		t.Fail("views", "%s: the structs do not stand for the views:\n%s\n%s", what, diff(w, g), text)
	}
	if b, err := format.Source([]byte(text)); err == nil && string(b) != text {
		t.Fail("format", "%s: the source is not formatted\n%s", what, text)
	}
}

// viewFieldTypes maps column types to fields, per dialect.
func viewFieldTypes(dialect string) map[string]string {
	m := map[string]string{
		"INT": "sq.NumberField", "BIGINT": "sq.NumberField", "SMALLINT": "sq.NumberField", "NUMERIC(10,2)": "sq.NumberField", "REAL": "sq.NumberField",
		"VARCHAR(255)": "sq.StringField", "CHAR(3)": "sq.StringField", "DATE": "sq.TimeField", "TIME": "sq.TimeField",
		"TSVECTOR": "sq.AnyField", "": "sq.AnyField",
	}
	add := func(field string, types ...string) {
		for _, typ := range types {
			m[typ] = "sq." + field
		}
	}
	switch dialect {
	case ddl.DialectSQLite:
		add("NumberField", "INTEGER")
		add("StringField", "TEXT")
		add("BinaryField", "BLOB")
		add("BooleanField", "BOOLEAN")
		add("TimeField", "DATETIME", "TIMESTAMP")
		add("JSONField", "JSON")
		add("UUIDField", "UUID")
	case ddl.DialectPostgres:
		add("NumberField", "DOUBLE PRECISION")
		add("StringField", "TEXT")
		add("BinaryField", "BYTEA")
		add("BooleanField", "BOOLEAN")
		add("TimeField", "TIMESTAMP", "TIMESTAMPTZ")
		add("JSONField", "JSON", "JSONB")
		add("UUIDField", "UUID")
		add("ArrayField", "TEXT[]", "INT[]", "VARCHAR(10)[]")
	case ddl.DialectMySQL:
		add("NumberField", "TINYINT", "MEDIUMINT")
		add("StringField", "TINYTEXT", "TEXT", "MEDIUMTEXT", "LONGTEXT")
		add("BinaryField", "TINYBLOB", "BLOB", "MEDIUMBLOB", "LONGBLOB", "VARBINARY(20)", "BINARY(8)")
		add("BooleanField", "TINYINT(1)", "BOOLEAN")
		add("TimeField", "DATETIME", "TIMESTAMP")
		add("JSONField", "JSON")
		add("UUIDField", "BINARY(16)")
	case ddl.DialectSQLServer:
		add("NumberField", "TINYINT")
		add("StringField", "NVARCHAR(255)", "NVARCHAR(MAX)")
		add("BinaryField", "VARBINARY(MAX)", "BINARY(8)")
		add("BooleanField", "BIT")
		add("TimeField", "DATETIME2", "DATETIMEOFFSET", "DATETIME", "SMALLDATETIME")
		add("UUIDField", "UNIQUEIDENTIFIER", "BINARY(16)")
	}
	return m
}

var viewNames = []string{"v", "order", "my view", "MyView", "My-View", "1st", "a`b", `a"b`, "été", "v_2", "%d", "type", "日本", "a\\b", "_", "it's"}

func runC20(r *core.Runner) {
	runViewCatalogs(r)
	runViewDBs(r)
	runViewFiles(r)
	r.Wait()
}

func runViewCatalogs(r *core.Runner) {
	for _, d := range []string{ddl.DialectSQLite, ddl.DialectPostgres, ddl.DialectMySQL, ddl.DialectSQLServer} {
		types := viewFieldTypes(d)
		current := map[string]string{ddl.DialectPostgres: "public", ddl.DialectMySQL: "db", ddl.DialectSQLServer: "dbo"}[d]
		schemas := []string{""}
		if d != ddl.DialectSQLite {
			schemas = []string{current, "other", "My Schema"}
		}
		one := func(key, schema string, views []ddl.View, want []goView) {
			r.Go(d+": "+key, func(t *core.T) {
				t.Nontrivial()
				t.State(d, key)
				catalog := &ddl.Catalog{Dialect: d, CurrentSchema: current}
				for _, v := range views {
					i := 0
					for ; i < len(catalog.Schemas) && catalog.Schemas[i].SchemaName != v.ViewSchema; i++ {
					}
					if i == len(catalog.Schemas) {
						catalog.Schemas = append(catalog.Schemas, ddl.Schema{SchemaName: v.ViewSchema})
					}
					catalog.Schemas[i].Views = append(catalog.Schemas[i].Views, v)
				}
				var vs ddl.ViewStructs
				if err := vs.ReadCatalog(catalog); err != nil {
					t.Fatal("read", "%s", errStr(err))
				}
				text, err := vs.MarshalText()
				if err != nil {
					t.Fatal("write", "%s", errStr(err))
				}
				t.Step(2)
				src := "package p\n\nimport \"github.com/bokwoon95/sq\"\n\n" + string(text)
				formatted, err := format.Source([]byte(src))
				if err != nil {
					t.Fatal("source", "the source cannot be used: %s\n%s", errStr(err), src)
				}
				checkViews(t, d, string(formatted), want, false)
				t.Trace(1)
				t.Sample(map[string]any{"dialect": d, "case": key, "source": string(text)})
			})
		}
		tagSchema := func(schema string, name string) string {
			// The schema may be left out when it is the current one.
			if schema == current && plainName(name) {
				return ""
			}
			return schema
		}
		// 1. Every name in every schema, every column name.
		for _, schema := range schemas {
			for _, name := range viewNames {
				for _, col := range viewNames {
					view := ddl.View{ViewSchema: schema, ViewName: name, Columns: []string{"id", col, "z"}, ColumnTypes: []string{"INT", "VARCHAR(255)", ""}}
					one(fmt.Sprintf("%q.%q column %q", schema, name, col), schema, []ddl.View{view},
						[]goView{{tagSchema(schema, name), name, view.Columns, []string{"sq.NumberField", "sq.StringField", "sq.AnyField"}}})
				}
			}
		}
		// 2. Every type, at every position, also as an enum.
		for _, typ := range sortedKeys(types) {
			for pos := 0; pos < 3; pos++ {
				for _, enum := range []bool{false, true} {
					cols, ct, ft := []string{"a", "b", "c"}, []string{"INT", "INT", "INT"}, []string{"sq.NumberField", "sq.NumberField", "sq.NumberField"}
					ct[pos], ft[pos] = typ, types[typ]
					view := ddl.View{ViewSchema: current, ViewName: "v", Columns: cols, ColumnTypes: ct}
					if enum {
						view.EnumColumns = []string{cols[pos]}
						ft[pos] = "sq.EnumField"
					}
					one(fmt.Sprintf("type %q at %d enum=%v", typ, pos, enum), current, []ddl.View{view}, []goView{{"", "v", cols, ft}})
				}
			}
		}
		// 3. Every pair of names in every pair of schemas.
		for _, s1 := range schemas {
			for _, s2 := range schemas {
				for i, a := range viewNames {
					for _, b := range viewNames[i+1:] {
						if goIdent(a) == goIdent(b) {
							continue
						}
						mk := func(s, n string) (ddl.View, goView) {
							return ddl.View{ViewSchema: s, ViewName: n, Columns: []string{"x"}, ColumnTypes: []string{"INT"}},
								goView{tagSchema(s, n), n, []string{"x"}, []string{"sq.NumberField"}}
						}
						v1, w1 := mk(s1, a)
						v2, w2 := mk(s2, b)
						one(fmt.Sprintf("%q.%q and %q.%q", s1, a, s2, b), "", []ddl.View{v1, v2}, []goView{w1, w2})
					}
				}
			}
		}
	}
}

// plainName reports whether lowercasing the Go name gives the name back.
func plainName(name string) bool {
	for i, c := range name {
		if !(c == '_' || c >= 'a' && c <= 'z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

// goIdent is what a name and its like may become in Go.
func goIdent(name string) string {
	s := strings.Map(func(c rune) rune {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c > 127 {
			return c
		}
		return '_'
	}, strings.ToUpper(name))
	if s != "" && s[0] >= '0' && s[0] <= '9' {
		s = "_" + s
	}
	return s
}

type dbView struct {
	name  string
	cols  []string // column names
	types []string // declared types
}

// runViewDBs reads views of SQLite databases with every filter.
func runViewDBs(r *core.Runner) {
	types := viewFieldTypes(ddl.DialectSQLite)
	keys := sortedKeys(types)
	build := func(names []string) (string, []dbView) {
		var script strings.Builder
		script.WriteString("CREATE TABLE base (")
		for i, typ := range keys {
			if i > 0 {
				script.WriteString(", ")
			}
			fmt.Fprintf(&script, "c%d %s", i, typ)
		}
		script.WriteString(");\n")
		var views []dbView
		for i, n := range names {
			v := dbView{name: n}
			var exprs []string
			for k := 0; k < 3; k++ {
				at := (i*3 + k) % len(keys)
				col := viewNames[(i+k*5)%len(viewNames)]
				exprs = append(exprs, fmt.Sprintf("c%d AS %s", at, qid(col)))
				v.cols = append(v.cols, col)
				v.types = append(v.types, keys[at])
			}
			fmt.Fprintf(&script, "CREATE VIEW %s AS SELECT %s FROM base;\n", qid(n), strings.Join(exprs, ", "))
			views = append(views, v)
		}
		return script.String(), views
	}
	expect := func(views []dbView, include, exclude []string) []goView {
		var want []goView
		for _, v := range views {
			if len(include) > 0 && !has(include, v.name) || has(exclude, v.name) {
				continue
			}
			g := goView{name: v.name, cols: v.cols}
			for _, typ := range v.types {
				g.types = append(g.types, types[typ])
			}
			want = append(want, g)
		}
		return want
	}
	one := func(key string, names, include, exclude []string) {
		r.Go("db: "+key, func(t *core.T) {
			script, views := build(names)
			srv := faultdb.New("")
			defer srv.Close()
			srv.MustExec(script)
			before := sqliteDump(srv)
			want := expect(views, include, exclude)
			if len(want) > 0 {
				t.Nontrivial()
			}
			t.State(key)
			db := srv.DB()
			defer db.Close()
			var texts []string
			for i := 0; i < 2; i++ {
				var out bytes.Buffer
				cmd := &ddl.ViewsCmd{DB: db, Dialect: ddl.DialectSQLite, Stdout: &out, Views: include, ExcludeViews: exclude}
				if err := cmd.Run(); err != nil {
					t.Fatal("run", "views: %s", errStr(err))
				}
				t.Step(1)
				texts = append(texts, out.String())
			}
			if texts[0] != texts[1] {
				t.Fail("repeat", "views prints something else the second time:\n%s\n%s", texts[0], texts[1])
			}
			checkViews(t, "views", texts[0], want, false)
			if sqliteDump(srv) != before {
				t.Fail("writes", "views changed the database")
			}
			t.Trace(1)
		})
	}
	// Every single view, every pair, everything at once with every filter of up to two names.
	for _, n := range viewNames {
		one(fmt.Sprintf("view %q", n), []string{n}, nil, nil)
	}
	for i, a := range viewNames {
		for _, b := range viewNames[i+1:] {
			if goIdent(a) != goIdent(b) {
				one(fmt.Sprintf("views %q and %q", a, b), []string{a, b}, nil, nil)
			}
		}
	}
	var all []string
	idents := map[string]bool{}
	for _, n := range viewNames {
		if !idents[goIdent(n)] {
			idents[goIdent(n)] = true
			all = append(all, n)
		}
	}
	one("no view", nil, nil, nil)
	one("all", all, nil, nil)
	for i, a := range all {
		one(fmt.Sprintf("all, only %q", a), all, []string{a}, nil)
		one(fmt.Sprintf("all, not %q", a), all, nil, []string{a})
		for _, b := range all[i+1:] {
			one(fmt.Sprintf("all, only %q %q", a, b), all, []string{a, b}, nil)
			one(fmt.Sprintf("all, not %q %q", a, b), all, nil, []string{a, b})
		}
	}
}

// runViewFiles writes to files: the package name, and what was there before.
func runViewFiles(r *core.Runner) {
	for _, pkg := range []string{"", "_", "mypkg"} {
		for _, file := range []string{"", "v.go", "some/dir/v.go", "some dir/v.go"} {
			for _, old := range []string{"", "short", "existing"} {
				for _, nviews := range []int{0, 1} {
					if file == "" && old != "" {
						continue
					}
					r.Go(fmt.Sprintf("file: package %q file %q before %q views %d", pkg, file, old, nviews), func(t *core.T) {
						dir := scratchDir()
						defer os.RemoveAll(dir)
						srv := faultdb.New("")
						defer srv.Close()
						srv.MustExec("CREATE TABLE base (a INT, b TEXT)")
						var want []goView
						if nviews > 0 {
							t.Nontrivial()
							srv.MustExec("CREATE VIEW v AS SELECT a, b FROM base")
							want = []goView{{"", "v", []string{"a", "b"}, []string{"sq.NumberField", "sq.StringField"}}}
						}
						db := srv.DB()
						defer db.Close()
						var out bytes.Buffer
						cmd := &ddl.ViewsCmd{DB: db, Dialect: ddl.DialectSQLite, Stdout: &out, PackageName: pkg}
						path := filepath.Join(dir, file)
						if file != "" {
							cmd.Filename = path
						}
						content := map[string]string{"short": "x", "existing": strings.Repeat("// old contents\n", 100)}[old]
						if old != "" || pkg != "" {
							os.MkdirAll(filepath.Dir(path), 0755)
						}
						if old != "" {
							if err := os.WriteFile(path, []byte(content), 0644); err != nil {
								core.Broken("%v", err)
							}
						}
						err := cmd.Run()
						t.Step(1)
						t.State(t.Key, errStr(err))
						if err != nil {
							t.Fatal("run", "views: %s", errStr(err))
						}
						text := out.String()
						if file != "" {
							if text != "" {
								t.Fail("stdout", "prints although a file was named: %s", text)
							}
							b, err := os.ReadFile(path)
							if err != nil && nviews > 0 {
								t.Fatal("file", "%s", errStr(err))
							}
							text = string(b)
						}
						if nviews == 0 {
							if file != "" && text != content {
								t.Fail("file", "no view, but the file changed:\n%s", text)
							}
							return
						}
						checkViews(t, "views", text, want, true)
						got, _, err := readViews(text)
						if err != nil {
							return
						}
						wantPkg := pkg
						if wantPkg == "" {
							wantPkg = map[string]string{"": "_", "v.go": "?", "some/dir/v.go": "dir", "some dir/v.go": "some_dir"}[file]
						}
						if wantPkg != "?" && got != wantPkg {
							t.Fail("package", "package %s, expected %s", got, wantPkg)
						}
						t.Trace(1)
					})
				}
			}
		}
	}
}
